R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
r("a-write-buf",("account.go","""	for _, line := range lines {
		_, err := io.WriteString(w, line)
		if err != nil {
			return err
		}
	}

	return nil
}

var accountNameREX""","""	return writeStrings(w, nil, lines...)
}

var accountNameREX"""))
r("a-name-split",("account.go","""	i := strings.LastIndex(name, ":")
	if i < 0 {
		return "", name
	}
	return name[:i], name[i+1:]
""","""	if i := strings.LastIndexByte(name, ':'); i >= 0 {
		return name[:i], name[i+1:]
	}
	return "", name
"""))
r("a-closed-iter",("account.go","""	if a == nil {
		return false
	}
	return a.Parent.IsClosed() || !a.Closed.IsZero()
""","""	for ; a != nil; a = a.Parent {
		if !a.Closed.IsZero() {
			return true
		}
	}
	return false
"""))
r("a-closed-swap",("account.go","""	if a == nil {
		return false
	}
	return a.Parent.IsClosed() || !a.Closed.IsZero()
""","""	return a != nil && (!a.Closed.IsZero() || a.Parent.IsClosed())
"""))
r("a-depth-swap",("account.go","""	if a.Parent == nil || a.Parent == Root {
		return 1
	}
	return a.Parent.Depth() + 1
""","""	if p := a.Parent; p != nil && p != Root {
		return 1 + p.Depth()
	}
	return 1
"""))
r("a-find-for",("account.go","""	for pi := a.Postings[i]; pi.Transaction.Posted.Equal(p.Transaction.Posted); {
		if pi == p {
			return i, true
		}
		i++
		if i >= len(a.Postings) {
			return i, false
		}
		pi = a.Postings[i]
	}
""","""	for ; i < len(a.Postings); i++ {
		pi := a.Postings[i]
		if !pi.Transaction.Posted.Equal(p.Transaction.Posted) {
			break
		}
		if pi == p {
			return i, true
		}
	}
"""))
r("a-find-local",("account.go","""	i, found = sort.Find(len(a.Postings), func(i int) int {
		return p.Transaction.Posted.Compare(a.Postings[i].Transaction.Posted)
	})
""","""	day := p.Transaction.Posted
	i, found = sort.Find(len(a.Postings), func(k int) int {
		other := a.Postings[k].Transaction
		return day.Compare(other.Posted)
	})
"""))
r("a-shorten-range",("account.go","""	for i := 0; over > 0 && i < len(parts); i++ {
		l := len(parts[i])
		if l == 0 {
			continue
		}
		drop := min(over, l-1)
		parts[i] = parts[i][:l-drop]
		over -= drop
	}
""","""	for i, part := range parts {
		if over <= 0 {
			break
		}
		if part == "" {
			continue
		}
		drop := min(over, len(part)-1)
		parts[i] = part[:len(part)-drop]
		over -= drop
	}
"""))
r("a-min-builtin",("account.go","""func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

""",""))
r("a-json-set",("account.go","""	if a.Location() != "" {
		value["location"] = a.Location()
	}
	if !a.Closed.IsZero() {
		value["closed"] = a.Closed.Format(DateFormat)
	}
	if a.Code != "" {
		value["code"] = a.Code
	}
	if a.Parent""","""	set := func(key, text string) {
		if text != "" {
			value[key] = text
		}
	}
	set("location", a.Location())
	if !a.Closed.IsZero() {
		value["closed"] = a.Closed.Format(DateFormat)
	}
	set("code", a.Code)
	if a.Parent"""))
r("a-json-assign",("account.go","""	value := map[string]interface{}{
		"name":      a.Name,
		"fullName":  a.FullName,
		"commodity": a.Commodity.Id,
	}
	if a.Location() != "" {
		value["location"] = a.Location()
	}
""","""	value := make(map[string]any)
	value["name"] = a.Name
	value["fullName"] = a.FullName
	value["commodity"] = a.Commodity.Id
	if loc := a.Location(); len(loc) > 0 {
		value["location"] = loc
	}
"""))
r("a-sort-slices",("account.go","""	sort.SliceStable(a.Postings, func(i, j int) bool {
		return a.Postings[i].Transaction.Posted.Before(a.Postings[j].Transaction.Posted)
	})
""","""	slices.SortStableFunc(a.Postings, func(x, y *Posting) int {
		return x.Transaction.Posted.Compare(y.Transaction.Posted)
	})
"""),("account.go",'''	"io"
''','''	"io"
	"slices"
'''))
r("a-check-bal",("account.go","""	if len(a.Postings) == 0 {
		return
	}
	for _, s := range a.Postings {
		err := a.Balance().AddIn(s.Quantity)
		check.NoError(err, "couldn't add %a %s to balance %a %s: %s\\n",
			s.Quantity, s.Quantity.Commodity, a.Balance(), a.Balance().Commodity, s.Transaction.Location())
		if s.Balance != nil {
			warn.If(!a.Balance().IsEqual(s.Balance),
				"%s: %s balance is %a, should be %a: %s\\n",
				a.FullName,
				s.Transaction.Posted.Format(DateFormat),
				a.Balance(),
				s.Balance,
				s.Transaction.Location(),
			)
		} else {
			s.Balance = a.Balance().Copy()
		}
	}
""","""	for _, s := range a.Postings {
		balance := a.Balance()
		err := balance.AddIn(s.Quantity)
		check.NoError(err, "couldn't add %a %s to balance %a %s: %s\\n",
			s.Quantity, s.Quantity.Commodity, balance, balance.Commodity, s.Transaction.Location())
		if s.Balance == nil {
			s.Balance = balance.Copy()
			continue
		}
		warn.If(!balance.IsEqual(s.Balance),
			"%s: %s balance is %a, should be %a: %s\\n",
			a.FullName,
			s.Transaction.Posted.Format(DateFormat),
			balance,
			s.Balance,
			s.Transaction.Location(),
		)
	}
"""))
r("a-check-one",("account.go","""	for _, s := range a.Postings {
		err := a.Balance().AddIn(s.Quantity)
		check.NoError(err, "couldn't add %a %s to balance %a %s: %s\\n",
			s.Quantity, s.Quantity.Commodity, a.Balance(), a.Balance().Commodity, s.Transaction.Location())
		if s.Balance != nil {
			warn.If(!a.Balance().IsEqual(s.Balance),
				"%s: %s balance is %a, should be %a: %s\\n",
				a.FullName,
				s.Transaction.Posted.Format(DateFormat),
				a.Balance(),
				s.Balance,
				s.Transaction.Location(),
			)
		} else {
			s.Balance = a.Balance().Copy()
		}
	}
}
""","""	for _, s := range a.Postings {
		a.checkPosting(s)
	}
}

// checkPosting adds the posting to the balance and checks or fills in its balance.
func (a *Account) checkPosting(s *Posting) {
	where := s.Transaction.Location()
	err := a.Balance().AddIn(s.Quantity)
	check.NoError(err, "couldn't add %a %s to balance %a %s: %s\\n",
		s.Quantity, s.Quantity.Commodity, a.Balance(), a.Balance().Commodity, where)
	if s.Balance == nil {
		s.Balance = a.Balance().Copy()
		return
	}
	ok := a.Balance().IsEqual(s.Balance)
	warn.If(!ok, "%s: %s balance is %a, should be %a: %s\\n",
		a.FullName, s.Transaction.Posted.Format(DateFormat), a.Balance(), s.Balance, where)
}
"""))
r("a-adopt-two",("account.go","""	isChild := false
	c.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == a)
	})
	if isChild {
		fmt.Printf("%#v\\n", c)
		panic(fmt.Errorf("%s is child of %s", a.FullName, c.FullName))
	}
	a.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == c)
	})
	if isChild {
""","""	if c.has(a) {
		fmt.Printf("%#v\\n", c)
		panic(fmt.Errorf("%s is child of %s", a.FullName, c.FullName))
	}
	if a.has(c) {
"""),("account.go","""func (a *Account) sortPostings""","""// has reports whether x is in the subtree of a.
func (a *Account) has(x *Account) bool {
	found := false
	a.WithChildrenDo(func(d *Account) {
		if d == x {
			found = true
		}
	})
	return found
}

func (a *Account) sortPostings"""))
r("a-adopt-rec",("account.go","""	isChild := false
	c.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == a)
	})
	if isChild {
		fmt.Printf("%#v\\n", c)
		panic(fmt.Errorf("%s is child of %s", a.FullName, c.FullName))
	}
	a.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == c)
	})
	if isChild {
""","""	if c.has(a) {
		fmt.Printf("%#v\\n", c)
		panic(fmt.Errorf("%s is child of %s", a.FullName, c.FullName))
	}
	if a.has(c) {
"""),("account.go","""func (a *Account) sortPostings""","""// has reports whether x is in the subtree of a.
func (a *Account) has(x *Account) bool {
	if a == x {
		return true
	}
	for _, c := range a.Children {
		if c.has(x) {
			return true
		}
	}
	return false
}

func (a *Account) sortPostings"""))
r("a-add-slices",("account.go","""	var newPostings []*Posting
	if cap(a.Postings) > len(a.Postings) {
		a.Postings = a.Postings[:len(a.Postings)+1]
		newPostings = a.Postings
	} else {
		newPostings = make([]*Posting, len(a.Postings)+1)
		copy(newPostings, a.Postings[:i])
	}
	copy(newPostings[i+1:], a.Postings[i:])
	newPostings[i] = p
	a.Postings = newPostings
	return p
""","""	a.Postings = slices.Insert(a.Postings, i, p)
	return p
"""),("account.go",'''	"io"
''','''	"io"
	"slices"
'''))
r("a-add-append",("account.go","""	var newPostings []*Posting
	if cap(a.Postings) > len(a.Postings) {
		a.Postings = a.Postings[:len(a.Postings)+1]
		newPostings = a.Postings
	} else {
		newPostings = make([]*Posting, len(a.Postings)+1)
		copy(newPostings, a.Postings[:i])
	}
	copy(newPostings[i+1:], a.Postings[i:])
	newPostings[i] = p
	a.Postings = newPostings
	return p
""","""	a.Postings = append(a.Postings, nil)
	copy(a.Postings[i+1:], a.Postings[i:])
	a.Postings[i] = p
	return p
"""))
r("a-del-slices",("account.go","""	copy(a.Postings[i:], a.Postings[i+1:])
	a.Postings = a.Postings[:len(a.Postings)-1]
	return p
""","""	a.Postings = slices.Delete(a.Postings, i, i+1)
	return p
"""),("account.go",'''	"io"
''','''	"io"
	"slices"
'''))
r("c-load-for",("coin.go","""	for {
		i, err := p.Next(fn)
		check.NoError(err, "Parsing error")
		if i == nil {
			return
		}
		switch i := i.(type) {
""","""	next := func() Item {
		i, err := p.Next(fn)
		check.NoError(err, "Parsing error")
		return i
	}
	for i := next(); i != nil; i = next() {
		switch i := i.(type) {
"""))
r("c-loadall-helper",("coin.go","""	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
		files, err := filepath.Glob(filepath.Join(DB, "*.coin"))
		check.NoError(err, "Failed to list transaction files")
		for _, f := range files {
			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
				LoadFile(f)
			}
		}
	} else {
		LoadFile(TransactionsFile)
	}
	ResolveAll()
}
""","""	if missing(TransactionsFile) {
		files, err := filepath.Glob(filepath.Join(DB, "*"+CoinExtension))
		check.NoError(err, "Failed to list transaction files")
		for _, f := range files {
			switch f {
			case CommoditiesFile, AccountsFile, PricesFile:
				continue
			}
			LoadFile(f)
		}
	} else {
		LoadFile(TransactionsFile)
	}
	ResolveAll()
}

func missing(fn string) bool {
	_, err := os.Stat(fn)
	return os.IsNotExist(err)
}
"""))
r("c-prices-else",("coin.go","""	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {
		files, err := filepath.Glob(filepath.Join(DB, "*.prices"))
		check.NoError(err, "Failed to list price files")
		for _, f := range files {
			LoadFile(f)
		}
	} else {
		LoadFile(PricesFile)
	}
}
""","""	_, err := os.Stat(PricesFile)
	if !os.IsNotExist(err) {
		LoadFile(PricesFile)
		return
	}
	files, err := filepath.Glob(filepath.Join(DB, "*"+PricesExtension))
	check.NoError(err, "Failed to list price files")
	for i := range files {
		LoadFile(files[i])
	}
}
"""))
r("c-find-hasall",("coin.go","""	parent := as[0].FullName + ":"
	all := true
	for _, a := range as[1:] {
		if all = all && strings.HasPrefix(a.FullName, parent); !all {
			break
		}
	}
	if all {
		return as[0]
	}
	msg := fmt""","""	if allUnder(as[0].FullName+":", as[1:]) {
		return as[0]
	}
	msg := fmt"""),("coin.go","""func FindAccountOfxId""","""func allUnder(prefix string, as []*Account) bool {
	for _, a := range as {
		if !strings.HasPrefix(a.FullName, prefix) {
			return false
		}
	}
	return true
}

func FindAccountOfxId"""))
r("c-find-switch",("coin.go","""	as := FindAccounts(pattern)
	if len(as) == 0 {
		panic(fmt.Errorf("cannot find account %s", pattern))
	}
	if len(as) == 1 {
		return as[0]
	}
""","""	as := FindAccounts(pattern)
	switch len(as) {
	case 0:
		panic(fmt.Errorf("cannot find account %s", pattern))
	case 1:
		return as[0]
	}
"""))
r("c-find-ok",("coin.go","""	if a := AccountsByName[pattern]; a != nil {
		return a
	}
	as :=""","""	if a, ok := AccountsByName[pattern]; ok {
		return a
	}
	as :="""))
r("c-msg-join",("coin.go","""	msg := fmt.Sprintf("Found %d accounts matching %s", len(as), pattern)
	for _, a := range as {
		msg += "\\n" + a.FullName
	}
	panic(msg)
""","""	lines := []string{fmt.Sprintf("Found %d accounts matching %s", len(as), pattern)}
	for _, a := range as {
		lines = append(lines, a.FullName)
	}
	panic(strings.Join(lines, "\\n"))
"""))
r("c-rex-flat",("coin.go","""	rx := `(?i)` + words[0]
	if len(words) > 1 {
		wordLast := true
		for _, w := range words[1:] {
			if w == "" {
				if wordLast {
					rx += multiple
				}
				wordLast = false
			} else {
				if wordLast {
					rx += single
				}
				rx += w
				wordLast = true
			}
		}
	}
	return""","""	rx := `(?i)` + words[0]
	wordLast := true
	for _, w := range words[1:] {
		if wordLast {
			if w == "" {
				rx += multiple
			} else {
				rx += single
			}
		}
		rx += w
		wordLast = w != ""
	}
	return"""))
r("c-accts-each",("coin.go","""	var names []string
	for n := range AccountsByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(AccountsByName[n])
	}
}""","""	names := make([]string, 0, len(AccountsByName))
	for n := range AccountsByName {
		names = append(names, n)
	}
	slices.Sort(names)
	for _, n := range names {
		f(AccountsByName[n])
	}
}"""),("coin.go",'''	"regexp"
''','''	"regexp"
	"slices"
'''))
r("c-accts-sorted",("coin.go","""	var names []string
	for n := range AccountsByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(AccountsByName[n])
	}
}""","""	for _, n := range slices.Sorted(maps.Keys(AccountsByName)) {
		f(AccountsByName[n])
	}
}"""),("coin.go",'''	"regexp"
''','''	"regexp"
	"maps"
	"slices"
'''))
r("c-prices-sort",("coin.go","""	for _, c := range Commodities {
		for _, p := range c.Prices {
			sort.Slice(p, func(i, j int) bool {
				return p[i].Time.After(p[j].Time)
			})
		}
	}
""","""	latestFirst := func(ps []*Price) {
		sort.Slice(ps, func(i, j int) bool { return ps[j].Time.Before(ps[i].Time) })
	}
	for _, c := range Commodities {
		for cur := range c.Prices {
			latestFirst(c.Prices[cur])
		}
	}
"""))
r("c-resolve-root",("coin.go","""	if Root == nil {
		Root = AccountsByName["Root"]
		if Root == nil {
			Root = accountFromName("Root")
			AccountsByName["Root"] = Root
		}
	}
	if Unbalanced == nil {
		Unbalanced = accountFromName("Unbalanced")
		AccountsByName["Unbalanced"] = Unbalanced
	}
""","""	if Root == nil {
		if a, ok := AccountsByName["Root"]; ok {
			Root = a
		} else {
			Root = addAccount("Root")
		}
	}
	if Unbalanced == nil {
		Unbalanced = addAccount("Unbalanced")
	}
"""),("coin.go","""func ResolveTransactions(""","""func addAccount(name string) *Account {
	a := accountFromName(name)
	AccountsByName[name] = a
	return a
}

func ResolveTransactions("""))
r("c-parents-for",("coin.go","""		fn := a.FullName
		for {
			fn, _ = parentAndName(fn)
			if fn == "" {
				break
			}
			if AccountsByName[fn] == nil {
				AccountsByName[fn] = accountFromName(fn)
			}
		}
""","""		for fn, _ := parentAndName(a.FullName); fn != ""; fn, _ = parentAndName(fn) {
			if _, ok := AccountsByName[fn]; !ok {
				AccountsByName[fn] = accountFromName(fn)
			}
		}
"""))
r("c-link",("coin.go","""		pName := a.ParentName()
		if pName == "" {
			Root.adopt(a)
			continue
		}
		p := AccountsByName[pName]
		check.If(p != nil, "Missing account %s (%s)\\n", pName, a.Location())
		p.adopt(a)
""","""		parent := Root
		if pName := a.ParentName(); pName != "" {
			parent = AccountsByName[pName]
			check.If(parent != nil, "Missing account %s (%s)\\n", pName, a.Location())
		}
		parent.adopt(a)
"""))
r("c-ischild",("coin.go","""	isChild := func(p, c *Account) bool {
		for _, a := range p.Children {
			if a == c {
				return true
			}
		}
		return false
	}
""","""	isChild := func(p, c *Account) bool { return slices.Contains(p.Children, c) }
"""),("coin.go",'''	"regexp"
''','''	"regexp"
	"slices"
'''))
r("c-tx-mixed",("coin.go","""		if len(commodities) > 1 {
			// Postings with different commodities, make sure amounts are set
			for _, s := range t.Postings {
				check.If(s.Quantity != nil, "Posting without quantity in mixed transaction: %s", t.Location())
			}
			continue
		}
		// All postings with the same commodity make sure transaction is balanced
		var empty *Posting
		var total = NewZeroAmount(commodity)
		for _, s := range t.Postings {
			if s.Quantity == nil {
				check.If(empty == nil, "Multiple postings without quantity: %s", t.Location())
				empty = s
			} else {
				err := total.AddIn(s.Quantity)
				check.NoError(err, "cannot compute transaction total: %s", t.Location())
			}
		}
		if empty == nil {
			check.If(total.IsZero(), "Transaction is not balanced %f: %s", total, t.Location())
		} else {
			empty.Quantity = total.Negated()
		}
	}
""","""		if len(commodities) > 1 {
			t.checkMixed()
		} else {
			t.checkBalanced(commodity)
		}
	}
"""),("coin.go","""func ResolveTransactions(""","""// Postings with different commodities, make sure amounts are set
func (t *Transaction) checkMixed() {
	for _, s := range t.Postings {
		check.If(s.Quantity != nil, "Posting without quantity in mixed transaction: %s", t.Location())
	}
}

// All postings with the same commodity make sure transaction is balanced
func (t *Transaction) checkBalanced(commodity *Commodity) {
	var empty *Posting
	total := NewZeroAmount(commodity)
	for _, s := range t.Postings {
		if s.Quantity != nil {
			err := total.AddIn(s.Quantity)
			check.NoError(err, "cannot compute transaction total: %s", t.Location())
			continue
		}
		check.If(empty == nil, "Multiple postings without quantity: %s", t.Location())
		empty = s
	}
	if empty != nil {
		empty.Quantity = total.Negated()
		return
	}
	check.If(total.IsZero(), "Transaction is not balanced %f: %s", total, t.Location())
}

func ResolveTransactions("""))
r("m-frac",("amount.go","""	b := new(big.Int).Set(num)
	if c.Decimals > 0 {
		b.Mul(b, bigPow10(c.Decimals))
	}
	b.Quo(b, den)
	return NewAmount(b, c)
""","""	scaled := num
	if c.Decimals > 0 {
		scaled = new(big.Int).Mul(num, bigPow10(c.Decimals))
	}
	return NewAmount(new(big.Int).Quo(scaled, den), c)
"""))
r("m-rat",("amount.go","""	val := new(big.Rat)
	val.SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
	return val.FloatString(a.Commodity.Decimals)
}
""","""	return a.rat().FloatString(a.Commodity.Decimals)
}

func (a *Amount) rat() *big.Rat {
	return new(big.Rat).SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
}
"""),("amount.go","""	val := new(big.Rat)
	val.SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
	str := val.FloatString(p)
""","""	str := a.rat().FloatString(p)
"""))
r("m-format",("amount.go","""	format := "%"
	if f.Flag('-') {
		format += "-"
	}
	if w, ok := f.Width(); ok {
		fmt.Fprintf(f, format+"*s", w, str)
	} else {
		fmt.Fprintf(f, format+"s", str)
	}
""","""	w, ok := f.Width()
	switch {
	case !ok:
		io.WriteString(f, str)
	case f.Flag('-'):
		fmt.Fprintf(f, "%-*s", w, str)
	default:
		fmt.Fprintf(f, "%*s", w, str)
	}
"""))
r("m-parse-cut",("amount.go","""	ss := strings.Split(s, ".")
	if len(ss) == 1 {
		i, err := strconv.ParseInt(ss[0], 10, 64)
		if err != nil {
			return nil, err
		}
		bi := big.NewInt(i)
		if c.Decimals > 0 {
			bi.Mul(bi, bigPow10(c.Decimals))
		}
		return NewAmount(bi, c), nil
	}
	if len(ss) != 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
	s = strings.Join(ss, "")
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return nil, err
	}
	bi := big.NewInt(i)
	decimals := len(ss[1])
	if c.Decimals != decimals {
""","""	ss := strings.Split(s, ".")
	if len(ss) > 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
	i, err := strconv.ParseInt(strings.Join(ss, ""), 10, 64)
	if err != nil {
		return nil, err
	}
	bi := big.NewInt(i)
	if len(ss) == 1 {
		if c.Decimals > 0 {
			bi.Mul(bi, bigPow10(c.Decimals))
		}
		return NewAmount(bi, c), nil
	}
	decimals := len(ss[1])
	if c.Decimals != decimals {
"""))
r("m-adj",("amount.go","""	c := new(big.Int).Set(b.Int)
	if b.Decimals < a.Decimals {
		c.Mul(c, bigPow10(a.Decimals-b.Decimals))
	} else if a.Decimals < b.Decimals {
		c.Quo(c, bigPow10(b.Decimals-a.Decimals))
	}
	return c
""","""	if b.Decimals < a.Decimals {
		return new(big.Int).Mul(b.Int, bigPow10(a.Decimals-b.Decimals))
	}
	if b.Decimals > a.Decimals {
		return new(big.Int).Quo(b.Int, bigPow10(b.Decimals-a.Decimals))
	}
	return new(big.Int).Set(b.Int)
"""))
r("m-addin",("amount.go","""	if a.Commodity != b.Commodity {
		b, err = a.Commodity.Convert(b, b.Commodity)
		if err != nil {
			return err
		}
	}
	a.Add(a.Int, b.adjustedTo(a))
	return nil
""","""	converted := b
	if a.Commodity != b.Commodity {
		if converted, err = a.Commodity.Convert(b, b.Commodity); err != nil {
			return err
		}
	}
	delta := converted.adjustedTo(a)
	a.Int.Add(a.Int, delta)
	return nil
"""))
r("m-times",("amount.go","""	c := new(big.Int).Mul(a.Int, b.Int)
	return &Amount{
		c.Quo(c, bigPow10(b.Decimals)),
		a.Commodity,
	}
""","""	product := new(big.Int).Mul(a.Int, b.Int)
	product.Quo(product, bigPow10(b.Decimals))
	return NewAmount(product, a.Commodity)
"""))
r("m-cmp",("amount.go","""func (a *Amount) IsEqual(b *Amount) bool    { return a.Cmp(b) == 0 }
func (a *Amount) IsLessThan(b *Amount) bool { return a.Cmp(b) < 0 }
""","""func (a *Amount) IsEqual(b *Amount) bool    { return !(a.Cmp(b) != 0) }
func (a *Amount) IsLessThan(b *Amount) bool { return a.Cmp(b) == -1 }
"""))
r("m-width",("amount.go","""	w := bigLog10(a.Int) + 1
	if w <= a.Decimals {
		w = a.Decimals + 1
	}
	w = w - a.Decimals + decimals
	if decimals > 0 {
		w++ // decimal point
	}
	if a.Int.Sign() < 0 {
		w++ // minus sign
	}
	return w
""","""	whole := bigLog10(a.Int) + 1 - a.Decimals
	if whole < 1 {
		whole = 1
	}
	w := whole + decimals
	if a.Int.Sign() < 0 {
		w++ // minus sign
	}
	if decimals > 0 {
		w++ // decimal point
	}
	return w
"""))
r("m-width-max",("amount.go","""	w := bigLog10(a.Int) + 1
	if w <= a.Decimals {
		w = a.Decimals + 1
	}
	w = w - a.Decimals + decimals
""","""	w := max(bigLog10(a.Int), a.Decimals) + 1
	w += decimals - a.Decimals
"""))
