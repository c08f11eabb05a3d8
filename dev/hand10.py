R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
A="account.go"; M="amount.go"; K="commodity.go"; C="coin.go"; I="include.go"; P="price.go"
r("a-write-helper",(A,'''	if a.OFXBankId != "" && !ledger {
		lines = append(lines, `  ofx_bankid `, a.OFXBankId, "\\n")
	}
	if a.OFXAcctId != "" && !ledger {
		lines = append(lines, `  ofx_acctid `, a.OFXAcctId, "\\n")
	}
	if a.CSVAcctId != "" && !ledger {
		lines = append(lines, `  csv_acctid `, a.CSVAcctId, "\\n")
	}
''','''	if !ledger {
		add := func(key, value string) {
			if value != "" {
				lines = append(lines, "  "+key+" ", value, "\\n")
			}
		}
		add("ofx_bankid", a.OFXBankId)
		add("ofx_acctid", a.OFXAcctId)
		add("csv_acctid", a.CSVAcctId)
	}
'''))
r("a-write-loop",(A,'''	if a.OFXBankId != "" && !ledger {
		lines = append(lines, `  ofx_bankid `, a.OFXBankId, "\\n")
	}
	if a.OFXAcctId != "" && !ledger {
		lines = append(lines, `  ofx_acctid `, a.OFXAcctId, "\\n")
	}
	if a.CSVAcctId != "" && !ledger {
		lines = append(lines, `  csv_acctid `, a.CSVAcctId, "\\n")
	}
''','''	if !ledger {
		for _, kv := range [][2]string{
			{"ofx_bankid", a.OFXBankId},
			{"ofx_acctid", a.OFXAcctId},
			{"csv_acctid", a.CSVAcctId},
		} {
			if kv[1] != "" {
				lines = append(lines, "  ", kv[0], " ", kv[1], "\\n")
			}
		}
	}
'''))
r("a-write-writeall",(A,'''	for _, line := range lines {
		_, err := io.WriteString(w, line)
		if err != nil {
			return err
		}
	}

	return nil
}
''','''	return writeAll(w, lines)
}

func writeAll(w io.Writer, lines []string) error {
	for i := range lines {
		if _, err := io.WriteString(w, lines[i]); err != nil {
			return err
		}
	}
	return nil
}
'''),(K,'''	for _, line := range lines {
		_, err := io.WriteString(w, line)
		if err != nil {
			return err
		}
	}
	return nil
''','''	return writeAll(w, lines)
'''))
r("a-parent-cut",(A,'''	i := strings.LastIndex(name, ":")
	if i < 0 {
		return "", name
	}
	return name[:i], name[i+1:]
''','''	if i := strings.LastIndexByte(name, ':'); i >= 0 {
		return name[:i], name[i+1:]
	}
	return "", name
'''))
r("a-parse-switch",(A,'''		if n := match["note"]; n != "" {
			a.Description = n
		} else if c := match["commodity"]; c != "" {
			a.CommodityId = c
		} else if d := match["date"]; d != "" {
			a.Closed = mustParseDate(match, 0)
		} else if i := match["ofx_bankid"]; i != "" {
			a.OFXBankId = i
		} else if i := match["ofx_acctid"]; i != "" {
			a.OFXAcctId = i
		} else if i := match["csv_acctid"]; i != "" {
			a.CSVAcctId = i
		}
''','''		a.setField(match)
'''),(A,'''func (a *Account) String() string {''','''func (a *Account) setField(match map[string]string) {
	switch {
	case match["note"] != "":
		a.Description = match["note"]
	case match["commodity"] != "":
		a.CommodityId = match["commodity"]
	case match["date"] != "":
		a.Closed = mustParseDate(match, 0)
	case match["ofx_bankid"] != "":
		a.OFXBankId = match["ofx_bankid"]
	case match["ofx_acctid"] != "":
		a.OFXAcctId = match["ofx_acctid"]
	case match["csv_acctid"] != "":
		a.CSVAcctId = match["csv_acctid"]
	}
}

func (a *Account) String() string {'''))
r("a-parse-endline",(A,'''		if len(bytes.TrimSpace(line)) == 0 || !unicode.IsSpace(rune(line[0])) {
			return a, nil
		}
''','''		if endsBlock(line) {
			return a, nil
		}
'''),(K,'''		if len(bytes.TrimSpace(line)) == 0 || !unicode.IsSpace(rune(line[0])) {
			return c, nil
		}
''','''		if endsBlock(line) {
			return c, nil
		}
'''),(A,'''func (a *Account) String() string {''','''// endsBlock is true for a line that does not belong to the current item.
func endsBlock(line []byte) bool {
	if len(bytes.TrimSpace(line)) == 0 {
		return true
	}
	return !unicode.IsSpace(rune(line[0]))
}

func (a *Account) String() string {'''),(K,'''	"bytes"
''','''	"bytes"
'''))
r("a-closed-loop",(A,'''	if a == nil {
		return false
	}
	return a.Parent.IsClosed() || !a.Closed.IsZero()
''','''	for p := a; p != nil; p = p.Parent {
		if !p.Closed.IsZero() {
			return true
		}
	}
	return false
'''))
r("a-closed-swap",(A,'''	return a.Parent.IsClosed() || !a.Closed.IsZero()
''','''	return !a.Closed.IsZero() || a.Parent.IsClosed()
'''))
r("a-depth-loop",(A,'''	if a.Parent == nil || a.Parent == Root {
		return 1
	}
	return a.Parent.Depth() + 1
''','''	depth := 1
	for p := a.Parent; p != nil && p != Root; p = p.Parent {
		depth++
	}
	return depth
'''))
r("a-check-helper",(A,'''		if s.Balance != nil {
			warn.If(!a.Balance().IsEqual(s.Balance),
				"%s: %s balance is %a, should be %a: %s\\n",
				a.FullName,
				s.Transaction.Posted.Format(DateFormat),
				a.Balance(),
				s.Balance,
				s.Transaction.Location(),
			)
		} else {
			s.Balance = a.Balance().Copy()
		}
	}
}
''','''		a.checkBalance(s)
	}
}

func (a *Account) checkBalance(s *Posting) {
	balance := a.Balance()
	if s.Balance == nil {
		s.Balance = balance.Copy()
		return
	}
	warn.If(!balance.IsEqual(s.Balance),
		"%s: %s balance is %a, should be %a: %s\\n",
		a.FullName,
		s.Transaction.Posted.Format(DateFormat),
		balance,
		s.Balance,
		s.Transaction.Location(),
	)
}
'''))
r("a-check-noguard",(A,'''	if len(a.Postings) == 0 {
		return
	}
	for _, s := range a.Postings {
		err := a.Balance().AddIn''','''	for _, s := range a.Postings {
		err := a.Balance().AddIn'''))
r("a-find-for",(A,'''	for pi := a.Postings[i]; pi.Transaction.Posted.Equal(p.Transaction.Posted); {
		if pi == p {
			return i, true
		}
		i++
		if i >= len(a.Postings) {
			return i, false
		}
		pi = a.Postings[i]
	}
''','''	for i < len(a.Postings) && a.Postings[i].Transaction.Posted.Equal(p.Transaction.Posted) {
		if a.Postings[i] == p {
			return i, true
		}
		i++
	}
'''))
r("a-find-for2",(A,'''	for pi := a.Postings[i]; pi.Transaction.Posted.Equal(p.Transaction.Posted); {
		if pi == p {
			return i, true
		}
		i++
		if i >= len(a.Postings) {
			return i, false
		}
		pi = a.Postings[i]
	}
''','''	posted := p.Transaction.Posted
	for ; i < len(a.Postings); i++ {
		pi := a.Postings[i]
		if !pi.Transaction.Posted.Equal(posted) {
			break
		}
		if pi == p {
			return i, true
		}
	}
'''))
r("a-del-append",(A,'''	copy(a.Postings[i:], a.Postings[i+1:])
	a.Postings = a.Postings[:len(a.Postings)-1]
	return p
''','''	a.Postings = append(a.Postings[:i], a.Postings[i+1:]...)
	return p
'''))
r("a-add-append",(A,'''	var newPostings []*Posting
	if cap(a.Postings) > len(a.Postings) {
		a.Postings = a.Postings[:len(a.Postings)+1]
		newPostings = a.Postings
	} else {
		newPostings = make([]*Posting, len(a.Postings)+1)
		copy(newPostings, a.Postings[:i])
	}
	copy(newPostings[i+1:], a.Postings[i:])
	newPostings[i] = p
	a.Postings = newPostings
	return p
''','''	a.Postings = append(a.Postings, nil)
	copy(a.Postings[i+1:], a.Postings[i:])
	a.Postings[i] = p
	return p
'''))
r("a-short-range",(A,'''	for i := 0; over > 0 && i < len(parts); i++ {
		l := len(parts[i])
		if l == 0 {
			continue
		}
		drop := min(over, l-1)
		parts[i] = parts[i][:l-drop]
		over -= drop
	}
''','''	for i, part := range parts {
		if over <= 0 {
			break
		}
		if len(part) == 0 {
			continue
		}
		drop := len(part) - 1
		if over < drop {
			drop = over
		}
		parts[i] = part[:len(part)-drop]
		over -= drop
	}
'''))
r("a-adopt-helper",(A,'''	isChild := false
	c.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == a)
	})
	if isChild {
		fmt''','''	if c.includes(a) {
		fmt'''),(A,'''	a.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == c)
	})
	if isChild {
''','''	if a.includes(c) {
'''),(A,'''func (a *Account) adopt(''','''func (a *Account) includes(b *Account) (found bool) {
	a.WithChildrenDo(func(d *Account) {
		if d == b {
			found = true
		}
	})
	return found
}

func (a *Account) adopt('''))
r("m-scale",(M,'''	if c.Decimals > 0 {
		b.Mul(b, bigPow10(c.Decimals))
	}
	b.Quo(b, den)
	return NewAmount(b, c)
''','''	scaleUp(b, c)
	return NewAmount(b.Quo(b, den), c)
'''),(M,'''		bi := big.NewInt(i)
		if c.Decimals > 0 {
			bi.Mul(bi, bigPow10(c.Decimals))
		}
		return NewAmount(bi, c), nil
''','''		bi := big.NewInt(i)
		scaleUp(bi, c)
		return NewAmount(bi, c), nil
'''),(M,'''func NewZeroAmount(''','''func scaleUp(b *big.Int, c *Commodity) {
	if c.Decimals > 0 {
		b.Mul(b, bigPow10(c.Decimals))
	}
}

func NewZeroAmount('''))
r("m-rat",(M,'''	val := new(big.Rat)
	val.SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
	return val.FloatString(a.Commodity.Decimals)
}
''','''	return a.rat().FloatString(a.Commodity.Decimals)
}

func (a *Amount) rat() *big.Rat {
	return new(big.Rat).SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
}
'''),(M,'''	val := new(big.Rat)
	val.SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
	str := val.FloatString(p)
''','''	str := a.rat().FloatString(p)
'''))
r("m-format",(M,'''	format := "%"
	if f.Flag('-') {
		format += "-"
	}
	if w, ok := f.Width(); ok {
		fmt.Fprintf(f, format+"*s", w, str)
	} else {
		fmt.Fprintf(f, format+"s", str)
	}
''','''	w, ok := f.Width()
	switch {
	case !ok:
		io.WriteString(f, str)
	case f.Flag('-'):
		fmt.Fprintf(f, "%-*s", w, str)
	default:
		fmt.Fprintf(f, "%*s", w, str)
	}
'''))
r("m-parse-cut",(M,'''	s = strings.Join(ss, "")
	i, err''','''	s = ss[0] + ss[1]
	i, err'''))
r("m-parse-switch",(M,'''	ss := strings.Split(s, ".")
	if len(ss) == 1 {
		i, err''','''	ss := strings.Split(s, ".")
	if len(ss) > 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
	if len(ss) == 1 {
		i, err'''),(M,'''	if len(ss) != 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
''',''))
r("m-adjust",(M,'''	c := new(big.Int).Set(b.Int)
	if b.Decimals < a.Decimals {
		c.Mul(c, bigPow10(a.Decimals-b.Decimals))
	} else if a.Decimals < b.Decimals {
		c.Quo(c, bigPow10(b.Decimals-a.Decimals))
	}
	return c
''','''	switch diff := a.Decimals - b.Decimals; {
	case diff > 0:
		return new(big.Int).Mul(b.Int, bigPow10(diff))
	case diff < 0:
		return new(big.Int).Quo(b.Int, bigPow10(-diff))
	default:
		return new(big.Int).Set(b.Int)
	}
'''))
r("m-addin",(M,'''	if a.Commodity != b.Commodity {
		b, err = a.Commodity.Convert(b, b.Commodity)
		if err != nil {
			return err
		}
	}
	a.Add(a.Int, b.adjustedTo(a))
	return nil
''','''	converted := b
	if b.Commodity != a.Commodity {
		if converted, err = a.Commodity.Convert(b, b.Commodity); err != nil {
			return err
		}
	}
	a.Int.Add(a.Int, converted.adjustedTo(a))
	return nil
'''))
r("m-times",(M,'''	c := new(big.Int).Mul(a.Int, b.Int)
	return &Amount{
		c.Quo(c, bigPow10(b.Decimals)),
		a.Commodity,
	}
''','''	product := new(big.Int)
	product.Mul(b.Int, a.Int)
	product.Quo(product, bigPow10(b.Commodity.Decimals))
	return NewAmount(product, a.Commodity)
'''))
r("m-width",(M,'''	w := bigLog10(a.Int) + 1
	if w <= a.Decimals {
		w = a.Decimals + 1
	}
	w = w - a.Decimals + decimals
''','''	whole := bigLog10(a.Int) + 1 - a.Decimals
	if whole < 1 {
		whole = 1
	}
	w := whole + decimals
'''))
r("k-string",(K,'''	for _, cur := range c.Currencies() {
		c, p := cur, c.Prices[cur]
		format := "%s %a %s [%d]"
		if c.Decimals > 0 {
			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
		}
		prices = append(prices,
			fmt.Sprintf(format,
				p[0].Time.Format(DateFormat),
				p[0].Value,
				c.Id,
				len(p)))
	}
''','''	for _, currency := range c.Currencies() {
		list := c.Prices[currency]
		latest := list[0]
		format := "%s %a %s [%d]"
		if d := currency.Decimals; d > 0 {
			format = fmt.Sprintf("%%s %%.%da %%s [%%d]", d)
		}
		prices = append(prices,
			fmt.Sprintf(format, latest.Time.Format(DateFormat), latest.Value, currency.Id, len(list)))
	}
'''),(K,'''	"strconv"
''',''))
r("k-safeid",(K,'''	if ledger {
		if c.quotedId == "" {
			c.quotedId = c.Id
			if strings.ContainsAny(c.Id, disallowed) {
				c.quotedId = `"` + c.Id + `"`
			}
		}
		return c.quotedId
	}
	return c.Id
''','''	if !ledger {
		return c.Id
	}
	if c.quotedId != "" {
		return c.quotedId
	}
	if strings.ContainsAny(c.Id, disallowed) {
		c.quotedId = `"` + c.Id + `"`
	} else {
		c.quotedId = c.Id
	}
	return c.quotedId
'''))
r("k-included",(K,'''	for _, c2 := range list {
		if c == c2 {
			return true
		}
	}
	return false
''','''	return slices.Contains(list, c)
'''),(K,'''	"strconv"
''','''	"slices"
	"strconv"
'''))
r("k-convert-cont",(K,'''		if c3.includedIn(previous) {
			continue
		}
		p := c2.Prices[c3][0]
		val2 := p.Value.Times(amount)
		val3, err := c.convert(val2, c3, append(previous, c2))
		if err == nil {
			return val3, nil
		}
''','''		if !c3.includedIn(previous) {
			step := c2.Prices[c3][0].Value.Times(amount)
			if val, err := c.convert(step, c3, append(previous, c2)); err == nil {
				return val, nil
			}
		}
'''))
r("k-convert-len",(K,'''	prices := c2.Prices[c]
	if prices != nil {
		p := prices[0]
		val := p.Value.Times(amount)
		return val, nil
	}
''','''	if prices, ok := c2.Prices[c]; ok {
		return prices[0].Value.Times(amount), nil
	}
'''))
r("k-format",(K,'''	format := "1"
	if c.Decimals > 0 {
		format = "1." + strings.Repeat("0", c.Decimals)
	}
	lines := []string{"commodity ", c.SafeId(ledger), "\\n"}
	if c.Name != "" {
		lines = append(lines, "  note ", c.Name, "\\n")
	}
	lines = append(lines, "  format ", format, " ", c.SafeId(ledger), "\\n")
''','''	id := c.SafeId(ledger)
	lines := []string{"commodity " + id + "\\n"}
	if c.Name != "" {
		lines = append(lines, "  note "+c.Name+"\\n")
	}
	lines = append(lines, "  format ", c.sample(), " ", id, "\\n")
'''),(K,'''func (c *Commodity) Write(''','''func (c *Commodity) sample() string {
	if c.Decimals <= 0 {
		return "1"
	}
	return "1." + strings.Repeat("0", c.Decimals)
}

func (c *Commodity) Write('''))
r("c-loadprices",(C,'''	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {
		files, err := filepath.Glob(filepath.Join(DB, "*.prices"))
		check.NoError(err, "Failed to list price files")
		for _, f := range files {
			LoadFile(f)
		}
	} else {
		LoadFile(PricesFile)
	}
''','''	_, err := os.Stat(PricesFile)
	if !os.IsNotExist(err) {
		LoadFile(PricesFile)
		return
	}
	pattern := filepath.Join(DB, "*.prices")
	files, err := filepath.Glob(pattern)
	check.NoError(err, "Failed to list price files")
	for i := range files {
		LoadFile(files[i])
	}
'''))
r("c-loadall-skip",(C,'''			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
				LoadFile(f)
			}
''','''			switch f {
			case CommoditiesFile, AccountsFile, PricesFile:
				continue
			}
			LoadFile(f)
'''))
r("c-load-include",(C,'''			files, err := i.Files()
			check.NoError(err, "Failed to resolve include %s", i.Path)
			for _, f := range files {
				// This won't catch nested loops, but should catch the easier to make errors.
				check.If(f != fn, "Include loop detected %s", f)
				LoadFile(f)
			}
''','''			loadIncluded(i, fn)
'''),(C,'''func ResolveAll() {''','''func loadIncluded(include *Include, from string) {
	files, err := include.Files()
	check.NoError(err, "Failed to resolve include %s", include.Path)
	for _, f := range files {
		// This won't catch nested loops, but should catch the easier to make errors.
		check.If(f != from, "Include loop detected %s", f)
		LoadFile(f)
	}
}

func ResolveAll() {'''))
r("c-load-add",(C,'''		i, err := p.Next(fn)
		check.NoError(err, "Parsing error")
		if i == nil {
			return
		}
		switch i := i.(type) {
		case *Commodity:
			Commodities[i.Id] = i
			if i.Symbol != "" {
				CommoditiesBySymbol[i.Symbol] = i
			}
''','''		item, err := p.Next(fn)
		check.NoError(err, "Parsing error")
		if item == nil {
			break
		}
		switch i := item.(type) {
		case *Commodity:
			i.register()
'''),(C,'''func ResolveAll() {''','''func (c *Commodity) register() {
	if c.Symbol != "" {
		CommoditiesBySymbol[c.Symbol] = c
	}
	Commodities[c.Id] = c
}

func ResolveAll() {'''))
r("c-sorted-keys",(C,'''	var names []string
	for n := range Commodities {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(Commodities[n])
	}
''','''	for _, n := range sortedKeys(Commodities) {
		f(Commodities[n])
	}
'''),(C,'''	var names []string
	for n := range AccountsByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(AccountsByName[n])
	}
''','''	for _, n := range sortedKeys(AccountsByName) {
		f(AccountsByName[n])
	}
'''),(C,'''func CommoditiesDo(''','''func sortedKeys[T any](m map[string]T) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func CommoditiesDo('''))
r("c-maps-keys",(C,'''	var names []string
	for n := range AccountsByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
''','''	for _, n := range slices.Sorted(maps.Keys(AccountsByName)) {
'''),(C,'''	"io"
''','''	"io"
	"maps"
	"slices"
'''))
r("c-findaccts",(C,'''	var names []string
	rx := ToRegex(pattern)
	AccountsDo(func(a *Account) {
		if rx.MatchString(a.FullName) {
			names = append(names, a.FullName)
		}
	})
	sort.Strings(names)
	for _, n := range names {
		accounts = append(accounts, AccountsByName[n])
	}
	return accounts
''','''	rx := ToRegex(pattern)
	var names []string
	collect := func(a *Account) {
		if !rx.MatchString(a.FullName) {
			return
		}
		names = append(names, a.FullName)
	}
	AccountsDo(collect)
	sort.Strings(names)
	if len(names) > 0 {
		accounts = make([]*Account, len(names))
		for i, n := range names {
			accounts[i] = AccountsByName[n]
		}
	}
	return accounts
'''))
r("c-must-switch",(C,'''	as := FindAccounts(pattern)
	if len(as) == 0 {
		panic(fmt.Errorf("cannot find account %s", pattern))
	}
	if len(as) == 1 {
		return as[0]
	}
	parent := as[0].FullName + ":"
	all := true
	for _, a := range as[1:] {
		if all = all && strings.HasPrefix(a.FullName, parent); !all {
			break
		}
	}
	if all {
		return as[0]
	}
''','''	as := FindAccounts(pattern)
	switch {
	case len(as) == 0:
		panic(fmt.Errorf("cannot find account %s", pattern))
	case len(as) == 1, allUnder(as[0], as[1:]):
		return as[0]
	}
'''),(C,'''func FindAccountOfxId(''','''func allUnder(parent *Account, accounts []*Account) bool {
	prefix := parent.FullName + ":"
	for _, a := range accounts {
		if !strings.HasPrefix(a.FullName, prefix) {
			return false
		}
	}
	return true
}

func FindAccountOfxId('''))
r("c-resolve-split",(C,'''	// Sort commodity prices.
	for _, c := range Commodities {
		for _, p := range c.Prices {
			sort.Slice(p, func(i, j int) bool {
				return p[i].Time.After(p[j].Time)
			})
		}
	}
	sort.Slice(Prices''','''	for _, c := range Commodities {
		c.sortPrices()
	}
	sort.Slice(Prices'''),(C,'''func ResolveAccounts() {''','''// sortPrices puts the latest price first.
func (c *Commodity) sortPrices() {
	for _, prices := range c.Prices {
		sort.Slice(prices, func(i, j int) bool {
			return prices[j].Time.Before(prices[i].Time)
		})
	}
}

func ResolveAccounts() {'''))
r("c-acct-special",(C,'''	if Unbalanced == nil {
		Unbalanced = accountFromName("Unbalanced")
		AccountsByName["Unbalanced"] = Unbalanced
	}
''','''	if Unbalanced == nil {
		Unbalanced = registerAccount("Unbalanced")
	}
'''),(C,'''			Root = accountFromName("Root")
			AccountsByName["Root"] = Root
''','''			Root = registerAccount("Root")
'''),(C,'''func ResolveAccounts() {''','''func registerAccount(name string) *Account {
	a := accountFromName(name)
	AccountsByName[name] = a
	return a
}

func ResolveAccounts() {'''))
r("c-acct-known",(C,'''	var known []*Account
	for _, a := range AccountsByName {
		known = append(known, a)
	}
	for _, a := range known {
		fn := a.FullName
		for {
			fn, _ = parentAndName(fn)
			if fn == "" {
				break
			}
			if AccountsByName[fn] == nil {
				AccountsByName[fn] = accountFromName(fn)
			}
		}
	}
''','''	known := make([]*Account, 0, len(AccountsByName))
	for _, a := range AccountsByName {
		known = append(known, a)
	}
	for _, a := range known {
		for fn, _ := parentAndName(a.FullName); fn != ""; fn, _ = parentAndName(fn) {
			if _, found := AccountsByName[fn]; !found {
				AccountsByName[fn] = accountFromName(fn)
			}
		}
	}
'''))
r("c-acct-parent",(C,'''		pName := a.ParentName()
		if pName == "" {
			Root.adopt(a)
			continue
		}
		p := AccountsByName[pName]
		check.If(p != nil, "Missing account %s (%s)\\n", pName, a.Location())
		p.adopt(a)
''','''		parent := Root
		if pName := a.ParentName(); pName != "" {
			parent = AccountsByName[pName]
			check.If(parent != nil, "Missing account %s (%s)\\n", pName, a.Location())
		}
		parent.adopt(a)
'''))
r("c-tx-helper",(C,'''		// All postings with the same commodity make sure transaction is balanced
		var empty *Posting
''','''		t.balance(commodity)
	}

	AccountsDo(func(a *Account) {
		a.sortPostings()
		if checkPostings {
			a.CheckPostings()
		}
	})
	sort.Stable(Transactions)
}

// balance makes sure that a transaction in one commodity is balanced.
func (t *Transaction) balance(commodity *Commodity) {
		var empty *Posting
'''),(C,'''			empty.Quantity = total.Negated()
		}
	}

	AccountsDo(func(a *Account) {
		a.sortPostings()
		if checkPostings {
			a.CheckPostings()
		}
	})
	sort.Stable(Transactions)
}
''','''			empty.Quantity = total.Negated()
		}
}
'''))
r("c-toregex",(C,'''	words := strings.Split(pattern, ":")
	rx := `(?i)` + words[0]
	if len(words) > 1 {
		wordLast := true
		for _, w := range words[1:] {
			if w == "" {
				if wordLast {
					rx += multiple
				}
				wordLast = false
			} else {
				if wordLast {
					rx += single
				}
				rx += w
				wordLast = true
			}
		}
	}
	return regexp.MustCompile(rx)
''','''	words := strings.Split(pattern, ":")
	var rx strings.Builder
	rx.WriteString(`(?i)`)
	rx.WriteString(words[0])
	wordLast := true
	for _, w := range words[1:] {
		if wordLast {
			if w == "" {
				rx.WriteString(multiple)
			} else {
				rx.WriteString(single)
			}
		}
		rx.WriteString(w)
		wordLast = w != ""
	}
	return regexp.MustCompile(rx.String())
'''))
r("i-switch",(I,'''	var resolved string
	if i.Path[0] == '/' {
		resolved = "." + i.Path
	} else if i.Path[0] == '$' {
		resolved = i.Path
	} else {
		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
	}
	resolved = os.ExpandEnv(resolved)
	return filepath.Glob(resolved)
''','''	return filepath.Glob(os.ExpandEnv(i.resolve()))
}

func (i *Include) resolve() string {
	switch i.Path[0] {
	case '/':
		return "." + i.Path
	case '$':
		return i.Path
	}
	dir := filepath.Dir(i.file)
	return filepath.Join(dir, i.Path)
'''))
r("p-write",(P,'''	date := p.Time.Format(DateFormat)
	_, err := io.WriteString(w, "P "+date+" "+p.Commodity.SafeId(ledger)+" ")
	if err != nil {
		return err
	}
	err = p.Value.Write(w, ledger)
	if err != nil {
		return err
	}
	_, err = io.WriteString(w, "\\n")
	return err
''','''	_, err := fmt.Fprintf(w, "P %s %s ", p.Time.Format(DateFormat), p.Commodity.SafeId(ledger))
	if err != nil {
		return err
	}
	if err = p.Value.Write(w, ledger); err != nil {
		return err
	}
	_, err = fmt.Fprintln(w)
	return err
'''))
r("p-parse",(P,'''	date := mustParseDate(match, 0)
	currencyId := string(match["commodity2"])
	line := p.lineNr
	location := fmt.Sprintf("%s:%d", fn, line)
	c := MustFindCommodity(currencyId, location)
	amt, err := parseAmount(match["amount"], c)
	if err != nil {
		return nil, err
	}
	commodityId := string(match["commodity1"])
	p.Scan() // advance to next line before returning
	return &Price{
		Time:        date,
		Value:       amt,
		CommodityId: commodityId,
		currencyId:  currencyId,
		line:        line,
		file:        fn,
	}, nil
''','''	price := &Price{
		Time:        mustParseDate(match, 0),
		CommodityId: match["commodity1"],
		currencyId:  match["commodity2"],
		line:        p.lineNr,
		file:        fn,
	}
	currency := MustFindCommodity(price.currencyId, fmt.Sprintf("%s:%d", fn, p.lineNr))
	var err error
	price.Value, err = parseAmount(match["amount"], currency)
	if err != nil {
		return nil, err
	}
	p.Scan() // advance to next line before returning
	return price, nil
'''))
