R = [
dict(id='acct-write-builder', edits=[('account.go', '''	lines := []string{"account ", a.FullName, "\\n"}
	if a.Description != "" {
		lines = append(lines, "  note ", a.Description, "\\n")
	}
	lines = append(lines, `  commodity `, a.Commodity.SafeId(ledger), "\\n")
	if !a.Closed.IsZero() {
		lines = append(lines, `  closed `, a.Closed.Format(DateFormat), "\\n")
	}
	if a.OFXBankId != "" && !ledger {
		lines = append(lines, `  ofx_bankid `, a.OFXBankId, "\\n")
	}
	if a.OFXAcctId != "" && !ledger {
		lines = append(lines, `  ofx_acctid `, a.OFXAcctId, "\\n")
	}
	if a.CSVAcctId != "" && !ledger {
		lines = append(lines, `  csv_acctid `, a.CSVAcctId, "\\n")
	}
''', '''	lines := []string{"account ", a.FullName, "\\n"}
	field := func(name, value string) {
		lines = append(lines, "  "+name+" ", value, "\\n")
	}
	if a.Description != "" {
		field("note", a.Description)
	}
	field("commodity", a.Commodity.SafeId(ledger))
	if !a.Closed.IsZero() {
		field("closed", a.Closed.Format(DateFormat))
	}
	if !ledger {
		if a.OFXBankId != "" {
			field("ofx_bankid", a.OFXBankId)
		}
		if a.OFXAcctId != "" {
			field("ofx_acctid", a.OFXAcctId)
		}
		if a.CSVAcctId != "" {
			field("csv_acctid", a.CSVAcctId)
		}
	}
''')]),
dict(id='acct-write-helper', edits=[('account.go', '''	for _, line := range lines {
		_, err := io.WriteString(w, line)
		if err != nil {
			return err
		}
	}

	return nil
}

var accountNameREX''', '''	return writeStrings(w, nil, lines...)
}

var accountNameREX''')]),
dict(id='parse-account-switch', edits=[('account.go', '''		if n := match["note"]; n != "" {
			a.Description = n
		} else if c := match["commodity"]; c != "" {
			a.CommodityId = c
		} else if d := match["date"]; d != "" {
			a.Closed = mustParseDate(match, 0)
		} else if i := match["ofx_bankid"]; i != "" {
			a.OFXBankId = i
		} else if i := match["ofx_acctid"]; i != "" {
			a.OFXAcctId = i
		} else if i := match["csv_acctid"]; i != "" {
			a.CSVAcctId = i
		}
''', '''		a.setField(match)
'''), ('account.go', '''func (a *Account) String() string {''', '''// setField assigns the attribute matched in an account body line.
func (a *Account) setField(match map[string]string) {
	switch {
	case match["note"] != "":
		a.Description = match["note"]
	case match["commodity"] != "":
		a.CommodityId = match["commodity"]
	case match["date"] != "":
		a.Closed = mustParseDate(match, 0)
	case match["ofx_bankid"] != "":
		a.OFXBankId = match["ofx_bankid"]
	case match["ofx_acctid"] != "":
		a.OFXAcctId = match["ofx_acctid"]
	case match["csv_acctid"] != "":
		a.CSVAcctId = match["csv_acctid"]
	}
}

func (a *Account) String() string {''')]),
dict(id='is-body-line', edits=[('account.go', '''		if len(bytes.TrimSpace(line)) == 0 || !unicode.IsSpace(rune(line[0])) {
			return a, nil
		}
		match = accountBodyREX''', '''		if !isIndented(line) {
			return a, nil
		}
		match = accountBodyREX'''), ('account.go', '''func (a *Account) String() string {''', '''func isIndented(line []byte) bool {
	return len(bytes.TrimSpace(line)) > 0 && unicode.IsSpace(rune(line[0]))
}

func (a *Account) String() string {'''), ('commodity.go', '''		if len(bytes.TrimSpace(line)) == 0 || !unicode.IsSpace(rune(line[0])) {
			return c, nil
		}
''', '''		if !isIndented(line) {
			return c, nil
		}
'''), ('commodity.go', '''	"strings"
	"unicode"
''', '''	"strings"
'''), ('commodity.go', '''	"bytes"
''', '''''')]),
dict(id='depth-iter', edits=[('account.go', '''	if a.Parent == nil || a.Parent == Root {
		return 1
	}
	return a.Parent.Depth() + 1
''', '''	depth := 1
	if p := a.Parent; p != nil && p != Root {
		depth += p.Depth()
	}
	return depth
''')]),
dict(id='check-postings', edits=[('account.go', '''	if len(a.Postings) == 0 {
		return
	}
	for _, s := range a.Postings {
		err := a.Balance().AddIn(s.Quantity)
		check.NoError(err, "couldn't add %a %s to balance %a %s: %s\\n",
			s.Quantity, s.Quantity.Commodity, a.Balance(), a.Balance().Commodity, s.Transaction.Location())
		if s.Balance != nil {
			warn.If(!a.Balance().IsEqual(s.Balance),
				"%s: %s balance is %a, should be %a: %s\\n",
				a.FullName,
				s.Transaction.Posted.Format(DateFormat),
				a.Balance(),
				s.Balance,
				s.Transaction.Location(),
			)
		} else {
			s.Balance = a.Balance().Copy()
		}
	}
''', '''	for _, s := range a.Postings {
		balance := a.Balance()
		err := balance.AddIn(s.Quantity)
		check.NoError(err, "couldn't add %a %s to balance %a %s: %s\\n",
			s.Quantity, s.Quantity.Commodity, balance, balance.Commodity, s.Transaction.Location())
		if s.Balance == nil {
			s.Balance = balance.Copy()
			continue
		}
		warn.If(!balance.IsEqual(s.Balance),
			"%s: %s balance is %a, should be %a: %s\\n",
			a.FullName,
			s.Transaction.Posted.Format(DateFormat),
			balance,
			s.Balance,
			s.Transaction.Location(),
		)
	}
''')]),
dict(id='adopt-helper', edits=[('account.go', '''	isChild := false
	c.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == a)
	})
	if isChild {
		fmt.Printf("%#v\\n", c)
		panic(fmt.Errorf("%s is child of %s", a.FullName, c.FullName))
	}
	a.WithChildrenDo(func(d *Account) {
		isChild = isChild || (d == c)
	})
	if isChild {
''', '''	if c.hasDescendant(a) {
		fmt.Printf("%#v\\n", c)
		panic(fmt.Errorf("%s is child of %s", a.FullName, c.FullName))
	}
	if a.hasDescendant(c) {
'''), ('account.go', '''func (a *Account) sortPostings() {''', '''func (a *Account) hasDescendant(c *Account) bool {
	found := false
	a.WithChildrenDo(func(d *Account) {
		if d == c {
			found = true
		}
	})
	return found
}

func (a *Account) sortPostings() {''')]),
dict(id='addposting-insert', edits=[('account.go', '''	i, found := a.findPosting(p)
	if !found {
		return p
	}
	copy(a.Postings[i:], a.Postings[i+1:])
	a.Postings = a.Postings[:len(a.Postings)-1]
	return p
''', '''	if i, found := a.findPosting(p); found {
		last := len(a.Postings) - 1
		copy(a.Postings[i:], a.Postings[i+1:])
		a.Postings = a.Postings[:last]
	}
	return p
''')]),
dict(id='delete-append', edits=[('account.go', '''	copy(a.Postings[i:], a.Postings[i+1:])
	a.Postings = a.Postings[:len(a.Postings)-1]
	return p
''', '''	a.Postings = append(a.Postings[:i], a.Postings[i+1:]...)
	return p
''')]),
dict(id='amount-parse', edits=[('amount.go', '''	ss := strings.Split(s, ".")
	if len(ss) == 1 {
		i, err := strconv.ParseInt(ss[0], 10, 64)
		if err != nil {
			return nil, err
		}
		bi := big.NewInt(i)
		if c.Decimals > 0 {
			bi.Mul(bi, bigPow10(c.Decimals))
		}
		return NewAmount(bi, c), nil
	}
	if len(ss) != 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
''', '''	ss := strings.Split(s, ".")
	switch len(ss) {
	case 1:
		i, err := strconv.ParseInt(ss[0], 10, 64)
		if err != nil {
			return nil, err
		}
		bi := big.NewInt(i)
		if c.Decimals > 0 {
			bi.Mul(bi, bigPow10(c.Decimals))
		}
		return NewAmount(bi, c), nil
	case 2:
		// handled below
	default:
		return nil, fmt.Errorf("malformed value %s", s)
	}
''')]),
dict(id='amount-parse2', edits=[('amount.go', '''	s = strings.Join(ss, "")
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return nil, err
	}
	bi := big.NewInt(i)
	decimals := len(ss[1])
''', '''	whole, fraction := ss[0], ss[1]
	i, err := strconv.ParseInt(whole+fraction, 10, 64)
	if err != nil {
		return nil, err
	}
	bi := big.NewInt(i)
	decimals := len(fraction)
''')]),
dict(id='amount-string-rat', edits=[('amount.go', '''func (a *Amount) String() string {
	val := new(big.Rat)
	val.SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
	return val.FloatString(a.Commodity.Decimals)
}
''', '''func (a *Amount) String() string {
	return a.rat().FloatString(a.Commodity.Decimals)
}

// rat returns the amount as a rational number.
func (a *Amount) rat() *big.Rat {
	return new(big.Rat).SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
}
'''), ('amount.go', '''	val := new(big.Rat)
	val.SetFrac(a.Int, bigPow10(a.Commodity.Decimals))
	str := val.FloatString(p)
	if f''', '''	str := a.rat().FloatString(p)
	if f''')]),
dict(id='adjusted-switch', edits=[('amount.go', '''	c := new(big.Int).Set(b.Int)
	if b.Decimals < a.Decimals {
		c.Mul(c, bigPow10(a.Decimals-b.Decimals))
	} else if a.Decimals < b.Decimals {
		c.Quo(c, bigPow10(b.Decimals-a.Decimals))
	}
	return c
''', '''	diff := a.Decimals - b.Decimals
	switch {
	case diff > 0:
		return new(big.Int).Mul(b.Int, bigPow10(diff))
	case diff < 0:
		return new(big.Int).Quo(b.Int, bigPow10(-diff))
	default:
		return new(big.Int).Set(b.Int)
	}
''')]),
dict(id='width', edits=[('amount.go', '''	w := bigLog10(a.Int) + 1
	if w <= a.Decimals {
		w = a.Decimals + 1
	}
	w = w - a.Decimals + decimals
''', '''	digits := bigLog10(a.Int) + 1
	whole := digits - a.Decimals
	if digits <= a.Decimals {
		whole = 1
	}
	w := whole + decimals
''')]),
dict(id='load-split', edits=[('coin.go', '''		switch i := i.(type) {
		case *Commodity:
			Commodities[i.Id] = i
			if i.Symbol != "" {
				CommoditiesBySymbol[i.Symbol] = i
			}
		case *Account:
			if i.FullName == "" {
				panic(fmt.Errorf("INVALID %#v", i))
			}
			AccountsByName[i.FullName] = i
		case *Price:
			Prices = append(Prices, i)
		case *Transaction:
			Transactions = append(Transactions, i)
		case *Test:
			Tests = append(Tests, i)
		case *Include:
			files, err := i.Files()
			check.NoError(err, "Failed to resolve include %s", i.Path)
			for _, f := range files {
				// This won't catch nested loops, but should catch the easier to make errors.
				check.If(f != fn, "Include loop detected %s", f)
				LoadFile(f)
			}
		default:
			fmt.Fprintf(os.Stderr, "Unknown entity %T", i)
			os.Exit(1)

		}
	}
}
''', '''		register(i, fn)
	}
}

// register files a parsed item away.
func register(item Item, fn string) {
	switch i := item.(type) {
	case *Commodity:
		Commodities[i.Id] = i
		if i.Symbol != "" {
			CommoditiesBySymbol[i.Symbol] = i
		}
	case *Account:
		if i.FullName == "" {
			panic(fmt.Errorf("INVALID %#v", i))
		}
		AccountsByName[i.FullName] = i
	case *Price:
		Prices = append(Prices, i)
	case *Transaction:
		Transactions = append(Transactions, i)
	case *Test:
		Tests = append(Tests, i)
	case *Include:
		include(i, fn)
	default:
		fmt.Fprintf(os.Stderr, "Unknown entity %T", i)
		os.Exit(1)
	}
}

func include(i *Include, fn string) {
	files, err := i.Files()
	check.NoError(err, "Failed to resolve include %s", i.Path)
	for _, f := range files {
		// This won't catch nested loops, but should catch the easier to make errors.
		check.If(f != fn, "Include loop detected %s", f)
		LoadFile(f)
	}
}
''')]),
dict(id='resolve-accounts-split', edits=[('coin.go', '''	// create parents if missing
	var known []*Account
	for _, a := range AccountsByName {
		known = append(known, a)
	}
	for _, a := range known {
		fn := a.FullName
		for {
			fn, _ = parentAndName(fn)
			if fn == "" {
				break
			}
			if AccountsByName[fn] == nil {
				AccountsByName[fn] = accountFromName(fn)
			}
		}
	}
''', '''	createMissingParents()
'''), ('coin.go', '''func ResolveTransactions(''', '''func createMissingParents() {
	known := make([]*Account, 0, len(AccountsByName))
	for _, a := range AccountsByName {
		known = append(known, a)
	}
	for _, a := range known {
		fn, _ := parentAndName(a.FullName)
		for fn != "" {
			if AccountsByName[fn] == nil {
				AccountsByName[fn] = accountFromName(fn)
			}
			fn, _ = parentAndName(fn)
		}
	}
}

func ResolveTransactions(''')]),
dict(id='resolve-tx-split', edits=[('coin.go', '''		// t.Currency = MustFindCommodity(t.currencyId)
		var commodity *Commodity
		var commodities = map[*Commodity]bool{}
		for _, s := range t.Postings {
			s.Account = MustFindAccount(s.accountName)
			s.Account.addPosting(s)
			commodity = s.Account.Commodity
			commodities[commodity] = true
		}
		if len(commodities) > 1 {
			// Postings with different commodities, make sure amounts are set
			for _, s := range t.Postings {
				check.If(s.Quantity != nil, "Posting without quantity in mixed transaction: %s", t.Location())
			}
			continue
		}
		// All postings with the same commodity make sure transaction is balanced
		var empty *Posting
		var total = NewZeroAmount(commodity)
		for _, s := range t.Postings {
			if s.Quantity == nil {
				check.If(empty == nil, "Multiple postings without quantity: %s", t.Location())
				empty = s
			} else {
				err := total.AddIn(s.Quantity)
				check.NoError(err, "cannot compute transaction total: %s", t.Location())
			}
		}
		if empty == nil {
			check.If(total.IsZero(), "Transaction is not balanced %f: %s", total, t.Location())
		} else {
			empty.Quantity = total.Negated()
		}
	}

	AccountsDo''', '''		t.resolve()
	}

	AccountsDo'''), ('coin.go', '''// MustFindAccount returns''', '''func (t *Transaction) resolve() {
	// t.Currency = MustFindCommodity(t.currencyId)
	var commodity *Commodity
	var commodities = map[*Commodity]bool{}
	for _, s := range t.Postings {
		s.Account = MustFindAccount(s.accountName)
		s.Account.addPosting(s)
		commodity = s.Account.Commodity
		commodities[commodity] = true
	}
	if len(commodities) > 1 {
		// Postings with different commodities, make sure amounts are set
		for _, s := range t.Postings {
			check.If(s.Quantity != nil, "Posting without quantity in mixed transaction: %s", t.Location())
		}
		return
	}
	t.balance(commodity)
}

// balance makes sure a transaction in a single commodity is balanced.
func (t *Transaction) balance(commodity *Commodity) {
	var empty *Posting
	var total = NewZeroAmount(commodity)
	for _, s := range t.Postings {
		if s.Quantity == nil {
			check.If(empty == nil, "Multiple postings without quantity: %s", t.Location())
			empty = s
			continue
		}
		err := total.AddIn(s.Quantity)
		check.NoError(err, "cannot compute transaction total: %s", t.Location())
	}
	if empty != nil {
		empty.Quantity = total.Negated()
		return
	}
	check.If(total.IsZero(), "Transaction is not balanced %f: %s", total, t.Location())
}

// MustFindAccount returns''')]),
dict(id='must-find-common', edits=[('coin.go', '''	as := FindAccounts(pattern)
	if len(as) == 0 {
		panic(fmt.Errorf("cannot find account %s", pattern))
	}
	if len(as) == 1 {
		return as[0]
	}
	parent := as[0].FullName + ":"
	all := true
	for _, a := range as[1:] {
		if all = all && strings.HasPrefix(a.FullName, parent); !all {
			break
		}
	}
	if all {
		return as[0]
	}
''', '''	as := FindAccounts(pattern)
	if len(as) == 0 {
		panic(fmt.Errorf("cannot find account %s", pattern))
	}
	first := as[0]
	if allUnder(first, as[1:]) {
		return first
	}
'''), ('coin.go', '''func FindAccountOfxId(''', '''// allUnder reports whether all the accounts are descendants of parent.
func allUnder(parent *Account, accounts []*Account) bool {
	prefix := parent.FullName + ":"
	for _, a := range accounts {
		if !strings.HasPrefix(a.FullName, prefix) {
			return false
		}
	}
	return true
}

func FindAccountOfxId(''')]),
dict(id='msg-builder', edits=[('coin.go', '''	msg := fmt.Sprintf("Found %d accounts matching %s", len(as), pattern)
	for _, a := range as {
		msg += "\\n" + a.FullName
	}
	panic(msg)
''', '''	var msg strings.Builder
	fmt.Fprintf(&msg, "Found %d accounts matching %s", len(as), pattern)
	for _, a := range as {
		msg.WriteString("\\n")
		msg.WriteString(a.FullName)
	}
	panic(msg.String())
''')]),
dict(id='toregex-builder', edits=[('coin.go', '''	words := strings.Split(pattern, ":")
	rx := `(?i)` + words[0]
	if len(words) > 1 {
		wordLast := true
		for _, w := range words[1:] {
			if w == "" {
				if wordLast {
					rx += multiple
				}
				wordLast = false
			} else {
				if wordLast {
					rx += single
				}
				rx += w
				wordLast = true
			}
		}
	}
	return regexp.MustCompile(rx)
''', '''	words := strings.Split(pattern, ":")
	rx := `(?i)` + words[0]
	wordLast := true
	for _, w := range words[1:] {
		switch {
		case w != "" && wordLast:
			rx += single + w
		case w != "":
			rx += w
		case wordLast:
			rx += multiple
		}
		wordLast = w != ""
	}
	return regexp.MustCompile(rx)
''')]),
dict(id='sorted-keys-generic', edits=[('coin.go', '''func CommoditiesDo(f func(c *Commodity)) {
	var names []string
	for n := range Commodities {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(Commodities[n])
	}
}

func AccountsDo(f func(c *Account)) {
	var names []string
	for n := range AccountsByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(AccountsByName[n])
	}
}''', '''func CommoditiesDo(f func(c *Commodity)) {
	for _, n := range sortedKeys(Commodities) {
		f(Commodities[n])
	}
}

func AccountsDo(f func(c *Account)) {
	for _, n := range sortedKeys(AccountsByName) {
		f(AccountsByName[n])
	}
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
''')]),
dict(id='tx-write-header', edits=[('transaction.go', '''	notes := t.Notes
	line := t.Posted.Format(DateFormat) + " "
	if t.Code != "" {
		line += "(" + t.Code + ") "
	}
	line += t.Description
	if len(notes) > 0''', '''	notes := t.Notes
	line := t.header()
	if len(notes) > 0'''), ('transaction.go', '''var transactionREX =''', '''func (t *Transaction) header() string {
	var b strings.Builder
	b.WriteString(t.Posted.Format(DateFormat))
	b.WriteByte(' ')
	if t.Code != "" {
		fmt.Fprintf(&b, "(%s) ", t.Code)
	}
	b.WriteString(t.Description)
	return b.String()
}

var transactionREX =''')]),
dict(id='tx-widths', edits=[('transaction.go', '''	maxn, maxa := 0, 0
	for _, s := range t.Postings {
		if l := len(s.Account.FullName); l > maxn {
			maxn = l
		}
		if l := s.Quantity.Width(s.Account.Commodity.Decimals); l > maxa {
			maxa = l
		}
	}
	for''', '''	maxn, maxa := t.columnWidths()
	for'''), ('transaction.go', '''var transactionREX =''', '''func (t *Transaction) columnWidths() (name, amount int) {
	for _, s := range t.Postings {
		name = max(name, len(s.Account.FullName))
		amount = max(amount, s.Quantity.Width(s.Account.Commodity.Decimals))
	}
	return name, amount
}

var transactionREX =''')]),
dict(id='tx-notes-flush', edits=[('transaction.go', '''		if len(notes) > 0 {
			if s == nil {
				t.Notes = append(t.Notes, notes...)
			} else {
				s.Notes = append(s.Notes, notes...)
			}
			notes = nil
		}
''', '''		attachNotes(t, s, notes)
		notes = nil
'''), ('transaction.go', '''	if len(notes) > 0 {
		if s == nil {
			t.Notes = append(t.Notes, notes...)
		} else {
			s.Notes = append(s.Notes, notes...)
		}
	}
	t.Tags''', '''	attachNotes(t, s, notes)
	t.Tags'''), ('transaction.go', '''func (t *Transaction) String()''', '''// attachNotes adds notes to the posting, or the transaction if there is none yet.
func attachNotes(t *Transaction, s *Posting, notes []string) {
	if s != nil {
		s.Notes = append(s.Notes, notes...)
		return
	}
	t.Notes = append(t.Notes, notes...)
}

func (t *Transaction) String()''')]),
dict(id='tx-amounts', edits=[('transaction.go', '''		var quantity *Amount
		var err error
		if amt := match["amount1"]; len(amt) > 0 {
			c := MustFindCommodity(match["commodity1"], t.Location())
			quantity, err = parseAmount(amt, c)
			if err != nil {
				return nil, err
			}
		}
''', '''		quantity, err := t.amountFrom(match["amount1"], match["commodity1"])
		if err != nil {
			return nil, err
		}
'''), ('transaction.go', '''		if balance := match["amount2"]; len(balance) > 0 {
			c := MustFindCommodity(match["commodity2"], t.Location())
			s.Balance, err = parseAmount(balance, c)
			if err != nil {
				return nil, err
			}
			s.BalanceAsserted = true
		}
''', '''		balance, err := t.amountFrom(match["amount2"], match["commodity2"])
		if err != nil {
			return nil, err
		}
		if balance != nil {
			s.Balance = balance
			s.BalanceAsserted = true
		}
'''), ('transaction.go', '''func (t *Transaction) String()''', '''// amountFrom parses an optional amount, nil if there is none.
func (t *Transaction) amountFrom(amount, commodity string) (*Amount, error) {
	if amount == "" {
		return nil, nil
	}
	return parseAmount(amount, MustFindCommodity(commodity, t.Location()))
}

func (t *Transaction) String()''')]),
dict(id='tx-post', edits=[('transaction.go', '''	sFrom := &Posting{Account: from, Transaction: t, Quantity: fromAmount, Balance: fromBalance, BalanceAsserted: fromBalance != nil}
	from.addPosting(sFrom)
	sTo := &Posting{Account: to, Transaction: t, Quantity: toAmount, Balance: toBalance, BalanceAsserted: toBalance != nil}
	to.addPosting(sTo)
	if fromAmount.Sign() < 0 {
		t.Postings = append(t.Postings, sTo, sFrom)
	} else {
		t.Postings = append(t.Postings, sFrom, sTo)
	}
''', '''	first := t.newPosting(from, fromAmount, fromBalance)
	second := t.newPosting(to, toAmount, toBalance)
	if fromAmount.Sign() < 0 {
		first, second = second, first
	}
	t.Postings = append(t.Postings, first, second)
'''), ('transaction.go', '''func (t *Transaction) Other(''', '''func (t *Transaction) newPosting(a *Account, amount, balance *Amount) *Posting {
	p := &Posting{Account: a, Transaction: t, Quantity: amount, Balance: balance, BalanceAsserted: balance != nil}
	a.addPosting(p)
	return p
}

func (t *Transaction) Other(''')]),
dict(id='tx-isequal', edits=[('transaction.go', '''	if !t.Posted.Equal(t2.Posted) {
		return false
	}
	if t.Code != t2.Code {
		return false
	}
	if len(t.Postings) != len(t2.Postings) {
		return false
	}
	for i, s''', '''	if !t.Posted.Equal(t2.Posted) || t.Code != t2.Code || len(t.Postings) != len(t2.Postings) {
		return false
	}
	for i, s''')]),
dict(id='tx-less', edits=[('transaction.go', '''	return transactions[i].Posted.Before(transactions[j].Posted) ||
		(transactions[i].Posted.Equal(transactions[j].Posted) &&
			!transactions[i].HasBalanceAssertions() &&
			transactions[j].HasBalanceAssertions())
''', '''	a, b := transactions[i], transactions[j]
	if !a.Posted.Equal(b.Posted) {
		return a.Posted.Before(b.Posted)
	}
	return !a.HasBalanceAssertions() && b.HasBalanceAssertions()
''')]),
dict(id='tx-marshal', edits=[('transaction.go', '''	if t.Location() != "" {
		value["location"] = t.Location()
	}
	if len(t.Notes)''', '''	if location := t.Location(); location != "" {
		value["location"] = location
	}
	if len(t.Notes)''')]),
dict(id='parser-skip', edits=[('parser.go', '''	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case len(bytes.TrimSpace(line)) == 0:
		p.Scan()
		return p.Next(fn)
	case bytes.ContainsAny(line[:1], ";#%|*"):
		p.Scan()
		return p.Next(fn)
	case''', '''	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case len(bytes.TrimSpace(line)) == 0, bytes.ContainsAny(line[:1], ";#%|*"):
		p.Scan()
		return p.Next(fn)
	case''')]),
dict(id='parser-loop', edits=[('parser.go', '''	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case len(bytes.TrimSpace(line)) == 0:
		p.Scan()
		return p.Next(fn)
	case bytes.ContainsAny(line[:1], ";#%|*"):
		p.Scan()
		return p.Next(fn)
	case''', '''	for !p.finished && p.skippable() {
		p.Scan()
	}
	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case'''), ('parser.go', '''func (p *Parser) Next(''', '''// skippable reports whether the current line is blank or a comment.
func (p *Parser) skippable() bool {
	line := p.Bytes()
	return len(bytes.TrimSpace(line)) == 0 || bytes.ContainsAny(line[:1], ";#%|*")
}

func (p *Parser) Next(''')]),
dict(id='convert-direct', edits=[('commodity.go', '''	prices := c2.Prices[c]
	if prices != nil {
		p := prices[0]
		val := p.Value.Times(amount)
		return val, nil
	}
''', '''	if prices := c2.Prices[c]; prices != nil {
		return prices[0].Value.Times(amount), nil
	}
'''), ('commodity.go', '''		p := c2.Prices[c3][0]
		val2 := p.Value.Times(amount)
		val3, err := c.convert(val2, c3, append(previous, c2))
		if err == nil {
			return val3, nil
		}
''', '''		intermediate := c2.Prices[c3][0].Value.Times(amount)
		if result, err := c.convert(intermediate, c3, append(previous, c2)); err == nil {
			return result, nil
		}
''')]),
dict(id='safeid', edits=[('commodity.go', '''	if ledger {
		if c.quotedId == "" {
			c.quotedId = c.Id
			if strings.ContainsAny(c.Id, disallowed) {
				c.quotedId = `"` + c.Id + `"`
			}
		}
		return c.quotedId
	}
	return c.Id
''', '''	if !ledger {
		return c.Id
	}
	if c.quotedId == "" {
		if strings.ContainsAny(c.Id, disallowed) {
			c.quotedId = `"` + c.Id + `"`
		} else {
			c.quotedId = c.Id
		}
	}
	return c.quotedId
''')]),
dict(id='currencies-slices', edits=[('commodity.go', '''	for _, c2 := range list {
		if c == c2 {
			return true
		}
	}
	return false
''', '''	return slices.Contains(list, c)
'''), ('commodity.go', '''	"math/big"
	"sort"
''', '''	"math/big"
	"slices"
	"sort"
''')]),
]
