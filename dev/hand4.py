# Hand-written refactorings that keep the behaviour: rules, dates, tags, prices, commodities, gnucash, generators
RU='rules.go'; D='date.go'; TG='tags.go'; PR='price.go'; IN='include.go'; TE='test.go'; CO='commodity.go'; PO='posting.go'; PW='pow10.go'
GA='gnucash/account.go'; GG='gnucash/gnucash.go'; GP='gnucash/price.go'; GS='gnucash/split.go'; GT='gnucash/transaction.go'; GC='cmd/gc2coin/main.go'
ND='cmd/gen2coin/dates.go'; NM='cmd/gen2coin/main.go'; NR='cmd/gen2coin/rule.go'; CT='cmd/coin/test.go'; CMN='cmd/coin/main.go'
R=[
dict(id='rules-first', edits=[(RU,'''func (ars *AccountRules) RuleFor(payee string) *Rule {
	for _, r := range ars.Rules {
		if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	return nil
}
''','''func (ars *AccountRules) RuleFor(payee string) *Rule {
	return firstMatch(ars.Rules, payee)
}

// firstMatch returns the first of the rules that applies to the payee, if any.
func firstMatch(rules []Rules, payee string) *Rule {
	for _, r := range rules {
		if match := r.RuleFor(payee); match != nil {
			return match
		}
	}
	return nil
}
'''),(RU,'''func (rs *RuleSet) RuleFor(payee string) *Rule {
	for _, r := range rs.Rules {
		if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	return nil
}
''','''func (rs *RuleSet) RuleFor(payee string) *Rule {
	return firstMatch(rs.Rules, payee)
}
''')]),
dict(id='rules-accountrules', edits=[(RU,'''	ars := rs.Accounts[acctId]
	if ars != nil {
		return ars
	}
	account''','''	if ars, ok := rs.Accounts[acctId]; ok && ars != nil {
		return ars
	}
	account''')]),
dict(id='rules-write', edits=[(RU,'''	var accounts []*AccountRules
	ids := map[*AccountRules]string{}
	var max int
	for id, ars := range rs.Accounts {
		ids[ars] = id
		accounts = append(accounts, ars)
		if len(id) > max {
			max = len(id)
		}
	}
''','''	width := 0
	ids := make(map[*AccountRules]string, len(rs.Accounts))
	accounts := make([]*AccountRules, 0, len(rs.Accounts))
	for id, ars := range rs.Accounts {
		accounts = append(accounts, ars)
		ids[ars] = id
		width = max(width, len(id))
	}
'''),(RU,'''		id := ids[ars]
		if _, err := fmt.Fprintf(w, "%-*s %s\\n", max, id, ars.Account.FullName); err != nil {
			return err
		}
''','''		_, err := fmt.Fprintf(w, "%-*s %s\\n", width, ids[ars], ars.Account.FullName)
		if err != nil {
			return err
		}
''')]),
dict(id='rules-writerules', edits=[(RU,'''	var max int
	for _, r := range rules {
		if l := len(r.Name()); l > max {
			max = l
		}
	}
	for _, r := range rules {
		if err := r.Write(w, max); err != nil {
			return err
		}
	}
	return nil
''','''	width := 0
	for _, r := range rules {
		width = max(width, len(r.Name()))
	}
	for _, r := range rules {
		err := r.Write(w, width)
		if err != nil {
			return err
		}
	}
	return nil
''')]),
dict(id='rules-scan-early', edits=[(RU,'''		match := headerRE.FindSubmatch(line)
		if match != nil {
''','''		match := headerRE.FindSubmatch(line)
		if match == nil {
			if !s.Scan() {
				return ri, s.Err()
			}
			line = bytes.TrimSpace(s.Bytes())
			continue
		}
		{
'''),(RU,'''			setRules(rules)
		} else {
			if !s.Scan() {
				return ri, s.Err()
			}
			line = bytes.TrimSpace(s.Bytes())
		}
''','''			setRules(rules)
		}
''')]),
dict(id='rules-scan-vars', edits=[(RU,'''				if len(match[1]) > 0 {
					var account *Account
					if string(match[1]) != "--" {
						account = MustFindAccount(string(match[1]))
					}
					lastRule = &Rule{
						Account: account,
						Regexp:  regexp.MustCompile(string(match[3]))}
					rules = append(rules, lastRule)
				} else if len(match[4]) > 0 {
					r := ri.SetsByName[string(match[4])]
					if r == nil {
						panic(fmt.Errorf("invalid rule set ref: %s", string(match[4])))
					}
					rules = append(rules, r)
					lastRule = nil
				} else if lastRule != nil {
					lastRule.Notes = append(lastRule.Notes, string(match[5]))
				}
''','''				pattern, set, note := string(match[1]), string(match[4]), string(match[5])
				switch {
				case pattern != "":
					lastRule = newRule(pattern, string(match[3]))
					rules = append(rules, lastRule)
				case set != "":
					r := ri.SetsByName[set]
					if r == nil {
						panic(fmt.Errorf("invalid rule set ref: %s", set))
					}
					rules = append(rules, r)
					lastRule = nil
				case lastRule != nil:
					lastRule.Notes = append(lastRule.Notes, note)
				}
'''),(RU,'''func stringify(''','''func newRule(account, payee string) *Rule {
	r := &Rule{}
	if account != "--" {
		r.Account = MustFindAccount(account)
	}
	r.Regexp = regexp.MustCompile(payee)
	return r
}

func stringify(''')]),
dict(id='date-switch', edits=[(D,'''		e := len(offset) - 1
		o, _ := strconv.Atoi(offset[:e])
		switch offset[e] {
		case 'd':
			t = t.AddDate(0, 0, o)
		case 'w':
			t = t.AddDate(0, 0, o*7)
		case 'm':
			t = t.AddDate(0, o, 0)
		case 'y':
			t = t.AddDate(o, 0, 0)
		}
	}
	return t, nil
''','''		t = addOffset(t, offset)
	}
	return t, nil
'''),(D,'''func parseDate(''','''func addOffset(t time.Time, offset string) time.Time {
	last := len(offset) - 1
	n, _ := strconv.Atoi(offset[:last])
	switch unit := offset[last]; unit {
	case 'd':
		return t.AddDate(0, 0, n)
	case 'w':
		return t.AddDate(0, 0, 7*n)
	case 'm':
		return t.AddDate(0, n, 0)
	case 'y':
		return t.AddDate(n, 0, 0)
	}
	return t
}

func parseDate(''')]),
dict(id='date-year', edits=[(D,'''			yyy, _ := strconv.Atoi(yy)
			if yyy < 100 {
				yyy = y/1000*1000 + yyy
				if yyy < y && y-yyy > 50 {
					yyy += 100
				} else if yyy > y && yyy-y > 50 {
					yyy -= 100
				}
				y = yyy
			} else {
				y = yyy
			}
''','''			year, _ := strconv.Atoi(yy)
			if year < 100 {
				year += y / 1000 * 1000
				switch {
				case y-year > 50:
					year += 100
				case year-y > 50:
					year -= 100
				}
			}
			y = year
''')]),
dict(id='date-month', edits=[(D,'''			if mm < m && m-mm > 6 {
				y += 1
			} else if m < mm && mm-m > 6 {
				y -= 1
			}
''','''			if m-mm > 6 {
				y++
			} else if mm-m > 6 {
				y--
			}
''')]),
dict(id='date-valid', edits=[(D,'''	t = time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
	if t.Month() != time.Month(m) || t.Day() != d {
''','''	month := time.Month(m)
	t = time.Date(y, month, d, 12, 0, 0, 0, time.UTC)
	if t.Day() != d || t.Month() != month {
''')]),
dict(id='date-set', edits=[(D,'''	match := DateREX.Match([]byte(s))
	if match == nil || match["date"] != s {
		return fmt.Errorf("invalid date: %s", s)
	}
	d.Time, err = parseDate(match, 0)
	return err
''','''	match := DateREX.Match([]byte(s))
	if match != nil && match["date"] == s {
		d.Time, err = parseDate(match, 0)
		return err
	}
	return fmt.Errorf("invalid date: %s", s)
''')]),
dict(id='tags-maps', edits=[(TG,'''	tags := make(Tags)
	for k, v := range t {
		tags[k] = v
	}
	for k, v := range t2 {
		tags[k] = v
	}
	return tags
''','''	both := make(Tags, len(t)+len(t2))
	for _, tags := range []Tags{t, t2} {
		for k, v := range tags {
			both[k] = v
		}
	}
	return both
''')]),
dict(id='tags-mapcopy', edits=[(TG,'''	tags := make(Tags)
	for k, v := range t {
		tags[k] = v
	}
	for k, v := range t2 {
		tags[k] = v
	}
	return tags
''','''	tags := make(Tags)
	maps.Copy(tags, t)
	maps.Copy(tags, t2)
	return tags
'''),(TG,'''import (
''','''import (
	"maps"
''')]),
dict(id='tags-kv', edits=[(TG,'''		if v == "" {
			kvs = append(kvs, k)
		} else {
			kvs = append(kvs, k+":"+v)
		}
''','''		kv := k
		if v != "" {
			kv += ":" + v
		}
		kvs = append(kvs, kv)
''')]),
dict(id='tags-nil', edits=[(TG,'''	if t == nil {
		return false
	}
	_, ok := t[key]
	return ok
''','''	_, ok := t[key]
	return ok
'''),(TG,'''	if t == nil {
		return ""
	}
	return t[key]
''','''	return t[key]
''')]),
dict(id='tags-match', edits=[(TG,'''		if match := m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)); match && !m.inverted || !match && m.inverted {
			return true
		}
''','''		match := m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v))
		if match != m.inverted {
			return true
		}
''')]),
dict(id='tags-newmatcher', edits=[(TG,'''	inverted := false
	if exp[0] == '!' {
		inverted = true
		exp = exp[1:]
	}
	parts := strings.SplitN(exp, ":", 2)
	var key, value *regexp.Regexp
	key = regexp.MustCompile("(?i)" + parts[0])
	if len(parts) > 1 {
		value = regexp.MustCompile("(?i)" + parts[1])
	}
	return &TagMatcher{Key: key, Value: value, inverted: inverted}
''','''	m := &TagMatcher{}
	exp, m.inverted = strings.CutPrefix(exp, "!")
	key, value, hasValue := strings.Cut(exp, ":")
	m.Key = regexp.MustCompile("(?i)" + key)
	if hasValue {
		m.Value = regexp.MustCompile("(?i)" + value)
	}
	return m
''')]),
dict(id='tags-parse', edits=[(TG,'''		for _, match := range tagREX.FindAllStringSubmatch(line, -1) {
			key, value := match[tagREXKey], match[tagREXValue]
			tags[key] = value
		}
''','''		for _, m := range tagREX.FindAllStringSubmatch(line, -1) {
			tags[m[tagREXKey]] = m[tagREXValue]
		}
''')]),
dict(id='price-write', edits=[(PR,'''	date := p.Time.Format(DateFormat)
	_, err := io.WriteString(w, "P "+date+" "+p.Commodity.SafeId(ledger)+" ")
	if err != nil {
		return err
	}
	err = p.Value.Write(w, ledger)
	if err != nil {
		return err
	}
	_, err = io.WriteString(w, "\\n")
	return err
''','''	_, err := fmt.Fprintf(w, "P %s %s ", p.Time.Format(DateFormat), p.Commodity.SafeId(ledger))
	if err != nil {
		return err
	}
	if err := p.Value.Write(w, ledger); err != nil {
		return err
	}
	_, err = fmt.Fprintln(w)
	return err
''')]),
dict(id='price-parse', edits=[(PR,'''	date := mustParseDate(match, 0)
	currencyId := string(match["commodity2"])
	line := p.lineNr
	location := fmt.Sprintf("%s:%d", fn, line)
	c := MustFindCommodity(currencyId, location)
	amt, err := parseAmount(match["amount"], c)
	if err != nil {
		return nil, err
	}
	commodityId := string(match["commodity1"])
	p.Scan() // advance to next line before returning
	return &Price{
		Time:        date,
		Value:       amt,
		CommodityId: commodityId,
		currencyId:  currencyId,
		line:        line,
		file:        fn,
	}, nil
''','''	price := &Price{
		Time:        mustParseDate(match, 0),
		CommodityId: match["commodity1"],
		currencyId:  match["commodity2"],
		line:        p.lineNr,
		file:        fn,
	}
	var err error
	price.Value, err = parseAmount(match["amount"], MustFindCommodity(price.currencyId, price.Location()))
	if err != nil {
		return nil, err
	}
	p.Scan() // advance to next line before returning
	return price, nil
''')]),
dict(id='price-parse2', edits=[(PR,'''	location := fmt.Sprintf("%s:%d", fn, line)
	c := MustFindCommodity(currencyId, location)
	amt, err := parseAmount(match["amount"], c)
	if err != nil {
		return nil, err
	}
	commodityId := string(match["commodity1"])
	p.Scan() // advance to next line before returning
	return &Price{
		Time:        date,
		Value:       amt,
		CommodityId: commodityId,
''','''	currency := MustFindCommodity(currencyId, fmt.Sprintf("%s:%d", fn, line))
	value, err := parseAmount(match["amount"], currency)
	if err != nil {
		return nil, err
	}
	p.Scan() // advance to next line before returning
	return &Price{
		Time:        date,
		Value:       value,
		CommodityId: match["commodity1"],
''')]),
dict(id='include-switch', edits=[(IN,'''	var resolved string
	if i.Path[0] == '/' {
		resolved = "." + i.Path
	} else if i.Path[0] == '$' {
		resolved = i.Path
	} else {
		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
	}
	resolved = os.ExpandEnv(resolved)
	return filepath.Glob(resolved)
''','''	return filepath.Glob(os.ExpandEnv(i.pattern()))
}

func (i *Include) pattern() string {
	switch i.Path[0] {
	case '/':
		return "." + i.Path
	case '$':
		return i.Path
	default:
		return filepath.Join(filepath.Dir(i.file), i.Path)
	}
''')]),
dict(id='test-parse', edits=[(TE,'''	var b bytes.Buffer
	for p.Scan() {
		if bytes.Equal((bytes.TrimSpace(p.Bytes())), []byte("end test")) {
			t.Result = b.Bytes()
			p.Scan()
			return t, nil
		}
		b.Write(p.Bytes())
		fmt.Fprintln(&b)
	}
''','''	var b bytes.Buffer
	for p.Scan() {
		line := p.Bytes()
		if string(bytes.TrimSpace(line)) == "end test" {
			t.Result = b.Bytes()
			p.Scan()
			return t, nil
		}
		b.Write(line)
		b.WriteByte('\\n')
	}
''')]),
dict(id='com-string', edits=[(CO,'''	var prices []string
	for _, cur := range c.Currencies() {
		c, p := cur, c.Prices[cur]
		format := "%s %a %s [%d]"
		if c.Decimals > 0 {
			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
		}
		prices = append(prices,
			fmt.Sprintf(format,
				p[0].Time.Format(DateFormat),
				p[0].Value,
				c.Id,
				len(p)))
	}
''','''	var prices []string
	for _, currency := range c.Currencies() {
		all := c.Prices[currency]
		latest := all[0]
		format := "%s %a %s [%d]"
		if d := currency.Decimals; d > 0 {
			format = fmt.Sprintf("%%s %%.%da %%s [%%d]", d)
		}
		date := latest.Time.Format(DateFormat)
		prices = append(prices, fmt.Sprintf(format, date, latest.Value, currency.Id, len(all)))
	}
'''),(CO,'''	"strconv"
''','')]),
dict(id='com-write', edits=[(CO,'''	lines := []string{"commodity ", c.SafeId(ledger), "\\n"}
	if c.Name != "" {
		lines = append(lines, "  note ", c.Name, "\\n")
	}
	lines = append(lines, "  format ", format, " ", c.SafeId(ledger), "\\n")
	if c.NoMarket {
		lines = append(lines, "  nomarket\\n")
	}
	if c.Symbol != "" && !ledger {
		lines = append(lines, "  symbol ", c.Symbol, "\\n")
	}
	for _, line := range lines {
		_, err := io.WriteString(w, line)
		if err != nil {
			return err
		}
	}
	return nil
''','''	id := c.SafeId(ledger)
	var b strings.Builder
	fmt.Fprintf(&b, "commodity %s\\n", id)
	if c.Name != "" {
		fmt.Fprintf(&b, "  note %s\\n", c.Name)
	}
	fmt.Fprintf(&b, "  format %s %s\\n", format, id)
	if c.NoMarket {
		b.WriteString("  nomarket\\n")
	}
	if c.Symbol != "" && !ledger {
		fmt.Fprintf(&b, "  symbol %s\\n", c.Symbol)
	}
	_, err := io.WriteString(w, b.String())
	return err
''')]),
dict(id='com-parse-switch', edits=[(CO,'''		if n := match["note"]; n != "" {
			c.Name = n
		} else if match["amount"] != "" {
			if f := match["decimals"]; len(f) == 0 {
				c.Decimals = 0
			} else {
				c.Decimals = len(f) - 1
			}
		} else if match["nomarket"] != "" {
			c.NoMarket = true
		} else if s := match["symbol"]; s != "" {
			c.Symbol = s
		} else if match["default"] != "" {
			DefaultCommodityId = c.Id
		} else {
			return c, fmt.Errorf("%s - failed to match commodity line: %s", c.Location(), p.Text())
		}
''','''		switch {
		case match["note"] != "":
			c.Name = match["note"]
		case match["amount"] != "":
			c.Decimals = 0
			if decimals := match["decimals"]; decimals != "" {
				c.Decimals = len(decimals) - 1 // without the decimal point
			}
		case match["nomarket"] != "":
			c.NoMarket = true
		case match["symbol"] != "":
			c.Symbol = match["symbol"]
		case match["default"] != "":
			DefaultCommodityId = c.Id
		default:
			return c, fmt.Errorf("%s - failed to match commodity line: %s", c.Location(), p.Text())
		}
''')]),
dict(id='com-includedin', edits=[(CO,'''	for _, c2 := range list {
		if c == c2 {
			return true
		}
	}
	return false
''','''	return slices.Contains(list, c)
'''),(CO,'''	"regexp"
''','''	"regexp"
	"slices"
''') if False else (CO,'''	"strings"
''','''	"slices"
	"strings"
''')]),
dict(id='com-convert', edits=[(CO,'''	prices := c2.Prices[c]
	if prices != nil {
		p := prices[0]
		val := p.Value.Times(amount)
		return val, nil
	}
''','''	if prices := c2.Prices[c]; prices != nil {
		return prices[0].Value.Times(amount), nil
	}
'''),(CO,'''		p := c2.Prices[c3][0]
		val2 := p.Value.Times(amount)
		val3, err := c.convert(val2, c3, append(previous, c2))
		if err == nil {
			return val3, nil
		}
''','''		intermediate := c2.latestPrice(c3).Value.Times(amount)
		if converted, err := c.convert(intermediate, c3, append(previous, c2)); err == nil {
			return converted, nil
		}
'''),(CO,'''func (c *Commodity) NewAmountFloat''','''func (c *Commodity) latestPrice(currency *Commodity) *Price {
	return c.Prices[currency][0]
}

func (c *Commodity) NewAmountFloat''')]),
dict(id='post-isequal', edits=[(PO,'''	return s.Account == s2.Account &&
		s.Quantity.Commodity == s2.Quantity.Commodity &&
		s.Quantity.IsEqual(s2.Quantity)
''','''	if s.Account != s2.Account {
		return false
	}
	q, q2 := s.Quantity, s2.Quantity
	return q.Commodity == q2.Commodity && q.IsEqual(q2)
''')]),
dict(id='post-moveto', edits=[(PO,'''	if p.Account == a {
		return
	}
	p.Account.deletePosting(p)
	a.addPosting(p)
	p.Account = a
''','''	if old := p.Account; old != a {
		old.deletePosting(p)
		p.Account = a
		a.addPosting(p)
	}
''')]),
dict(id='post-write', edits=[(PO,'''	err := writeStrings(w, nil, line, "\\n")
	if err != nil {
		return err
	}
	for _, n := range notes {
		err := writeStrings(w, nil, "    ; ", n, "\\n")
		if err != nil {
			return err
		}
	}
	return nil
''','''	err := writeStrings(w, nil, line, "\\n")
	for _, n := range notes {
		err = writeStrings(w, err, "    ; ", n, "\\n")
	}
	return err
''')]),
dict(id='pow-init', edits=[(PW,'''	bigPow10s = make([]*big.Int, 50)
	prev := big1
	for i := range bigPow10s {
		next := new(big.Int)
		next.Mul(prev, big10)
		bigPow10s[i] = next
		prev = next
	}
''','''	bigPow10s = make([]*big.Int, 50)
	p := big1
	for i := range bigPow10s {
		p = new(big.Int).Mul(p, big10)
		bigPow10s[i] = p
	}
''')]),
dict(id='pow-init2', edits=[(PW,'''	x := int64(10)
	for i := range log10s {
		log10s[i] = x
		x = x * 10
	}
''','''	x := int64(1)
	for i := range log10s {
		x *= 10
		log10s[i] = x
	}
''')]),
dict(id='gnc-name', edits=[(GA,'''	var name string
	if a.Name == "Root Account" {
		name = "Root"
	} else {
		name = strings.Replace(a.Name, " ", "", -1)
	}
''','''	name := strings.ReplaceAll(a.Name, " ", "")
	if a.Name == "Root Account" {
		name = "Root"
	}
''')]),
dict(id='gnc-split-resolve', edits=[(GA,'''	// Link parents and children.
	for a, guid := range AccountParentGuids {
		a.Parent = mustFindAccount(guid)
		a.Parent.Children = append(a.Parent.Children, a)
	}

	// Sort children.
	for _, a := range AccountsByGuid {
''','''	linkAccounts()
	sortAccounts()
}

// Link parents and children.
func linkAccounts() {
	for a, guid := range AccountParentGuids {
		parent := mustFindAccount(guid)
		a.Parent = parent
		parent.Children = append(parent.Children, a)
	}
}

// Sort children.
func sortAccounts() {
	for _, a := range AccountsByGuid {
''')]),
dict(id='gnc-commodity', edits=[(GA,'''		if gca.CommodityId != "" {
			a.Commodity = coin.MustFindCommodity(gca.CommodityId, "gnucash account")
		} else {
			a.Commodity = coin.DefaultCommodity()
		}
''','''		a.Commodity = gca.commodity()
'''),(GA,'''func isRoot(''','''func (a *Account) commodity() *coin.Commodity {
	if a.CommodityId == "" {
		return coin.DefaultCommodity()
	}
	return coin.MustFindCommodity(a.CommodityId, "gnucash account")
}

func isRoot(''')]),
dict(id='gnc-fullname', edits=[(GA,'''	if a.FullName != "" {
		return a.FullName
	}
	if isRoot(a) || isRoot(a.Parent) {
		a.FullName = a.Name
	} else {
		a.FullName = buildFullName(a.Parent) + ":" + a.Name
	}
	return a.FullName
''','''	if a.FullName == "" {
		a.FullName = a.Name
		if !isRoot(a) && !isRoot(a.Parent) {
			a.FullName = buildFullName(a.Parent) + ":" + a.Name
		}
	}
	return a.FullName
''')]),
dict(id='gnc-load', edits=[(GG,'''	var db Gnucash
	file, err := os.Open(fn)
	if err != nil {
		panic(fmt.Errorf("%s: %s", fn, err))
	}
	defer file.Close()

	r, err := gzip.NewReader(file)
	if err != nil {
		panic(fmt.Errorf("%s: %s", fn, err))
	}

	d := xml.NewDecoder(r)
	err = d.Decode(&db)
	if err != nil {
		panic(err)
	}
	db.Book.Resolve()
	return &(db.Book)
''','''	file, err := os.Open(fn)
	if err != nil {
		panic(fmt.Errorf("%s: %w", fn, err))
	}
	defer file.Close()

	r, err := gzip.NewReader(file)
	if err != nil {
		panic(fmt.Errorf("%s: %w", fn, err))
	}

	db := new(Gnucash)
	if err := xml.NewDecoder(r).Decode(db); err != nil {
		panic(err)
	}
	book := &db.Book
	book.Resolve()
	return book
''')]),
dict(id='gnc-amount', edits=[(GG,'''	values := strings.Split(f, "/")
	if len(values) != 2 {
		panic("invalid fraction: " + f)
	}
''','''	values := strings.Split(f, "/")
	if n := len(values); n < 2 || n > 2 {
		panic("invalid fraction: " + f)
	}
''')]),
dict(id='gnc-prices', edits=[(GP,'''		p := &coin.Price{}
		p.Commodity = coin.Commodities[gp.CommodityId]
		p.Currency = coin.Commodities[gp.CurrencyId]
		p.Value = mustParseAmount(gp.ValueFraction, p.Currency)
		p.Time = mustParseTimeStamp(gp.Date)
		p.Commodity.Prices[p.Currency] =
			append(p.Commodity.Prices[p.Currency], p)
		coin.Prices = append(coin.Prices, p)
''','''		commodity, currency := coin.Commodities[gp.CommodityId], coin.Commodities[gp.CurrencyId]
		p := &coin.Price{
			Commodity: commodity,
			Currency:  currency,
			Value:     mustParseAmount(gp.ValueFraction, currency),
			Time:      mustParseTimeStamp(gp.Date),
		}
		commodity.Prices[currency] = append(commodity.Prices[currency], p)
		coin.Prices = append(coin.Prices, p)
''')]),
dict(id='gnc-splits', edits=[(GS,'''		s := &coin.Posting{Transaction: t}
		if n := gs.Memo; len(n) > 0 {
			s.Notes = []string{n}
		}
		t.Postings = append(t.Postings, s)
		s.Account = mustFindAccount(gs.AccountGuid)
		s.Account.Postings = append(s.Account.Postings, s)
		s.Quantity = mustParseAmount(gs.QuantityFraction, s.Account.Commodity)
''','''		account := mustFindAccount(gs.AccountGuid)
		s := &coin.Posting{
			Transaction: t,
			Account:     account,
			Quantity:    mustParseAmount(gs.QuantityFraction, account.Commodity),
		}
		if gs.Memo != "" {
			s.Notes = append(s.Notes, gs.Memo)
		}
		t.Postings = append(t.Postings, s)
		account.Postings = append(account.Postings, s)
''')]),
dict(id='gnc-tx', edits=[(GT,'''		ds := strings.SplitN(gt.Description, " - ", 2)
		t := &coin.Transaction{
			Code:        gt.Num,
			Description: ds[0],
		}
		if len(ds) == 2 && len(ds[1]) > 0 {
			t.Notes = []string{ds[1]}
		}
		t.Posted = mustParseTimeStamp(gt.PostedStamp)
''','''		description, note, _ := strings.Cut(gt.Description, " - ")
		t := &coin.Transaction{
			Code:        gt.Num,
			Description: description,
			Posted:      mustParseTimeStamp(gt.PostedStamp),
		}
		if note != "" {
			t.Notes = []string{note}
		}
''')]),
dict(id='gc-check', edits=[(GC,'''		err := c.Write(f, *ledger)
		if err != nil {
			panic(err)
		}
		_, err = io.WriteString(f, "\\n")
		if err != nil {
			panic(err)
		}
	})

	// Assume''','''		must(c.Write(f, *ledger))
		_, err := io.WriteString(f, "\\n")
		must(err)
	})

	// Assume'''),(GC,'''func next(''','''func must(err error) {
	if err != nil {
		panic(err)
	}
}

func next(''')]),
dict(id='gc-phase', edits=[(GC,'''	f, done = next(coin.AccountsFilename)
	defer done()
	coin.AccountsDo(func(a *coin.Account) {
		err := a.Write(f, *ledger)
		if err != nil {
			panic(err)
		}
		_, err = io.WriteString(f, "\\n")
		if err != nil {
			panic(err)
		}
	})

''','''	writeAccounts()

'''),(GC,'''func main() {''','''func writeAccounts() {
	f, done := next(coin.AccountsFilename)
	defer done()
	coin.AccountsDo(func(a *coin.Account) {
		if err := a.Write(f, *ledger); err != nil {
			panic(err)
		}
		if _, err := io.WriteString(f, "\\n"); err != nil {
			panic(err)
		}
	})
}

func main() {''')]),
dict(id='gen-pick', edits=[(ND,'''				// random picks, each day can only be picked once
				var candidates []time.Weekday
				candidates = append(candidates, picks...)
				picks = nil
				for i := 0; i < count && len(candidates) > 0; i++ {
					offset := rnd.Intn(len(candidates))
					pick := candidates[offset]
					// drop the pick from candidates
					copy(candidates[offset:], candidates[offset+1:])
					candidates = candidates[:len(candidates)-1]
					picks = append(picks, pick)
				}
				sort''','''				picks = pickRandom(count, picks)
				sort'''),(ND,'''				// random picks, each day can only be picked once
				var candidates []int
				candidates = append(candidates, picks...)
				picks = nil
				for i := 0; i < count && len(candidates) > 0; i++ {
					offset := rnd.Intn(len(candidates))
					pick := candidates[offset]
					// drop the pick from candidates
					copy(candidates[offset:], candidates[offset+1:])
					candidates = candidates[:len(candidates)-1]
					picks = append(picks, pick)
				}
''','''				picks = pickRandom(count, picks)
'''),(ND,'''var mDays =''','''// pickRandom picks count random items, each can only be picked once
func pickRandom[T any](count int, items []T) (picks []T) {
	candidates := append([]T(nil), items...)
	for i := 0; i < count && len(candidates) > 0; i++ {
		offset := rnd.Intn(len(candidates))
		picks = append(picks, candidates[offset])
		// drop the pick from candidates
		copy(candidates[offset:], candidates[offset+1:])
		candidates = candidates[:len(candidates)-1]
	}
	return picks
}

var mDays =''')]),
dict(id='gen-range', edits=[(ND,'''				pick := current.AddDate(0, 0, int(pick))
				if !(end.Before(pick) || pick.Before(begin)) {
					dates = append(dates, pick)
				}
''','''				date := current.AddDate(0, 0, int(pick))
				if pick := date; !pick.Before(begin) && !end.Before(pick) {
					dates = append(dates, date)
				}
''')]),
dict(id='gen-batches', edits=[(NM,'''	var batch samples
	previous := labeler(transactions[0].Posted)
	for _, t := range transactions {
		next := labeler(t.Posted)
		if previous == next {
			batch = append(batch, t)
		} else {
			batches[previous] = batch
			previous = next
			batch = samples{t}
		}
	}
	// add the last batch
	batches[previous] = batch
	return batches
''','''	var batch samples
	current := labeler(transactions[0].Posted)
	for _, t := range transactions {
		if label := labeler(t.Posted); label != current {
			batches[current] = batch
			current, batch = label, nil
		}
		batch = append(batch, t)
	}
	// add the last batch
	batches[current] = batch
	return batches
''')]),
dict(id='gen-amount', edits=[(NR,'''	var amt *coin.Amount
	switch account {
	case FROM_BALANCE:
		amt = from.Balance().Negated()
	case TO_BALANCE:
		amt = to.Balance().Negated()
	default:
		panic(fmt.Errorf("invalid constant: %d", account))
	}
	amt.Div(amt.Int, big.NewInt(int64(divisor)))
	return amt
''','''	source := from
	if account == TO_BALANCE {
		source = to
	} else if account != FROM_BALANCE {
		panic(fmt.Errorf("invalid constant: %d", account))
	}
	amt := source.Balance().Negated()
	amt.Div(amt.Int, big.NewInt(int64(divisor)))
	return amt
''')]),
dict(id='gen-pow', edits=[(NR,'''	bitMask := 1
	pow := int64(base)
	res = 1
	for bitMask <= exp {
		if bitMask&exp != 0 {
			res *= pow
		}
		pow *= pow
		bitMask <<= 1
	}
	return res
''','''	res = 1
	square := int64(base)
	for bit := 1; bit <= exp; bit <<= 1 {
		if exp&bit != 0 {
			res *= square
		}
		square *= square
	}
	return res
''')]),
dict(id='gen-post', edits=[(NR,'''	check.NoError(to.Balance().AddIn(amt), "failed to update balance")
	check.NoError(from.Balance().AddIn(amt.Negated()), "failed to update balance")
''','''	err := to.Balance().AddIn(amt)
	check.NoError(err, "failed to update balance")
	err = from.Balance().AddIn(amt.Negated())
	check.NoError(err, "failed to update balance")
''')]),
dict(id='test-run', edits=[(CT,'''		var args []string
		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
		scanner.Split(bufio.ScanWords)
		for scanner.Scan() {
			args = append(args, scanner.Text())
		}
		if''','''		args := words(t.Cmd)
		if'''),(CT,'''func file(''','''func words(s string) (words []string) {
	scanner := bufio.NewScanner(strings.NewReader(s))
	scanner.Split(bufio.ScanWords)
	for scanner.Scan() {
		words = append(words, scanner.Text())
	}
	return words
}

func file(''')]),
dict(id='test-parse-args', edits=[(CT,'''		if len(args) > 1 {
			command.Parse(args[1:])
		} else {
			command.Parse(nil)
		}
''','''		command.Parse(args[1:])
''')]),
dict(id='test-compare', edits=[(CT,'''		var b bytes.Buffer
		command.execute(&b)
		// If the test result is empty, update the test file
		// once we collect all the tests to be updated
		if len(t.Result) == 0 {
			t.Result = b.Bytes()
			toUpdate = append(toUpdate, t)
			continue
		}
		if bytes.Equal(b.Bytes(), t.Result) {
			if cmd.verbose {
				fmt.Fprintf(f, "OK %s %s\\n", t.Location(), t.Cmd)
			}
			continue
		}
		success = false
''','''		var b bytes.Buffer
		command.execute(&b)
		output := b.Bytes()
		// If the test result is empty, update the test file
		// once we collect all the tests to be updated
		if len(t.Result) == 0 {
			t.Result = output
			toUpdate = append(toUpdate, t)
			continue
		}
		if bytes.Equal(t.Result, output) {
			if cmd.verbose {
				fmt.Fprintf(f, "OK %s %s\\n", t.Location(), t.Cmd)
			}
			continue
		}
		success = false
''')]),
dict(id='main-args', edits=[(CMN,'''	if len(os.Args) > 2 {
		cmd.Parse(os.Args[2:])
	} else {
		cmd.Parse(nil)
	}
	cmd.init()
''','''	var args []string
	if len(os.Args) > 2 {
		args = os.Args[2:]
	}
	cmd.Parse(args)
	cmd.init()
''')]),
dict(id='main-usage', edits=[(CMN,'''	if cmd == nil {
		if cmdArg != "-h" {
			fmt.Fprintf(os.Stderr, "Unknown command %s\\n", cmdArg)
		}
		fmt.Fprintln(os.Stderr, "Usage: coin [cmd] ...")
		for _, c := range commands {
			fmt.Fprintf(os.Stderr, "\\nCommand ")
			c.Usage()
		}
		os.Exit(1)
	}
''','''	if cmd == nil {
		usage(cmdArg)
	}
'''),(CMN,'''func main() {''','''func usage(arg string) {
	if arg != "-h" {
		fmt.Fprintf(os.Stderr, "Unknown command %s\\n", arg)
	}
	fmt.Fprintln(os.Stderr, "Usage: coin [cmd] ...")
	for _, c := range commands {
		fmt.Fprint(os.Stderr, "\\nCommand ")
		c.Usage()
	}
	os.Exit(1)
}

func main() {''')]),
]
