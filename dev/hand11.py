R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
T="transaction.go"; G="tags.go"; D="date.go"; P="posting.go"; E="test.go"
r("t-less-if",(T,'''	return transactions[i].Posted.Before(transactions[j].Posted) ||
		(transactions[i].Posted.Equal(transactions[j].Posted) &&
			!transactions[i].HasBalanceAssertions() &&
			transactions[j].HasBalanceAssertions())
''','''	a, b := transactions[i], transactions[j]
	if !a.Posted.Equal(b.Posted) {
		return a.Posted.Before(b.Posted)
	}
	return b.HasBalanceAssertions() && !a.HasBalanceAssertions()
'''))
r("t-day",(T,'''	total := len(transactions)
	start := sort.Search(total, func(i int) bool {
		return !transactions[i].Posted.Before(day)
	})
	if start == total {
		return nil
	}
	total = total - start
	count := sort.Search(total, func(i int) bool {
		return transactions[start+i].Posted.After(day)
	})
	return transactions[start : start+count]
''','''	start := sort.Search(len(transactions), func(i int) bool {
		return !transactions[i].Posted.Before(day)
	})
	if start == len(transactions) {
		return nil
	}
	rest := transactions[start:]
	count := sort.Search(len(rest), func(i int) bool {
		return rest[i].Posted.After(day)
	})
	return rest[:count]
'''))
r("t-includes",(T,'''	return transactions.FindEqual(t) != nil
''','''	for _, other := range transactions {
		if other.IsEqual(t) {
			return true
		}
	}
	return false
'''))
r("t-write-inline",(T,'''	notes := t.Notes
	line := t.Posted.Format(DateFormat) + " "
	if t.Code != "" {
		line += "(" + t.Code + ") "
	}
	line += t.Description
	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	}
	err''','''	line, notes := withShortNote(t.head(), t.Notes)
	err'''),(P,'''	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	}
''','''	line, notes = withShortNote(line, notes)
'''),(T,'''func (t *Transaction) Write(''','''func (t *Transaction) head() string {
	var b strings.Builder
	b.WriteString(t.Posted.Format(DateFormat))
	b.WriteByte(' ')
	if t.Code != "" {
		fmt.Fprintf(&b, "(%s) ", t.Code)
	}
	b.WriteString(t.Description)
	return b.String()
}

// withShortNote puts the first note on the line if it fits.
func withShortNote(line string, notes []string) (string, []string) {
	if len(notes) == 0 || len(line)+len(notes[0]) >= TRANSACTION_LINE_MAX-3 {
		return line, notes
	}
	return line + " ; " + notes[0], notes[1:]
}

func (t *Transaction) Write('''))
r("t-write-widths",(T,'''	maxn, maxa := 0, 0
	for _, s := range t.Postings {
		if l := len(s.Account.FullName); l > maxn {
			maxn = l
		}
		if l := s.Quantity.Width(s.Account.Commodity.Decimals); l > maxa {
			maxa = l
		}
	}
''','''	maxn, maxa := t.widths()
'''),(T,'''func (t *Transaction) Write(''','''func (t *Transaction) widths() (name, amount int) {
	for _, s := range t.Postings {
		name = max(name, len(s.Account.FullName))
		amount = max(amount, s.Quantity.Width(s.Account.Commodity.Decimals))
	}
	return name, amount
}

func (t *Transaction) Write('''))
r("t-write-notes",(T,'''	err := writeStrings(w, nil, line, "\\n")
	if err != nil {
		return err
	}
	for _, n := range notes {
		err := writeStrings(w, nil, "  ; ", n, "\\n")
		if err != nil {
			return err
		}
	}
''','''	err := writeStrings(w, nil, line, "\\n")
	if err != nil {
		return err
	}
	if err = writeNotes(w, "  ; ", notes); err != nil {
		return err
	}
'''),(P,'''	for _, n := range notes {
		err := writeStrings(w, nil, "    ; ", n, "\\n")
		if err != nil {
			return err
		}
	}
	return nil
''','''	return writeNotes(w, "    ; ", notes)
'''),(T,'''func (t *Transaction) String() string {''','''func writeNotes(w io.Writer, prefix string, notes []string) error {
	for _, note := range notes {
		if err := writeStrings(w, nil, prefix, note, "\\n"); err != nil {
			return err
		}
	}
	return nil
}

func (t *Transaction) String() string {'''))
r("t-parse-amt",(T,'''		var quantity *Amount
		var err error
		if amt := match["amount1"]; len(amt) > 0 {
			c := MustFindCommodity(match["commodity1"], t.Location())
			quantity, err = parseAmount(amt, c)
			if err != nil {
				return nil, err
			}
		}
''','''		quantity, err := parseOptionalAmount(match["amount1"], match["commodity1"], t.Location())
		if err != nil {
			return nil, err
		}
'''),(T,'''		if balance := match["amount2"]; len(balance) > 0 {
			c := MustFindCommodity(match["commodity2"], t.Location())
			s.Balance, err = parseAmount(balance, c)
			if err != nil {
				return nil, err
			}
			s.BalanceAsserted = true
		}
''','''		s.Balance, err = parseOptionalAmount(match["amount2"], match["commodity2"], t.Location())
		if err != nil {
			return nil, err
		}
		s.BalanceAsserted = s.Balance != nil
'''),(T,'''func (t *Transaction) String() string {''','''// parseOptionalAmount returns nil if there is no amount.
func parseOptionalAmount(amount, commodity, location string) (*Amount, error) {
	if amount == "" {
		return nil, nil
	}
	return parseAmount(amount, MustFindCommodity(commodity, location))
}

func (t *Transaction) String() string {'''))
r("t-parse-addnotes",(T,'''		if len(notes) > 0 {
			if s == nil {
				t.Notes = append(t.Notes, notes...)
			} else {
				s.Notes = append(s.Notes, notes...)
			}
			notes = nil
		}
''','''		flush()
'''),(T,'''	if len(notes) > 0 {
		if s == nil {
			t.Notes = append(t.Notes, notes...)
		} else {
			s.Notes = append(s.Notes, notes...)
		}
	}
	t.Tags''','''	flush()
	t.Tags'''),(T,'''	var s *Posting
	for p.Scan() {''','''	var s *Posting
	// flush adds pending notes to what precedes them
	flush := func() {
		if len(notes) == 0 {
			return
		}
		if s == nil {
			t.Notes = append(t.Notes, notes...)
		} else {
			s.Notes = append(s.Notes, notes...)
		}
		notes = nil
	}
	for p.Scan() {'''))
r("t-parse-short",(T,'''	if n := strings.TrimLeft(match["shortNote"], " \\t"); len(n) > 0 {
		t.Notes = []string{n}
	}
''','''	t.Notes = shortNotes(match)
'''),(T,'''		if n := strings.TrimLeft(match["shortNote"], " \\t"); len(n) > 0 {
			s.Notes = []string{n}
		}
''','''		s.Notes = shortNotes(match)
'''),(T,'''func (t *Transaction) String() string {''','''func shortNotes(match map[string]string) []string {
	n := strings.TrimLeft(match["shortNote"], " \\t")
	if n == "" {
		return nil
	}
	return []string{n}
}

func (t *Transaction) String() string {'''))
r("t-parse-order",(T,'''		s = &Posting{
			Transaction: t,
			accountName: match["account"],
			Quantity:    quantity,
		}
''','''		s = new(Posting)
		s.Transaction = t
		s.Quantity = quantity
		s.accountName = match["account"]
'''))
r("t-post-helper",(T,'''	sFrom := &Posting{Account: from, Transaction: t, Quantity: fromAmount, Balance: fromBalance, BalanceAsserted: fromBalance != nil}
	from.addPosting(sFrom)
	sTo := &Posting{Account: to, Transaction: t, Quantity: toAmount, Balance: toBalance, BalanceAsserted: toBalance != nil}
	to.addPosting(sTo)
	if fromAmount''','''	sFrom := t.newPosting(from, fromAmount, fromBalance)
	sTo := t.newPosting(to, toAmount, toBalance)
	if fromAmount'''),(T,'''func (t *Transaction) Other(''','''func (t *Transaction) newPosting(a *Account, amount, balance *Amount) *Posting {
	p := &Posting{
		Transaction:     t,
		Account:         a,
		Quantity:        amount,
		Balance:         balance,
		BalanceAsserted: balance != nil,
	}
	return a.addPosting(p)
}

func (t *Transaction) Other('''))
r("t-post-swap",(T,'''	if fromAmount.Sign() < 0 {
		t.Postings = append(t.Postings, sTo, sFrom)
	} else {
		t.Postings = append(t.Postings, sFrom, sTo)
	}
''','''	first, second := sFrom, sTo
	if fromAmount.Sign() < 0 {
		first, second = sTo, sFrom
	}
	t.Postings = append(t.Postings, first, second)
'''))
r("t-equal",(T,'''	if !t.Posted.Equal(t2.Posted) {
		return false
	}
	if t.Code != t2.Code {
		return false
	}
	if len(t.Postings) != len(t2.Postings) {
		return false
	}
	for i, s := range t.Postings {
		if !t2.Postings[i].IsEqual(s) {
			return false
		}
	}
	return true
''','''	return t.Code == t2.Code &&
		t.Posted.Equal(t2.Posted) &&
		slices.EqualFunc(t2.Postings, t.Postings, (*Posting).IsEqual)
'''),(T,'''	"sort"
''','''	"slices"
	"sort"
'''))
r("t-equal2",(T,'''	if !t.Posted.Equal(t2.Posted) {
		return false
	}
	if t.Code != t2.Code {
		return false
	}
	if len(t.Postings) != len(t2.Postings) {
		return false
	}
	for i, s := range t.Postings {
		if !t2.Postings[i].IsEqual(s) {
			return false
		}
	}
	return true
''','''	if t.Code != t2.Code || len(t.Postings) != len(t2.Postings) || !t.Posted.Equal(t2.Posted) {
		return false
	}
	equal := true
	for i := 0; equal && i < len(t2.Postings); i++ {
		equal = t2.Postings[i].IsEqual(t.Postings[i])
	}
	return equal
'''))
r("t-merge",(T,'''	for i, p := range t.Postings {
		if p2 := t2.Postings[i]; p.Balance == nil && p2.Balance != nil {
			p.Balance = p2.Balance
			p.BalanceAsserted = p2.BalanceAsserted
		}
	}
''','''	for i := range t.Postings {
		t.Postings[i].takeBalance(t2.Postings[i])
	}
'''),(T,'''func (t *Transaction) drop() {''','''func (p *Posting) takeBalance(other *Posting) {
	if p.Balance != nil || other.Balance == nil {
		return
	}
	p.Balance, p.BalanceAsserted = other.Balance, other.BalanceAsserted
}

func (t *Transaction) drop() {'''))
r("t-json",(T,'''	if t.Location() != "" {
		value["location"] = t.Location()
	}
	if len(t.Notes) > 0 {
		value["notes"] = t.Notes
	}
	if len(t.Code) > 0 {
		value["code"] = t.Code
	}
''','''	if t.Code != "" {
		value["code"] = t.Code
	}
	if location := t.Location(); location != "" {
		value["location"] = location
	}
	if len(t.Notes) != 0 {
		value["notes"] = t.Notes
	}
'''))
r("g-parse",(G,'''	tags := make(Tags)
	for _, line := range lines {
		for _, match := range tagREX.FindAllStringSubmatch(line, -1) {
			key, value := match[tagREXKey], match[tagREXValue]
			tags[key] = value
		}
	}
	if len(tags) == 0 {
		return nil
	}
	return tags
''','''	var tags Tags
	for _, line := range lines {
		for _, match := range tagREX.FindAllStringSubmatch(line, -1) {
			if tags == nil {
				tags = make(Tags)
			}
			tags[match[tagREXKey]] = match[tagREXValue]
		}
	}
	return tags
'''))
r("g-includes",(G,'''	if t == nil {
		return false
	}
	_, ok := t[key]
	return ok
''','''	_, found := t[key]
	return found
'''),(G,'''	if t == nil {
		return ""
	}
	return t[key]
''','''	return t[key]
'''))
r("g-keys",(G,'''	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
''','''	return slices.Sorted(maps.Keys(t))
'''),(G,'''	"sort"
''','''	"maps"
	"slices"
	"sort"
'''))
r("g-kvs",(G,'''		if v == "" {
			kvs = append(kvs, k)
		} else {
			kvs = append(kvs, k+":"+v)
		}
''','''		kv := k
		if len(v) != 0 {
			kv = strings.Join([]string{k, v}, ":")
		}
		kvs = append(kvs, kv)
'''))
r("g-with",(G,'''	tags := make(Tags)
	for k, v := range t {
		tags[k] = v
	}
	for k, v := range t2 {
		tags[k] = v
	}
	return tags
''','''	tags := make(Tags, len(t)+len(t2))
	maps.Copy(tags, t)
	maps.Copy(tags, t2)
	return tags
'''),(G,'''	"sort"
''','''	"maps"
	"sort"
'''))
r("g-with-helper",(G,'''	tags := make(Tags)
	for k, v := range t {
		tags[k] = v
	}
	for k, v := range t2 {
		tags[k] = v
	}
	return tags
''','''	tags := make(Tags, len(t)+len(t2))
	for _, source := range []Tags{t, t2} {
		for k, v := range source {
			tags[k] = v
		}
	}
	return tags
'''))
r("g-matcher",(G,'''	inverted := false
	if exp[0] == '!' {
		inverted = true
		exp = exp[1:]
	}
	parts := strings.SplitN(exp, ":", 2)
	var key, value *regexp.Regexp
	key = regexp.MustCompile("(?i)" + parts[0])
	if len(parts) > 1 {
		value = regexp.MustCompile("(?i)" + parts[1])
	}
	return &TagMatcher{Key: key, Value: value, inverted: inverted}
''','''	m := &TagMatcher{}
	exp, m.inverted = strings.CutPrefix(exp, "!")
	key, value, hasValue := strings.Cut(exp, ":")
	m.Key = regexp.MustCompile("(?i)" + key)
	if hasValue {
		m.Value = regexp.MustCompile("(?i)" + value)
	}
	return m
'''))
r("g-match",(G,'''	if tags == nil {
		return false
	}
	for k, v := range tags {
		if match := m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)); match && !m.inverted || !match && m.inverted {
			return true
		}
	}
	return false
}
''','''	for k, v := range tags {
		if m.matches(k, v) != m.inverted {
			return true
		}
	}
	return false
}

func (m *TagMatcher) matches(key, value string) bool {
	if !m.Key.MatchString(key) {
		return false
	}
	return m.Value == nil || m.Value.MatchString(value)
}
'''))
r("d-year",(D,'''			yyy, _ := strconv.Atoi(yy)
			if yyy < 100 {
				yyy = y/1000*1000 + yyy
				if yyy < y && y-yyy > 50 {
					yyy += 100
				} else if yyy > y && yyy-y > 50 {
					yyy -= 100
				}
				y = yyy
			} else {
				y = yyy
			}
''','''			yyy, _ := strconv.Atoi(yy)
			y = fullYear(yyy, y)
'''),(D,'''func parseDate(''','''// fullYear completes a two-digit year to the one closest to the current year.
func fullYear(year, current int) int {
	if year >= 100 {
		return year
	}
	year += current / 1000 * 1000
	switch diff := current - year; {
	case diff > 50:
		return year + 100
	case diff < -50:
		return year - 100
	}
	return year
}

func parseDate('''))
r("d-near",(D,'''			if mm < m && m-mm > 6 {
				y += 1
			} else if m < mm && mm-m > 6 {
				y -= 1
			}
''','''			switch {
			case m-mm > 6:
				y++
			case mm-m > 6:
				y--
			}
'''))
r("d-offset",(D,'''	if offset != "" {
		e := len(offset) - 1
		o, _ := strconv.Atoi(offset[:e])
		switch offset[e] {
		case 'd':
			t = t.AddDate(0, 0, o)
		case 'w':
			t = t.AddDate(0, 0, o*7)
		case 'm':
			t = t.AddDate(0, o, 0)
		case 'y':
			t = t.AddDate(o, 0, 0)
		}
	}
	return t, nil
}
''','''	return addOffset(t, offset), nil
}

func addOffset(t time.Time, offset string) time.Time {
	if offset == "" {
		return t
	}
	last := len(offset) - 1
	count, _ := strconv.Atoi(offset[:last])
	var years, months, days int
	switch offset[last] {
	case 'd':
		days = count
	case 'w':
		days = 7 * count
	case 'm':
		months = count
	case 'y':
		years = count
	}
	return t.AddDate(years, months, days)
}
'''))
r("d-offset2",(D,'''	if offset != "" {
		e := len(offset) - 1
		o, _ := strconv.Atoi(offset[:e])
		switch offset[e] {
		case 'd':
			t = t.AddDate(0, 0, o)
		case 'w':
			t = t.AddDate(0, 0, o*7)
		case 'm':
			t = t.AddDate(0, o, 0)
		case 'y':
			t = t.AddDate(o, 0, 0)
		}
	}
	return t, nil
}
''','''	if offset == "" {
		return t, nil
	}
	e := len(offset) - 1
	unit := offset[e]
	o, _ := strconv.Atoi(offset[:e])
	if unit == 'd' {
		return t.AddDate(0, 0, o), nil
	}
	if unit == 'w' {
		return t.AddDate(0, 0, 7*o), nil
	}
	if unit == 'm' {
		return t.AddDate(0, o, 0), nil
	}
	if unit == 'y' {
		return t.AddDate(o, 0, 0), nil
	}
	return t, nil
}
'''))
r("d-set",(D,'''	match := DateREX.Match([]byte(s))
	if match == nil || match["date"] != s {
		return fmt.Errorf("invalid date: %s", s)
	}
	d.Time, err = parseDate(match, 0)
	return err
''','''	match, ok := matchDate(s)
	if !ok {
		return fmt.Errorf("invalid date: %s", s)
	}
	d.Time, err = parseDate(match, 0)
	return err
'''),(D,'''	match := DateREX.Match([]byte(s))
	if match["date"] != s {
		panic(fmt.Errorf("invalid date: %s", s))
	}
	return mustParseDate(match, 0)
}
''','''	match, ok := matchDate(s)
	if !ok {
		panic(fmt.Errorf("invalid date: %s", s))
	}
	return mustParseDate(match, 0)
}

// matchDate: all of s has to be a date.
func matchDate(s string) (match map[string]string, ok bool) {
	match = DateREX.Match([]byte(s))
	return match, match != nil && match["date"] == s
}
'''))
r("d-parts",(D,'''		d, _ = strconv.Atoi(match["ymdd"])
		mm, _ := strconv.Atoi(match["ymdm"])
''','''		mm := number(match["ymdm"])
		d = number(match["ymdd"])
'''),(D,'''		y, _ = strconv.Atoi(match["ymy"])
		if mm := match["ymm"]; mm != "" {
			m, _ = strconv.Atoi(mm)
		}
''','''		y = number(match["ymy"])
		if mm := match["ymm"]; mm != "" {
			m = number(mm)
		}
'''),(D,'''func parseDate(''','''func number(digits string) int {
	n, _ := strconv.Atoi(digits)
	return n
}

func parseDate('''))
r("p-write",(P,'''	line := fmt.Sprintf("%*s%-*s  %*.*f %s",
		accountOffset, "",
		accountWidth, s.Account.FullName,
		amountWidth, commodity.Decimals, s.Quantity, commodity.SafeId(ledger))
	if s.BalanceAsserted {
		commodity = s.Balance.Commodity
		line += fmt.Sprintf(" = %.*f %s", commodity.Decimals, s.Balance, commodity.SafeId(ledger))
	}
''','''	var b strings.Builder
	fmt.Fprintf(&b, "%*s%-*s  ", accountOffset, "", accountWidth, s.Account.FullName)
	fmt.Fprintf(&b, "%*.*f %s", amountWidth, commodity.Decimals, s.Quantity, commodity.SafeId(ledger))
	if s.BalanceAsserted {
		asserted := s.Balance.Commodity
		fmt.Fprintf(&b, " = %.*f %s", asserted.Decimals, s.Balance, asserted.SafeId(ledger))
	}
	line := b.String()
'''))
r("p-equal",(P,'''	return s.Account == s2.Account &&
		s.Quantity.Commodity == s2.Quantity.Commodity &&
		s.Quantity.IsEqual(s2.Quantity)
''','''	if s.Account != s2.Account {
		return false
	}
	a, b := s.Quantity, s2.Quantity
	return a.Commodity == b.Commodity && a.IsEqual(b)
'''))
r("p-move",(P,'''	if p.Account == a {
		return
	}
	p.Account.deletePosting(p)
	a.addPosting(p)
	p.Account = a
''','''	if p.Account != a {
		p.drop()
		p.Account = a
		a.addPosting(p)
	}
'''))
r("e-parse",(E,'''	var b bytes.Buffer
	for p.Scan() {
		if bytes.Equal((bytes.TrimSpace(p.Bytes())), []byte("end test")) {
			t.Result = b.Bytes()
			p.Scan()
			return t, nil
		}
		b.Write(p.Bytes())
		fmt.Fprintln(&b)
	}
''','''	var result bytes.Buffer
	for p.Scan() {
		line := p.Bytes()
		if string(bytes.TrimSpace(line)) == "end test" {
			t.Result = result.Bytes()
			p.Scan()
			return t, nil
		}
		result.Write(line)
		result.WriteByte('\\n')
	}
'''))
