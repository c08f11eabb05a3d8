# Hand-written refactorings that keep the behaviour: signatures, receivers, types, control flow idioms
TO='cmd/coin/totals.go'; RE='cmd/coin/register.go'; BA='cmd/coin/balance.go'; PO='cmd/coin/postings.go'; UT='cmd/coin/utils.go'; ST='cmd/coin/stats.go'
AC='account.go'; TR='transaction.go'; CN='coin.go'; CM='commodity.go'; TG='tags.go'; DA='date.go'; PA='parser.go'; PS='posting.go'; MO='cmd/coin/modify.go'; TE='cmd/coin/test.go'
R=[
dict(id='sig-swap', edits=[(TO,'func (ts *timeTotals) newTotal(t time.Time, c *coin.Commodity) *timeTotal {','func (ts *timeTotals) newTotal(c *coin.Commodity, t time.Time) *timeTotal {'),(TO,'ts.newTotal(extra.Time, com)','ts.newTotal(com, extra.Time)')]),
dict(id='sig-drop', edits=[(BA,'func (cmd *cmdBalance) trim(ps []*coin.Posting) postings {','func (cmd *cmdBalance) trim(a *coin.Account) postings {\n\tps := a.Postings'),(BA,'	ps = trim(ps, cmd.begin, cmd.end)','	ps = trim(ps, cmd.begin, cmd.end)'),(BA,'cmd.trim(a.Postings)','cmd.trim(a)')]),
dict(id='recv-val', edits=[(PO,'func (o *options) Location() bool {\n	if o == nil {\n		return false\n	}\n	return o.location\n}','func (o *options) Location() bool { return o != nil && o.location }')]),
dict(id='method-to-func', edits=[(TO,'func (ats accountTotals) accounts() (accounts []*coin.Account) {','func accountsOf(ats accountTotals) (accounts []*coin.Account) {'),(TO,'ats.accounts()','accountsOf(ats)')]),
dict(id='func-to-method', edits=[(AC,'func parentAndName(name string) (string, string) {\n	i := strings.LastIndex(name, ":")','func parentAndName(fullName string) (parent, name string) {\n	i := strings.LastIndex(fullName, ":")'),(AC,'		return "", name\n	}\n	return name[:i], name[i+1:]','		return "", fullName\n	}\n	return fullName[:i], fullName[i+1:]')]),
dict(id='range-type', edits=[(UT,'func trim(ps []*coin.Posting, begin, end coin.Date) []*coin.Posting {\n	if !begin.IsZero() {','type dateRange struct{ begin, end coin.Date }\n\nfunc trim(ps []*coin.Posting, begin, end coin.Date) []*coin.Posting {\n	return dateRange{begin, end}.select_(ps)\n}\n\nfunc (r dateRange) select_(ps []*coin.Posting) []*coin.Posting {\n	begin, end := r.begin, r.end\n	if !begin.IsZero() {')]),
dict(id='search-helper', edits=[(UT,'''	if !begin.IsZero() {
		from := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(begin.Time)
		})
''','''	firstOnOrAfter := func(d coin.Date) int {
		return sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(d.Time)
		})
	}
	if !begin.IsZero() {
		from := firstOnOrAfter(begin)
'''),(UT,'''		to := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(end.Time)
		})
''','''		to := firstOnOrAfter(end)
''')]),
dict(id='embed-opts', edits=[(PO,'''type options struct {
	prefix           string
	location         bool
	maxDesc, maxAcct int
''','''type limits struct{ maxDesc, maxAcct int }

type options struct {
	prefix   string
	location bool
	limits
'''),(RE,'		maxAcct:   cmd.maxLabelWidth,\n','		limits:    limits{maxAcct: cmd.maxLabelWidth},\n')]),
dict(id='slices-sort', edits=[(CN,'''	sort.Slice(Prices, func(i, j int) bool {
		return Prices[i].Time.Before(Prices[j].Time)
	})
''','''	byTime := func(i, j int) bool { return Prices[i].Time.Before(Prices[j].Time) }
	sort.Slice(Prices, byTime)
''')]),
dict(id='tags-slices', edits=[(TG,'	sort.Strings(keys)\n','	slices.Sort(keys)\n'),(TG,'	"regexp"\n','	"regexp"\n	"slices"\n')]),
dict(id='tags-maps', edits=[(TG,'''	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
''','''	if len(t) == 0 {
		return nil
	}
	keys = make([]string, 0, len(t))
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
''')]),
dict(id='names-generic', edits=[(CN,'''func CommoditiesDo(f func(c *Commodity)) {
	var names []string
	for n := range Commodities {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
''','''func sortedKeys[V any](m map[string]V) (names []string) {
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func CommoditiesDo(f func(c *Commodity)) {
	for _, n := range sortedKeys(Commodities) {
'''),(CN,'''	var names []string
	for n := range AccountsByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(AccountsByName[n])''','''	for _, n := range sortedKeys(AccountsByName) {
		f(AccountsByName[n])''')]),
dict(id='label-method', edits=[(RE,'''	label := func(a *coin.Account) string {
		switch a {
		case nil:
			return "Other"
		case acc:
			return acc.Name
		default:
			n := strings.TrimPrefix(a.FullName, acc.FullName)
			return coin.ShortenAccountName(n, cmd.maxLabelWidth)
		}
	}
''','''	label := func(a *coin.Account) string { return cmd.label(acc, a) }
'''),(RE,'func (cmd *cmdRegister) isAggregating','''// label names the column of account a in a report about acc.
func (cmd *cmdRegister) label(acc, a *coin.Account) string {
	if a == nil {
		return "Other"
	}
	if a == acc {
		return acc.Name
	}
	return coin.ShortenAccountName(strings.TrimPrefix(a.FullName, acc.FullName), cmd.maxLabelWidth)
}

func (cmd *cmdRegister) isAggregating''')]),
dict(id='match-order', edits=[(MO,'''	if cmd.payee != nil && !cmd.payee.Match([]byte(t.Description)) {
		return false
	}
	if cmd.ttag != nil && !cmd.ttag.Match(t.Tags) {
		return false
	}
''','''	switch {
	case cmd.ttag != nil && !cmd.ttag.Match(t.Tags):
		return false
	case cmd.payee != nil && !cmd.payee.MatchString(t.Description):
		return false
	}
''')]),
dict(id='fields', edits=[(TE,'''		var args []string
		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
		scanner.Split(bufio.ScanWords)
		for scanner.Scan() {
			args = append(args, scanner.Text())
		}
''','''		args := words(t.Cmd)
'''),(TE,'func printVerdict(','''func words(line string) (out []string) {
	scanner := bufio.NewScanner(strings.NewReader(line))
	scanner.Split(bufio.ScanWords)
	for scanner.Scan() {
		out = append(out, scanner.Text())
	}
	return out
}

func printVerdict(''')]),
dict(id='run-one', edits=[(TE,'''		command = command.newCommand(command.Name())
		if len(args) > 1 {
			command.Parse(args[1:])
		} else {
			command.Parse(nil)
		}
		var b bytes.Buffer
		command.execute(&b)
''','''		b := runCommand(command, args[1:])
'''),(TE,'func printVerdict(','''func runCommand(cmd command, args []string) *bytes.Buffer {
	cmd = cmd.newCommand(cmd.Name())
	if len(args) > 0 {
		cmd.Parse(args)
	} else {
		cmd.Parse(nil)
	}
	var b bytes.Buffer
	cmd.execute(&b)
	return &b
}

func printVerdict(''')]),
dict(id='sum-helper', edits=[(TO,'''	total := coin.NewZeroAmount(ts.Commodity())
	if len(ts.all) == 0 {
		for _, amt := range ts.current.totals {
			check.NoError(total.AddIn(amt), "computing cumulative magnitude")
		}
	} else {
''','''	total := coin.NewZeroAmount(ts.Commodity())
	addAll := func(amounts map[string]*coin.Amount) {
		for _, amt := range amounts {
			check.NoError(total.AddIn(amt), "computing cumulative magnitude")
		}
	}
	if len(ts.all) == 0 {
		addAll(ts.current.totals)
	} else {
'''),(TO,'''				for _, v := range t.totals {
					check.NoError(total.AddIn(v), "computing cumulative magnitude")
				}
''','''				addAll(t.totals)
''')]),
dict(id='date-switch', edits=[(DA,'''		switch offset[e] {
		case 'd':
			t = t.AddDate(0, 0, o)
		case 'w':
			t = t.AddDate(0, 0, o*7)
		case 'm':
			t = t.AddDate(0, o, 0)
		case 'y':
			t = t.AddDate(o, 0, 0)
		}
''','''		t = shift(t, offset[e], o)
'''),(DA,'func parseDate(','''func shift(t time.Time, unit byte, n int) time.Time {
	switch unit {
	case 'y':
		return t.AddDate(n, 0, 0)
	case 'm':
		return t.AddDate(0, n, 0)
	case 'w':
		return t.AddDate(0, 0, 7*n)
	case 'd':
		return t.AddDate(0, 0, n)
	}
	return t
}

func parseDate(''')]),
dict(id='write-lines', edits=[(AC,'''	for _, line := range lines {
		_, err := io.WriteString(w, line)
		if err != nil {
			return err
		}
	}

	return nil
}

var accountNameREX''','''	return writeStrings(w, nil, lines...)
}

var accountNameREX''')]),
dict(id='loc-helper', edits=[(AC,'''	if a.file == "" {
		return ""
	}
	return fmt.Sprintf("%s:%d", a.file, a.line)
''','''	return location(a.file, a.line)
'''),(TR,'''	if t.file == "" {
		return ""
	}
	return fmt.Sprintf("%s:%d", t.file, t.line)
''','''	return location(t.file, t.line)
'''),(TR,'func (t *Transaction) Post(','''func location(file string, line uint) string {
	if file == "" {
		return ""
	}
	return fmt.Sprintf("%s:%d", file, line)
}

func (t *Transaction) Post(''')]),
dict(id='any', edits=[(PS,'map[string]interface{}{','map[string]any{')]),
dict(id='day-range', edits=[(TR,'''	start := sort.Search(total, func(i int) bool {
		return !transactions[i].Posted.Before(day)
	})
	if start == total {
		return nil
	}
	total = total - start
	count := sort.Search(total, func(i int) bool {
		return transactions[start+i].Posted.After(day)
	})
	return transactions[start : start+count]
''','''	start := sort.Search(total, func(i int) bool {
		return !transactions[i].Posted.Before(day)
	})
	if start == total {
		return nil
	}
	rest := transactions[start:]
	count := sort.Search(len(rest), func(i int) bool {
		return rest[i].Posted.After(day)
	})
	return rest[:count]
''')]),
]
