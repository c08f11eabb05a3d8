R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
T="cmd/coin/totals.go"
r("t-cats-prealloc",(T,"""func (t *timeTotal) Categories() (keys []string) {
	for k := range t.totals {
		keys = append(keys, k)
	}
	return keys
}
""","""func (t *timeTotal) Categories() []string {
	if len(t.totals) == 0 {
		return nil
	}
	keys := make([]string, 0, len(t.totals))
	for k := range t.totals {
		keys = append(keys, k)
	}
	return keys
}
"""))
r("t-addin-early",(T,"""	for k, v := range t2.totals {
		amt := t.totals[k]
		if amt != nil {
			if !keysOnly {
				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
			}
		} else {
			if keysOnly {
				t.totals[k] = coin.NewZeroAmount(v.Commodity)
			} else {
				t.totals[k] = v.Copy()
			}
		}
	}
""","""	for k, v := range t2.totals {
		amt, ok := t.totals[k]
		switch {
		case !ok && keysOnly:
			t.totals[k] = coin.NewZeroAmount(v.Commodity)
		case !ok:
			t.totals[k] = v.Copy()
		case !keysOnly:
			check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
		}
	}
"""))
r("t-addin-helper",(T,"""		amt := t.totals[k]
		if amt != nil {
			if !keysOnly {
				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
			}
		} else {
			if keysOnly {
				t.totals[k] = coin.NewZeroAmount(v.Commodity)
			} else {
				t.totals[k] = v.Copy()
			}
		}
	}
}
""","""		amt := t.totals[k]
		if amt == nil {
			t.totals[k] = copyAmount(v, keysOnly)
			continue
		}
		if keysOnly {
			continue
		}
		check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
	}
}

// copyAmount returns a copy of the amount, zeroed if asked.
func copyAmount(a *coin.Amount, zero bool) *coin.Amount {
	if zero {
		return coin.NewZeroAmount(a.Commodity)
	}
	return a.Copy()
}
"""),(T,"""		if keysOnly {
			totals[k] = coin.NewZeroAmount(v.Commodity)
		} else {
			totals[k] = v.Copy()
		}
	}
	return &timeTotal{Time: t.Time, totals: totals}
""","""		totals[k] = copyAmount(v, keysOnly)
	}
	return &timeTotal{Time: t.Time, totals: totals}
"""))
r("t-commodity",(T,"""	if ts.current != nil {
		if c := ts.current.Commodity(); c != nil {
			return c
		}
	}
	for _, v := range ts.all {
""","""	candidates := ts.all
	if ts.current != nil {
		candidates = append([]*timeTotal{ts.current}, ts.all...)
	}
	for _, v := range candidates {
"""))
r("t-add-split",(T,"""	if ts.current != nil && ts.current.Equal(period) {
		if ts.categoryReducer != nil {
			category := ts.categoryReducer.reduce(p)
			amt := ts.current.totals[category]
			if amt != nil {
				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
			} else {
				ts.current.totals[category] = p.Quantity.Copy()
			}
		} else {
			check.NoError(ts.current.total.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
		}
		return
	}
""","""	if ts.current != nil && ts.current.Equal(period) {
		ts.addToCurrent(p)
		return
	}
"""),(T,"""func (ts *timeTotals) newTotal(""","""// addToCurrent adds the posting to the current period.
func (ts *timeTotals) addToCurrent(p *coin.Posting) {
	amt := ts.current.total
	if ts.categoryReducer != nil {
		category := ts.categoryReducer.reduce(p)
		amt = ts.current.totals[category]
		if amt == nil {
			ts.current.totals[category] = p.Quantity.Copy()
			return
		}
	}
	check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
}

func (ts *timeTotals) newTotal("""))
r("t-add-new",(T,"""	amt := p.Quantity.Copy()
	if ts.categoryReducer != nil {
		category := ts.categoryReducer.reduce(p)
		ts.current = &timeTotal{Time: period, totals: map[string]*coin.Amount{category: amt}}
	} else {
		ts.current = &timeTotal{Time: period, total: amt}
	}
	if ts.timeReducer != nil {
""","""	next := &timeTotal{Time: period}
	if ts.categoryReducer != nil {
		next.totals = map[string]*coin.Amount{}
		next.totals[ts.categoryReducer.reduce(p)] = p.Quantity.Copy()
	} else {
		next.total = p.Quantity.Copy()
	}
	ts.current = next
	if ts.timeReducer != nil {
"""))
r("t-newtotal",(T,"""	if ts.categoryReducer != nil {
		return &timeTotal{Time: t, totals: make(map[string]*coin.Amount)}
	} else {
		check.If(c != nil, "need commodity to create total")
		return &timeTotal{Time: t, total: coin.NewZeroAmount(c)}
	}
""","""	total := &timeTotal{Time: t}
	if ts.categoryReducer == nil {
		check.If(c != nil, "need commodity to create total")
		total.total = coin.NewZeroAmount(c)
		return total
	}
	total.totals = make(map[string]*coin.Amount)
	return total
"""))
r("t-inject",(T,"""	for i := 0; i < len(extras); i++ {
		mark := offsets[i]
		extra := extras[i]
		com := ts.Commodity()
		if com == nil {
			com = extra.Commodity()
		}
		newExtra := ts.newTotal(extra.Time, com)
		newExtra.AddIn(extra, keysOnly)
		ts.all = append(ts.all, remaining[:mark]...)
		ts.all = append(ts.all, newExtra)
		remaining = remaining[mark:]
	}
""","""	for i, extra := range extras {
		com := ts.Commodity()
		if com == nil {
			com = extra.Commodity()
		}
		added := ts.newTotal(extra.Time, com)
		added.AddIn(extra, keysOnly)
		before, after := remaining[:offsets[i]], remaining[offsets[i]:]
		ts.all = append(append(ts.all, before...), added)
		remaining = after
	}
"""))
r("t-merge-flip",(T,"""		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
			remaining[0].AddIn(t, keysOnly)
		} else {
			offsets = append(offsets, j)
			j = 0
			extras = append(extras, t)
		}
	}
	if len(extras) == 0 {
		// if everything matched we are done
		return
	}
""","""		if len(remaining) == 0 || !remaining[0].Time.Equal(t.Time) {
			extras = append(extras, t)
			offsets = append(offsets, j)
			j = 0
			continue
		}
		remaining[0].AddIn(t, keysOnly)
	}
	// if everything matched we are done
	if extras == nil {
		return
	}
"""))
r("t-maxwidth-helper",(T,"""	var max int
	if len(ts.all) == 0 {
		for _, amt := range ts.current.totals {
			if w := amt.Width(dec); w > max {
				max = w
			}
		}
	} else {
		for _, t := range ts.all {
			if t.total == nil {
				for _, v := range t.totals {
					if w := v.Width(dec); w > max {
						max = w
					}
				}
			} else {
				if w := t.total.Width(dec); w > max {
					max = w
				}
			}
		}
	}
	return max
}

func (ts *timeTotals) maxPeriod""","""	if len(ts.all) == 0 {
		return maxAmountWidth(ts.current.totals, dec)
	}
	var widest int
	for _, t := range ts.all {
		if t.total != nil {
			widest = max(widest, t.total.Width(dec))
			continue
		}
		widest = max(widest, maxAmountWidth(t.totals, dec))
	}
	return widest
}

func maxAmountWidth(amts map[string]*coin.Amount, dec int) (widest int) {
	for _, a := range amts {
		widest = max(widest, a.Width(dec))
	}
	return widest
}

func (ts *timeTotals) maxPeriod"""))
r("t-cummag-helper",(T,"""	total := coin.NewZeroAmount(ts.Commodity())
	if len(ts.all) == 0 {
		for _, amt := range ts.current.totals {
			check.NoError(total.AddIn(amt), "computing cumulative magnitude")
		}
	} else {
		for _, t := range ts.all {
			if t.total != nil {
				check.NoError(total.AddIn(t.total), "computing cumulative magnitude")
			} else {
				for _, v := range t.totals {
					check.NoError(total.AddIn(v), "computing cumulative magnitude")
				}
			}
		}
	}
	return total
""","""	total := coin.NewZeroAmount(ts.Commodity())
	add := func(amt *coin.Amount) {
		check.NoError(total.AddIn(amt), "computing cumulative magnitude")
	}
	if len(ts.all) == 0 {
		for _, amt := range ts.current.totals {
			add(amt)
		}
		return total
	}
	for _, t := range ts.all {
		if t.total != nil {
			add(t.total)
			continue
		}
		for _, amt := range t.totals {
			add(amt)
		}
	}
	return total
"""))
r("t-top-filter",(T,"""	magnitudes := ats.magnitudes()
	var accounts []*coin.Account
	for _, acc := range ats.accounts() {
		if magnitudes[acc] != nil {
			accounts = append(accounts, acc)
		}
	}

""","""	magnitudes := ats.magnitudes()
	var accounts []*coin.Account
	for acc, m := range magnitudes {
		if m == nil {
			continue
		}
		accounts = append(accounts, acc)
	}

"""))
r("t-top-split",(T,"""	rest := accounts[n:]
	accounts = accounts[:n]
	if len(rest) > 0 {
		others := ats[rest[0]]
		for _, acc := range rest[1:] {
			others.merge(ats[acc])
		}
		topn[nil] = others
		accounts = append(accounts, nil)
	}
	return topn, accounts
""","""	order, rest := accounts[:n], accounts[n:]
	others := ats[rest[0]]
	for _, acc := range rest[1:] {
		others.merge(ats[acc])
	}
	topn[nil] = others
	return topn, append(order[:n:n], nil)
"""))
r("t-sanitize",(T,"""	var empty []*coin.Account
	for acc, ts := range ats {
		if ts.current == nil {
			empty = append(empty, acc)
		}
	}
	for _, acc := range empty {
		delete(ats, acc)
	}
""","""	for acc, ts := range ats {
		if ts.current == nil {
			delete(ats, acc)
		}
	}
"""))
r("t-sanitize-func",(T,"""	var empty []*coin.Account
	for acc, ts := range ats {
		if ts.current == nil {
			empty = append(empty, acc)
		}
	}
	for _, acc := range empty {
		delete(ats, acc)
	}
""","""	maps.DeleteFunc(ats, func(_ *coin.Account, ts *timeTotals) bool { return ts.current == nil })
"""),(T,'''	"io"
''','''	"io"
	"maps"
'''))
r("t-output-if",(T,"""	switch format {
	case "json":
		ats.rows(order, label).writeJSON(f)
	case "csv":
		ats.rows(order, label).writeCSV(f)
	default:
		ats.print(f, order, label)
	}
""","""	if format != "json" && format != "csv" {
		ats.print(f, order, label)
		return
	}
	table := ats.rows(order, label)
	if format == "csv" {
		table.writeCSV(f)
	} else {
		table.writeJSON(f)
	}
"""))
r("t-cell",(T,"""				t := ts.current
				if hasPeriod {
					t = ts.all[i]
					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\\n", label(acc), i,
						t.Time.Format(firstCol.format),
						period.Time.Format(firstCol.format))
				}
				amt := t.total
				if amt == nil {
					amt = t.totals[category]
				}
				row = append(row, amt.String())
""","""				t := ts.current
				if hasPeriod {
					t = ts.all[i]
					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\\n", label(acc), i,
						t.Time.Format(firstCol.format),
						period.Time.Format(firstCol.format))
				}
				row = append(row, t.amount(category).String())
"""),(T,"""				amt := t.total
				if amt == nil {
					amt = t.totals[category]
				}
				args = append(args, widths[ii], amt)
""","""				args = append(args, widths[ii], t.amount(category))
"""),(T,"""func (t *timeTotal) String() string {""","""// amount returns the total of the category, or the only one.
func (t *timeTotal) amount(category string) *coin.Amount {
	if t.total != nil {
		return t.total
	}
	return t.totals[category]
}

func (t *timeTotal) String() string {"""))
r("t-periods",(T,"""	rs = append(rs, header)
	periods := firstCol.all
	if len(periods) == 0 {
		periods = append(periods, firstCol.current)
	}
	for i, period := range periods {
		categories := period.Categories()
		if len(categories) == 0 {
			categories = []string{""}
		} else {
			slices.Sort(categories)
		}
		for""","""	rs = rows{header}
	for i, period := range firstCol.periods() {
		for"""),(T,"""		for _, category := range categories {
			var row []string
""","""		for _, category := range period.sortedCategories() {
			var row []string
""") if 0 else (T,"""	for i, period := range firstCol.periods() {
		for _, category := range categories {""","") if 0 else (T,"""func (ts *timeTotals) maxPeriodWidth""","""func (ts *timeTotals) periods() []*timeTotal {
	if len(ts.all) == 0 {
		return []*timeTotal{ts.current}
	}
	return ts.all
}

func (t *timeTotal) sortedCategories() []string {
	categories := t.Categories()
	if len(categories) == 0 {
		return []string{""}
	}
	slices.Sort(categories)
	return categories
}

func (ts *timeTotals) maxPeriodWidth"""),(T,""" _, category := range categories {
			var row []string""",""" _, category := range period.sortedCategories() {
			var row []string"""))
r("t-reduce-q",(T,"""		y, m, _ := t.Date()
		m = ((m - 1) / 3 * 3) + 1
		return time.Date(y, m, 1, 12, 0, 0, 0, time.UTC)
""","""		y, m, _ := t.Date()
		first := m - (m-1)%3
		return time.Date(y, first, 1, 12, 0, 0, 0, time.UTC)
"""))
r("t-reduce-w",(T,"""		dow := int(t.Weekday())
		t = t.AddDate(0, 0, -dow)
		y, m, d := t.Date()
		return time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
""","""		y, m, d := t.AddDate(0, 0, -int(t.Weekday())).Date()
		return time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
"""))
r("t-reduce-y",(T,"""		y, _, _ := t.Date()
		return time.Date(y, time.January, 1, 12, 0, 0, 0, time.UTC)
""","""		return time.Date(t.Year(), 1, 1, 12, 0, 0, 0, time.UTC)
"""))
r("t-reduce-tags",(T,"""		if len(tags) == 0 {
			return "<no-tags>"
		} else {
			return strings.Join(tags.KeysAndValues(), ",")
		}
""","""		kvs := tags.KeysAndValues()
		if len(kvs) == 0 {
			return "<no-tags>"
		}
		return strings.Join(kvs, ",")
"""))
r("t-cum",(T,"""	if ts.current == nil {
		return
	}
	cum := coin.NewZeroAmount(ts.Commodity())
	for _, t := range ts.all {
		err := cum.AddIn(t.total)
		check.NoError(err, "converting totals to cumulative")
		t.total = cum.Copy()
	}
""","""	if ts.current == nil {
		return
	}
	running := coin.NewZeroAmount(ts.Commodity())
	for i := range ts.all {
		t := ts.all[i]
		check.NoError(running.AddIn(t.total), "converting totals to cumulative")
		t.total = running.Copy()
	}
"""))
P="cmd/coin/postings.go"
r("p-min",(P,"""
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
""",""))
r("p-trimloc",(P,"""	l := strings.TrimPrefix(loc, cwd)
	if len(l) < len(loc) {
		return "." + l
	}
	return loc
""","""	if l, ok := strings.CutPrefix(loc, cwd); ok && cwd != "" {
		return "." + l
	}
	return loc
"""))
r("p-widths",(P,"""	for _, p := range ps {
		widths[0] = max(widths[0], len(p.Transaction.Description))
		widths[1] = max(widths[1], len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
		widths[2] = max(widths[2], p.Quantity.Width(p.Account.Commodity.Decimals))
		widths[3] = max(widths[3], len(p.Transaction.Other(p).Account.FullName))
	}
	return widths
""","""	var desc, acct, amt, other int
	for _, p := range ps {
		desc = max(desc, len(p.Transaction.Description))
		acct = max(acct, len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
		amt = max(amt, p.Quantity.Width(p.Account.Commodity.Decimals))
		other = max(other, len(p.Transaction.Other(p).Account.FullName))
	}
	return [4]int{desc, acct, amt, other}
"""))
r("p-rec",(P,"""		args := []interface{}{
			s.Transaction.Posted.Format(coin.DateFormat),
			widths[0], s.Transaction.Description,
			widths[3], coin""","""		date := s.Transaction.Posted.Format(coin.DateFormat)
		args := []interface{}{
			date,
			widths[0], s.Transaction.Description,
			widths[3], coin"""),(P,"""			s.Account.CommodityId,
			reconciled,
		}
		if opts.Location() {
			args = append(args, trimLocation(s.Transaction.Location()))
		}
		fmt.Fprintf(f, fmtString, args...)
		if opts.showNotes && (len(s.Notes) > 0 || len(s.Transaction.Notes) > 0) {
			printNotes(f, strings.Repeat(" ", len(args[0].(string)))+" ;", s)
		}
	}
}

func (ps postings) printLong""","""			s.Account.CommodityId,
			reconciled,
		}
		if opts.Location() {
			args = append(args, trimLocation(s.Transaction.Location()))
		}
		fmt.Fprintf(f, fmtString, args...)
		if opts.showNotes && len(s.Notes)+len(s.Transaction.Notes) > 0 {
			printNotes(f, strings.Repeat(" ", len(date))+" ;", s)
		}
	}
}

func (ps postings) printLong"""))
r("p-mark",(P,"""		reconciled := ' '
		if s.BalanceAsserted {
			reconciled = '*'
		}
		args := []interface{}{
			s.Transaction.Posted.Format(coin.DateFormat),
			widths[0], s.Transaction.Description,
			widths[3], coin""","""		reconciled := mark(s)
		args := []interface{}{
			s.Transaction.Posted.Format(coin.DateFormat),
			widths[0], s.Transaction.Description,
			widths[3], coin"""),(P,"""func printNotes(""","""func mark(p *coin.Posting) rune {
	if p.BalanceAsserted {
		return '*'
	}
	return ' '
}

func printNotes("""))
r("p-notes",(P,"""	for _, line := range append(p.Notes, p.Transaction.Notes...) {
		fmt.Fprintln(w, prefix, line)
	}
""","""	for _, notes := range [][]string{p.Notes, p.Transaction.Notes} {
		for _, line := range notes {
			fmt.Fprintln(w, prefix, line)
		}
	}
"""))
r("p-notes2",(P,"""	for _, line := range append(p.Notes, p.Transaction.Notes...) {
		fmt.Fprintln(w, prefix, line)
	}
""","""	for _, line := range p.Notes {
		fmt.Fprintf(w, "%s %s\\n", prefix, line)
	}
	for _, line := range p.Transaction.Notes {
		fmt.Fprintf(w, "%s %s\\n", prefix, line)
	}
"""))
r("p-opts",(P,"""	if o == nil || o.maxDesc == 0 {
		return 50
	}
	return o.maxDesc
""","""	if o != nil && o.maxDesc != 0 {
		return o.maxDesc
	}
	return 50
"""),(P,"""	if o == nil {
		return false
	}
	return o.location
""","""	return o != nil && o.location
"""))
X="cmd/coin/test.go"
r("x-args",(X,"""		var args []string
		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
		scanner.Split(bufio.ScanWords)
		for scanner.Scan() {
			args = append(args, scanner.Text())
		}
		if""","""		args := words(t.Cmd)
		if"""),(X,"""func printVerdict""","""func words(s string) (ws []string) {
	scanner := bufio.NewScanner(strings.NewReader(s))
	scanner.Split(bufio.ScanWords)
	for scanner.Scan() {
		ws = append(ws, scanner.Text())
	}
	return ws
}

func printVerdict"""))
r("x-parse",(X,"""		if len(args) > 1 {
			command.Parse(args[1:])
		} else {
			command.Parse(nil)
		}
""","""		command.Parse(args[1:])
"""))
r("x-newfile",(X,"""		startingNewFile := testFile != lastTestFile
		if startingNewFile && !cmd.verbose {
			printVerdict(f, success, lastTestFile)
			success = true
		}
		lastTestFile = testFile
		if startingNewFile && len(toUpdate) > 0 {
			updateTestFile(toUpdate)
			toUpdate = nil
		}
""","""		if testFile != lastTestFile {
			if !cmd.verbose {
				printVerdict(f, success, lastTestFile)
				success = true
			}
			if len(toUpdate) > 0 {
				updateTestFile(toUpdate)
				toUpdate = nil
			}
			lastTestFile = testFile
		}
"""))
r("x-compare",(X,"""		if bytes.Equal(b.Bytes(), t.Result) {
			if cmd.verbose {
				fmt.Fprintf(f, "OK %s %s\\n", t.Location(), t.Cmd)
			}
			continue
		}
		success = false
		fmt.Fprintf(f, "FAIL %s %s\\n", t.Location(), t.Cmd)
		difflib.WriteUnifiedDiff(f,
			difflib.UnifiedDiff{
				B:        difflib.SplitLines(b.String()),
				A:        difflib.SplitLines(string(t.Result)),
				FromFile: "expected",
				ToFile:   "actual",
				Context:  3,
			})
	}
""","""		actual := b.String()
		if expected := string(t.Result); actual != expected {
			success = false
			fmt.Fprintf(f, "FAIL %s %s\\n", t.Location(), t.Cmd)
			difflib.WriteUnifiedDiff(f, difflib.UnifiedDiff{
				A:        difflib.SplitLines(expected),
				B:        difflib.SplitLines(actual),
				FromFile: "expected",
				ToFile:   "actual",
				Context:  3,
			})
		} else if cmd.verbose {
			fmt.Fprintf(f, "OK %s %s\\n", t.Location(), t.Cmd)
		}
	}
"""))
r("x-upd-line",(X,"""			_, err := writer.Write(scanner.Bytes())
			check.NoError(err, "writing prefix %d", i)
			check.NoError(writer.WriteByte('\\n'), "writing prefix %d", i)
""","""			_, err := writer.WriteString(scanner.Text() + "\\n")
			check.NoError(err, "writing prefix %d", i)
"""))
r("x-upd-fn",(X,"""	for scanner.Scan() {
		_, err := writer.Write(scanner.Bytes())
		check.NoError(err, "writing trailer")
		check.NoError(writer.WriteByte('\\n'), "writing trailer")
	}
""","""	copyLine := func(what string) {
		_, err := writer.Write(scanner.Bytes())
		check.NoError(err, what)
		check.NoError(writer.WriteByte('\\n'), what)
	}
	for scanner.Scan() {
		copyLine("writing trailer")
	}
"""))
G="cmd/coin/tags.go"
r("g-colon",(G,"""		colon := ""
		if len(vs) > 0 {
			colon = ":"
		}
		if cmd.fValues && len(vs) > 0 {
			fmt.Fprintf(f, `%s%s "%s"`+"\\n", k, colon, vs)
		} else {
			fmt.Fprintf(f, "%s%s\\n", k, colon)
		}
""","""		switch {
		case vs == "":
			fmt.Fprintln(f, k)
		case cmd.fValues:
			fmt.Fprintf(f, "%s: \\"%s\\"\\n", k, vs)
		default:
			fmt.Fprintf(f, "%s:\\n", k)
		}
"""))
r("g-accts",(G,"""				list := cmd.accounts[k]
				for _, a := range accounts {
					list = add(list, a.FullName)
				}
				cmd.accounts[k] = list
""","""				for _, a := range accounts {
					cmd.accounts[k] = add(cmd.accounts[k], a.FullName)
				}
"""))
r("g-skip",(G,"""		if nrex == nil || nrex.MatchString(k) {
			cmd.results[k] = add(cmd.results[k], v)
			if cmd.fAccounts {
				list := cmd.accounts[k]
				for _, a := range accounts {
					list = add(list, a.FullName)
				}
				cmd.accounts[k] = list
			}
		}
""","""		if nrex != nil && !nrex.MatchString(k) {
			continue
		}
		cmd.results[k] = add(cmd.results[k], v)
		if !cmd.fAccounts {
			continue
		}
		list := cmd.accounts[k]
		for _, a := range accounts {
			list = add(list, a.FullName)
		}
		cmd.accounts[k] = list
"""))
r("g-add",(G,"""	for _, v := range list {
		if v == key {
			return list
		}
	}
	return append(list, key)
""","""	if slices.Contains(list, key) {
		return list
	}
	return append(list, key)
"""),(G,'''	"regexp"
''','''	"regexp"
	"slices"
'''))
r("g-prefix",(G,"""		accounts := [](*coin.Account){}
		for _, p := range t.Postings {
			cmd.collectKeys(nrex, p.Tags, p.Account)
			if cmd.fAccounts {
				accounts = append(accounts, p.Account)
			}
		}
""","""		var accounts []*coin.Account
		for _, p := range t.Postings {
			cmd.collectKeys(nrex, p.Tags, p.Account)
			accounts = append(accounts, p.Account)
		}
"""))
U="cmd/coin/utils.go"
r("u-trim-slice",(U,"""	if !begin.IsZero() {
		from := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(begin.Time)
		})
		if from == len(ps) {
			return nil
		}
		ps = ps[from:]
	}
	if !end.IsZero() {
		to := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(end.Time)
		})
		if to == len(ps) {
			return ps
		}
		ps = ps[:to]
	}
	return ps
""","""	if !begin.IsZero() {
		from := firstOn(ps, begin)
		if from == len(ps) {
			return nil
		}
		ps = ps[from:]
	}
	if !end.IsZero() {
		ps = ps[:firstOn(ps, end)]
	}
	return ps
"""),(U,"""func trimWS""","""// firstOn is the index of the first posting on or after the date.
func firstOn(ps []*coin.Posting, date coin.Date) int {
	return sort.Search(len(ps), func(i int) bool {
		return !ps[i].Transaction.Posted.Before(date.Time)
	})
}

func trimWS"""))
r("u-ws-join",(U,"""		var w strings.Builder
		words := bufio.NewScanner(strings.NewReader(line))
		words.Split(bufio.ScanWords)
		wIsFirst := true
		for words.Scan() {
			if !wIsFirst {
				w.WriteByte(' ')
			}
			w.Write(words.Bytes())
			wIsFirst = false
		}
		out = append(out, w.String())
""","""		var found []string
		words := bufio.NewScanner(strings.NewReader(line))
		words.Split(bufio.ScanWords)
		for words.Scan() {
			found = append(found, words.Text())
		}
		out = append(out, strings.Join(found, " "))
"""))
r("u-ws-len",(U,"""		wIsFirst := true
		for words.Scan() {
			if !wIsFirst {
				w.WriteByte(' ')
			}
			w.Write(words.Bytes())
			wIsFirst = false
		}
""","""		for i := 0; words.Scan(); i++ {
			if i > 0 {
				w.WriteByte(' ')
			}
			w.Write(words.Bytes())
		}
"""))
S="cmd/coin/stats.go"
r("s-conv-helper",(S,"""			if p1, p2 := t.Postings[0], t.Postings[1]; p1.Quantity.IsEqual(p2.Quantity.Negated()) &&
				p1.Quantity.Commodity != p2.Quantity.Commodity {
""","""			p1, p2 := t.Postings[0], t.Postings[1]
			if oneToOne(p1, p2) {
"""),(S,"""func (cmd *cmdStats) transactions()""","""func oneToOne(p1, p2 *coin.Posting) bool {
	if p1.Quantity.Commodity == p2.Quantity.Commodity {
		return false
	}
	return p1.Quantity.IsEqual(p2.Quantity.Negated())
}

func (cmd *cmdStats) transactions()"""))
r("s-unb-hoist",(S,"""		for _, p := range t.Postings {
			if cmd.unbalanced && p.Account == coin.Unbalanced {
				fmt.Fprintf(f,
					"UNBALANCED TRANSACTION!\\n%s\\n%s\\n",
					t.Location(),
					t)
			}
		}
""","""		if !cmd.unbalanced {
			continue
		}
		for _, p := range t.Postings {
			if p.Account != coin.Unbalanced {
				continue
			}
			fmt.Fprintf(f, "UNBALANCED TRANSACTION!\\n%s\\n%s\\n", t.Location(), t)
		}
"""))
r("s-sum",(S,"""	fmt.Fprintln(f, "Commodities:", len(coin.Commodities))
	fmt.Fprintln(f, "Prices:", len(coin.Prices))
	fmt.Fprintln(f, "Accounts:", len(coin.AccountsByName))
	fmt.Fprintln(f, "Transactions:", len(transactions))
""","""	for _, s := range []struct {
		name  string
		count int
	}{
		{"Commodities", len(coin.Commodities)},
		{"Prices", len(coin.Prices)},
		{"Accounts", len(coin.AccountsByName)},
		{"Transactions", len(transactions)},
	} {
		fmt.Fprintf(f, "%s: %d\\n", s.name, s.count)
	}
"""))
