# Hand-written refactorings that keep the behaviour: cmd/coin
B='cmd/coin/balance.go'; RG='cmd/coin/register.go'; T='cmd/coin/totals.go'; P='cmd/coin/postings.go'
R=[
dict(id='bal-helpers', edits=[(B,'''	totals := make(balances)
	cumulative := make(balances)
	account.WithChildrenDo(func(a *coin.Account) {
		total := coin.NewZeroAmount(a.Commodity)
		for _, p := range cmd.trim(a.Postings) {
			err := total.AddIn(p.Quantity)
			check.NoError(err, "adding posting for %s: %s\\n", a.FullName, p.Transaction.Location())
		}
		totals[a] = total
		cumulative[a] = total.Copy()
	})
	account.FirstWithChildrenDo(func(a *coin.Account) {
		cump := cumulative[a.Parent]
		if cump == nil {
			return
		}
		cum := cumulative[a]
		err := cump.AddIn(cum)
		check.NoError(err, "cannot add total to parent of %s\\n", a.FullName)
	})
	cmd.print(f, account, totals, cumulative)
}
''','''	totals, cumulative := cmd.tally(account)
	cumulative.rollUp(account)
	cmd.print(f, account, totals, cumulative)
}

// tally sums up the selected postings of account and each of its subaccounts.
func (cmd *cmdBalance) tally(account *coin.Account) (totals, cumulative balances) {
	totals, cumulative = balances{}, balances{}
	account.WithChildrenDo(func(a *coin.Account) {
		total := cmd.sum(a)
		cumulative[a] = total.Copy()
		totals[a] = total
	})
	return totals, cumulative
}

func (cmd *cmdBalance) sum(a *coin.Account) *coin.Amount {
	total := coin.NewZeroAmount(a.Commodity)
	for _, p := range cmd.trim(a.Postings) {
		check.NoError(total.AddIn(p.Quantity), "adding posting for %s: %s\\n", a.FullName, p.Transaction.Location())
	}
	return total
}

// rollUp adds the totals of children to their parents.
func (bs balances) rollUp(account *coin.Account) {
	account.FirstWithChildrenDo(func(a *coin.Account) {
		if parent, ok := bs[a.Parent]; ok && parent != nil {
			err := parent.AddIn(bs[a])
			check.NoError(err, "cannot add total to parent of %s\\n", a.FullName)
		}
	})
}
''')]),
dict(id='bal-trim-shared', edits=[(B,'''	if len(cmd.payee) > 0 {
		var pps []*coin.Posting
		r := regexp.MustCompile("(?i)" + cmd.payee)
		for _, p := range ps {
			if r.MatchString(p.Transaction.Description) {
				pps = append(pps, p)
			}
		}
		ps = pps
	}
	if len(cmd.tag) > 0 {
		var pps []*coin.Posting
		r := coin.NewTagMatcher(cmd.tag)
		for _, p := range ps {
			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {
				pps = append(pps, p)
			}
		}
		ps = pps
	}
	return postings(ps)
}
''','''	if cmd.payee != "" {
		r := regexp.MustCompile("(?i)" + cmd.payee)
		ps = selectPostings(ps, func(p *coin.Posting) bool {
			return r.MatchString(p.Transaction.Description)
		})
	}
	if cmd.tag != "" {
		r := coin.NewTagMatcher(cmd.tag)
		ps = selectPostings(ps, func(p *coin.Posting) bool {
			return r.Match(p.Tags) || r.Match(p.Transaction.Tags)
		})
	}
	return ps
}

func selectPostings(ps []*coin.Posting, keep func(*coin.Posting) bool) (out []*coin.Posting) {
	for _, p := range ps {
		if keep(p) {
			out = append(out, p)
		}
	}
	return out
}
''')]),
dict(id='bal-width-helper', edits=[(B,'''	var max int
	for acc, amt := range bs {
		if w := amt.Width(acc.Commodity.Decimals); w > max {
			max = w
		}
	}
	return max
}
''','''	width := 0
	for acc, amt := range bs {
		width = max(width, amt.Width(acc.Commodity.Decimals))
	}
	return width
}
'''),(B,'''	var max int
	for _, b := range bs {
		if w := len(b.Commodity.Id); w > max {
			max = w
		}
	}
	return max
}''','''	var width int
	for _, b := range bs {
		w := len(b.Commodity.Id)
		if w <= width {
			continue
		}
		width = w
	}
	return width
}''')]),
dict(id='bal-print', edits=[(B,'''		if cmd.level != 0 && a.Depth() > cmd.level {
			return
		}
		if tot, cum := totals[a], cumulative[a]; cmd.zeroBalance || !cum.IsZero() {
			fmt.Fprintf(f, "%*a | %*a %-*s | %s\\n",
				width, tot, cumWidth, cum, curWidth, a.CommodityId, a.FullName)
		}
''','''		tooDeep := cmd.level != 0 && a.Depth() > cmd.level
		hidden := !cmd.zeroBalance && cumulative[a].IsZero()
		if tooDeep || hidden {
			return
		}
		fmt.Fprintf(f, "%*a | %*a %-*s | %s\\n",
			width, totals[a],
			cumWidth, cumulative[a],
			curWidth, a.CommodityId,
			a.FullName)
''')]),
dict(id='reg-trim-xor', edits=[(RG,'''		payee := cmd.payee
		inverted := false
		if payee[0] == '!' {
			inverted = true
			payee = payee[1:]
		}
		var pps []*coin.Posting
		r := regexp.MustCompile("(?i)" + payee)
		for _, p := range ps {
			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
				pps = append(pps, p)
			}
		}
		ps = pps
''','''		payee, inverted := strings.CutPrefix(cmd.payee, "!")
		r := regexp.MustCompile("(?i)" + payee)
		var pps []*coin.Posting
		for _, p := range ps {
			if r.MatchString(p.Transaction.Description) != inverted {
				pps = append(pps, p)
			}
		}
		ps = pps
''')]),
dict(id='reg-trim-methods', edits=[(RG,'''	ps = trim(ps, cmd.begin, cmd.end)
	if len(cmd.payee) > 0 {
		payee := cmd.payee
		inverted := false
		if payee[0] == '!' {
			inverted = true
			payee = payee[1:]
		}
		var pps []*coin.Posting
		r := regexp.MustCompile("(?i)" + payee)
		for _, p := range ps {
			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
				pps = append(pps, p)
			}
		}
		ps = pps
	}
	if len(cmd.tag) > 0 {
		var pps []*coin.Posting
		r := coin.NewTagMatcher(cmd.tag)
		for _, p := range ps {
			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {
				pps = append(pps, p)
			}
		}
		ps = pps
	}
	return postings(ps)
}
''','''	return cmd.matchingTag(cmd.matchingPayee(trim(ps, cmd.begin, cmd.end)))
}

func (cmd *cmdRegister) matchingPayee(ps []*coin.Posting) []*coin.Posting {
	if len(cmd.payee) == 0 {
		return ps
	}
	pattern := cmd.payee
	inverted := strings.HasPrefix(pattern, "!")
	if inverted {
		pattern = pattern[1:]
	}
	re := regexp.MustCompile("(?i)" + pattern)
	var matching []*coin.Posting
	for _, p := range ps {
		matched := re.MatchString(p.Transaction.Description)
		if matched == inverted {
			continue
		}
		matching = append(matching, p)
	}
	return matching
}

func (cmd *cmdRegister) matchingTag(ps []*coin.Posting) []*coin.Posting {
	if len(cmd.tag) == 0 {
		return ps
	}
	var matching []*coin.Posting
	matcher := coin.NewTagMatcher(cmd.tag)
	for i := range ps {
		if p := ps[i]; matcher.Match(p.Tags) || matcher.Match(p.Transaction.Tags) {
			matching = append(matching, p)
		}
	}
	return matching
}
''')]),
dict(id='reg-full', edits=[(RG,'''	if cmd.recurse {
		var ps postings
		acc.WithChildrenDo(func(a *coin.Account) {
			ps = append(ps, cmd.trim(a.Postings)...)
		})
		sort.SliceStable(ps, func(i, j int) bool {
			return ps[i].Transaction.Posted.Before(ps[j].Transaction.Posted)
		})
		ps.printLong(f, &opts)
	} else {
		cmd.trim(acc.Postings).print(f, &opts)
	}
}
''','''	if !cmd.recurse {
		cmd.trim(acc.Postings).print(f, &opts)
		return
	}
	var all postings
	acc.WithChildrenDo(func(a *coin.Account) {
		for _, p := range cmd.trim(a.Postings) {
			all = append(all, p)
		}
	})
	posted := func(i int) time.Time { return all[i].Transaction.Posted }
	sort.SliceStable(all, func(i, j int) bool {
		return posted(i).Before(posted(j))
	})
	all.printLong(f, &opts)
}
'''),(RG,'''	"strings"
''','''	"strings"
	"time"
''')]),
dict(id='reg-switch', edits=[(RG,'''	switch {
	case cmd.weekly:
		return &week
	case cmd.monthly:
		return &month
	case cmd.quarterly:
		return &quarter
	case cmd.yearly:
		return &year
	}
	return nil
}''','''	if cmd.weekly {
		return &week
	}
	if cmd.monthly {
		return &month
	}
	if cmd.quarterly {
		return &quarter
	}
	if !cmd.yearly {
		return nil
	}
	return &year
}'''),(RG,'''	label := func(a *coin.Account) string {
		switch a {
		case nil:
			return "Other"
		case acc:
			return acc.Name
		default:
			n := strings.TrimPrefix(a.FullName, acc.FullName)
			return coin.ShortenAccountName(n, cmd.maxLabelWidth)
		}
	}
	totals.output(f, accounts, label, cmd.output)
''','''	totals.output(f, accounts, cmd.labeler(acc), cmd.output)
'''),(RG,'''func (cmd *cmdRegister) isAggregating() bool {''','''// labeler names the columns relative to acc.
func (cmd *cmdRegister) labeler(acc *coin.Account) func(*coin.Account) string {
	return func(a *coin.Account) string {
		if a == nil {
			return "Other"
		}
		if a == acc {
			return a.Name
		}
		return coin.ShortenAccountName(strings.TrimPrefix(a.FullName, acc.FullName), cmd.maxLabelWidth)
	}
}

func (cmd *cmdRegister) isAggregating() bool {''')]),
dict(id='reg-aggr', edits=[(RG,'''		ts := totals.newTotals(a, cmd.period(), cmd.category())
		for _, p := range cmd.trim(a.Postings) {
			ts.add(p)
		}
	})
	// Propagate timelines and possibly amounts up top
	acc.FirstWithChildrenDo(func(a *coin.Account) {
		child := totals[a]
		parent := totals[a.Parent]
		if parent != nil {
			if cmd.recurse {
				parent.merge(child)
			} else {
				parent.mergeKeys(child)
			}
		}
	})
''','''		totals.newTotals(a, cmd.period(), cmd.category()).addAll(cmd.trim(a.Postings))
	})
	// Propagate timelines and possibly amounts up top
	acc.FirstWithChildrenDo(func(a *coin.Account) {
		parent := totals[a.Parent]
		if parent == nil {
			return
		}
		parent.mergeTotals(totals[a], !cmd.recurse)
	})
'''),(T,'''func (ts *timeTotals) newTotal(''','''func (ts *timeTotals) addAll(ps postings) {
	for _, p := range ps {
		ts.add(p)
	}
}

func (ts *timeTotals) newTotal(''')]),
dict(id='tot-addin', edits=[(T,'''		amt := t.totals[k]
		if amt != nil {
			if !keysOnly {
				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
			}
		} else {
			if keysOnly {
				t.totals[k] = coin.NewZeroAmount(v.Commodity)
			} else {
				t.totals[k] = v.Copy()
			}
		}
''','''		amt, found := t.totals[k]
		switch {
		case found && amt != nil:
			if keysOnly {
				continue
			}
			err := amt.AddIn(v)
			check.NoError(err, "cannot add %a to totals", v)
		case keysOnly:
			t.totals[k] = coin.NewZeroAmount(v.Commodity)
		default:
			t.totals[k] = v.Copy()
		}
''')]),
dict(id='tot-copy', edits=[(T,'''	totals := make(map[string]*coin.Amount)
	for k, v := range t.totals {
		if keysOnly {
			totals[k] = coin.NewZeroAmount(v.Commodity)
		} else {
			totals[k] = v.Copy()
		}
	}
	return &timeTotal{Time: t.Time, totals: totals}
''','''	c := &timeTotal{Time: t.Time, totals: make(map[string]*coin.Amount, len(t.totals))}
	for k, v := range t.totals {
		amt := v.Copy()
		if keysOnly {
			amt = coin.NewZeroAmount(v.Commodity)
		}
		c.totals[k] = amt
	}
	return c
''')]),
dict(id='tot-add', edits=[(T,'''	if ts.current != nil && ts.current.Equal(period) {
		if ts.categoryReducer != nil {
			category := ts.categoryReducer.reduce(p)
			amt := ts.current.totals[category]
			if amt != nil {
				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
			} else {
				ts.current.totals[category] = p.Quantity.Copy()
			}
		} else {
			check.NoError(ts.current.total.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
		}
		return
	}
	amt := p.Quantity.Copy()
	if ts.categoryReducer != nil {
		category := ts.categoryReducer.reduce(p)
		ts.current = &timeTotal{Time: period, totals: map[string]*coin.Amount{category: amt}}
	} else {
		ts.current = &timeTotal{Time: period, total: amt}
	}
	if ts.timeReducer != nil {
		ts.all = append(ts.all, ts.current)
	}
}
''','''	if cur := ts.current; cur != nil && cur.Equal(period) {
		ts.addToCurrent(p)
		return
	}
	next := &timeTotal{Time: period}
	if ts.categoryReducer == nil {
		next.total = p.Quantity.Copy()
	} else {
		next.totals = map[string]*coin.Amount{}
		next.totals[ts.categoryReducer.reduce(p)] = p.Quantity.Copy()
	}
	ts.current = next
	if ts.timeReducer != nil {
		ts.all = append(ts.all, next)
	}
}

func (ts *timeTotals) addToCurrent(p *coin.Posting) {
	target := ts.current.total
	if ts.categoryReducer != nil {
		category := ts.categoryReducer.reduce(p)
		target = ts.current.totals[category]
		if target == nil {
			ts.current.totals[category] = p.Quantity.Copy()
			return
		}
	}
	check.NoError(target.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
}
''')]),
dict(id='tot-merge', edits=[(T,'''	remaining = ts.all
	ts.all = make([]*timeTotal, 0, len(ts.all)+len(extras))
	for i := 0; i < len(extras); i++ {
		mark := offsets[i]
		extra := extras[i]
		com := ts.Commodity()
		if com == nil {
			com = extra.Commodity()
		}
		newExtra := ts.newTotal(extra.Time, com)
		newExtra.AddIn(extra, keysOnly)
		ts.all = append(ts.all, remaining[:mark]...)
		ts.all = append(ts.all, newExtra)
		remaining = remaining[mark:]
	}
''','''	remaining = ts.all
	ts.all = make([]*timeTotal, 0, len(ts.all)+len(extras))
	for i, extra := range extras {
		mark := offsets[i]
		newExtra := ts.zeroLike(extra)
		newExtra.AddIn(extra, keysOnly)
		ts.all = append(ts.all, remaining[:mark]...)
		ts.all = append(ts.all, newExtra)
		remaining = remaining[mark:]
	}
'''),(T,'''// merge two sorted totals
''','''func (ts *timeTotals) zeroLike(extra *timeTotal) *timeTotal {
	com := ts.Commodity()
	if com == nil {
		com = extra.Commodity()
	}
	return ts.newTotal(extra.Time, com)
}

// merge two sorted totals
''')]),
dict(id='tot-merge2', edits=[(T,'''	if ts.timeReducer == nil {
		if ts2.current == nil {
			return
		}
		if ts.current == nil {
			ts.current = ts2.current.Copy(keysOnly)
		} else {
			ts.current.AddIn(ts2.current, keysOnly)
		}
		return
	}
''','''	if ts.timeReducer == nil {
		switch {
		case ts2.current == nil:
		case ts.current == nil:
			ts.current = ts2.current.Copy(keysOnly)
		default:
			ts.current.AddIn(ts2.current, keysOnly)
		}
		return
	}
'''),(T,'''		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
			remaining[0].AddIn(t, keysOnly)
		} else {
			offsets = append(offsets, j)
			j = 0
			extras = append(extras, t)
		}
''','''		if len(remaining) > 0 {
			if first := remaining[0]; first.Time.Equal(t.Time) {
				first.AddIn(t, keysOnly)
				continue
			}
		}
		extras = append(extras, t)
		offsets = append(offsets, j)
		j = 0
''')]),
dict(id='tot-maxwidth', edits=[(T,'''	dec := ts.Commodity().Decimals
	var max int
	if len(ts.all) == 0 {
		for _, amt := range ts.current.totals {
			if w := amt.Width(dec); w > max {
				max = w
			}
		}
	} else {
		for _, t := range ts.all {
			if t.total == nil {
				for _, v := range t.totals {
					if w := v.Width(dec); w > max {
						max = w
					}
				}
			} else {
				if w := t.total.Width(dec); w > max {
					max = w
				}
			}
		}
	}
	return max
}
''','''	dec := ts.Commodity().Decimals
	if len(ts.all) == 0 {
		return widest(ts.current.totals, dec, 0)
	}
	width := 0
	for _, t := range ts.all {
		if t.total != nil {
			width = max(width, t.total.Width(dec))
			continue
		}
		width = widest(t.totals, dec, width)
	}
	return width
}

func widest(totals map[string]*coin.Amount, decimals, width int) int {
	for _, amt := range totals {
		if w := amt.Width(decimals); w > width {
			width = w
		}
	}
	return width
}
''')]),
dict(id='tot-catwidth', edits=[(T,'''	periods := ts.all
	if len(periods) == 0 {
		periods = append(periods, ts.current)
	}
	max := 0
	for _, period := range periods {
		for k := range period.totals {
			if len(k) > max {
				max = len(k)
			}
		}
	}
	return max
}
''','''	width := 0
	for _, period := range ts.periods() {
		for category := range period.totals {
			width = max(width, len(category))
		}
	}
	return width
}

// periods are the totals by time, or the only one.
func (ts *timeTotals) periods() []*timeTotal {
	if len(ts.all) > 0 {
		return ts.all
	}
	return []*timeTotal{ts.current}
}
''')]),
dict(id='tot-cum', edits=[(T,'''	cum := coin.NewZeroAmount(ts.Commodity())
	for _, t := range ts.all {
		err := cum.AddIn(t.total)
		check.NoError(err, "converting totals to cumulative")
		t.total = cum.Copy()
	}
''','''	running := coin.NewZeroAmount(ts.Commodity())
	for i := range ts.all {
		check.NoError(running.AddIn(ts.all[i].total), "converting totals to cumulative")
		ts.all[i].total = running.Copy()
	}
''')]),
dict(id='tot-top', edits=[(T,'''	for _, acc := range accounts[:n] {
		topn[acc] = ats[acc]
	}
	rest := accounts[n:]
	accounts = accounts[:n]
	if len(rest) > 0 {
		others := ats[rest[0]]
		for _, acc := range rest[1:] {
			others.merge(ats[acc])
		}
		topn[nil] = others
		accounts = append(accounts, nil)
	}
	return topn, accounts
}
''','''	order, rest := accounts[:n], accounts[n:]
	for _, acc := range order {
		topn[acc] = ats[acc]
	}
	if len(rest) == 0 {
		return topn, order
	}
	others := ats[rest[0]]
	for _, acc := range rest[1:] {
		others.merge(ats[acc])
	}
	topn[nil] = others
	return topn, append(order, nil)
}
''')]),
dict(id='tot-top-sort', edits=[(T,'''	var accounts []*coin.Account
	for _, acc := range ats.accounts() {
		if magnitudes[acc] != nil {
			accounts = append(accounts, acc)
		}
	}

	sort.Slice(accounts, func(i int, j int) bool {
		mi, mj := magnitudes[accounts[i]], magnitudes[accounts[j]]
		if c := mi.CmpMagnitude(mj); c != 0 {
			return c > 0
		}
		return accounts[i].FullName < accounts[j].FullName
	})
''','''	var accounts []*coin.Account
	for acc := range ats {
		if magnitudes[acc] == nil {
			continue
		}
		accounts = append(accounts, acc)
	}

	sort.Slice(accounts, func(i int, j int) bool {
		a, b := accounts[i], accounts[j]
		switch c := magnitudes[a].CmpMagnitude(magnitudes[b]); {
		case c > 0:
			return true
		case c < 0:
			return false
		}
		return a.FullName < b.FullName
	})
''')]),
dict(id='tot-rows', edits=[(T,'''			var row []string
			if hasPeriod {
				row = append(row, period.Time.Format(firstCol.format))
			}
			if hasCategory {
				row = append(row, category)
			}
			for _, acc := range order {
				ts := ats[acc]
				check.If(ts != nil, "nil totals for %s\\n", label(acc))
				t := ts.current
				if hasPeriod {
					t = ts.all[i]
					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\\n", label(acc), i,
						t.Time.Format(firstCol.format),
						period.Time.Format(firstCol.format))
				}
				amt := t.total
				if amt == nil {
					amt = t.totals[category]
				}
				row = append(row, amt.String())
			}
			rs = append(rs, row)
''','''			row := make([]string, 0, len(header))
			if hasPeriod {
				row = append(row, period.Time.Format(firstCol.format))
			}
			if hasCategory {
				row = append(row, category)
			}
			for _, acc := range order {
				ts := ats[acc]
				check.If(ts != nil, "nil totals for %s\\n", label(acc))
				t := ts.current
				if hasPeriod {
					t = ts.all[i]
					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\\n", label(acc), i,
						t.Time.Format(firstCol.format),
						period.Time.Format(firstCol.format))
				}
				row = append(row, t.amount(category).String())
			}
			rs = append(rs, row)
'''),(T,'''func (t *timeTotal) Commodity()''','''// amount is the total, or that of the category.
func (t *timeTotal) amount(category string) *coin.Amount {
	if t.total != nil {
		return t.total
	}
	return t.totals[category]
}

func (t *timeTotal) Commodity()''')]),
dict(id='tot-cats', edits=[(T,'''		categories := period.Categories()
		if len(categories) == 0 {
			categories = []string{""}
		} else {
			slices.Sort(categories)
		}
		for _, category := range categories {
			var args []interface{}
''','''		for _, category := range period.sortedCategories() {
			var args []interface{}
'''),(T,'''func (t *timeTotal) AddIn(''','''func (t *timeTotal) sortedCategories() []string {
	categories := t.Categories()
	if len(categories) == 0 {
		return []string{""}
	}
	slices.Sort(categories)
	return categories
}

func (t *timeTotal) AddIn(''')]),
dict(id='tot-sanitize', edits=[(T,'''	var empty []*coin.Account
	for acc, ts := range ats {
		if ts.current == nil {
			empty = append(empty, acc)
		}
	}
	for _, acc := range empty {
		delete(ats, acc)
	}
''','''	for acc, ts := range ats {
		if ts.current == nil {
			delete(ats, acc)
		}
	}
''')]),
dict(id='tot-quarter', edits=[(T,'''		y, m, _ := t.Date()
		m = ((m - 1) / 3 * 3) + 1
		return time.Date(y, m, 1, 12, 0, 0, 0, time.UTC)
''','''		first := (t.Month()-1)/3*3 + 1
		return time.Date(t.Year(), first, 1, 12, 0, 0, 0, time.UTC)
''')]),
dict(id='tot-midday', edits=[(T,'''		dow := int(t.Weekday())
		t = t.AddDate(0, 0, -dow)
		y, m, d := t.Date()
		return time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
''','''		sunday := t.AddDate(0, 0, -int(t.Weekday()))
		return midday(sunday.Date())
'''),(T,'''		y, m, _ := t.Date()
		return time.Date(y, m, 1, 12, 0, 0, 0, time.UTC)
''','''		y, m, _ := t.Date()
		return midday(y, m, 1)
'''),(T,'''var week = timeReducer{''','''func midday(y int, m time.Month, d int) time.Time {
	return time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
}

var week = timeReducer{''')]),
dict(id='post-print-shared', edits=[(P,'''	for i, s := range ps {
		reconciled := ' '
		if s.BalanceAsserted {
			reconciled = '*'
		}
		args := []interface{}{
			s.Transaction.Posted.Format(coin.DateFormat),
			widths[0], s.Transaction.Description,
			widths[3], coin.Shorten''','''	for i, s := range ps {
		reconciled := mark(s)
		args := []interface{}{
			s.Transaction.Posted.Format(coin.DateFormat),
			widths[0], s.Transaction.Description,
			widths[3], coin.Shorten'''),(P,'''func printNotes(''','''func mark(p *coin.Posting) rune {
	if p.BalanceAsserted {
		return '*'
	}
	return ' '
}

func printNotes('''),(P,'''func (ps postings) print(f io.Writer, opts *options) {
	if len(ps) == 0 {
		return
	}
	widths := ps.widths(opts.Prefix())
	widths[0] = min(widths[0], opts.MaxDesc())
	widths[3] = min(widths[3], opts.MaxAcct())
	commodity := opts.commodity
	if commodity == nil {
		commodity = ps[0].Account.Commodity
	}
''','''func (ps postings) commodity(opts *options) *coin.Commodity {
	if c := opts.commodity; c != nil {
		return c
	}
	return ps[0].Account.Commodity
}

func (ps postings) print(f io.Writer, opts *options) {
	if len(ps) == 0 {
		return
	}
	prefix := opts.Prefix()
	widths := ps.widths(prefix)
	widths[0] = min(widths[0], opts.MaxDesc())
	widths[3] = min(widths[3], opts.MaxAcct())
	commodity := ps.commodity(opts)
''')]),
dict(id='post-widths', edits=[(P,'''	for _, p := range ps {
		widths[0] = max(widths[0], len(p.Transaction.Description))
		widths[1] = max(widths[1], len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
		widths[2] = max(widths[2], p.Quantity.Width(p.Account.Commodity.Decimals))
		widths[3] = max(widths[3], len(p.Transaction.Other(p).Account.FullName))
	}
	return widths
''','''	for _, p := range ps {
		cells := [4]int{
			len(p.Transaction.Description),
			len(strings.TrimPrefix(p.Account.FullName, acctPrefix)),
			p.Quantity.Width(p.Account.Commodity.Decimals),
			len(p.Transaction.Other(p).Account.FullName),
		}
		for i, w := range cells {
			widths[i] = max(widths[i], w)
		}
	}
	return widths
''')]),
dict(id='post-loc', edits=[(P,'''	l := strings.TrimPrefix(loc, cwd)
	if len(l) < len(loc) {
		return "." + l
	}
	return loc
''','''	rel := strings.TrimPrefix(loc, cwd)
	if len(rel) == len(loc) {
		return loc
	}
	return "." + rel
''')]),
dict(id='post-opts', edits=[(P,'''	if o == nil || o.maxDesc == 0 {
		return 50
	}
	return o.maxDesc
''','''	if o != nil && o.maxDesc != 0 {
		return o.maxDesc
	}
	return 50
'''),(P,'''	if o == nil {
		return false
	}
	return o.location
''','''	return o != nil && o.location
''')]),
]
