F='cmd/coin/format.go'; M='cmd/coin/modify.go'; T='cmd/coin/test.go'; S='cmd/coin/stats.go'; G='cmd/coin/tags.go'
A='cmd/coin/accounts.go'; C='cmd/coin/commodities.go'; U='cmd/coin/utils.go'; B='cmd/coin/balance.go'
CM='cmd/csv2coin/main.go'; CR='cmd/csv2coin/rules.go'; OM='cmd/ofx2coin/main.go'; OB='cmd/ofx2coin/bmo.go'
R=[
dict(id='format-file', edits=[(F,'''		var err error
		var tf *os.File
		coin.LoadFile(fn)
		coin.ResolveTransactions(false)
		if cmd.replace {
			tf, err = os.CreateTemp(path.Dir(fn), path.Base(fn))
			check.NoError(err, "creating temp file")
			f = tf
		}
		cmd.writeTransactions(f)
		if cmd.replace {
			check.NoError(tf.Close(), "closing temp file")
			err = os.Rename(tf.Name(), fn)
			check.NoError(err, "renaming temp file")
		}
		coin.DropTransactions()
''','''		coin.LoadFile(fn)
		coin.ResolveTransactions(false)
		if cmd.replace {
			cmd.replaceFile(fn)
		} else {
			cmd.writeTransactions(f)
		}
		coin.DropTransactions()
'''),(F,'''func (cmd *cmdFormat) writeTransactions(''','''func (cmd *cmdFormat) replaceFile(fn string) {
	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
	check.NoError(err, "creating temp file")
	cmd.writeTransactions(tf)
	check.NoError(tf.Close(), "closing temp file")
	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file")
}

func (cmd *cmdFormat) writeTransactions(''')]),
dict(id='modify-file', edits=[(M,'''	for _, fn := range cmd.Args() {
		coin.LoadFile(fn)
		coin.ResolveTransactions(false)
		tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
		check.NoError(err, "creating temp file")
		var count int
		for _, t := range coin.Transactions {
			if cmd.modify(t) {
				count++
			}
			check.NoError(t.Write(tf, false), "writing temp file")
			_, err = fmt.Fprintln(tf)
			check.NoError(err, "writing temp file")
		}
		check.NoError(tf.Close(), "closing temp file")
		err = os.Rename(tf.Name(), fn)
		check.NoError(err, "renaming temp file")
		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\\n", count, fn)
		coin.DropTransactions()
	}
}
''','''	for _, fn := range cmd.Args() {
		count := cmd.modifyFile(fn)
		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\\n", count, fn)
		coin.DropTransactions()
	}
}

// modifyFile rewrites the file in place, returns how many transactions were modified.
func (cmd *cmdModify) modifyFile(fn string) (count int) {
	coin.LoadFile(fn)
	coin.ResolveTransactions(false)
	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
	check.NoError(err, "creating temp file")
	for _, t := range coin.Transactions {
		if cmd.modify(t) {
			count++
		}
		err = t.Write(tf, false)
		check.NoError(err, "writing temp file")
		_, err = fmt.Fprintln(tf)
		check.NoError(err, "writing temp file")
	}
	err = tf.Close()
	check.NoError(err, "closing temp file")
	err = os.Rename(tf.Name(), fn)
	check.NoError(err, "renaming temp file")
	return count
}
''')]),
dict(id='modify-postings', edits=[(M,'''	var hasPostingsMatchingAccount bool
	for _, p := range t.Postings {
		matchesAccount := p.Account == cmd.from
		if matchesAccount {
			hasPostingsMatchingAccount = true
		}
		if matchesAccount || cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
			if cmd.modifyPosting(p) {
				modified = true
			}
		}
	}
''','''	hasPostingsMatchingAccount := false
	for _, p := range t.Postings {
		switch {
		case p.Account == cmd.from:
			hasPostingsMatchingAccount = true
		case cmd.ptag == nil || !cmd.ptag.Match(p.Tags):
			continue
		}
		modified = cmd.modifyPosting(p) || modified
	}
''')]),
dict(id='modify-guard', edits=[(M,'''	if cmd.from != nil && !hasPostingsMatchingAccount {
		return modified
	}
	if len(cmd.setTTag) > 0 {
		t.Notes = addTagLine(t.Notes, cmd.setTTag)
		modified = true
	}
	return modified
''','''	if (cmd.from == nil || hasPostingsMatchingAccount) && cmd.setTTag != "" {
		t.Notes = addTagLine(t.Notes, cmd.setTTag)
		return true
	}
	return modified
'''),(M,'!cmd.payee.Match([]byte(t.Description))','!cmd.payee.MatchString(t.Description)')]),
dict(id='modify-compile', edits=[(M,'''	if len(cmd.fAccount) > 0 {
		cmd.from = coin.MustFindAccount(cmd.fAccount)
	}
	if len(cmd.fSetAccount) > 0 {
		cmd.to = coin.MustFindAccount(cmd.fSetAccount)
	}
''','''	cmd.from = optionalAccount(cmd.fAccount, cmd.from)
	cmd.to = optionalAccount(cmd.fSetAccount, cmd.to)
'''),(M,'''func mustParseTags(''','''func optionalAccount(pattern string, none *coin.Account) *coin.Account {
	if pattern == "" {
		return none
	}
	return coin.MustFindAccount(pattern)
}

func mustParseTags(''')]),
dict(id='modify-tags', edits=[(M,'''	var parts []string
	for _, k := range tags.Keys() {
		v := tags[k]
		if len(v) > 0 {
			v = ":" + v
		}
		parts = append(parts, fmt.Sprintf("#%s%s", k, v))
	}
	return strings.Join(parts, ", ")
''','''	keys := tags.Keys()
	parts := make([]string, len(keys))
	for i, k := range keys {
		parts[i] = "#" + k
		if v := tags[k]; v != "" {
			parts[i] += ":" + v
		}
	}
	return strings.Join(parts, ", ")
''')]),
dict(id='modify-tagline', edits=[(M,'''	if len(notes) == 0 {
		return append(notes, tagLine)
	}
	if len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
		notes[0] += " " + tagLine
		return notes
	}
	return append(notes, tagLine)
''','''	if len(notes) > 0 && len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
		notes[0] = notes[0] + " " + tagLine
		return notes
	}
	return append(notes, tagLine)
''')]),
dict(id='test-args', edits=[(T,'''		var args []string
		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
		scanner.Split(bufio.ScanWords)
		for scanner.Scan() {
			args = append(args, scanner.Text())
		}
''','''		args := words(t.Cmd)
'''),(T,'''func file(t *coin.Test) string {
	file, _, _ := strings.Cut(t.Location(), ":")
	return file
}
''','''func words(s string) (ws []string) {
	scanner := bufio.NewScanner(strings.NewReader(s))
	scanner.Split(bufio.ScanWords)
	for scanner.Scan() {
		ws = append(ws, scanner.Text())
	}
	return ws
}

func file(t *coin.Test) string {
	name, _, _ := strings.Cut(t.Location(), ":")
	return name
}
''')]),
dict(id='test-run', edits=[(T,'''		command = command.newCommand(command.Name())
		if len(args) > 1 {
			command.Parse(args[1:])
		} else {
			command.Parse(nil)
		}
		var b bytes.Buffer
		command.execute(&b)
''','''		command = command.newCommand(command.Name())
		var rest []string
		if len(args) > 1 {
			rest = args[1:]
		}
		command.Parse(rest)
		b := bytes.Buffer{}
		command.execute(&b)
''')]),
dict(id='test-update', edits=[(T,'''		for ; line < tLine && scanner.Scan(); line++ {
			_, err := writer.Write(scanner.Bytes())
			check.NoError(err, "writing prefix %d", i)
			check.NoError(writer.WriteByte('\\n'), "writing prefix %d", i)
		}
''','''		for line < tLine {
			if !scanner.Scan() {
				break
			}
			_, err = writer.Write(scanner.Bytes())
			check.NoError(err, "writing prefix %d", i)
			err = writer.WriteByte('\\n')
			check.NoError(err, "writing prefix %d", i)
			line++
		}
''')]),
dict(id='stats-dupes', edits=[(S,'''	if cmd.dupes {
		var day []*coin.Transaction
		for _, t := range transactions {
			if len(day) == 0 {
				day = append(day, t)
				continue
			}
			if !t.Posted.Equal(day[0].Posted) {
				day = append(day[:0], t)
				continue
			}
			for _, t2 := range day {
				if t.IsEqual(t2) {
					fmt.Fprintf(f,
						"DUPLICATE TRANSACTION?\\n%s\\n%s\\n%s\\n%s\\n",
						t2.Location(), t2,
						t.Location(), t)
				}
			}
			day = append(day, t)
		}
		return
	}
''','''	if cmd.dupes {
		printDuplicates(f, transactions)
		return
	}
'''),(S,'''func (cmd *cmdStats) transactions()''','''func printDuplicates(f io.Writer, transactions []*coin.Transaction) {
	var day []*coin.Transaction
	for _, t := range transactions {
		if len(day) > 0 && !t.Posted.Equal(day[0].Posted) {
			day = nil
		}
		for _, t2 := range day {
			if t.IsEqual(t2) {
				fmt.Fprintf(f,
					"DUPLICATE TRANSACTION?\\n%s\\n%s\\n%s\\n%s\\n",
					t2.Location(), t2,
					t.Location(), t)
			}
		}
		day = append(day, t)
	}
}

func (cmd *cmdStats) transactions()''')]),
dict(id='stats-conv', edits=[(S,'''		if cmd.commodityMismatches && len(t.Postings) == 2 {
			if p1, p2 := t.Postings[0], t.Postings[1]; p1.Quantity.IsEqual(p2.Quantity.Negated()) &&
				p1.Quantity.Commodity != p2.Quantity.Commodity {
				fmt.Fprintf(f,
					"BAD CONVERSION: %s %a %s => %a %s : %s\\n",
					t.Posted.Format(coin.DateFormat),
					p1.Quantity,
					p1.Quantity.Commodity.Id,
					p2.Quantity,
					p2.Quantity.Commodity.Id,
					t.Location(),
				)
			}
		}
		for _, p := range t.Postings {
			if cmd.unbalanced && p.Account == coin.Unbalanced {
				fmt.Fprintf(f,
					"UNBALANCED TRANSACTION!\\n%s\\n%s\\n",
					t.Location(),
					t)
			}
		}
''','''		if cmd.commodityMismatches && len(t.Postings) == 2 {
			q1, q2 := t.Postings[0].Quantity, t.Postings[1].Quantity
			if q1.IsEqual(q2.Negated()) && q1.Commodity != q2.Commodity {
				fmt.Fprintf(f,
					"BAD CONVERSION: %s %a %s => %a %s : %s\\n",
					t.Posted.Format(coin.DateFormat),
					q1, q1.Commodity.Id,
					q2, q2.Commodity.Id,
					t.Location(),
				)
			}
		}
		if !cmd.unbalanced {
			continue
		}
		for _, p := range t.Postings {
			if p.Account != coin.Unbalanced {
				continue
			}
			fmt.Fprintf(f, "UNBALANCED TRANSACTION!\\n%s\\n%s\\n", t.Location(), t)
		}
''')]),
dict(id='stats-range', edits=[(S,'''		from := sort.Search(len(transactions), func(i int) bool {
			return !transactions[i].Posted.Before(cmd.begin.Time)
		})
		if from == len(transactions) {
			return nil
		}
		transactions = transactions[from:]
''','''		from := cmd.firstNotBefore(transactions, cmd.begin)
		if from == len(transactions) {
			return nil
		}
		transactions = transactions[from:]
'''),(S,'''		to := sort.Search(len(transactions), func(i int) bool {
			return !transactions[i].Posted.Before(cmd.end.Time)
		})
		if to == len(transactions) {
			return transactions
		}
		transactions = transactions[:to]
	}
	return transactions
}
''','''		transactions = transactions[:cmd.firstNotBefore(transactions, cmd.end)]
	}
	return transactions
}

func (cmd *cmdStats) firstNotBefore(ts []*coin.Transaction, d coin.Date) int {
	return sort.Search(len(ts), func(i int) bool { return !ts[i].Posted.Before(d.Time) })
}
''')]),
dict(id='tags-collect', edits=[(G,'''	for k, v := range tags {
		if nrex == nil || nrex.MatchString(k) {
			cmd.results[k] = add(cmd.results[k], v)
			if cmd.fAccounts {
				list := cmd.accounts[k]
				for _, a := range accounts {
					list = add(list, a.FullName)
				}
				cmd.accounts[k] = list
			}
		}
	}
''','''	for k, v := range tags {
		if nrex != nil && !nrex.MatchString(k) {
			continue
		}
		cmd.results[k] = add(cmd.results[k], v)
		if !cmd.fAccounts {
			continue
		}
		for _, a := range accounts {
			cmd.accounts[k] = add(cmd.accounts[k], a.FullName)
		}
	}
''')]),
dict(id='tags-add', edits=[(G,'''	for _, v := range list {
		if v == key {
			return list
		}
	}
	return append(list, key)
''','''	if slices.Contains(list, key) {
		return list
	}
	return append(list, key)
'''),(G,'''	"sort"
''','''	"slices"
	"sort"
''')]),
dict(id='tags-print', edits=[(G,'''		vs := strings.Join(cmd.results[k], `", "`)
		colon := ""
		if len(vs) > 0 {
			colon = ":"
		}
		if cmd.fValues && len(vs) > 0 {
			fmt.Fprintf(f, `%s%s "%s"`+"\\n", k, colon, vs)
		} else {
			fmt.Fprintf(f, "%s%s\\n", k, colon)
		}
''','''		vs := strings.Join(cmd.results[k], `", "`)
		switch {
		case vs == "":
			fmt.Fprintln(f, k)
		case cmd.fValues:
			fmt.Fprintf(f, "%s: \\"%s\\"\\n", k, vs)
		default:
			fmt.Fprintf(f, "%s:\\n", k)
		}
''')]),
dict(id='tags-keys', edits=[(G,'''	for k := range results {
		keys = append(keys, k)
		results[k] = clean(results[k])
	}
	sort.Strings(keys)
	return keys
''','''	for k, list := range results {
		results[k] = clean(list)
		keys = append(keys, k)
	}
	slices.Sort(keys)
	return keys
'''),(G,'''	"sort"
''','''	"slices"
	"sort"
''')]),
dict(id='acc-match', edits=[(A,'''	var max int
	coin.AccountsDo(func(a *coin.Account) {
		if pattern != nil && !pattern.MatchString(a.FullName) {
			return
		}
		if l := len(a.FullName); l > max {
			max = l
		}
	})
	coin.AccountsDo(func(a *coin.Account) {
		if !cmd.closed && a.IsClosed() {
			return
		}
		if pattern != nil && !pattern.MatchString(a.FullName) {
			return
		}
''','''	matches := func(a *coin.Account) bool {
		return pattern == nil || pattern.MatchString(a.FullName)
	}
	width := 0
	coin.AccountsDo(func(a *coin.Account) {
		if matches(a) {
			width = max(width, len(a.FullName))
		}
	})
	coin.AccountsDo(func(a *coin.Account) {
		if !matches(a) || a.IsClosed() && !cmd.closed {
			return
		}
'''),(A,'''%s\\n", max, a.''','''%s\\n", width, a.''')]),
dict(id='com-prices', edits=[(C,'''				if cmd.location {
					fmt.Fprintf(f, "%s %s %s %s\\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
				} else {
					fmt.Fprintf(f, "%s %s %s\\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false))
				}
''','''				fmt.Fprintf(f, "%s %s %s", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false))
				if cmd.location {
					fmt.Fprintf(f, " %s", p.Location())
				}
				fmt.Fprintln(f)
''')]),
dict(id='com-quote', edits=[(C,'''				var q *finance.Quote
				var err error
				if c.Symbol != "" {
					q, err = quote.Get(c.Symbol)
				} else {
					var fx *finance.ForexPair
					fx, err = forex.Get(c.Id + coin.DefaultCommodityId + "=X")
					if err == nil {
						q = &fx.Quote
					}
				}
				if err != nil {
''','''				q, err := getQuote(c)
				if err != nil {
'''),(C,'''func (cmd *cmdCommodities) execute(''','''func getQuote(c *coin.Commodity) (*finance.Quote, error) {
	if c.Symbol != "" {
		return quote.Get(c.Symbol)
	}
	fx, err := forex.Get(c.Id + coin.DefaultCommodityId + "=X")
	if err != nil {
		return nil, err
	}
	return &fx.Quote, nil
}

func (cmd *cmdCommodities) execute(''')]),
dict(id='util-search', edits=[(U,'''		from := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(begin.Time)
		})
		if from == len(ps) {
			return nil
		}
		ps = ps[from:]
''','''		from := searchPosting(ps, begin)
		if from == len(ps) {
			return nil
		}
		ps = ps[from:]
'''),(U,'''		to := sort.Search(len(ps), func(i int) bool {
			return !ps[i].Transaction.Posted.Before(end.Time)
		})
		if to == len(ps) {
			return ps
		}
		ps = ps[:to]
	}
	return ps
}
''','''		ps = ps[:searchPosting(ps, end)]
	}
	return ps
}

// searchPosting returns the index of the first posting on or after the date.
func searchPosting(ps []*coin.Posting, d coin.Date) int {
	return sort.Search(len(ps), func(i int) bool {
		return !ps[i].Transaction.Posted.Before(d.Time)
	})
}
''')]),
dict(id='util-trimws', edits=[(U,'''		var w strings.Builder
		words := bufio.NewScanner(strings.NewReader(line))
		words.Split(bufio.ScanWords)
		wIsFirst := true
		for words.Scan() {
			if !wIsFirst {
				w.WriteByte(' ')
			}
			w.Write(words.Bytes())
			wIsFirst = false
		}
		out = append(out, w.String())
''','''		out = append(out, joinWords(line))
'''),(U,'''func trimWS(''','''func joinWords(line string) string {
	var w strings.Builder
	words := bufio.NewScanner(strings.NewReader(line))
	words.Split(bufio.ScanWords)
	for first := true; words.Scan(); first = false {
		if !first {
			w.WriteString(" ")
		}
		w.WriteString(words.Text())
	}
	return w.String()
}

func trimWS(''')]),
dict(id='bal-total', edits=[(B,'''		total := coin.NewZeroAmount(a.Commodity)
		for _, p := range cmd.trim(a.Postings) {
			err := total.AddIn(p.Quantity)
			check.NoError(err, "adding posting for %s: %s\\n", a.FullName, p.Transaction.Location())
		}
		totals[a] = total
		cumulative[a] = total.Copy()
''','''		totals[a] = sum(a, cmd.trim(a.Postings))
		cumulative[a] = totals[a].Copy()
'''),(B,'''func (cmd *cmdBalance) print(''','''func sum(a *coin.Account, ps []*coin.Posting) *coin.Amount {
	total := coin.NewZeroAmount(a.Commodity)
	for _, p := range ps {
		err := total.AddIn(p.Quantity)
		check.NoError(err, "adding posting for %s: %s\\n", a.FullName, p.Transaction.Location())
	}
	return total
}

func (cmd *cmdBalance) print(''')]),
dict(id='bal-trim', edits=[(B,'''		var pps []*coin.Posting
		r := regexp.MustCompile("(?i)" + cmd.payee)
		for _, p := range ps {
			if r.MatchString(p.Transaction.Description) {
				pps = append(pps, p)
			}
		}
		ps = pps
''','''		r := regexp.MustCompile("(?i)" + cmd.payee)
		ps = keep(ps, func(p *coin.Posting) bool {
			return r.MatchString(p.Transaction.Description)
		})
'''),(B,'''		var pps []*coin.Posting
		r := coin.NewTagMatcher(cmd.tag)
		for _, p := range ps {
			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {
				pps = append(pps, p)
			}
		}
		ps = pps
	}
	return postings(ps)
}
''','''		r := coin.NewTagMatcher(cmd.tag)
		ps = keep(ps, func(p *coin.Posting) bool {
			return r.Match(p.Tags) || r.Match(p.Transaction.Tags)
		})
	}
	return postings(ps)
}

func keep(ps []*coin.Posting, wanted func(*coin.Posting) bool) (kept []*coin.Posting) {
	for _, p := range ps {
		if wanted(p) {
			kept = append(kept, p)
		}
	}
	return kept
}
''')]),
dict(id='bal-widths', edits=[(B,'''	var max int
	for acc, amt := range bs {
		if w := amt.Width(acc.Commodity.Decimals); w > max {
			max = w
		}
	}
	return max
''','''	var width int
	for acc, amt := range bs {
		width = max(width, amt.Width(acc.Commodity.Decimals))
	}
	return width
''')]),
dict(id='bal-cum', edits=[(B,'''		cump := cumulative[a.Parent]
		if cump == nil {
			return
		}
		cum := cumulative[a]
		err := cump.AddIn(cum)
		check.NoError(err, "cannot add total to parent of %s\\n", a.FullName)
''','''		if parent, ok := cumulative[a.Parent]; ok {
			err := parent.AddIn(cumulative[a])
			check.NoError(err, "cannot add total to parent of %s\\n", a.FullName)
		}
''')]),
dict(id='csv-commodity', edits=[(CM,'''			var found bool
			commodity, found = coin.Commodities[currency]
			if !found {
				commodity, found = coin.CommoditiesBySymbol[currency]
			}
			check.If(found, "unknown currency %s", currency)
''','''			var found bool
			commodity, found = findCommodity(currency)
			check.If(found, "unknown currency %s", currency)
'''),(CM,'''	commodity, found := coin.Commodities[symbol]
	if !found {
		commodity, found = coin.CommoditiesBySymbol[symbol]
	}
	check.OK(''','''	commodity, found := findCommodity(symbol)
	check.OK('''),(CM,'''func findAccountForCommodity(''','''func findCommodity(name string) (*coin.Commodity, bool) {
	if c, ok := coin.Commodities[name]; ok {
		return c, true
	}
	c, ok := coin.CommoditiesBySymbol[name]
	return c, ok
}

func findAccountForCommodity(''')]),
dict(id='csv-noquantity', edits=[(CM,'''	var quantity *coin.Amount
	if amt := valueFor("quantity"); amt != "" {
		quantity = coin.MustParseAmount(amt, commodity)
	}

	if quantity == nil {
		fromAccount := findAccountForCommodity(amount.Commodity, account)
		t.Post(fromAccount, toAccount, amount, nil)
		return t
	}
''','''	amt := valueFor("quantity")
	if amt == "" {
		fromAccount := findAccountForCommodity(amount.Commodity, account)
		t.Post(fromAccount, toAccount, amount, nil)
		return t
	}
	quantity := coin.MustParseAmount(amt, commodity)
''')]),
dict(id='csv-read', edits=[(CM,'''	for {
		rec, err := r.Read()
		if err == io.EOF {
			break
		}
		check.NoError(err, "reading transaction")
		if nt := transactionFrom(rec, src.fields, rules); nt != nil {
			transactions = append(transactions, nt)
		}
	}
	return transactions
''','''	for rec, err := r.Read(); err != io.EOF; rec, err = r.Read() {
		check.NoError(err, "reading transaction")
		nt := transactionFrom(rec, src.fields, rules)
		if nt == nil {
			continue
		}
		transactions = append(transactions, nt)
	}
	return transactions
''')]),
dict(id='csv-findacct', edits=[(CM,'''	account := coin.Unbalanced
	root.FirstWithChildrenDo(func(a *coin.Account) {
		if a.Commodity == c && account == coin.Unbalanced {
			account = a
		}
	})
	return account
''','''	found := coin.Unbalanced
	root.FirstWithChildrenDo(func(a *coin.Account) {
		if found != coin.Unbalanced || a.Commodity != c {
			return
		}
		found = a
	})
	return found
''')]),
dict(id='csv-main-write', edits=[(CM,'''	for _, t := range transactions {
		check.NoError(t.Write(os.Stdout, false), "writing transaction")
		_, err := fmt.Fprintln(os.Stdout)
		check.NoError(err, "writing transaction")
	}
}
''','''	writeTransactions(os.Stdout, transactions)
}

func writeTransactions(w io.Writer, transactions coin.TransactionsByTime) {
	for _, t := range transactions {
		err := t.Write(w, false)
		check.NoError(err, "writing transaction")
		_, err = fmt.Fprintln(w)
		check.NoError(err, "writing transaction")
	}
}
''')]),
dict(id='csv-template', edits=[(CR,'''		if p[0] == '{' {
			i := strings.IndexByte(p, '}')
			if i > 0 {
				f := p[1:i]
				out = append(out, fields[f].Value(row, fields)+p[i+1:])
				continue
			}
		}
		out = append(out, p)
''','''		if i := strings.IndexByte(p, '}'); p[0] == '{' && i > 0 {
			p = fields[p[1:i]].Value(row, fields) + p[i+1:]
		}
		out = append(out, p)
''')]),
dict(id='csv-template-builder', edits=[(CR,'''	out := []string{parts[0]}
	for _, p := range parts[1:] {
		if '0' <= p[0] && p[0] <= '9' {
			out = append(out, match[p[0:1]]+p[1:])
		} else {
			out = append(out, p)
		}
	}
	return strings.Join(out, "")
''','''	out := parts[0]
	for _, p := range parts[1:] {
		if '0' <= p[0] && p[0] <= '9' {
			out += match[p[0:1]] + p[1:]
		} else {
			out += p
		}
	}
	return out
''')]),
dict(id='csv-field', edits=[(CR,'''	if f.idx == nil {
		return f.derivedField(row, fields)
	}
	s := row[*f.idx]
	if f.re == nil {
		return s
	}
	return f.directField(s)
''','''	switch {
	case f.idx == nil:
		return f.derivedField(row, fields)
	case f.re == nil:
		return row[*f.idx]
	default:
		return f.directField(row[*f.idx])
	}
''')]),
dict(id='csv-scan', edits=[(CR,'''		match = fieldREX.Match(line)
		if match == nil {
			break
		}
		name := match["field"]
		var field Field
		if code := match["code"]; code != "" {
			field.out = code
			if field.condField = match["condField"]; field.condField != "" {
				field.re = rex.MustCompile(strings.TrimSpace(match["condRex"]))
			}
		} else {
			idx, err := strconv.Atoi(match["rowIdx"])
			check.NoError(err, "invalid field row index: %s\\n", idx)
			field.idx = &idx
			field.out = strings.TrimSpace(match["out"])
			if ex := match["rex"]; ex != "" {
				field.re = rex.MustCompile(strings.TrimSpace(ex))
			}
		}
		src.fields[name] = append(src.fields[name], &field)
''','''		match = fieldREX.Match(line)
		if match == nil {
			break
		}
		name := match["field"]
		src.fields[name] = append(src.fields[name], newField(match))
'''),(CR,'''func (s *Source) Write(''','''func newField(match map[string]string) *Field {
	var field Field
	if code := match["code"]; code != "" {
		field.out = code
		if field.condField = match["condField"]; field.condField != "" {
			field.re = rex.MustCompile(strings.TrimSpace(match["condRex"]))
		}
		return &field
	}
	idx, err := strconv.Atoi(match["rowIdx"])
	check.NoError(err, "invalid field row index: %s\\n", idx)
	field.idx = &idx
	field.out = strings.TrimSpace(match["out"])
	if ex := match["rex"]; ex != "" {
		field.re = rex.MustCompile(strings.TrimSpace(ex))
	}
	return &field
}

func (s *Source) Write(''')]),
dict(id='csv-readrules', edits=[(CR,'''	for {
		if bytes.Equal(line, separator) {
			if !s.Scan() { // nothing after separator
				return &rules
			}
			break
		}
		source := ScanSource(line, s)
		check.If(source != nil, "invalid source definition in rules file: %s", string(s.Bytes()))
		rules.sources[source.name] = source
		line = s.Bytes()
	}
''','''	for !bytes.Equal(line, separator) {
		source := ScanSource(line, s)
		check.If(source != nil, "invalid source definition in rules file: %s", string(s.Bytes()))
		rules.sources[source.name] = source
		line = s.Bytes()
	}
	if !s.Scan() { // nothing after separator
		return &rules
	}
''')]),
dict(id='ofx-tx', edits=[(OM,'''	rule := ars.RuleFor(payee)
	if rule != nil {
		if rule.Account == nil {
			// drop the transaction
			return nil
		}
		to = rule.Account
		notes = rule.Notes
	}
	amt := coin.NewAmountFrac(amount.Num(), amount.Denom(), ars.Account.Commodity)
	var bal *coin.Amount
	if balance != nil {
		bal = coin.NewAmountFrac(balance.Num(), balance.Denom(), ars.Account.Commodity)
	}
''','''	if rule := ars.RuleFor(payee); rule != nil {
		if rule.Account == nil {
			// drop the transaction
			return nil
		}
		to, notes = rule.Account, rule.Notes
	}
	amt := ratAmount(&amount, from.Commodity)
	var bal *coin.Amount
	if balance != nil {
		bal = ratAmount(balance, from.Commodity)
	}
'''),(OM,'''func newTransaction(''','''func ratAmount(r *big.Rat, c *coin.Commodity) *coin.Amount {
	return coin.NewAmountFrac(r.Num(), r.Denom(), c)
}

func newTransaction(''')]),
dict(id='ofx-dedup', edits=[(OM,'''		var filtered, day, oldDay coin.TransactionsByTime
		var prevDay time.Time
		for _, t := range transactions {
			if !t.Posted.Equal(prevDay) {
				oldDay = coin.Transactions.Day(t.Posted)
				filtered = append(filtered, day...)
				day = nil
				prevDay = t.Posted
			}
			if t2 := oldDay.FindEqual(t); t2 != nil {
				// cannot merge into the old transaction
				// may lose additional info from the import (e.g. balance :/)
				fmt.Fprintf(os.Stderr,
					"DROPPING DUPLICATE TRANSACTION:\\n%s\\n%s\\n",
					t2.Location(),
					t)
				continue
			}
			if t2 := day.FindEqual(t); t2 != nil {
				t2.MergeDuplicate(t)
				fmt.Fprintf(os.Stderr,
					"DROPPING DUPLICATE TRANSACTION:\\n%s\\n",
					t)
				continue
			}
			day = append(day, t)
		}
		filtered = append(filtered, day...) // append last day
		transactions = filtered
	}
''','''		transactions = dropDuplicates(transactions)
	}
'''),(OM,'''func readTransactions(''','''func dropDuplicates(transactions coin.TransactionsByTime) (filtered coin.TransactionsByTime) {
	var day, oldDay coin.TransactionsByTime
	var prevDay time.Time
	for _, t := range transactions {
		if !t.Posted.Equal(prevDay) {
			oldDay = coin.Transactions.Day(t.Posted)
			filtered = append(filtered, day...)
			day = nil
			prevDay = t.Posted
		}
		if t2 := oldDay.FindEqual(t); t2 != nil {
			fmt.Fprintf(os.Stderr, "DROPPING DUPLICATE TRANSACTION:\\n%s\\n%s\\n", t2.Location(), t)
		} else if t2 := day.FindEqual(t); t2 != nil {
			t2.MergeDuplicate(t)
			fmt.Fprintf(os.Stderr, "DROPPING DUPLICATE TRANSACTION:\\n%s\\n", t)
		} else {
			day = append(day, t)
		}
	}
	return append(filtered, day...)
}

func readTransactions(''')]),
dict(id='ofx-dedup-noday', edits=[(OM,'''			if t2 := oldDay.FindEqual(t); t2 != nil {
				// cannot merge into the old transaction
				// may lose additional info from the import (e.g. balance :/)
				fmt.Fprintf(os.Stderr,
					"DROPPING DUPLICATE TRANSACTION:\\n%s\\n%s\\n",
					t2.Location(),
					t)
				continue
			}
''','''			old := oldDay.FindEqual(t)
			if old != nil {
				fmt.Fprintln(os.Stderr, "DROPPING DUPLICATE TRANSACTION:")
				fmt.Fprintln(os.Stderr, old.Location())
				fmt.Fprintln(os.Stderr, t)
				continue
			}
''')]),
dict(id='ofx-read-split', edits=[(OM,'''	// read bank transactions
	for _, resp := range responses.Bank {
		resp := resp.(*ofxgo.StatementResponse)
		rules := rules.AccountRulesFor(resp.BankAcctFrom.AcctID.String())
		last := len(resp.BankTranList.Transactions) - 1
		for i, t := range resp.BankTranList.Transactions {
			var balance *big.Rat
			if i == last {
				balance = &(resp.BalAmt.Rat)
			}
			if nt := newTransaction(rules,
				t.DtPosted.Time,
				trim(t.Name.String()+t.Memo.String()),
				t.TrnAmt.Rat,
				balance,
			); nt != nil {
				transactions = append(transactions, nt)
			}
		}
	}
''','''	// read bank transactions
	for _, resp := range responses.Bank {
		transactions = append(transactions, bankTransactions(resp.(*ofxgo.StatementResponse), rules)...)
	}
'''),(OM,'''func newTransaction(''','''func bankTransactions(resp *ofxgo.StatementResponse, rules *coin.RuleIndex) (transactions []*coin.Transaction) {
	ars := rules.AccountRulesFor(resp.BankAcctFrom.AcctID.String())
	list := resp.BankTranList.Transactions
	for i, t := range list {
		var balance *big.Rat
		if i == len(list)-1 {
			balance = &resp.BalAmt.Rat
		}
		nt := newTransaction(ars, t.DtPosted.Time, trim(t.Name.String()+t.Memo.String()), t.TrnAmt.Rat, balance)
		if nt != nil {
			transactions = append(transactions, nt)
		}
	}
	return transactions
}

func newTransaction(''')]),
dict(id='ofx-trim', edits=[('cmd/ofx2coin/utils.go','''	var w strings.Builder
	isFirst := true
	for scanner.Scan() {
		if !isFirst {
			w.WriteByte(' ')
		}
		w.Write(scanner.Bytes())
		isFirst = false
	}
	return w.String()
''','''	var words []string
	for scanner.Scan() {
		words = append(words, scanner.Text())
	}
	return strings.Join(words, " ")
''')]),
dict(id='bmo-split', edits=[(OB,'''			for _, ignore := range ignore {
				if bytes.Equal(r.lastLine, ignore) {
					continue loop
				}
			}
			break loop
''','''			if !ignored(r.lastLine) {
				break
			}
'''),(OB,'''func newBMOReader(''','''func ignored(line []byte) bool {
	for _, i := range ignore {
		if bytes.Equal(line, i) {
			return true
		}
	}
	return false
}

func newBMOReader(''')]),
dict(id='bmo-header', edits=[(OB,'''			if !r.reachedHeader {
				if bytes.Equal(r.lastLine, emptyLine) {
					continue loop
				} else {
					r.reachedHeader = true
				}
			}
''','''			if !r.reachedHeader && bytes.Equal(r.lastLine, emptyLine) {
				continue
			}
			r.reachedHeader = true
''')]),
]
