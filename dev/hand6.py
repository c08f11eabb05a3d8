# Hand-written refactorings that keep the behaviour: less visited files
R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
PA='parser.go'; IN='include.go'; MA='cmd/coin/main.go'; BM='cmd/ofx2coin/bmo.go'; FO='cmd/coin/format.go'; ST='cmd/coin/stats.go'; CO='cmd/coin/commodities.go'; GC='cmd/gc2coin/main.go'
RU='cmd/gen2coin/rule.go'; DT='cmd/gen2coin/dates.go'; GM='cmd/gen2coin/main.go'; GA='gnucash/account.go'; GG='gnucash/gnucash.go'; GP='gnucash/price.go'; GT='gnucash/transaction.go'
r('parse-loop',(PA,'''	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case len(bytes.TrimSpace(line)) == 0:
		p.Scan()
		return p.Next(fn)
	case bytes.ContainsAny(line[:1], ";#%|*"):
		p.Scan()
		return p.Next(fn)
	case''','''	for !p.finished && isSkipped(p.Bytes()) {
		p.Scan()
	}
	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case'''),(PA,'func (p *Parser) Scan()','''// isSkipped reports lines that are empty or comments.
func isSkipped(line []byte) bool {
	return len(bytes.TrimSpace(line)) == 0 || bytes.ContainsAny(line[:1], ";#%|*")
}

func (p *Parser) Scan()'''))
r('parse-ifs',(PA,'''	switch line := p.Bytes(); {
	case len(bytes.TrimSpace(line)) == 0:
		p.Scan()
		return p.Next(fn)
	case bytes.ContainsAny(line[:1], ";#%|*"):
		p.Scan()
		return p.Next(fn)
	case bytes.HasPrefix(line, []byte("include")):''','''	line := p.Bytes()
	if len(bytes.TrimSpace(line)) == 0 || bytes.ContainsAny(line[:1], ";#%|*") {
		p.Scan()
		return p.Next(fn)
	}
	switch {
	case bytes.HasPrefix(line, []byte("include")):'''))
r('parse-strings',(PA,'	switch line := p.Bytes(); {','	startsWith := func(prefix string) bool { return bytes.HasPrefix(p.Bytes(), []byte(prefix)) }\n	switch line := p.Bytes(); {'),(PA,'bytes.HasPrefix(line, []byte("include"))','startsWith("include")'),(PA,'bytes.HasPrefix(line, []byte("account"))','startsWith("account")'),(PA,'bytes.HasPrefix(line, []byte("commodity "))','startsWith("commodity ")'),(PA,'bytes.HasPrefix(line, []byte("test "))','startsWith("test ")'),(PA,'bytes.HasPrefix(line, []byte("P "))','startsWith("P ")'))
r('scan-if',(PA,'''	p.finished = !p.Scanner.Scan()
	if !p.finished {
		p.lineNr++
	}
	return !p.finished''','''	more := p.Scanner.Scan()
	p.finished = !more
	if more {
		p.lineNr += 1
	}
	return more'''))
r('include-switch',(IN,'''	var resolved string
	if i.Path[0] == '/' {
		resolved = "." + i.Path
	} else if i.Path[0] == '$' {
		resolved = i.Path
	} else {
		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
	}
	resolved = os.ExpandEnv(resolved)
	return filepath.Glob(resolved)''','''	return filepath.Glob(os.ExpandEnv(i.pattern()))
}

// pattern is the path relative to the including file
func (i *Include) pattern() string {
	switch i.Path[0] {
	case '/':
		return "." + i.Path
	case '$':
		return i.Path
	}
	return filepath.Join(filepath.Dir(i.file), i.Path)'''))
r('include-str',(IN,'''	matches := includeHead.FindSubmatch(p.Bytes())
''','''	matches := includeHead.FindStringSubmatch(p.Text())
'''),(IN,'string(matches[1])','matches[1]'))
r('main-split',(MA,'''	cmdArg := "balance"
	if len(os.Args) > 1 {
		cmdArg = os.Args[1]
	}
	cmd := aliases[cmdArg]
	if cmd == nil {
		if cmdArg != "-h" {
			fmt.Fprintf(os.Stderr, "Unknown command %s\\n", cmdArg)
		}
		fmt.Fprintln(os.Stderr, "Usage: coin [cmd] ...")
		for _, c := range commands {
			fmt.Fprintf(os.Stderr, "\\nCommand ")
			c.Usage()
		}
		os.Exit(1)
	}
	if len(os.Args) > 2 {
		cmd.Parse(os.Args[2:])
	} else {
		cmd.Parse(nil)
	}
	cmd.init()
''','''	args := os.Args[1:]
	cmdArg := "balance"
	if len(args) > 0 {
		cmdArg, args = args[0], args[1:]
	}
	cmd, found := aliases[cmdArg]
	if !found {
		fail(cmdArg)
	}
	cmd.Parse(args)
	cmd.init()
'''),(MA,'func main() {','''func fail(cmdArg string) {
	if cmdArg != "-h" {
		fmt.Fprintf(os.Stderr, "Unknown command %s\\n", cmdArg)
	}
	fmt.Fprintln(os.Stderr, "Usage: coin [cmd] ...")
	for _, c := range commands {
		fmt.Fprint(os.Stderr, "\\nCommand ")
		c.Usage()
	}
	os.Exit(1)
}

func main() {'''))
r('main-usage',(MA,'''		if cmdArg != "-h" {
			fmt.Fprintf(os.Stderr, "Unknown command %s\\n", cmdArg)
		}
		fmt.Fprintln(os.Stderr, "Usage: coin [cmd] ...")
		for _, c := range commands {
			fmt.Fprintf(os.Stderr, "\\nCommand ")
			c.Usage()
		}
''','''		if cmdArg != "-h" {
			fmt.Fprintln(os.Stderr, "Unknown command", cmdArg)
		}
		printUsage(os.Stderr)
'''),(MA,'func main() {','''func printUsage(w io.Writer) {
	fmt.Fprintln(w, "Usage: coin [cmd] ...")
	for i := range commands {
		io.WriteString(w, "\\nCommand ")
		commands[i].Usage()
	}
}

func main() {'''))
r('bmo-helper',(BM,'''			for _, ignore := range ignore {
				if bytes.Equal(r.lastLine, ignore) {
					continue loop
				}
			}
			break loop
''','''			if !isIgnored(r.lastLine) {
				break loop
			}
'''),(BM,'func newBMOReader','''func isIgnored(line []byte) bool {
	for _, ign := range ignore {
		if bytes.Equal(line, ign) {
			return true
		}
	}
	return false
}

func newBMOReader'''))
r('bmo-elsecut',(BM,'''				if bytes.Equal(r.lastLine, emptyLine) {
					continue loop
				} else {
					r.reachedHeader = true
				}
''','''				if bytes.Equal(r.lastLine, emptyLine) {
					continue
				}
				r.reachedHeader = true
'''),(BM,'''				break loop
			}
			for _, ignore''','''				break
			}
			for _, ignore'''),(BM,'''			}
			break loop
		}
	}
''','''			}
			break
		}
	}
'''))
r('bmo-str',(BM,'bytes.Equal(r.lastLine, []byte("<OFX>\\n"))','string(r.lastLine) == "<OFX>\\n"'))
r('bmo-next',(BM,'''	if len(r.lastLine) == 0 {
	loop:
		for {
			r.lastLine, err = r.ReadBytes('\\n')
			if err != nil && len(r.lastLine) == 0 {
				return 0, err
			}
			if''','''	if len(r.lastLine) == 0 {
	loop:
		for {
			line, err := r.ReadBytes('\\n')
			r.lastLine = line
			if len(line) == 0 && err != nil {
				return 0, err
			}
			if'''))
r('format-split',(FO,'''	for _, fn := range cmd.Args() {
		var err error
		var tf *os.File
		coin.LoadFile(fn)
		coin.ResolveTransactions(false)
		if cmd.replace {
			tf, err = os.CreateTemp(path.Dir(fn), path.Base(fn))
			check.NoError(err, "creating temp file")
			f = tf
		}
		cmd.writeTransactions(f)
		if cmd.replace {
			check.NoError(tf.Close(), "closing temp file")
			err = os.Rename(tf.Name(), fn)
			check.NoError(err, "renaming temp file")
		}
		coin.DropTransactions()
	}
}
''','''	for _, fn := range cmd.Args() {
		coin.LoadFile(fn)
		coin.ResolveTransactions(false)
		if cmd.replace {
			cmd.rewrite(fn)
		} else {
			cmd.writeTransactions(f)
		}
		coin.DropTransactions()
	}
}

// rewrite replaces the file with the formatted transactions.
func (cmd *cmdFormat) rewrite(fn string) {
	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
	check.NoError(err, "creating temp file")
	cmd.writeTransactions(tf)
	err = tf.Close()
	check.NoError(err, "closing temp file")
	err = os.Rename(tf.Name(), fn)
	check.NoError(err, "renaming temp file")
}
'''))
r('format-trimcopy',(FO,'''		if cmd.trimWS {
			t.Description = trimWS(t.Description)[0]
			t.Notes = trimWS(t.Notes...)
		}
''','''		cmd.normalize(t)
'''),(FO,'func (cmd *cmdFormat) writeTransactions','''func (cmd *cmdFormat) normalize(t *coin.Transaction) {
	if !cmd.trimWS {
		return
	}
	t.Notes = trimWS(t.Notes...)
	t.Description = trimWS(t.Description)[0]
}

func (cmd *cmdFormat) writeTransactions'''))
r('stats-reset',(ST,'''			if len(day) == 0 {
				day = append(day, t)
				continue
			}
			if !t.Posted.Equal(day[0].Posted) {
				day = append(day[:0], t)
				continue
			}
			for''','''			if len(day) > 0 && !t.Posted.Equal(day[0].Posted) {
				day = day[:0]
			}
			for'''))
r('stats-methods',(ST,'''		for _, p := range t.Postings {
			if cmd.unbalanced && p.Account == coin.Unbalanced {
				fmt.Fprintf(f,
					"UNBALANCED TRANSACTION!\\n%s\\n%s\\n",
					t.Location(),
					t)
			}
		}
''','''		if cmd.unbalanced {
			printUnbalanced(f, t)
		}
'''),(ST,'func (cmd *cmdStats) transactions()','''func printUnbalanced(w io.Writer, t *coin.Transaction) {
	for _, p := range t.Postings {
		if p.Account != coin.Unbalanced {
			continue
		}
		fmt.Fprintf(w, "UNBALANCED TRANSACTION!\\n%s\\n%s\\n", t.Location(), t)
	}
}

func (cmd *cmdStats) transactions()'''))
r('stats-search',(ST,'''		to := sort.Search(len(transactions), func(i int) bool {
			return !transactions[i].Posted.Before(cmd.end.Time)
		})
		if to == len(transactions) {
			return transactions
		}
		transactions = transactions[:to]
	}
	return transactions''','''		n := sort.Search(len(transactions), func(i int) bool {
			return !transactions[i].Posted.Before(cmd.end.Time)
		})
		return transactions[:n]
	}
	return transactions'''))
r('com-list',(CO,'''		for _, cur := range commodity.Currencies() {
			for _, p := range commodity.Prices[cur] {
				if cmd.location {
					fmt.Fprintf(f, "%s %s %s %s\\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
				} else {
					fmt.Fprintf(f, "%s %s %s\\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false))
				}
			}
		}
		return
''','''		cmd.listPrices(f, commodity)
		return
'''),(CO,'func (cmd *cmdCommodities) execute','''func (cmd *cmdCommodities) listPrices(f io.Writer, c *coin.Commodity) {
	for _, cur := range c.Currencies() {
		for _, p := range c.Prices[cur] {
			fmt.Fprintf(f, "%s %s %s", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false))
			if cmd.location {
				fmt.Fprintf(f, " %s", p.Location())
			}
			fmt.Fprintln(f)
		}
	}
}

func (cmd *cmdCommodities) execute'''))
r('com-quote',(CO,'''			if !(c.NoMarket || c.Id == coin.DefaultCommodityId) {
				var q *finance.Quote
				var err error
				if c.Symbol != "" {
					q, err = quote.Get(c.Symbol)
				} else {
					var fx *finance.ForexPair
					fx, err = forex.Get(c.Id + coin.DefaultCommodityId + "=X")
					if err == nil {
						q = &fx.Quote
					}
				}
				if err != nil {''','''			if !c.NoMarket && c.Id != coin.DefaultCommodityId {
				q, err := getQuote(c)
				if err != nil {'''),(CO,'func (cmd *cmdCommodities) execute','''func getQuote(c *coin.Commodity) (*finance.Quote, error) {
	if c.Symbol != "" {
		return quote.Get(c.Symbol)
	}
	fx, err := forex.Get(c.Id + coin.DefaultCommodityId + "=X")
	if err != nil {
		return nil, err
	}
	return &fx.Quote, nil
}

func (cmd *cmdCommodities) execute'''))
r('com-flag',(CO,'''			sym := c.Symbol
			dl := ' '
			if len(sym) > 0 && !c.NoMarket {
				dl = 'Q'
			}
			fmt.Fprintf(f, "%10s | %10s | %c | %s\\n", c.Id, sym, dl, c.Name)''','''			dl := " "
			if c.Symbol != "" && !c.NoMarket {
				dl = "Q"
			}
			fmt.Fprintf(f, "%10s | %10s | %s | %s\\n", c.Id, c.Symbol, dl, c.Name)'''))
r('gc-must',(GC,'''		err := c.Write(f, *ledger)
		if err != nil {
			panic(err)
		}
		_, err = io.WriteString(f, "\\n")
		if err != nil {
			panic(err)
		}
	})

	// Assume''','''		write(f, c, "\\n")
	})

	// Assume'''),(GC,'''	coin.AccountsDo(func(a *coin.Account) {
		err := a.Write(f, *ledger)
		if err != nil {
			panic(err)
		}
		_, err = io.WriteString(f, "\\n")
		if err != nil {
			panic(err)
		}
	})''','''	coin.AccountsDo(func(a *coin.Account) { write(f, a, "\\n") })'''),(GC,'func main() {','''type item interface {
	Write(w io.Writer, ledger bool) error
}

func write(w io.Writer, i item, sep string) {
	if err := i.Write(w, *ledger); err != nil {
		panic(err)
	}
	if _, err := io.WriteString(w, sep); err != nil {
		panic(err)
	}
}

func main() {'''))
r('gc-year',(GC,'''		if *yearly && p.Time.Year() != year {
			year = p.Time.Year()
''','''		if y := p.Time.Year(); *yearly && y != year {
			year = y
'''),(GC,'''func main() {''','''func yearFile(year int, ext string) string { return strconv.Itoa(year) + ext }

func main() {'''),(GC,'''			f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
			defer done()
		}''','''			f, done = next(yearFile(year, coin.TransactionsExtension))
			defer done()
		}'''))
r('gen-pick',(DT,'''				for i := 0; i < count && len(candidates) > 0; i++ {
					offset := rnd.Intn(len(candidates))
					pick := candidates[offset]
					// drop the pick from candidates
					copy(candidates[offset:], candidates[offset+1:])
					candidates = candidates[:len(candidates)-1]
					picks = append(picks, pick)
				}
				sort''','''				for len(picks) < count && len(candidates) > 0 {
					offset := rnd.Intn(len(candidates))
					picks = append(picks, candidates[offset])
					candidates = append(candidates[:offset], candidates[offset+1:]...)
				}
				sort'''))
r('gen-inrange',(DT,'''				if !(end.Before(pick) || pick.Before(begin)) {
					dates''','''				if inRange(pick, begin, end) {
					dates'''),(DT,'''cM == pM && !(end.Before(pick) || pick.Before(begin)) {''','''cM == pM && inRange(pick, begin, end) {'''),(DT,'var mDays','''func inRange(d, begin, end time.Time) bool {
	return !d.Before(begin) && !d.After(end)
}

var mDays'''))
r('gen-amt',(RU,'''	if a > b {
		a, b = b, a
	}
	amt := a
	if b != a {
		amt = a + rnd.Intn(b-a)
	}
''','''	low, high := a, b
	if high < low {
		low, high = high, low
	}
	amt := low
	if low < high {
		amt += rnd.Intn(high - low)
	}
'''))
r('gen-balance',(RU,'''	var amt *coin.Amount
	switch account {
	case FROM_BALANCE:
		amt = from.Balance().Negated()
	case TO_BALANCE:
		amt = to.Balance().Negated()
	default:
		panic(fmt.Errorf("invalid constant: %d", account))
	}
	amt.Div''','''	var acct *coin.Account
	switch account {
	case FROM_BALANCE:
		acct = from
	case TO_BALANCE:
		acct = to
	default:
		panic(fmt.Errorf("invalid constant: %d", account))
	}
	amt := acct.Balance().Negated()
	amt.Div'''))
r('gen-pow',(RU,'''	bitMask := 1
	pow := int64(base)
	res = 1
	for bitMask <= exp {
		if bitMask&exp != 0 {
			res *= pow
		}
		pow *= pow
		bitMask <<= 1
	}
	return res''','''	res = 1
	for pow, bit := int64(base), 1; bit <= exp; bit <<= 1 {
		if exp&bit != 0 {
			res = res * pow
		}
		pow = pow * pow
	}
	return res'''))
r('gen-rand',(RU,'''		payee := r.payees[rand.Intn(len(r.payees))]
		t := &coin.Transaction{
			Posted:      posted,
			Description: payee}
		transactions = append(transactions, sample{r, t})''','''		t := &coin.Transaction{Posted: posted}
		t.Description = r.payees[rand.Intn(len(r.payees))]
		transactions = append(transactions, sample{rule: r, Transaction: t})'''))
r('gen-batch',(GM,'''	var batch samples
	previous := labeler(transactions[0].Posted)
	for _, t := range transactions {
		next := labeler(t.Posted)
		if previous == next {
			batch = append(batch, t)
		} else {
			batches[previous] = batch
			previous = next
			batch = samples{t}
		}
	}
''','''	var batch samples
	previous := labeler(transactions[0].Posted)
	for _, t := range transactions {
		next := labeler(t.Posted)
		if previous != next {
			batches[previous] = batch
			previous, batch = next, nil
		}
		batch = append(batch, t)
	}
'''))
r('gen-labeler',(GM,'''	labeler := func(t time.Time) string { return "transactions" }
	if byYear {
		labeler = func(t time.Time) string { return t.Format("2006") }
	}
	if byMonth {
		labeler = func(t time.Time) string { return t.Format("2006-01") }
	}
''','''	labeler := func(t time.Time) string {
		switch {
		case byMonth:
			return t.Format("2006-01")
		case byYear:
			return t.Format("2006")
		}
		return "transactions"
	}
'''))
r('gen-stdout',(GM,'''	if dir == "" { // just dump everything into stdout
		if asJson {
			encoder := json.NewEncoder(os.Stdout)
			encoder.SetIndent("", "\\t")
			encoder.Encode(transactions)
		 } else {
				for _, t := range transactions {
					t.Write(os.Stdout, false)
					fmt.Fprintln(os.Stdout)
				}
			}
		return
	}
''','''	if dir == "" { // just dump everything into stdout
		dump(transactions)
		return
	}
'''),(GM,'func main() {','''func dump(transactions samples) {
	if !asJson {
		for i := range transactions {
			transactions[i].Write(os.Stdout, false)
			fmt.Println()
		}
		return
	}
	encoder := json.NewEncoder(os.Stdout)
	encoder.SetIndent("", "\\t")
	encoder.Encode(transactions)
}

func main() {'''))
r('gn-acct',(GA,'''	var name string
	if a.Name == "Root Account" {
		name = "Root"
	} else {
		name = strings.Replace(a.Name, " ", "", -1)
	}
''','''	name := strings.ReplaceAll(a.Name, " ", "")
	if a.Name == "Root Account" {
		name = "Root"
	}
'''))
r('gn-resolve',(GA,'''		if gca.ParentGuid != "" {
			AccountParentGuids[a] = gca.ParentGuid
		} else {
			coin.Root = a
		}
		if gca.CommodityId != "" {
			a.Commodity = coin.MustFindCommodity(gca.CommodityId, "gnucash account")
		} else {
			a.Commodity = coin.DefaultCommodity()
		}
''','''		if gca.ParentGuid == "" {
			coin.Root = a
		} else {
			AccountParentGuids[a] = gca.ParentGuid
		}
		if id := gca.CommodityId; id == "" {
			a.Commodity = coin.DefaultCommodity()
		} else {
			a.Commodity = coin.MustFindCommodity(id, "gnucash account")
		}
'''))
r('gn-sort',(GA,'''		sort.Slice(a.Children, func(i, j int) bool {
			return a.Children[i].Name < a.Children[j].Name
		})
''','''		children := a.Children
		sort.Slice(children, func(i, j int) bool {
			return children[i].Name < children[j].Name
		})
'''))
r('gn-full',(GA,'''	if a.FullName != "" {
		return a.FullName
	}
	if isRoot(a) || isRoot(a.Parent) {
		a.FullName = a.Name
	} else {
		a.FullName = buildFullName(a.Parent) + ":" + a.Name
	}
	return a.FullName''','''	if a.FullName == "" {
		a.FullName = a.Name
		if !isRoot(a) && !isRoot(a.Parent) {
			a.FullName = buildFullName(a.Parent) + ":" + a.Name
		}
	}
	return a.FullName'''))
r('gn-amt',(GG,'''	values := strings.Split(f, "/")
	if len(values) != 2 {
		panic("invalid fraction: " + f)
	}
	num, ok := new(big.Int).SetString(values[0], 10)
	if !ok {
		panic("invalid numerator: " + f)
	}
	den, ok := new(big.Int).SetString(values[1], 10)
	if !ok {
		panic("invalid denominator: " + f)
	}
''','''	values := strings.Split(f, "/")
	if len(values) != 2 {
		panic("invalid fraction: " + f)
	}
	parse := func(s, what string) *big.Int {
		i, ok := new(big.Int).SetString(s, 10)
		if !ok {
			panic("invalid " + what + ": " + f)
		}
		return i
	}
	num, den := parse(values[0], "numerator"), parse(values[1], "denominator")
'''))
r('gn-price',(GP,'''		p := &coin.Price{}
		p.Commodity = coin.Commodities[gp.CommodityId]
		p.Currency = coin.Commodities[gp.CurrencyId]
		p.Value = mustParseAmount(gp.ValueFraction, p.Currency)
		p.Time = mustParseTimeStamp(gp.Date)
		p.Commodity.Prices[p.Currency] =
			append(p.Commodity.Prices[p.Currency], p)
		coin.Prices''','''		com, cur := coin.Commodities[gp.CommodityId], coin.Commodities[gp.CurrencyId]
		p := &coin.Price{
			Commodity: com,
			Currency:  cur,
			Value:     mustParseAmount(gp.ValueFraction, cur),
			Time:      mustParseTimeStamp(gp.Date),
		}
		com.Prices[cur] = append(com.Prices[cur], p)
		coin.Prices'''))
r('gn-trans',(GT,'''		ds := strings.SplitN(gt.Description, " - ", 2)
		t := &coin.Transaction{
			Code:        gt.Num,
			Description: ds[0],
		}
		if len(ds) == 2 && len(ds[1]) > 0 {
			t.Notes = []string{ds[1]}
		}
''','''		description, note, _ := strings.Cut(gt.Description, " - ")
		t := &coin.Transaction{
			Code:        gt.Num,
			Description: description,
		}
		if note != "" {
			t.Notes = []string{note}
		}
'''))
r('gen-pick2',(DT,'''					pick := candidates[offset]
					// drop the pick from candidates
					copy(candidates[offset:], candidates[offset+1:])
					candidates = candidates[:len(candidates)-1]
					picks = append(picks, pick)
				}
				sort''','''					picks = append(picks, candidates[offset])
					candidates = append(candidates[:offset], candidates[offset+1:]...)
				}
				sort'''))
r('main-split2',(MA,'''	cmdArg := "balance"
	if len(os.Args) > 1 {
		cmdArg = os.Args[1]
	}
	cmd := aliases[cmdArg]
	if cmd == nil {
		if cmdArg != "-h" {
			fmt.Fprintf(os.Stderr, "Unknown command %s\\n", cmdArg)
		}
		fmt.Fprintln(os.Stderr, "Usage: coin [cmd] ...")
		for _, c := range commands {
			fmt.Fprintf(os.Stderr, "\\nCommand ")
			c.Usage()
		}
		os.Exit(1)
	}
	if len(os.Args) > 2 {
		cmd.Parse(os.Args[2:])
	} else {
		cmd.Parse(nil)
	}
	cmd.init()
''','''	cmdArg, args := "balance", []string(nil)
	if len(os.Args) > 1 {
		cmdArg, args = os.Args[1], os.Args[2:]
	}
	cmd := aliases[cmdArg]
	if cmd == nil {
		fail(cmdArg)
	}
	cmd.Parse(args)
	cmd.init()
'''),(MA,'func main() {','''func fail(cmdArg string) {
	if cmdArg != "-h" {
		fmt.Fprintf(os.Stderr, "Unknown command %s\\n", cmdArg)
	}
	fmt.Fprintln(os.Stderr, "Usage: coin [cmd] ...")
	for _, c := range commands {
		fmt.Fprint(os.Stderr, "\\nCommand ")
		c.Usage()
	}
	os.Exit(1)
}

func main() {'''))
