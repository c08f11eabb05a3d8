package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/mkobetic/coin"
	"github.com/mkobetic/coin/check"
)

var spec_payees = categoryReducer{
	reduce: func(p *coin.Posting) string {
		return p.Transaction.Description
	},
}

var spec_tags = categoryReducer{
	reduce: func(p *coin.Posting) string {
		tags := p.Transaction.Tags.With(p.Tags)
		if len(tags) == 0 {
			return "<no-tags>"
		} else {
			return strings.Join(tags.KeysAndValues(), ",")
		}
	},
}

var spec_week = timeReducer{
	reduce: func(t time.Time) time.Time {
		dow := int(t.Weekday())
		t = t.AddDate(0, 0, -dow)
		y, m, d := t.Date()
		return time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
	},
	format: coin.DateFormat,
}

var spec_month = timeReducer{
	reduce: func(t time.Time) time.Time {
		y, m, _ := t.Date()
		return time.Date(y, m, 1, 12, 0, 0, 0, time.UTC)
	},
	format: coin.MonthFormat,
}

var spec_quarter = timeReducer{
	reduce: func(t time.Time) time.Time {
		y, m, _ := t.Date()
		m = ((m - 1) / 3 * 3) + 1
		return time.Date(y, m, 1, 12, 0, 0, 0, time.UTC)
	},
	format: coin.MonthFormat,
}

var spec_year = timeReducer{
	reduce: func(t time.Time) time.Time {
		y, _, _ := t.Date()
		return time.Date(y, time.January, 1, 12, 0, 0, 0, time.UTC)
	},
	format: coin.YearFormat,
}

func (t *timeTotal) spec_Categories() (keys []string) {
	for k := range t.totals {
		keys = append(keys, k)
	}
	return keys
}

func (t *timeTotal) spec_AddIn(t2 *timeTotal, keysOnly bool) {
	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
	if t.total != nil && !keysOnly {
		check.NoError(t.total.AddIn(t2.total), "cannot add %a to totals", t2.total)
		return
	}
	for k, v := range t2.totals {
		amt := t.totals[k]
		if amt != nil {
			if !keysOnly {
				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
			}
		} else {
			if keysOnly {
				t.totals[k] = coin.NewZeroAmount(v.Commodity)
			} else {
				t.totals[k] = v.Copy()
			}
		}
	}
}

func (t *timeTotal) spec_Copy(keysOnly bool) *timeTotal {
	if t.total != nil {
		return &timeTotal{Time: t.Time, total: t.total.Copy()}
	}
	totals := make(map[string]*coin.Amount)
	for k, v := range t.totals {
		if keysOnly {
			totals[k] = coin.NewZeroAmount(v.Commodity)
		} else {
			totals[k] = v.Copy()
		}
	}
	return &timeTotal{Time: t.Time, totals: totals}
}

func (t *timeTotal) spec_Commodity() *coin.Commodity {
	if t.total != nil {
		return t.total.Commodity
	}
	// pick the first category so that the result doesn't depend on map order
	if keys := t.spec_Categories(); len(keys) > 0 {
		return t.totals[slices.Min(keys)].Commodity
	}
	return nil
}

func (t *timeTotal) spec_String() string {
	output := t.Time.Format(coin.DateFormat) + ": "
	if t.total != nil {
		return output + t.total.String()
	}
	var totals []string
	for k, v := range t.totals {
		totals = append(totals, fmt.Sprintf("%s: %s", k, v))
	}
	return output + "{ " + strings.Join(totals, ", ") + " }"
}

func spec_tsToStrings(ts ...*timeTotal) (out []string) {
	for _, t := range ts {
		out = append(out, t.spec_String())
	}
	return out
}

func (ts *timeTotals) spec_Commodity() *coin.Commodity {
	if ts.current != nil {
		if c := ts.current.spec_Commodity(); c != nil {
			return c
		}
	}
	for _, v := range ts.all {
		if c := v.spec_Commodity(); c != nil {
			return c
		}
	}
	return nil
}

func (ts *timeTotals) spec_add(p *coin.Posting) {
	var period time.Time
	if ts.timeReducer != nil {
		period = ts.timeReducer.reduce(p.Transaction.Posted)
	}
	if ts.current != nil && ts.current.Equal(period) {
		if ts.categoryReducer != nil {
			category := ts.categoryReducer.reduce(p)
			amt := ts.current.totals[category]
			if amt != nil {
				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
			} else {
				ts.current.totals[category] = p.Quantity.Copy()
			}
		} else {
			check.NoError(ts.current.total.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
		}
		return
	}
	amt := p.Quantity.Copy()
	if ts.categoryReducer != nil {
		category := ts.categoryReducer.reduce(p)
		ts.current = &timeTotal{Time: period, totals: map[string]*coin.Amount{category: amt}}
	} else {
		ts.current = &timeTotal{Time: period, total: amt}
	}
	if ts.timeReducer != nil {
		ts.all = append(ts.all, ts.current)
	}
}

func (ts *timeTotals) spec_newTotal(t time.Time, c *coin.Commodity) *timeTotal {
	if ts.categoryReducer != nil {
		return &timeTotal{Time: t, totals: make(map[string]*coin.Amount)}
	} else {
		check.If(c != nil, "need commodity to create total")
		return &timeTotal{Time: t, total: coin.NewZeroAmount(c)}
	}
}

func (ts *timeTotals) spec_mergeTotals(ts2 *timeTotals, keysOnly bool) {
	if ts.timeReducer == nil {
		if ts2.current == nil {
			return
		}
		if ts.current == nil {
			ts.current = ts2.current.spec_Copy(keysOnly)
		} else {
			ts.current.spec_AddIn(ts2.current, keysOnly)
		}
		return
	}
	var offsets []int
	var extras []*timeTotal
	remaining := ts.all
	// Add totals with matching time into ts,
	// gather non-matching into extras with offsets where they should go
	var j int
	for _, t := range ts2.all {
		i := sort.Search(len(remaining), func(i int) bool {
			return !remaining[i].Time.Before(t.Time)
		})
		remaining = remaining[i:]
		j += i
		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
			remaining[0].spec_AddIn(t, keysOnly)
		} else {
			offsets = append(offsets, j)
			j = 0
			extras = append(extras, t)
		}
	}
	if len(extras) == 0 {
		// if everything matched we are done
		return
	}
	// Otherwise inject the extras into the timeline.
	remaining = ts.all
	ts.all = make([]*timeTotal, 0, len(ts.all)+len(extras))
	for i := 0; i < len(extras); i++ {
		mark := offsets[i]
		extra := extras[i]
		com := ts.spec_Commodity()
		if com == nil {
			com = extra.spec_Commodity()
		}
		newExtra := ts.spec_newTotal(extra.Time, com)
		newExtra.spec_AddIn(extra, keysOnly)
		ts.all = append(ts.all, remaining[:mark]...)
		ts.all = append(ts.all, newExtra)
		remaining = remaining[mark:]
	}
	ts.all = append(ts.all, remaining...)
	ts.current = ts.all[len(ts.all)-1]
}

func (ts *timeTotals) spec_merge(ts2 *timeTotals) {
	ts.spec_mergeTotals(ts2, false)
}

func (ts *timeTotals) spec_mergeKeys(ts2 *timeTotals) {
	ts.spec_mergeTotals(ts2, true)
}

func (ts *timeTotals) spec_maxWidth() int {
	if ts == nil || ts.current == nil {
		return 0
	}
	dec := ts.spec_Commodity().Decimals
	var max int
	if len(ts.all) == 0 {
		for _, amt := range ts.current.totals {
			if w := amt.Width(dec); w > max {
				max = w
			}
		}
	} else {
		for _, t := range ts.all {
			if t.total == nil {
				for _, v := range t.totals {
					if w := v.Width(dec); w > max {
						max = w
					}
				}
			} else {
				if w := t.total.Width(dec); w > max {
					max = w
				}
			}
		}
	}
	return max
}

func (ts *timeTotals) spec_maxPeriodWidth() int {
	if ts.timeReducer == nil {
		return 0
	}
	return len(ts.all[0].Time.Format(ts.format))
}

func (ts *timeTotals) spec_maxCategoryWidth() int {
	periods := ts.all
	if len(periods) == 0 {
		periods = append(periods, ts.current)
	}
	max := 0
	for _, period := range periods {
		for k := range period.totals {
			if len(k) > max {
				max = len(k)
			}
		}
	}
	return max
}

func (ts *timeTotals) spec_cumMagnitude() *coin.Amount {
	if ts == nil || ts.current == nil {
		return nil
	}
	total := coin.NewZeroAmount(ts.spec_Commodity())
	if len(ts.all) == 0 {
		for _, amt := range ts.current.totals {
			check.NoError(total.AddIn(amt), "computing cumulative magnitude")
		}
	} else {
		for _, t := range ts.all {
			if t.total != nil {
				check.NoError(total.AddIn(t.total), "computing cumulative magnitude")
			} else {
				for _, v := range t.totals {
					check.NoError(total.AddIn(v), "computing cumulative magnitude")
				}
			}
		}
	}
	return total
}

func (ts *timeTotals) spec_makeCumulative() {
	check.If(ts.categoryReducer == nil, "category aggregation cannot be cumulative")
	if ts.current == nil {
		return
	}
	cum := coin.NewZeroAmount(ts.spec_Commodity())
	for _, t := range ts.all {
		err := cum.AddIn(t.total)
		check.NoError(err, "converting totals to cumulative")
		t.total = cum.Copy()
	}
}

func (ts *timeTotals) spec_validate(acc string) {
	check.If(ts.current != nil, "current nil for %s", acc)
	for _, t := range ts.all {
		check.If(t.total != nil, "amount nil @ %s for %s",
			t.Time.Format(coin.DateFormat),
			acc,
		)
	}
}

func (ts *timeTotals) spec_String() string {
	if ts == nil || ts.current == nil {
		return "nil()"
	}
	count := len(ts.all)
	if count == 0 {
		count = len(ts.current.totals)
		var keys []string
		var kcount = 0
		for k := range ts.current.totals {
			keys = append(keys, k)
			if kcount > 2 {
				break
			}
		}
		return fmt.Sprintf("%d(%s ...)", count, strings.Join(keys, ", "))
	}
	from := ts.all[0].Time.Format(coin.DateFormat)
	if count == 1 {
		return fmt.Sprintf("1(%s)", from)
	}
	to := ts.all[count-1].Time.Format(coin.DateFormat)
	return fmt.Sprintf("%d(%s-%s)", count, from, to)
}

func (ats accountTotals) spec_String() string {
	var items []string
	for acc, ts := range ats {
		n := "nil"
		if acc != nil {
			n = acc.Name
		}
		items = append(items, fmt.Sprintf("%s:%s", n, ts))
	}
	return fmt.Sprintf("totals{%s}", strings.Join(items, ", "))
}

func (ats accountTotals) spec_newTotals(acc *coin.Account, period *timeReducer, category *categoryReducer) *timeTotals {
	ts := &timeTotals{timeReducer: period, categoryReducer: category}
	ats[acc] = ts

	return ts
}

func (ats accountTotals) spec_widths(order []*coin.Account) (widths []int) {
	for _, acc := range order {
		widths = append(widths, ats[acc].spec_maxWidth())
	}
	return widths
}

func (ats accountTotals) spec_magnitudes() (magnitudes map[*coin.Account]*coin.Amount) {
	magnitudes = map[*coin.Account]*coin.Amount{}
	for acc, ts := range ats {
		magnitudes[acc] = ts.spec_cumMagnitude()
	}
	return magnitudes
}

func (ats accountTotals) spec_accounts() (accounts []*coin.Account) {
	for acc := range ats {
		accounts = append(accounts, acc)
	}
	return accounts
}

func (ats accountTotals) spec_makeCumulative() {
	for _, ts := range ats {
		ts.spec_makeCumulative()
	}
}

func (ats accountTotals) spec_top(n int) (topn accountTotals, order []*coin.Account) {
	topn = accountTotals{}
	magnitudes := ats.spec_magnitudes()
	var accounts []*coin.Account
	for _, acc := range ats.spec_accounts() {
		if magnitudes[acc] != nil {
			accounts = append(accounts, acc)
		}
	}

	sort.Slice(accounts, func(i int, j int) bool {
		mi, mj := magnitudes[accounts[i]], magnitudes[accounts[j]]
		if c := mi.CmpMagnitude(mj); c != 0 {
			return c > 0
		}
		return accounts[i].FullName < accounts[j].FullName
	})
	if len(accounts) <= n {
		return ats, accounts
	}
	for _, acc := range accounts[:n] {
		topn[acc] = ats[acc]
	}
	rest := accounts[n:]
	accounts = accounts[:n]
	if len(rest) > 0 {
		others := ats[rest[0]]
		for _, acc := range rest[1:] {
			others.spec_merge(ats[acc])
		}
		topn[nil] = others
		accounts = append(accounts, nil)
	}
	return topn, accounts
}

func (ats accountTotals) spec_mergeTime(ts *timeTotals) {
	for _, ts2 := range ats {
		if ts2 != ts {
			ts2.spec_mergeKeys(ts)
		}
	}
}

func (ats accountTotals) spec_validate() {
	for acc, ts := range ats {
		n := "nil"
		if acc != nil {
			n = acc.FullName
		}
		ts.spec_validate(n)
	}
	fmt.Println(ats)
}

func (ats accountTotals) spec_sanitize() {
	var empty []*coin.Account
	for acc, ts := range ats {
		if ts.current == nil {
			empty = append(empty, acc)
		}
	}
	for _, acc := range empty {
		delete(ats, acc)
	}
}

func (ats accountTotals) spec_output(f io.Writer,
	order []*coin.Account,
	label func(*coin.Account) string,
	format string,
) {
	switch format {
	case "json":
		ats.spec_rows(order, label).spec_writeJSON(f)
	case "csv":
		ats.spec_rows(order, label).spec_writeCSV(f)
	default:
		ats.spec_print(f, order, label)
	}
}

func (ats accountTotals) spec_print(f io.Writer,
	order []*coin.Account,
	label func(*coin.Account) string,
) {
	firstCol := ats[order[0]]
	format := []string{"%*s "}
	periodWidth := firstCol.spec_maxPeriodWidth()
	categoryWidth := firstCol.spec_maxCategoryWidth()
	if periodWidth > 0 && categoryWidth > 0 {
		format = append(format, " %*s ")
	}
	widths := ats.spec_widths(order)
	if label != nil {
		format2 := append([]string{}, format...)
		labels := make([]string, len(order))
		for i, acc := range order {
			l := label(acc)
			labels[i] = l
			if len(l) > widths[i] {
				widths[i] = len(l)
			}
			format = append(format, " %*a ")
			format2 = append(format2, " %*s ")
		}
		var args []interface{}
		if periodWidth > 0 {
			args = append(args, periodWidth, "")
		}
		if categoryWidth > 0 {
			args = append(args, categoryWidth, "")
		}
		for i := range widths {
			args = append(args, widths[i], labels[i])
		}
		fmtString := strings.TrimSpace(strings.Join(format2, "|")) + "\n"
		fmt.Fprintf(f, fmtString, args...)
	}
	fmtString := strings.TrimSpace(strings.Join(format, "|")) + "\n"
	periods := firstCol.all
	if len(periods) == 0 {
		periods = append(periods, firstCol.current)
	}
	for i, period := range periods {
		categories := period.spec_Categories()
		if len(categories) == 0 {
			categories = []string{""}
		} else {
			slices.Sort(categories)
		}
		for _, category := range categories {
			var args []interface{}
			if periodWidth > 0 {
				tm := period.Time.Format(firstCol.format)
				args = append(args, periodWidth, tm)
			}
			if categoryWidth > 0 {
				args = append(args, categoryWidth, category)
			}
			for ii, acc := range order {
				ts := ats[acc]
				check.If(ts != nil, "nil totals for %s\n", label(acc))
				t := ts.current
				if periodWidth > 0 {
					t = ts.all[i]
					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\n", label(acc), i,
						t.Time.Format(firstCol.format),
						period.Time.Format(firstCol.format))
				}
				amt := t.total
				if amt == nil {
					amt = t.totals[category]
				}
				args = append(args, widths[ii], amt)
			}
			fmt.Fprintf(f, fmtString, args...)
		}
	}
}

func (ats accountTotals) spec_rows(
	order []*coin.Account,
	label func(*coin.Account) string,
) (rs rows) {
	var header []string
	firstCol := ats[order[0]]
	hasPeriod := firstCol.timeReducer != nil
	hasCategory := firstCol.categoryReducer != nil
	if hasPeriod {
		header = append(header, "Date")
	}
	if hasCategory {
		header = append(header, "Category")
	}
	for _, acc := range order {
		header = append(header, label(acc))
	}
	rs = append(rs, header)
	periods := firstCol.all
	if len(periods) == 0 {
		periods = append(periods, firstCol.current)
	}
	for i, period := range periods {
		categories := period.spec_Categories()
		if len(categories) == 0 {
			categories = []string{""}
		} else {
			slices.Sort(categories)
		}
		for _, category := range categories {
			var row []string
			if hasPeriod {
				row = append(row, period.Time.Format(firstCol.format))
			}
			if hasCategory {
				row = append(row, category)
			}
			for _, acc := range order {
				ts := ats[acc]
				check.If(ts != nil, "nil totals for %s\n", label(acc))
				t := ts.current
				if hasPeriod {
					t = ts.all[i]
					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\n", label(acc), i,
						t.Time.Format(firstCol.format),
						period.Time.Format(firstCol.format))
				}
				amt := t.total
				if amt == nil {
					amt = t.totals[category]
				}
				row = append(row, amt.String())
			}
			rs = append(rs, row)
		}
	}
	return rs
}

func (rs rows) spec_writeCSV(f io.Writer) {
	w := csv.NewWriter(f)
	for _, r := range rs {
		w.Write(r)
	}
	w.Flush()
}

func (rs rows) spec_writeJSON(f io.Writer) {
	w := json.NewEncoder(f)
	for _, r := range rs {
		w.Encode(r)
	}
}
