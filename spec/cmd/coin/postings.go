package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/mkobetic/coin"
	"github.com/mkobetic/coin/check"
)

func spec_init_postings() {
	cwd, _ = os.Getwd()
}

func spec_trimLocation(loc string) string {
	l := strings.TrimPrefix(loc, cwd)
	if len(l) < len(loc) {
		return "." + l
	}
	return loc
}

func (ps postings) spec_widths(acctPrefix string) (widths [4]int) {
	for _, p := range ps {
		widths[0] = spec_max(widths[0], len(p.Transaction.Description))
		widths[1] = spec_max(widths[1], len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
		widths[2] = spec_max(widths[2], p.Quantity.Width(p.Account.Commodity.Decimals))
		widths[3] = spec_max(widths[3], len(p.Transaction.Other(p).Account.FullName))
	}
	return widths
}

func (ps postings) spec_totals(com *coin.Commodity) (ts []*coin.Amount) {
	total := coin.NewZeroAmount(com)
	for _, p := range ps {
		err := total.AddIn(p.Quantity)
		check.NoError(err, "adding posting for %s: %s\n", p.Account.FullName, p.Transaction.Location())
		ts = append(ts, total.Copy())
	}
	return ts
}

func (ps postings) spec_print(f io.Writer, opts *options) {
	if len(ps) == 0 {
		return
	}
	widths := ps.spec_widths(opts.spec_Prefix())
	widths[0] = spec_min(widths[0], opts.spec_MaxDesc())
	widths[3] = spec_min(widths[3], opts.spec_MaxAcct())
	commodity := opts.commodity
	if commodity == nil {
		commodity = ps[0].Account.Commodity
	}
	totals := ps.spec_totals(commodity)
	tWidth := totals[len(totals)-1].Width(commodity.Decimals)
	fmtString := "%s | %*s | %*s | %*a | %*a %s%c\n"
	if opts.spec_Location() {
		fmtString = "%s | %*s | %*s | %*a | %*a %s%c| %s\n"
	}
	for i, s := range ps {
		reconciled := ' '
		if s.BalanceAsserted {
			reconciled = '*'
		}
		args := []interface{}{
			s.Transaction.Posted.Format(coin.DateFormat),
			widths[0], s.Transaction.Description,
			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.spec_Prefix()), opts.spec_MaxAcct()),
			widths[2], s.Quantity,
			tWidth, totals[i],
			s.Account.CommodityId,
			reconciled,
		}
		if opts.spec_Location() {
			args = append(args, spec_trimLocation(s.Transaction.Location()))
		}
		fmt.Fprintf(f, fmtString, args...)
		if opts.showNotes && (len(s.Notes) > 0 || len(s.Transaction.Notes) > 0) {
			spec_printNotes(f, strings.Repeat(" ", len(args[0].(string)))+" ;", s)
		}
	}
}

func (ps postings) spec_printLong(f io.Writer, opts *options) {
	if len(ps) == 0 {
		return
	}
	widths := ps.spec_widths(opts.spec_Prefix())
	widths[0] = spec_min(widths[0], opts.spec_MaxDesc())
	widths[1] = spec_min(widths[1], opts.spec_MaxAcct())
	widths[3] = spec_min(widths[3], opts.spec_MaxAcct())
	commodity := opts.commodity
	if commodity == nil {
		commodity = ps[0].Account.Commodity
	}
	totals := ps.spec_totals(commodity)
	tWidth := totals[len(totals)-1].Width(commodity.Decimals)
	fmtString := "%s | %*s | %*s | %*s | %*a | %*a %s%c\n"
	if opts.spec_Location() {
		fmtString = "%s | %*s | %*s | %*s | %*a | %*a %s%c| %s\n"
	}
	for i, s := range ps {
		reconciled := ' '
		if s.BalanceAsserted {
			reconciled = '*'
		}
		args := []interface{}{
			s.Transaction.Posted.Format(coin.DateFormat),
			widths[0], s.Transaction.Description,
			widths[1], coin.ShortenAccountName(strings.TrimPrefix(s.Account.FullName, opts.spec_Prefix()), opts.spec_MaxAcct()),
			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.spec_Prefix()), opts.spec_MaxAcct()),
			widths[2], s.Quantity,
			tWidth, totals[i],
			s.Account.CommodityId,
			reconciled,
		}
		if opts.spec_Location() {
			args = append(args, spec_trimLocation(s.Transaction.Location()))
		}
		fmt.Fprintf(f, fmtString, args...)
		if opts.showNotes && (len(s.Notes) > 0 || len(s.Transaction.Notes) > 0) {
			spec_printNotes(f, strings.Repeat(" ", len(args[0].(string)))+" ;", s)
		}
	}
}

func spec_printNotes(w io.Writer, prefix string, p *coin.Posting) {
	for _, line := range append(p.Notes, p.Transaction.Notes...) {
		fmt.Fprintln(w, prefix, line)
	}
}

func (o *options) spec_MaxDesc() int {
	if o == nil || o.maxDesc == 0 {
		return 50
	}
	return o.maxDesc
}

func (o *options) spec_MaxAcct() int {
	if o == nil || o.maxAcct == 0 {
		return 15
	}
	return o.maxAcct
}

func (o *options) spec_Prefix() string {
	if o == nil {
		return ""
	}
	return o.prefix
}

func (o *options) spec_Location() bool {
	if o == nil {
		return false
	}
	return o.location
}

func spec_max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func spec_min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
