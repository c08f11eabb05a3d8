package main

// Further references of the same behaviour, written another way. Each was
// reviewed against the first reference of the same name.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"path"
	"regexp"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
	"github.com/mkobetic/coin/check"
)

// Writes to the temporary file where it is created.
func (cmd *cmdFormat) spec_execute__2(f io.Writer) {
	if len(cmd.Args()) == 0 { // for testing
		cmd.spec_writeTransactions(f)
		return
	}
	for _, fn := range cmd.Args() {
		coin.LoadFile(fn)
		coin.ResolveTransactions(false)
		if cmd.replace {
			tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
			check.NoError(err, "creating temp file")
			cmd.spec_writeTransactions(tf)
			check.NoError(tf.Close(), "closing temp file")
			check.NoError(os.Rename(tf.Name(), fn), "renaming temp file")
		} else {
			cmd.spec_writeTransactions(f)
		}
		coin.DropTransactions()
	}
}

// Stores the extended list of accounts after each account.
func (cmd *cmdTags) spec_collectKeys__2(nrex *regexp.Regexp, tags coin.Tags, accounts ...*coin.Account) {
	for k, v := range tags {
		if nrex == nil || nrex.MatchString(k) {
			cmd.results[k] = spec_add(cmd.results[k], v)
			if cmd.fAccounts {
				for _, a := range accounts {
					cmd.accounts[k] = spec_add(cmd.accounts[k], a.FullName)
				}
			}
		}
	}
}

// Takes the values from the iteration instead of looking them up.
func spec_sortAndClean__2(results map[string][]string) (keys []string) {
	for k, list := range results {
		keys = append(keys, k)
		results[k] = spec_clean(list)
	}
	sort.Strings(keys)
	return keys
}

// Splits into words with a scanner.
func spec_trimWS__2(in ...string) (out []string) {
	for _, s := range in {
		scanner := bufio.NewScanner(strings.NewReader(strings.TrimSpace(s)))
		scanner.Split(bufio.ScanWords)
		var words []string
		for scanner.Scan() {
			words = append(words, scanner.Text())
		}
		out = append(out, strings.Join(words, " "))
	}
	return out
}

// Ranges over the map itself; the sort that follows makes the order the same.
func (ats accountTotals) spec_top__2(n int) (topn accountTotals, order []*coin.Account) {
	topn = accountTotals{}
	magnitudes := ats.spec_magnitudes()
	var accounts []*coin.Account
	for acc := range ats {
		if magnitudes[acc] != nil {
			accounts = append(accounts, acc)
		}
	}
	sort.Slice(accounts, func(i int, j int) bool {
		mi, mj := magnitudes[accounts[i]], magnitudes[accounts[j]]
		if c := mi.CmpMagnitude(mj); c != 0 {
			return c > 0
		}
		return accounts[i].FullName < accounts[j].FullName
	})
	if len(accounts) <= n {
		return ats, accounts
	}
	for _, acc := range accounts[:n] {
		topn[acc] = ats[acc]
	}
	rest := accounts[n:]
	accounts = accounts[:n]
	if len(rest) > 0 {
		others := ats[rest[0]]
		for _, acc := range rest[1:] {
			others.spec_merge(ats[acc])
		}
		topn[nil] = others
		accounts = append(accounts, nil)
	}
	return topn, accounts
}

func (ats accountTotals) spec_sanitize__2() {
	for acc, ts := range ats {
		if ts.current == nil {
			delete(ats, acc)
		}
	}
}

func spec_printNotes__2(w io.Writer, prefix string, p *coin.Posting) {
	for _, line := range p.Notes {
		fmt.Fprintln(w, prefix, line)
	}
	for _, line := range p.Transaction.Notes {
		fmt.Fprintln(w, prefix, line)
	}
}
