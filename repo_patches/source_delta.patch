From ac09d3714cea6147e7775f9042711d0bc6b44115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 01/27] fix: resolve an ambiguous account pattern to its first
 match only if that is an ancestor of all matches

---
 coin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index fba2d21..727c225 100644
--- a/coin.go
+++ b/coin.go
@@ -293,10 +293,10 @@ func MustFindAccount(pattern string) *Account {
 	if len(as) == 1 {
 		return as[0]
 	}
-	parent := as[0].FullName
+	parent := as[0].FullName + ":"
 	all := true
 	for _, a := range as[1:] {
-		if all = all && strings.HasPrefix(a.FullName, parent); all {
+		if all = all && strings.HasPrefix(a.FullName, parent); !all {
 			break
 		}
 	}
-- 
2.43.0


From d932a317cacba80ea80d10d40930c39d007a2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 02/27] fix: truncate negative amounts toward zero when
 dropping excess decimals

---
 amount.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amount.go b/amount.go
index d07feb6..d9f422e 100644
--- a/amount.go
+++ b/amount.go
@@ -23,7 +23,7 @@ func NewAmountFrac(num, den *big.Int, c *Commodity) *Amount {
 	if c.Decimals > 0 {
 		b.Mul(b, bigPow10(c.Decimals))
 	}
-	b.Div(b, den)
+	b.Quo(b, den)
 	return NewAmount(b, c)
 }
 
@@ -97,7 +97,7 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-		bi.Div(bi, bigPow10(decimals))
+		bi.Quo(bi, bigPow10(decimals))
 	}
 	return NewAmount(bi, c), nil
 }
-- 
2.43.0


From b8f0ce25b92e0f78246426263ef1507841d74987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 03/27] fix: report failed conversions when merging register
 totals instead of dropping the amounts

---
 cmd/coin/totals.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 5df5868..54752ba 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -33,14 +33,14 @@ func (t *timeTotal) Categories() (keys []string) {
 func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
 	if t.total != nil && !keysOnly {
-		t.total.AddIn(t2.total)
+		check.NoError(t.total.AddIn(t2.total), "cannot add %a to totals", t2.total)
 		return
 	}
 	for k, v := range t2.totals {
 		amt := t.totals[k]
 		if amt != nil {
 			if !keysOnly {
-				amt.AddIn(v)
+				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
 			}
 		} else {
 			if keysOnly {
-- 
2.43.0


From e14405d8e1ded3b1d234fc0f5717836e32f4d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 04/27] fix: replace rewritten files only after the new content
 was written completely, and atomically

---
 cmd/coin/format.go | 8 ++++----
 cmd/coin/modify.go | 8 ++++----
 cmd/coin/test.go   | 1 -
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index a917fbf..9a4e678 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -56,8 +56,7 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 		}
 		cmd.writeTransactions(f)
 		if cmd.replace {
-			err = os.Remove(fn)
-			check.NoError(err, "deleting old file")
+			check.NoError(tf.Close(), "closing temp file")
 			err = os.Rename(tf.Name(), fn)
 			check.NoError(err, "renaming temp file")
 		}
@@ -71,7 +70,8 @@ func (cmd *cmdFormat) writeTransactions(f io.Writer) {
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-		t.Write(f, cmd.ledger)
-		fmt.Fprintln(f)
+		check.NoError(t.Write(f, cmd.ledger), "writing transaction")
+		_, err := fmt.Fprintln(f)
+		check.NoError(err, "writing transaction")
 	}
 }
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 9b726c7..ec64f1e 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -96,11 +96,11 @@ func (cmd *cmdModify) execute(f io.Writer) {
 			if cmd.modify(t) {
 				count++
 			}
-			t.Write(tf, false)
-			fmt.Fprintln(tf)
+			check.NoError(t.Write(tf, false), "writing temp file")
+			_, err = fmt.Fprintln(tf)
+			check.NoError(err, "writing temp file")
 		}
-		err = os.Remove(fn)
-		check.NoError(err, "deleting old file")
+		check.NoError(tf.Close(), "closing temp file")
 		err = os.Rename(tf.Name(), fn)
 		check.NoError(err, "renaming temp file")
 		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\n", count, fn)
diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 3ce5ecc..7933356 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -169,6 +169,5 @@ func updateTestFile(ts []*coin.Test) {
 	check.NoError(of.Close(), "closing old file")
 	check.NoError(writer.Flush(), "flushing writer")
 	check.NoError(tf.Close(), "closing temp file")
-	check.NoError(os.Remove(fn), "deleting old file")
 	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
 }
-- 
2.43.0


From 77ffc013c6370b4aa87a053d05068d9c0525f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 05/27] fix: keep the last account of aggregated register in
 Other when a single account is left over

---
 cmd/coin/totals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 54752ba..4531834 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -433,7 +433,7 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	if len(rest) > 1 {
+	if len(rest) > 0 {
 		others := ats[rest[0]]
 		for _, acc := range rest[1:] {
 			others.merge(ats[acc])
-- 
2.43.0


From 6d730f90a9c5370d428c6c11556ca39cc7cd4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 06/27] fix: aggregated register of no postings, or with the
 account itself below the top, does not crash

---
 cmd/coin/register.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 7823fc7..9ca0609 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -126,9 +126,13 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 		}
 	})
 	totals.sanitize()
+	all := totals[acc]
+	if all == nil { // no postings
+		return
+	}
 	var accounts []*coin.Account
 	totals, accounts = totals.top(cmd.top)
-	totals.mergeTime(totals[acc])
+	totals.mergeTime(all)
 
 	if cmd.cumulative {
 		totals.makeCumulative()
-- 
2.43.0


From 2235107a4ec57aeccf52be91198268a8727f5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 07/27] fix: don't let map iteration order affect results and
 output

---
 cmd/coin/commodities.go |  4 ++--
 cmd/coin/totals.go      | 11 ++++++++---
 cmd/csv2coin/rules.go   | 10 ++++++++--
 coin.go                 | 16 ++++++++--------
 commodity.go            | 11 ++++++++---
 rules.go                |  5 ++++-
 6 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index dbd4c54..66760b9 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -54,8 +54,8 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 			fmt.Fprintf(os.Stderr, "%s: unknown commodity\n", cmd.Arg(0))
 			return
 		}
-		for _, ps := range commodity.Prices {
-			for _, p := range ps {
+		for _, cur := range commodity.Currencies() {
+			for _, p := range commodity.Prices[cur] {
 				if cmd.location {
 					fmt.Fprintf(f, "%s %s %s %s\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
 				} else {
diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 4531834..eaa1b0d 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -71,8 +71,9 @@ func (t *timeTotal) Commodity() *coin.Commodity {
 	if t.total != nil {
 		return t.total.Commodity
 	}
-	for _, v := range t.totals {
-		return v.Commodity
+	// pick the first category so that the result doesn't depend on map order
+	if keys := t.Categories(); len(keys) > 0 {
+		return t.totals[slices.Min(keys)].Commodity
 	}
 	return nil
 }
@@ -423,7 +424,11 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 
 	sort.Slice(accounts, func(i int, j int) bool {
-		return magnitudes[accounts[i]].IsBigger(magnitudes[accounts[j]])
+		mi, mj := magnitudes[accounts[i]], magnitudes[accounts[j]]
+		if c := mi.CmpMagnitude(mj); c != 0 {
+			return c > 0
+		}
+		return accounts[i].FullName < accounts[j].FullName
 	})
 	if len(accounts) <= n {
 		return ats, accounts
diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 1526c45..c3e0dc9 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -166,8 +167,13 @@ type Rules struct {
 }
 
 func (rules *Rules) Write(w io.Writer) {
-	for _, src := range rules.sources {
-		src.Write(w)
+	var names []string
+	for n := range rules.sources {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		rules.sources[n].Write(w)
 	}
 	fmt.Fprintln(w, string(separator))
 	rules.RuleIndex.Write(w)
diff --git a/coin.go b/coin.go
index 727c225..a765637 100644
--- a/coin.go
+++ b/coin.go
@@ -269,12 +269,12 @@ func ResolveTransactions(checkPostings bool) {
 		}
 	}
 
-	for _, a := range AccountsByName {
+	AccountsDo(func(a *Account) {
 		a.sortPostings()
 		if checkPostings {
 			a.CheckPostings()
 		}
-	}
+	})
 	sort.Stable(Transactions)
 }
 
@@ -310,13 +310,13 @@ func MustFindAccount(pattern string) *Account {
 	panic(msg)
 }
 
-func FindAccountOfxId(acctId string) *Account {
-	for _, a := range AccountsByName {
-		if a.OFXAcctId == acctId {
-			return a
+func FindAccountOfxId(acctId string) (found *Account) {
+	AccountsDo(func(a *Account) {
+		if found == nil && a.OFXAcctId == acctId {
+			found = a
 		}
-	}
-	return nil
+	})
+	return found
 }
 
 func ToRegex(pattern string) *regexp.Regexp {
diff --git a/commodity.go b/commodity.go
index 4bfa017..a7100bf 100644
--- a/commodity.go
+++ b/commodity.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -48,6 +49,9 @@ func (c *Commodity) Currencies() (currencies []*Commodity) {
 	for cur := range c.Prices {
 		currencies = append(currencies, cur)
 	}
+	sort.Slice(currencies, func(i, j int) bool {
+		return currencies[i].Id < currencies[j].Id
+	})
 	return currencies
 }
 
@@ -80,7 +84,8 @@ func (c *Commodity) String() string {
 		return c.Id
 	}
 	var prices []string
-	for c, p := range c.Prices {
+	for _, cur := range c.Currencies() {
+		c, p := cur, c.Prices[cur]
 		format := "%s %a %s [%d]"
 		if c.Decimals > 0 {
 			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
@@ -207,12 +212,12 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
-	for c3, prices := range c2.Prices {
+	for _, c3 := range c2.Currencies() {
 		// Check if we tried this currency before to avoid cycles
 		if c3.includedIn(previous) {
 			continue
 		}
-		p := prices[0]
+		p := c2.Prices[c3][0]
 		val2 := amount.Times(p.Value)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
diff --git a/rules.go b/rules.go
index 8e15eb6..e416e7b 100644
--- a/rules.go
+++ b/rules.go
@@ -55,7 +55,10 @@ func (rs *RuleIndex) Write(w io.Writer) error {
 		}
 	}
 	sort.Slice(accounts, func(i, j int) bool {
-		return accounts[i].Account.FullName < accounts[j].Account.FullName
+		if ni, nj := accounts[i].Account.FullName, accounts[j].Account.FullName; ni != nj {
+			return ni < nj
+		}
+		return ids[accounts[i]] < ids[accounts[j]]
 	})
 	for _, ars := range accounts {
 		id := ids[ars]
-- 
2.43.0


From 571e9a676209128af2afd2a55516f8e254e00d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 08/27] fix: FindEqual returns the transaction found, not its
 argument

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index c9d187b..27f5ab9 100644
--- a/transaction.go
+++ b/transaction.go
@@ -53,7 +53,7 @@ func (transactions TransactionsByTime) Less(i, j int) bool {
 func (transactions TransactionsByTime) FindEqual(t *Transaction) *Transaction {
 	for _, t2 := range transactions {
 		if t2.IsEqual(t) {
-			return t
+			return t2
 		}
 	}
 	return nil
-- 
2.43.0


From 43394b0ea13bf6d53883885cefd1ac549decacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 09/27] fix: an inverted payee filter stays inverted for all
 the accounts of a register

---
 cmd/coin/register.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 9ca0609..90ca842 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -183,13 +183,14 @@ func (cmd *cmdRegister) period() *timeReducer {
 func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 	ps = trim(ps, cmd.begin, cmd.end)
 	if len(cmd.payee) > 0 {
+		payee := cmd.payee
 		inverted := false
-		if cmd.payee[0] == '!' {
+		if payee[0] == '!' {
 			inverted = true
-			cmd.payee = cmd.payee[1:]
+			payee = payee[1:]
 		}
 		var pps []*coin.Posting
-		r := regexp.MustCompile("(?i)" + cmd.payee)
+		r := regexp.MustCompile("(?i)" + payee)
 		for _, p := range ps {
 			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
 				pps = append(pps, p)
-- 
2.43.0


From 9e8af874dec19540adda9967eaef94432585e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 10/27] fix: modify every matching posting of a transaction

---
 cmd/coin/modify.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index ec64f1e..23a7de2 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -117,12 +117,14 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	var hasPostingsMatchingAccount bool
 	for _, p := range t.Postings {
-		if p.Account == cmd.from {
+		matchesAccount := p.Account == cmd.from
+		if matchesAccount {
 			hasPostingsMatchingAccount = true
-			modified = modified || cmd.modifyPosting(p)
 		}
-		if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
-			modified = modified || cmd.modifyPosting(p)
+		if matchesAccount || cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
+			if cmd.modifyPosting(p) {
+				modified = true
+			}
 		}
 	}
 
@@ -131,6 +133,7 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	if len(cmd.setTTag) > 0 {
 		t.Notes = addTagLine(t.Notes, cmd.setTTag)
+		modified = true
 	}
 	return modified
 }
-- 
2.43.0


From 6c07c6f95a5ea77a66d8abe354cce6ade67406d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 11/27] fix: don't load the prices file twice

---
 coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index a765637..d145321 100644
--- a/coin.go
+++ b/coin.go
@@ -76,7 +76,7 @@ func LoadAll() {
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
 		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
 		for _, f := range files {
-			if f != CommoditiesFile && f != AccountsFile {
+			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
 			}
 		}
-- 
2.43.0


From 2844ef6f935e77424b16be05dfb34aa9fbb2f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 12/27] fix: reject ledger lines that are only partially
 understood

---
 account.go     | 17 ++++++++++-------
 commodity.go   | 15 +++++++++------
 include.go     |  5 ++++-
 price.go       |  2 +-
 test.go        |  5 ++++-
 transaction.go | 18 ++++++++++++------
 6 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/account.go b/account.go
index 738ae1f..8d87f7b 100644
--- a/account.go
+++ b/account.go
@@ -81,14 +81,14 @@ func (a *Account) Write(w io.Writer, ledger bool) error {
 
 var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
-var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
+var accountHeadREX = rex.MustCompile(`^account\s+%s\s*$`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.+))|`+
-	`(\s+commodity\s+%s)|`+
-	`(\s+closed\s+%s)|`+
-	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
-	`(\s+ofx_acctid\s+(?P<ofx_acctid>\d+))|`+
-	`(\s+csv_acctid\s+(?P<csv_acctid>\w+))`,
+	`^(\s+note\s+(?P<note>\S.*))$|`+
+	`^(\s+commodity\s+%s)\s*$|`+
+	`^(\s+closed\s+%s)\s*$|`+
+	`^(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))\s*$|`+
+	`^(\s+ofx_acctid\s+(?P<ofx_acctid>\d+))\s*$|`+
+	`^(\s+csv_acctid\s+(?P<csv_acctid>\w+))\s*$`,
 	CommodityREX, DateREX)
 
 func accountFromName(fullName string) *Account {
@@ -115,6 +115,9 @@ func (a *Account) ParentName() string {
 
 func (p *Parser) parseAccount(fn string) (*Account, error) {
 	match := accountHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid account line: %s", p.Text())
+	}
 	a := accountFromName(match["account"])
 	a.line = p.lineNr
 	a.file = fn
diff --git a/commodity.go b/commodity.go
index a7100bf..15f13f4 100644
--- a/commodity.go
+++ b/commodity.go
@@ -140,18 +140,21 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 }
 
 var CommodityREX = rex.MustCompile(`(?P<commodity>[A-Za-z][\w]*)`)
-var commodityHeadREX = rex.MustCompile(`commodity\s+%s`, CommodityREX)
+var commodityHeadREX = rex.MustCompile(`^commodity\s+%s\s*$`, CommodityREX)
 var commodityBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>.+))|`+
-	`(\s+format\s+(?P<format>%s))|`+
-	`(\s+(?P<nomarket>nomarket)\s*)|`+
-	`(\s+symbol\s+(?P<symbol>[\w\.]+))|`+
-	`(\s+(?P<default>default)\s*)`,
+	`^(\s+note\s+(?P<note>.+))$|`+
+	`^(\s+format\s+(?P<format>%s))\s*$|`+
+	`^(\s+(?P<nomarket>nomarket)\s*)$|`+
+	`^(\s+symbol\s+(?P<symbol>[\w\.]+))\s*$|`+
+	`^(\s+(?P<default>default)\s*)$`,
 	AmountREX)
 
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
 	c := &Commodity{Decimals: 2, line: p.lineNr, file: fn}
 	match := commodityHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid commodity line: %s", p.Text())
+	}
 	c.Id = match["commodity"]
 	for p.Scan() {
 		line := p.Bytes()
diff --git a/include.go b/include.go
index 054b376..ded8674 100644
--- a/include.go
+++ b/include.go
@@ -21,10 +21,13 @@ type Include struct {
 	file string
 }
 
-var includeHead = regexp.MustCompile(`include\s+(.+)`)
+var includeHead = regexp.MustCompile(`^include\s+(.+)`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid include line: %s", p.Text())
+	}
 	i := &Include{Path: string(matches[1]), line: p.lineNr, file: fn}
 	p.Scan()
 	return i, nil
diff --git a/price.go b/price.go
index ee41dd0..f6d6468 100644
--- a/price.go
+++ b/price.go
@@ -38,7 +38,7 @@ func (p *Price) Write(w io.Writer, ledger bool) error {
 	return err
 }
 
-var priceREX = rex.MustCompile(`P %s\s+%s\s+%s`, DateREX, CommodityREX, AmountREX)
+var priceREX = rex.MustCompile(`^P %s\s+%s\s+%s\s*$`, DateREX, CommodityREX, AmountREX)
 
 func (p *Parser) parsePrice(fn string) (*Price, error) {
 	match := priceREX.Match(p.Bytes())
diff --git a/test.go b/test.go
index 2a5d88e..2978794 100644
--- a/test.go
+++ b/test.go
@@ -14,10 +14,13 @@ type Test struct {
 	file string
 }
 
-var testHead = regexp.MustCompile(`test\s+(.+)`)
+var testHead = regexp.MustCompile(`^test\s+(.+)`)
 
 func (p *Parser) parseTest(fn string) (*Test, error) {
 	matches := testHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid test line: %s", p.Text())
+	}
 	t := &Test{Cmd: string(matches[1]), line: p.lineNr, file: fn}
 	var b bytes.Buffer
 	for p.Scan() {
diff --git a/transaction.go b/transaction.go
index 27f5ab9..b249140 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,10 +117,10 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`^%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^;\s][^;]*))?(\s*; ?(?P<shortNote>.*))?\s*$`, DateREX)
 var postingREX = rex.MustCompile(``+
-	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
-	`\s+; ?(?P<note>.*)`,
+	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?\s*$|`+
+	`^\s+; ?(?P<note>.*)$`,
 	AccountREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
@@ -145,8 +145,10 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		if match == nil {
 			break
 		}
-		if note := match["note"]; len(note) > 0 {
-			notes = append(notes, string(note))
+		if match["account"] == "" {
+			if note := match["note"]; len(note) > 0 {
+				notes = append(notes, string(note))
+			}
 			continue
 		}
 		var quantity *Amount
@@ -185,7 +187,11 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		t.Postings = append(t.Postings, s)
 	}
 	if len(notes) > 0 {
-		s.Notes = append(s.Notes, notes...)
+		if s == nil {
+			t.Notes = append(t.Notes, notes...)
+		} else {
+			s.Notes = append(s.Notes, notes...)
+		}
 	}
 	t.Tags = ParseTags(t.Notes...)
 	for _, p := range t.Postings {
-- 
2.43.0


From 29a934885bc6b6d777b47df6ad0b2522e123f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 13/27] fix: converted amounts are in the target commodity and
 keep its decimals

---
 commodity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commodity.go b/commodity.go
index 15f13f4..42c3346 100644
--- a/commodity.go
+++ b/commodity.go
@@ -211,7 +211,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	prices := c2.Prices[c]
 	if prices != nil {
 		p := prices[0]
-		val := amount.Times(p.Value)
+		val := p.Value.Times(amount)
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
@@ -221,7 +221,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 			continue
 		}
 		p := c2.Prices[c3][0]
-		val2 := amount.Times(p.Value)
+		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
 			return val3, nil
-- 
2.43.0


From d4390d37aa8e1126fa5a00ceca65b1727f92d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 14/27] fix: don't lose the symbol when writing a commodity

---
 commodity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commodity.go b/commodity.go
index 42c3346..9169d62 100644
--- a/commodity.go
+++ b/commodity.go
@@ -130,6 +130,9 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 	if c.NoMarket {
 		lines = append(lines, "  nomarket\n")
 	}
+	if c.Symbol != "" && !ledger {
+		lines = append(lines, "  symbol ", c.Symbol, "\n")
+	}
 	for _, line := range lines {
 		_, err := io.WriteString(w, line)
 		if err != nil {
-- 
2.43.0


From d4b7e4f25bd89775721a7164a1027dc838b1f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 15/27] fix: reject dates that do not exist or are followed by
 other text

---
 date.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/date.go b/date.go
index 98af69f..dd885b9 100644
--- a/date.go
+++ b/date.go
@@ -40,7 +40,7 @@ func (d *Date) String() string {
 
 func (d *Date) Set(s string) (err error) {
 	match := DateREX.Match([]byte(s))
-	if match == nil {
+	if match == nil || match["date"] != s {
 		return fmt.Errorf("invalid date: %s", s)
 	}
 	d.Time, err = parseDate(match, 0)
@@ -54,7 +54,7 @@ var YearFormat = "2006"
 var ymd = rex.MustCompile(`` +
 	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
 	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)
-var offset = rex.MustCompile(`(?P<offset>[+-]\d+[d|w|m|y])`)
+var offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
 
 func mustParseDate(match map[string]string, idx int) time.Time {
@@ -67,6 +67,9 @@ func mustParseDate(match map[string]string, idx int) time.Time {
 
 func MustParseDate(s string) time.Time {
 	match := DateREX.Match([]byte(s))
+	if match["date"] != s {
+		panic(fmt.Errorf("invalid date: %s", s))
+	}
 	return mustParseDate(match, 0)
 }
 
@@ -112,6 +115,9 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	}
 
 	t = time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
+	if t.Month() != time.Month(m) || t.Day() != d {
+		return t, fmt.Errorf("invalid date: %s", match["date"])
+	}
 	if offset != "" {
 		e := len(offset) - 1
 		o, _ := strconv.Atoi(offset[:e])
-- 
2.43.0


From 171a1108e1e63d5dab4becfec7ed04325658da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 16/27] fix: report failures to write output or to find ledger
 files

---
 cmd/coin2html/main.go | 4 ++++
 cmd/csv2coin/main.go  | 5 +++--
 cmd/gen2coin/main.go  | 5 +++--
 cmd/ofx2coin/main.go  | 5 +++--
 coin.go               | 6 ++++--
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/coin2html/main.go b/cmd/coin2html/main.go
index 2101912..7834fd6 100644
--- a/cmd/coin2html/main.go
+++ b/cmd/coin2html/main.go
@@ -29,24 +29,28 @@ func main() {
 	fmt.Fprintln(f, `<script type="application/json" id="importedCommodities">`)
 	if err := encoder.Encode(coin.Commodities); err != nil {
 		fmt.Fprint(os.Stderr, err.Error())
+		os.Exit(1)
 	}
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Commodities: %d\n", len(coin.Commodities))
 	fmt.Fprintln(f, `<script type="application/json" id="importedPrices">`)
 	if err := encoder.Encode(coin.Prices); err != nil {
 		fmt.Fprint(os.Stderr, err.Error())
+		os.Exit(1)
 	}
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Prices: %d\n", len(coin.Prices))
 	fmt.Fprintln(f, `<script type="application/json" id="importedAccounts">`)
 	if err := encoder.Encode(coin.AccountsByName); err != nil {
 		fmt.Fprint(os.Stderr, err.Error())
+		os.Exit(1)
 	}
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Accounts: %d\n", len(coin.AccountsByName))
 	fmt.Fprintln(f, `<script type="application/json" id="importedTransactions">`)
 	if err := encoder.Encode(coin.Transactions); err != nil {
 		fmt.Fprint(os.Stderr, err.Error())
+		os.Exit(1)
 	}
 	fmt.Fprintln(f, "</script>")
 	fmt.Fprintf(os.Stderr, "Transactions: %d\n", len(coin.Transactions))
diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 66bb839..8cb364f 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -82,8 +82,9 @@ func main() {
 	sort.Stable(transactions)
 
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		check.NoError(t.Write(os.Stdout, false), "writing transaction")
+		_, err := fmt.Fprintln(os.Stdout)
+		check.NoError(err, "writing transaction")
 	}
 }
 
diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index e01a2f3..16e897d 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -119,8 +119,9 @@ func main() {
 		w, err = os.Create(filepath.Join(dir, label+".coin"))
 		check.NoError(err, "opening transaction file %s.coin", label)
 		for _, t := range batch {
-			t.Write(w, false)
-			fmt.Fprintln(w)
+			check.NoError(t.Write(w, false), "writing transaction")
+			_, err = fmt.Fprintln(w)
+			check.NoError(err, "writing transaction")
 		}
 		check.NoError(w.Close(), "closing transaction file %s.coin", label)
 	}
diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index bcf341e..bcccafa 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -118,8 +118,9 @@ func main() {
 	}
 
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		check.NoError(t.Write(os.Stdout, false), "writing transaction")
+		_, err := fmt.Fprintln(os.Stdout)
+		check.NoError(err, "writing transaction")
 	}
 }
 
diff --git a/coin.go b/coin.go
index d145321..6a27cc4 100644
--- a/coin.go
+++ b/coin.go
@@ -61,7 +61,8 @@ func MustFindCommodity(id string, location string) *Commodity {
 func LoadPrices() {
 	LoadFile(CommoditiesFile)
 	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.prices"))
+		files, err := filepath.Glob(filepath.Join(DB, "*.prices"))
+		check.NoError(err, "Failed to list price files")
 		for _, f := range files {
 			LoadFile(f)
 		}
@@ -74,7 +75,8 @@ func LoadAll() {
 	LoadPrices()
 	LoadFile(AccountsFile)
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
-		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
+		files, err := filepath.Glob(filepath.Join(DB, "*.coin"))
+		check.NoError(err, "Failed to list transaction files")
 		for _, f := range files {
 			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
-- 
2.43.0


From 8ed8097a2706fb3b17cc918c866e574d5f6ab5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 17/27] fix: postings in different commodities are not equal

---
 posting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posting.go b/posting.go
index 76aa24f..d9d0d5f 100644
--- a/posting.go
+++ b/posting.go
@@ -56,6 +56,7 @@ func (s *Posting) String() string {
 
 func (s *Posting) IsEqual(s2 *Posting) bool {
 	return s.Account == s2.Account &&
+		s.Quantity.Commodity == s2.Quantity.Commodity &&
 		s.Quantity.IsEqual(s2.Quantity)
 }
 
-- 
2.43.0


From 6a13e12983e50aab9fb4505f7681e53def19c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 18/27] fix: detect imported OFX transactions already in the
 ledger whatever their time of day

---
 cmd/ofx2coin/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index bcccafa..539e8d2 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -187,8 +187,10 @@ func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount
 	if balance != nil {
 		bal = coin.NewAmountFrac(balance.Num(), balance.Denom(), ars.Account.Commodity)
 	}
+	// use the same time of day as the ledger does, so that duplicates can be detected
+	y, m, d := date.Date()
 	t := &coin.Transaction{
-		Posted:      date,
+		Posted:      time.Date(y, m, d, 12, 0, 0, 0, time.UTC),
 		Description: payee,
 		Notes:       notes,
 	}
-- 
2.43.0


From 620de0b46fa06702b9dceae48d42bc11d00da085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 19/27] fix: show the totals of postings without a payee when
 aggregating by payee

---
 cmd/coin/totals.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index eaa1b0d..5001b97 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -568,7 +568,7 @@ func (ats accountTotals) print(f io.Writer,
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if amt == nil {
 					amt = t.totals[category]
 				}
 				args = append(args, widths[ii], amt)
@@ -628,7 +628,7 @@ func (ats accountTotals) rows(
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if amt == nil {
 					amt = t.totals[category]
 				}
 				row = append(row, amt.String())
-- 
2.43.0


From 907c7bf4aad78d3485fc5297222e6db71e9bd336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:27 +0000
Subject: [PATCH 20/27] fix: keep the last line of a BMO file that has no
 trailing newline

---
 cmd/ofx2coin/bmo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index ac33eb6..8d109c6 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -39,7 +39,7 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 	loop:
 		for {
 			r.lastLine, err = r.ReadBytes('\n')
-			if err != nil {
+			if err != nil && len(r.lastLine) == 0 {
 				return 0, err
 			}
 			if !r.reachedHeader {
-- 
2.43.0


From 3db82f745e0f3758d08fed385acc708f81a420bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 21/27] fix: give every file its own verdict when testing
 several files

---
 cmd/coin/test.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 7933356..9ec50a5 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -52,9 +52,9 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		// and in the order they are in the file
 		testFile := file(t)
 		startingNewFile := testFile != lastTestFile
-		var oldTestFile string // this is set only when moving to new file
-		if startingNewFile {
-			oldTestFile = lastTestFile
+		if startingNewFile && !cmd.verbose {
+			printVerdict(f, success, lastTestFile)
+			success = true
 		}
 		lastTestFile = testFile
 		if startingNewFile && len(toUpdate) > 0 {
@@ -96,8 +96,6 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		if bytes.Equal(b.Bytes(), t.Result) {
 			if cmd.verbose {
 				fmt.Fprintf(f, "OK %s %s\n", t.Location(), t.Cmd)
-			} else if oldTestFile != "" {
-				fmt.Fprintf(f, "OK %s\n", oldTestFile)
 			}
 			continue
 		}
@@ -116,12 +114,16 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		updateTestFile(toUpdate)
 	}
 	if !cmd.verbose {
-		result := "OK"
-		if !success {
-			result = "FAIL"
-		}
-		fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
+		printVerdict(f, success, lastTestFile)
+	}
+}
+
+func printVerdict(f io.Writer, success bool, testFile string) {
+	result := "OK"
+	if !success {
+		result = "FAIL"
 	}
+	fmt.Fprintf(f, "%s %s\n", result, testFile)
 }
 
 func file(t *coin.Test) string {
-- 
2.43.0


From f38586e3a5671bb138dfc3b984b040262b781507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:47 +0000
Subject: [PATCH 22/27] fix: reject a test without its end instead of dropping
 its recorded result

---
 test.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/test.go b/test.go
index 2978794..da021da 100644
--- a/test.go
+++ b/test.go
@@ -32,7 +32,10 @@ func (p *Parser) parseTest(fn string) (*Test, error) {
 		b.Write(p.Bytes())
 		fmt.Fprintln(&b)
 	}
-	return t, p.Err()
+	if err := p.Err(); err != nil {
+		return t, err
+	}
+	return t, fmt.Errorf("test without \"end test\": %s", t.Cmd)
 }
 
 func (t *Test) Location() string {
-- 
2.43.0


From 5518f895c9552c53e127834a0ebbbb653d31820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 23/27] fix: reject malformed numbers in a GnuCash file instead
 of misreading them

---
 gnucash/gnucash.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 0aa1553..4f91d9c 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -76,10 +76,14 @@ func mustParseAmount(f string, c *coin.Commodity) *coin.Amount {
 	if len(values) != 2 {
 		panic("invalid fraction: " + f)
 	}
-	num := new(big.Int)
-	num.SetString(values[0], 10)
-	den := new(big.Int)
-	den.SetString(values[1], 10)
+	num, ok := new(big.Int).SetString(values[0], 10)
+	if !ok {
+		panic("invalid numerator: " + f)
+	}
+	den, ok := new(big.Int).SetString(values[1], 10)
+	if !ok {
+		panic("invalid denominator: " + f)
+	}
 	if den.Sign() <= 0 {
 		panic("invalid denominator: " + den.String())
 	}
-- 
2.43.0


From 14f768746b46de72a63d7036d243073056f977a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:17 +0000
Subject: [PATCH 24/27] fix: tag values of one character, or followed by a
 final comma, were misread

---
 tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tags.go b/tags.go
index 00f9d90..ba6569c 100644
--- a/tags.go
+++ b/tags.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]+\S)\s*(,|$))?`)
+var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]*[^,\s])\s*(,|$))?`)
 var tagREXKey = tagREX.SubexpIndex("key")
 var tagREXValue = tagREX.SubexpIndex("value")
 
-- 
2.43.0


From 0993559898eaddd232389e967ba230ba586dd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:48 +0000
Subject: [PATCH 25/27] fix: write the notes of import rules, and rules that
 drop transactions

---
 rules.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index e416e7b..0080ba5 100644
--- a/rules.go
+++ b/rules.go
@@ -134,12 +134,22 @@ type Rule struct {
 }
 
 func (r *Rule) Name() string {
+	if r.Account == nil {
+		return "--" // matching transactions are dropped
+	}
 	return r.Account.FullName
 }
 
 func (r *Rule) Write(w io.Writer, max int) error {
-	_, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String())
-	return err
+	if _, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String()); err != nil {
+		return err
+	}
+	for _, n := range r.Notes {
+		if _, err := fmt.Fprintf(w, "  ; %s\n", n); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (r *Rule) RuleFor(payee string) *Rule {
-- 
2.43.0


From 2cb08d916c9c743cd5599c92124272f1837569b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:03 +0000
Subject: [PATCH 26/27] fix: an import rule with a pattern of one character
 matched every payee

---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 0080ba5..e770f32 100644
--- a/rules.go
+++ b/rules.go
@@ -161,7 +161,7 @@ func (r *Rule) RuleFor(payee string) *Rule {
 
 var patternRE = `([\w:$^\\-]+)`
 var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
-var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
+var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S(?:.*\S)?))?|` +
 	`^\s+@(\w+)|` +
 	`^\s+;\s+(.*)`)
 
-- 
2.43.0


From 7483ed88d14a1dd4b197099ed394a89769d9146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:12 +0000
Subject: [PATCH 27/27] fix: reject lines of a rules file that are not
 understood instead of leaving out the rules after them

---
 rules.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index e770f32..53e13ad 100644
--- a/rules.go
+++ b/rules.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"regexp"
 	"sort"
+	"unicode"
 
 	"github.com/mkobetic/coin/check"
 )
@@ -226,10 +227,13 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 			}
 			setRules(rules)
 		} else {
+			if len(line) > 0 && unicode.IsSpace(rune(line[0])) && len(bytes.TrimSpace(line)) > 0 {
+				return nil, fmt.Errorf("invalid rule line: %s", line)
+			}
 			if !s.Scan() {
 				return ri, s.Err()
 			}
-			line = bytes.TrimSpace(s.Bytes())
+			line = s.Bytes()
 		}
 	}
 }
-- 
2.43.0

