exec(open("/verif/dev/bugs1.py").read().split("\nBUGS = [")[0])
BUGS = [
dict(id="b10-txtag", prop="C16", edits=[("cmd/coin/balance.go", "if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {", "if r.Match(p.Tags) || len(p.Tags) == 0 && r.Match(p.Transaction.Tags) {")],
 needs="a tag filter on a transaction whose posting carries another tag", breaks="postings whose transaction carries the tag are left out of the balance",
 sh=CLI+"""
cat > $D/db/2020.coin <<'X'
2020/01/02 Shop ; #trip
  Assets:Bank    -10.00 CAD
  Expenses:Food   10.00 CAD ; #cash
X
$D/coin balance -t trip Expenses:Food >$D/out 2>&1
cat $D/out
grep -q "10.00 CAD" $D/out"""),
dict(id="b11-stable", prop="C27", edits=[("coin.go", "	sort.Stable(Transactions)\n", "	sort.Sort(Transactions)\n")],
 needs="more than a dozen transactions on one day", breaks="transactions of one day are listed in another order than in the ledger",
 test=HDR+'''
func TestDemo(t *testing.T) {
	demoReset()
	var b strings.Builder
	for i := 0; i < 60; i++ {
		fmt.Fprintf(&b, "2020/01/%02d T%02d\\n  Assets:Bank  -1.00 CAD\\n  Expenses:Food  1.00 CAD\\n\\n", 2-i%2, i)
	}
	demoLoad(b.String())
	last := map[int]string{}
	for _, tr := range Transactions {
		if d := tr.Posted.Day(); tr.Description < last[d] {
			t.Fatal(tr.Description, last[d])
		} else {
			last[d] = tr.Description
		}
	}
}
'''),
dict(id="b12-margin", prop="C25", edits=[("cmd/coin/test.go", "if bytes.Equal(b.Bytes(), t.Result) {", "if bytes.Equal(bytes.TrimSpace(b.Bytes()), bytes.TrimSpace(t.Result)) {")],
 needs="a recorded result that differs from the output only in the blanks it starts or ends with", breaks="a test whose output differs from the recorded result is reported OK",
 sh=CLI+"""
{ cat $D/db/commodities.coin; echo; cat $D/db/accounts.coin; echo; cat <<'X'
2020/01/02 Shop
  Assets:Bank    -10.00 CAD
  Expenses:Food   10.00 CAD

test balance -z Expenses:Rent
  0.00 | 0.00 CAD | Expenses:Rent
end test
X
} > $D/t.coin
$D/coin test $D/t.coin >$D/out 2>&1
cat $D/out
grep -q FAIL $D/out"""),
dict(id="b13-with", prop="C29", edits=[("tags.go", """	for k, v := range t2 {
		tags[k] = v
	}
""", """	for k, v := range t2 {
		if tags[k] == "" {
			tags[k] = v
		}
	}
""")],
 needs="a key given with different values on a posting and on its transaction", breaks="combining tags keeps the value of the other set",
 test=HDR+'''
func TestDemo(t *testing.T) {
	got := ParseTags("#who: alice, #trip").With(ParseTags("#who: bob"))
	if got["who"] != "bob" || !got.Includes("trip") {
		t.Fatal(got)
	}
}
'''),
dict(id="b14-century", prop="C23", edits=[("date.go", "yyy > y && yyy-y > 50", "yyy > y && yyy-y >= 50")],
 needs="a two-digit year exactly fifty years ahead", breaks="the date is read a century too early",
 test=HDR+'''
func TestDemo(t *testing.T) {
	WithYear(2020, func() {
		if d := MustParseDate("70/03/04"); d.Year() != 2070 {
			t.Fatal(d)
		}
	})
}
'''),
dict(id="b15-statsend", prop="C15", edits=[("cmd/coin/stats.go", "return !transactions[i].Posted.Before(cmd.end.Time)", "return transactions[i].Posted.After(cmd.end.Time)")],
 needs="a transaction on the end date of statistics", breaks="the end date is included",
 sh=CLI+"""
for i in 1 2 3; do cat <<X
2020/01/0$i T
  Assets:Bank    -10.00 CAD
  Expenses:Food   10.00 CAD

X
done > $D/db/2020.coin
$D/coin stats -b 2020/01/01 -e 2020/01/02 >$D/out 2>&1
cat $D/out
grep -q "Transactions: 1$" $D/out"""),
dict(id="b16-topn", prop="C17", edits=[("cmd/coin/totals.go", "	if len(accounts) <= n {\n		return ats, accounts\n", "	if len(accounts) <= n+1 {\n		return ats, accounts[:min(n, len(accounts))]\n")],
 needs="a top-n listing over exactly n+1 accounts", breaks="the last account is in no column, its amounts are lost",
 sh=CLI+"""
cat > $D/db/2020.coin <<'X'
2020/01/02 A
  Assets:Bank    -10.00 CAD
  Expenses:Food   7.00 CAD
  Expenses:Rent   3.00 CAD
X
$D/coin register -r -m -g 1 Expenses >$D/out 2>&1
cat $D/out
grep -q "3.00" $D/out"""),
dict(id="b17-csvshort", prop="C21", edits=[("cmd/csv2coin/main.go", """		check.NoError(err, "reading transaction")
""", """		if e, ok := err.(*csv.ParseError); ok && e.Err == csv.ErrFieldCount {
			continue
		}
		check.NoError(err, "reading transaction")
""")],
 needs="a statement line with fewer fields than the others", breaks="the line is silently left out of the import",
 pkg="cmd/csv2coin", test='''package main

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("VERIF_IN") == "1" {
		readTransactions(strings.NewReader("a,b,c\\nx\\n"), &Source{skip: 1}, nil)
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run=TestDemo")
	cmd.Env = append(os.Environ(), "VERIF_IN=1")
	if out, err := cmd.CombinedOutput(); err == nil {
		t.Fatalf("a short line was accepted: %s", out)
	}
}
'''),
dict(id="b18-gcname", prop="C31", edits=[("gnucash/account.go", 'name = strings.Replace(a.Name, " ", "", -1)', 'name = strings.Replace(a.Name, " ", "", 1)')],
 needs="an account name of three words or more", breaks="the converted name has blanks, which a ledger cannot hold",
 pkg="gnucash", test='''package gnucash

import "testing"

func TestDemo(t *testing.T) {
	if a := AccountFrom(&Account{Name: "Car And Bus"}); a.Name != "CarAndBus" {
		t.Fatal(a.Name)
	}
}
'''),
dict(id="b19-candidates", prop="C32", edits=[("cmd/gen2coin/dates.go", """				var candidates []int
				candidates = append(candidates, picks...)
""", """				candidates := picks
""")],
 needs="a schedule of some random days of each month, over several months", breaks="the table of days is overwritten and one day can be picked more than once",
 pkg="cmd/gen2coin", test='''package main

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	begin := time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC)
	for i := 0; i < 20; i++ {
		var last time.Time
		for _, d := range monthly(20, 1)(begin, begin.AddDate(2, 0, 0)) {
			if d.Equal(last) {
				t.Fatal(d)
			}
			last = d
		}
	}
}
'''),
dict(id="b20-setall", prop="C28", edits=[("cmd/coin/modify.go", "		if matchesAccount || cmd.ptag != nil && cmd.ptag.Match(p.Tags) {\n", "		if matchesAccount || cmd.ptag != nil && (cmd.ptag.Match(p.Tags) || modified && cmd.ptag.Match(t.Tags)) {\n")],
 needs="a posting tag selection where a posting after a matching one is in a transaction with the tag", breaks="a posting that does not match is modified",
 sh=CLI+"""
cat > $D/db/2020.coin <<'X'
2020/01/02 A ; #trip
  Expenses:Food   7.00 CAD ; #trip
  Expenses:Rent   3.00 CAD
  Assets:Bank    -10.00 CAD
X
{ cat $D/db/commodities.coin; echo; cat $D/db/accounts.coin; echo; cat $D/db/2020.coin; } > $D/x.coin
cp $D/db/2020.coin $D/2020.coin
$D/coin modify -pt trip -pt: "#done" $D/2020.coin >$D/out 2>&1
cat $D/out $D/2020.coin
grep -q "done" $D/2020.coin && ! grep "Rent.*done" $D/2020.coin"""),
dict(id="b21-curdefault", prop="C30", edits=[("cmd/coin/tags.go", "	if len(list[0]) == 0 {\n		return list[1:]\n	}\n	return list\n", "	if len(list[0]) == 0 || len(list) > 1 && list[0] == strings.ToLower(list[1]) {\n		return list[1:]\n	}\n	return list\n"), ("cmd/coin/tags.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
 needs="two values of a key of which one is the lower-case form of the other but sorts first", breaks="a value is missing from the listing", sh="false"),
dict(id="b22-shareprice", prop="C24", edits=[("coin.go", "				return p[i].Time.After(p[j].Time)\n", "				return p[i].Time.Truncate(24 * time.Hour * 7).After(p[j].Time.Truncate(24 * time.Hour * 7))\n"), ("coin.go", '	"strings"\n', '	"strings"\n	"time"\n')],
 needs="two prices within one week given oldest first", breaks="the older price is used as the latest",
 sh=CLI+"""
cat > $D/db/2020.coin <<'X'
P 2020/01/06 USD 1.10 CAD
P 2020/01/07 USD 1.50 CAD
P 2020/01/01 BTC 9.00 CAD

2020/01/02 A
  Assets:Bank    -10.00 CAD
  Assets:USD     10.00 USD
X
$D/coin balance Assets >$D/out 2>&1
cat $D/out
grep -q "5.00 CAD | Assets$" $D/out"""),
dict(id="b23-depth", prop="C26", edits=[("cmd/coin/balance.go", "		cump := cumulative[a.Parent]\n		if cump == nil {\n", "		cump := cumulative[a.Parent]\n		if cump == nil || totals[a].IsZero() {\n")],
 needs="an account without own balance between an account and the top", breaks="what its children hold does not reach its parents", sh=CLI+"""
cat >> $D/db/accounts.coin <<'X'

account Expenses:Car
  commodity CAD

account Expenses:Car:Fuel
  commodity CAD
X
cat > $D/db/2020.coin <<'X'
2020/01/02 A
  Assets:Bank    -10.00 CAD
  Expenses:Car:Fuel   10.00 CAD
X
$D/coin balance Expenses >$D/out 2>&1
cat $D/out
grep -q "10.00 CAD | Expenses$" $D/out"""),
]
