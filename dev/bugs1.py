HDR = '''package coin

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"testing"
)

var _ = bytes.Equal
var _ = fmt.Sprint
var _ = os.Exit
var _ = strings.Split

const demoCommodities = `
commodity CAD
  format 1.00 CAD
  default

commodity USD
  format 1.00 USD

commodity BTC
  format 1.000000 BTC

account Assets:Bank
  commodity CAD

account Expenses:Food
  commodity CAD

account Expenses:Rent
  commodity CAD

account Assets:Coin
  commodity BTC

`

func mustPanic(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return
}

func demoReset() {
	Commodities = map[string]*Commodity{}
	CommoditiesBySymbol = map[string]*Commodity{}
	AccountsByName = map[string]*Account{}
	Prices = nil
	Transactions = nil
	Tests = nil
	Root, Unbalanced = nil, nil
}

func demoLoad(s string) {
	Load(strings.NewReader(demoCommodities+s), "demo")
	ResolveAll()
}
'''
# a command-line demonstration: build coin, run it in a scratch ledger
CLI = '''
go build -o $D/coin ./cmd/coin || exit 3
mkdir -p $D/db
cat > $D/db/commodities.coin <<'X'
commodity CAD
  format 1.00 CAD
  default

commodity USD
  format 1.00 USD

commodity BTC
  format 1.000000 BTC
X
cat > $D/db/accounts.coin <<'X'
account Assets:Bank
  commodity CAD

account Assets:Coin
  commodity BTC

account Assets:USD
  commodity USD

account Expenses:Food
  commodity CAD

account Expenses:Food:Out
  commodity CAD

account Expenses:Rent
  commodity CAD
X
COINDB=$D/db
export COINDB
'''
BUGS = [
dict(id="b01-single", prop="C01", edits=[("coin.go", "check.If(total.IsZero(), ", "check.If(total.IsZero() || len(t.Postings) < 2, ")],
 needs="a transaction with a single posting of non-zero amount", breaks="an unbalanced transaction is accepted",
 sh=CLI+"""
cat > $D/db/2020.coin <<'X'
2020/01/02 Shop
  Assets:Bank    -10.00 CAD
X
if $D/coin balance >$D/out 2>&1; then echo accepted; cat $D/out; false; else grep -q "not balanced" $D/out; fi"""),
dict(id="b02-floor", prop="C02", edits=[("amount.go", "c.Quo(c, bigPow10(b.Decimals-a.Decimals))", "c.Div(c, bigPow10(b.Decimals-a.Decimals))")],
 needs="a negative amount with more decimals than the amount it is added to or compared with", breaks="excess digits of negative amounts are rounded away from zero",
 test=HDR+'''
func TestDemo(t *testing.T) {
	btc := &Commodity{Id: "BTC", Decimals: 6}
	cad := &Commodity{Id: "CAD", Decimals: 2}
	a := MustParseAmount("-0.01", cad)
	if !a.IsEqual(MustParseAmount("-0.019999", btc)) {
		t.Fatal("negative digits not dropped toward zero")
	}
}
'''),
dict(id="b03-alias", prop="C03", edits=[("cmd/coin/totals.go", "ts.current.totals[category] = p.Quantity.Copy()", "ts.current.totals[category] = p.Quantity")],
 needs="an aggregation by payee where a payee first seen in a period already started by another payee has a second posting, followed by another report in the same process", breaks="the recorded amount of the first posting is overwritten with the period total",
 sh=CLI+'''
cat > $D/db/2020.coin <<'X'
2020/01/01 A
  Assets:Bank    -1.00 CAD
  Expenses:Food   1.00 CAD

2020/01/02 B
  Assets:Bank    -10.00 CAD
  Expenses:Food   10.00 CAD

2020/01/03 B
  Assets:Bank    -5.00 CAD
  Expenses:Food   5.00 CAD
X
{ cat $D/db/commodities.coin; echo; cat $D/db/accounts.coin; echo; cat $D/db/2020.coin; cat <<'X'

test register -m -bp Expenses:Food
end test

test register Expenses:Food
end test
X
} > $D/t1.coin
$D/coin test $D/t1.coin >/dev/null 2>&1
sed -n '/^test register Exp/,$p' $D/t1.coin > $D/with
{ cat $D/db/commodities.coin; echo; cat $D/db/accounts.coin; echo; cat $D/db/2020.coin; cat <<'X'

test register Expenses:Food
end test
X
} > $D/t2.coin
$D/coin test $D/t2.coin >/dev/null 2>&1
sed -n '/^test register Exp/,$p' $D/t2.coin > $D/alone
diff $D/with $D/alone && grep -q 10.00 $D/alone'''),
dict(id="b05-assert", prop="C05", edits=[("account.go", "warn.If(!a.Balance().IsEqual(s.Balance),", "warn.If(a.Balance().IsLessThan(s.Balance),")],
 needs="an assertion below the actual balance", breaks="a failed assertion is not reported",
 sh=CLI+"""
cat > $D/db/2020.coin <<'X'
2020/01/01 A
  Assets:Bank    10.00 CAD = 9.00 CAD
  Expenses:Food   -10.00 CAD
X
$D/coin balance >$D/out 2>&1
grep -q "should be 9.00" $D/out"""),
dict(id="b06-delete", prop="C06", edits=[("account.go", "	copy(a.Postings[i:], a.Postings[i+1:])\n", "	a.Postings[i] = a.Postings[len(a.Postings)-1]\n")],
 needs="moving or dropping a posting that is followed by at least two others of its account", breaks="the account's postings are no longer in date order, so later lookups miss postings",
 test=HDR+"""
func TestDemo(t *testing.T) {
	demoReset()
	demoLoad("")
	bank, food, rent := MustFindAccount("Assets:Bank"), MustFindAccount("Expenses:Food"), MustFindAccount("Expenses:Rent")
	var trs []*Transaction
	for i := 0; i < 5; i++ {
		tr := &Transaction{Posted: MustParseDate(fmt.Sprintf("2020/01/%02d", i+1))}
		tr.Post(bank, food, MustParseAmount("1.00", bank.Commodity), nil)
		trs = append(trs, tr)
	}
	for _, tr := range trs {
		for _, p := range tr.Postings {
			if p.Account == food {
				p.MoveTo(rent)
			}
		}
	}
	if len(food.Postings) != 0 || len(rent.Postings) != 5 {
		t.Fatal(len(food.Postings), len(rent.Postings))
	}
}
"""),
]
