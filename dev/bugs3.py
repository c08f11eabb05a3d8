exec(open("/verif/dev/bugs1.py").read().split("\nBUGS = [")[0])
BUGS = [
dict(id="b24-shift", prop="C06", edits=[("account.go", "	copy(newPostings[i+1:], a.Postings[i:])\n	newPostings[i] = p\n", "	newPostings[i] = p\n	copy(newPostings[i+1:], a.Postings[i:])\n")],
 needs="a posting put before others of its account when the list has spare room", breaks="the new posting is listed twice and the one it was put in front of is lost",
 test=HDR+'''
func TestDemo(t *testing.T) {
	demoReset()
	var b strings.Builder
	for i := 0; i < 9; i++ {
		fmt.Fprintf(&b, "2020/02/%02d T\\n  Assets:Bank  -%d.00 CAD\\n  Expenses:Food  %d.00 CAD\\n\\n", i+1, i+1, i+1)
	}
	fmt.Fprintf(&b, "2020/01/05 T\\n  Assets:Bank  -50.00 CAD\\n  Expenses:Rent  50.00 CAD\\n\\n")
	fmt.Fprintf(&b, "2020/01/01 T\\n  Assets:Bank  -51.00 CAD\\n  Expenses:Rent  51.00 CAD\\n\\n")
	demoLoad(b.String())
	Transactions[8].Postings[0].MoveTo(AccountsByName["Expenses:Rent"])
	for _, p := range Transactions[0].Postings {
		p.MoveTo(AccountsByName["Assets:Bank"])
	}
	n := map[*Posting]int{}
	for _, a := range AccountsByName {
		for _, p := range a.Postings {
			n[p]++
		}
	}
	for _, tr := range Transactions {
		for _, p := range tr.Postings {
			if n[p] != 1 {
				t.Fatal(n[p], p)
			}
		}
	}
}
'''),
dict(id="b25-cycle", prop="C24", edits=[("commodity.go", "append(previous, c2))", "append(previous, c3))")],
 needs="prices in a circle beside the way to the currency asked for", breaks="the amount goes around the circle before it is converted",
 test=HDR+'''
func TestDemo(t *testing.T) {
	demoReset()
	demoLoad("commodity AAA\\n  format 1.00 AAA\\n\\ncommodity XXX\\n  format 1.00 XXX\\n\\ncommodity ZZZ\\n  format 1.00 ZZZ\\n\\n" +
		"P 2020/01/01 XXX 3.00 AAA\\nP 2020/01/01 AAA 5.00 XXX\\nP 2020/01/01 XXX 2.00 ZZZ\\nP 2020/01/01 ZZZ 7.00 CAD\\n")
	x, cad := Commodities["XXX"], Commodities["CAD"]
	one, _ := parseAmount("1.00", x)
	v, err := cad.Convert(one, x)
	if err != nil || fmt.Sprint(v) != "14.00 CAD" && fmt.Sprintf("%a", v) != "14.00" {
		t.Fatal(v, err)
	}
}
'''),
dict(id="b26-code", prop="C10", edits=[("transaction.go", "	if t.Code != \"\" {\n		line += \"(\"", "	if t.Code != \"\" && t.Description != \"\" {\n		line += \"(\"")],
 needs="a transaction with a code and no description", breaks="the code is not written",
 test=HDR+'''
func TestDemo(t *testing.T) {
	demoReset()
	demoLoad("2020/01/01 (123)\\n  Assets:Bank  -1.00 CAD\\n  Expenses:Food  1.00 CAD\\n")
	s := Transactions[0].String()
	if Transactions[0].Code != "123" || !strings.Contains(s, "(123)") {
		t.Fatal(s)
	}
}
'''),
dict(id="b27-skip", prop="C09", edits=[("transaction.go", """		match = postingREX.Match(p.Bytes())
		if match == nil {
			break
		}
""", """		match = postingREX.Match(p.Bytes())
		if match == nil {
			if b := p.Bytes(); len(b) > 0 && b[0] == '\\t' {
				continue
			}
			break
		}
""")],
 needs="a malformed posting indented by a tab", breaks="a line that is not understood is left out without a word",
 test=HDR+'''
func TestDemo(t *testing.T) {
	demoReset()
	if !mustPanic(func() {
		p := NewParser(strings.NewReader(demoCommodities + "2020/01/01 T\\n\\tAssets:Bank\\t-1.00 CAD\\n\\tExpenses:Food 0.50 CAD x\\n\\tExpenses:Rent  1.00 CAD\\n"))
		for {
			i, err := p.Next("demo")
			if err != nil {
				panic(err)
			}
			if i == nil {
				return
			}
			if c, ok := i.(*Commodity); ok {
				Commodities[c.Id] = c
			}
		}
	}) {
		t.Fatal("no error")
	}
}
'''),
dict(id="b28-merge", prop="C22", edits=[("transaction.go", "if p2 := t2.Postings[i]; p.Balance == nil && p2.Balance != nil {", "if p2 := t2.Postings[i]; i == 0 && p.Balance == nil && p2.Balance != nil {")],
 needs="a duplicate whose second posting is the one with the known balance", breaks="the balance known from the duplicate is lost",
 test=HDR+'''
func TestDemo(t *testing.T) {
	demoReset()
	demoLoad("2020/01/01 T\\n  Assets:Bank  -1.00 CAD\\n  Expenses:Food  1.00 CAD\\n")
	c, tr := Commodities["CAD"], Transactions[0]
	dup := *tr
	five, _ := parseAmount("5.00", c)
	p := *tr.Postings[1]
	p.Balance, p.BalanceAsserted = five, true
	dup.Postings = []*Posting{tr.Postings[0], &p}
	tr.Postings[1].Balance, tr.Postings[1].BalanceAsserted = nil, false
	tr.MergeDuplicate(&dup)
	if tr.Postings[1].Balance == nil || !tr.Postings[1].BalanceAsserted {
		t.Fatal(tr)
	}
}
'''),
dict(id="b29-addtag", prop="C28", edits=[("cmd/coin/modify.go", "		return notes\n	}\n	return append(notes, tagLine)", "		return notes\n	}\n	return append(notes[:1], tagLine)")],
 needs="a tag added where the first of several notes has no room for it", breaks="the other notes are lost",
 pkg="cmd/coin", test='''package main

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	ns := addTagLine([]string{strings.Repeat("x", 200), "second", "third"}, "#tag")
	if len(ns) != 4 || ns[1] != "second" || ns[2] != "third" || ns[3] != "#tag" {
		t.Fatal(ns)
	}
}
'''),
dict(id="b30-noteref", prop="C21", edits=[("rules.go", "					rules = append(rules, r)\n					lastRule = nil", "					rules = append(rules, r)")],
 needs="a note that follows a reference to a group of rules", breaks="the note goes to the rule before the reference",
 test=HDR+'''
func TestDemo(t *testing.T) {
	AccountsByName["Assets:Bank"] = &Account{Name: "Bank", FullName: "Assets:Bank"}
	AccountsByName["Expenses:Food"] = &Account{Name: "Food", FullName: "Expenses:Food"}
	ri, err := ReadRules(strings.NewReader("common\\n  Expenses:Food ABC\\n123 Assets:Bank\\n  Expenses:Food XYZ\\n  @common\\n  ; #tag\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if r := ri.Accounts["123"].RuleFor("XYZ"); r == nil || len(r.Notes) != 0 {
		t.Fatal(r.Notes)
	}
}
'''),
]
