package coin

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/mkobetic/coin/rex"
)

const spec_TRANSACTION_LINE_MAX = 80

var spec_transactionREX = rex.MustCompile(`^%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^;\s][^;]*))?(\s*; ?(?P<shortNote>.*))?\s*$`, spec_DateREX)

var spec_postingREX = rex.MustCompile(``+
	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?\s*$|`+
	`^\s+; ?(?P<note>.*)$`,
	spec_AccountREX, spec_AmountREX, spec_AmountREX)

func spec_DropTransactions() {
	for _, t := range Transactions {
		t.spec_drop()
	}
	Transactions = nil
}

func (transactions TransactionsByTime) spec_Len() int { return len(transactions) }

func (transactions TransactionsByTime) spec_Swap(i, j int) {
	transactions[i], transactions[j] = transactions[j], transactions[i]
}

func (transactions TransactionsByTime) spec_Less(i, j int) bool {
	return transactions[i].Posted.Before(transactions[j].Posted) ||
		(transactions[i].Posted.Equal(transactions[j].Posted) &&
			!transactions[i].spec_HasBalanceAssertions() &&
			transactions[j].spec_HasBalanceAssertions())
}

func (transactions TransactionsByTime) spec_FindEqual(t *Transaction) *Transaction {
	for _, t2 := range transactions {
		if t2.spec_IsEqual(t) {
			return t2
		}
	}
	return nil
}

func (transactions TransactionsByTime) spec_Includes(t *Transaction) bool {
	return transactions.spec_FindEqual(t) != nil
}

func (transactions TransactionsByTime) spec_Day(day time.Time) TransactionsByTime {
	total := len(transactions)
	start := sort.Search(total, func(i int) bool {
		return !transactions[i].Posted.Before(day)
	})
	if start == total {
		return nil
	}
	total = total - start
	count := sort.Search(total, func(i int) bool {
		return transactions[start+i].Posted.After(day)
	})
	return transactions[start : start+count]
}

func (t *Transaction) spec_Write(w io.Writer, ledger bool) error {
	notes := t.Notes
	line := t.Posted.Format(DateFormat) + " "
	if t.Code != "" {
		line += "(" + t.Code + ") "
	}
	line += t.Description
	if len(notes) > 0 && len(notes[0])+len(line) < spec_TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	}
	err := spec_writeStrings(w, nil, line, "\n")
	if err != nil {
		return err
	}
	for _, n := range notes {
		err := spec_writeStrings(w, nil, "  ; ", n, "\n")
		if err != nil {
			return err
		}
	}
	maxn, maxa := 0, 0
	for _, s := range t.Postings {
		if l := len(s.Account.FullName); l > maxn {
			maxn = l
		}
		if l := s.Quantity.spec_Width(s.Account.Commodity.Decimals); l > maxa {
			maxa = l
		}
	}
	for _, s := range t.Postings {
		err = s.spec_Write(w, 2, maxn, maxa, ledger)
		if err != nil {
			return err
		}
	}
	return nil
}

func (p *Parser) spec_parseTransaction(fn string) (*Transaction, error) {
	match := transactionREX.Match(p.Bytes())
	if match == nil {
		return nil, fmt.Errorf("invalid transaction line: %s", p.Text())
	}
	t := &Transaction{
		Posted:      spec_mustParseDate(match, 0),
		Code:        match["code"],
		Description: strings.TrimRight(match["description"], " \t"),
		line:        p.lineNr,
		file:        fn,
	}
	if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
		t.Notes = []string{n}
	}
	var notes []string
	var s *Posting
	for p.spec_Scan() {
		match = postingREX.Match(p.Bytes())
		if match == nil {
			break
		}
		if match["account"] == "" {
			if note := match["note"]; len(note) > 0 {
				notes = append(notes, string(note))
			}
			continue
		}
		var quantity *Amount
		var err error
		if amt := match["amount1"]; len(amt) > 0 {
			c := spec_MustFindCommodity(match["commodity1"], t.spec_Location())
			quantity, err = spec_parseAmount(amt, c)
			if err != nil {
				return nil, err
			}
		}
		if len(notes) > 0 {
			if s == nil {
				t.Notes = append(t.Notes, notes...)
			} else {
				s.Notes = append(s.Notes, notes...)
			}
			notes = nil
		}
		s = &Posting{
			Transaction: t,
			accountName: match["account"],
			Quantity:    quantity,
		}
		if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
			s.Notes = []string{n}
		}
		if balance := match["amount2"]; len(balance) > 0 {
			c := spec_MustFindCommodity(match["commodity2"], t.spec_Location())
			s.Balance, err = spec_parseAmount(balance, c)
			if err != nil {
				return nil, err
			}
			s.BalanceAsserted = true
		}
		t.Postings = append(t.Postings, s)
	}
	if len(notes) > 0 {
		if s == nil {
			t.Notes = append(t.Notes, notes...)
		} else {
			s.Notes = append(s.Notes, notes...)
		}
	}
	t.Tags = spec_ParseTags(t.Notes...)
	for _, p := range t.Postings {
		p.Tags = spec_ParseTags(p.Notes...)
	}
	return t, p.Err()
}

func (t *Transaction) spec_String() string {
	var b strings.Builder
	t.spec_Write(&b, false)
	return b.String()
}

func (t *Transaction) spec_Location() string {
	if t.file == "" {
		return ""
	}
	return fmt.Sprintf("%s:%d", t.file, t.line)
}

func (t *Transaction) spec_Post(
	from *Account,
	to *Account,
	amount *Amount,
	balance *Amount,
) {
	t.spec_PostConversion(from, amount, balance, to, amount.spec_Negated(), nil)
}

func (t *Transaction) spec_PostConversion(
	from *Account,
	fromAmount *Amount,
	fromBalance *Amount,
	to *Account,
	toAmount *Amount,
	toBalance *Amount,
) {
	sFrom := &Posting{Account: from, Transaction: t, Quantity: fromAmount, Balance: fromBalance, BalanceAsserted: fromBalance != nil}
	from.spec_addPosting(sFrom)
	sTo := &Posting{Account: to, Transaction: t, Quantity: toAmount, Balance: toBalance, BalanceAsserted: toBalance != nil}
	to.spec_addPosting(sTo)
	if fromAmount.Sign() < 0 {
		t.Postings = append(t.Postings, sTo, sFrom)
	} else {
		t.Postings = append(t.Postings, sFrom, sTo)
	}
}

func (t *Transaction) spec_Other(s *Posting) *Posting {
	for _, ss := range t.Postings {
		if ss != s {
			return ss
		}
	}
	return nil
}

func (t *Transaction) spec_HasBalanceAssertions() bool {
	for _, p := range t.Postings {
		if p.BalanceAsserted {
			return true
		}
	}
	return false
}

func (t *Transaction) spec_IsEqual(t2 *Transaction) bool {
	if !t.Posted.Equal(t2.Posted) {
		return false
	}
	if t.Code != t2.Code {
		return false
	}
	if len(t.Postings) != len(t2.Postings) {
		return false
	}
	for i, s := range t.Postings {
		if !t2.Postings[i].spec_IsEqual(s) {
			return false
		}
	}
	return true
}

func (t *Transaction) spec_MergeDuplicate(t2 *Transaction) {
	for i, p := range t.Postings {
		if p2 := t2.Postings[i]; p.Balance == nil && p2.Balance != nil {
			p.Balance = p2.Balance
			p.BalanceAsserted = p2.BalanceAsserted
		}
	}
}

func (t *Transaction) spec_drop() {
	for _, p := range t.Postings {
		p.spec_drop()
	}
	t.Postings = nil
}

func spec_writeStrings(w io.Writer, err error, ss ...string) error {
	if err != nil {
		return err
	}
	for _, s := range ss {
		_, err = io.WriteString(w, s)
		if err != nil {
			return err
		}
	}
	return nil
}

func (t *Transaction) spec_MarshalJSON() ([]byte, error) {
	var value = map[string]interface{}{
		"description": t.Description,
		"postings":    t.Postings,
		"posted":      t.Posted.Format(DateFormat),
	}
	if t.spec_Location() != "" {
		value["location"] = t.spec_Location()
	}
	if len(t.Notes) > 0 {
		value["notes"] = t.Notes
	}
	if len(t.Code) > 0 {
		value["code"] = t.Code
	}
	if len(t.Tags) > 0 {
		value["tags"] = t.Tags
	}
	return json.MarshalIndent(value, "", "\t")
}
