package coin

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"
)

func (s *Posting) spec_Write(w io.Writer, accountOffset, accountWidth, amountWidth int, ledger bool) error {
	notes := s.Notes
	commodity := s.Quantity.Commodity
	line := fmt.Sprintf("%*s%-*s  %*.*f %s",
		accountOffset, "",
		accountWidth, s.Account.FullName,
		amountWidth, commodity.Decimals, s.Quantity, commodity.spec_SafeId(ledger))
	if s.BalanceAsserted {
		commodity = s.Balance.Commodity
		line += fmt.Sprintf(" = %.*f %s", commodity.Decimals, s.Balance, commodity.spec_SafeId(ledger))
	}
	if len(notes) > 0 && len(notes[0])+len(line) < spec_TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	}
	err := spec_writeStrings(w, nil, line, "\n")
	if err != nil {
		return err
	}
	for _, n := range notes {
		err := spec_writeStrings(w, nil, "    ; ", n, "\n")
		if err != nil {
			return err
		}
	}
	return nil
}

func (s *Posting) spec_String() string {
	var b strings.Builder
	s.spec_Write(&b, 0, len(s.Account.FullName)+2, spec_bigLog10(s.Quantity.Int)+3, false)
	return b.String()
}

func (s *Posting) spec_IsEqual(s2 *Posting) bool {
	return s.Account == s2.Account &&
		s.Quantity.Commodity == s2.Quantity.Commodity &&
		s.Quantity.spec_IsEqual(s2.Quantity)
}

func (p *Posting) spec_MoveTo(a *Account) {
	if p.Account == a {
		return
	}
	p.Account.spec_deletePosting(p)
	a.spec_addPosting(p)
	p.Account = a
}

func (p *Posting) spec_drop() {
	p.Account.spec_deletePosting(p)
}

func (p *Posting) spec_MarshalJSON() ([]byte, error) {
	var value = map[string]interface{}{
		"account":  p.Account.FullName,
		"quantity": p.Quantity,
	}
	if p.Balance != nil {
		value["balance"] = p.Balance
		value["balance_asserted"] = p.BalanceAsserted
	}
	if len(p.Notes) > 0 {
		value["notes"] = p.Notes
	}
	if p.Tags != nil {
		value["tags"] = p.Tags
	}
	return json.MarshalIndent(value, "", "\t")
}
