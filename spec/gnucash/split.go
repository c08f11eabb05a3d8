package gnucash

import "github.com/mkobetic/coin"

type spec_Split struct {
	Guid             string `xml:"id"`
	AccountGuid      string `xml:"account"`
	Memo             string `xml:"memo,omitempty"`
	Action           string `xml:"action,omitempty"`
	ReconciledState  string `xml:"reconciled-state"`
	ReconciledStamp  string `xml:"reconcile-date>date,omitempty"`
	ValueFraction    string `xml:"value"`
	QuantityFraction string `xml:"quantity"`
}

func spec_resolveSplits(splits []*Split, t *coin.Transaction) {
	for _, gs := range splits {
		s := &coin.Posting{Transaction: t}
		if n := gs.Memo; len(n) > 0 {
			s.Notes = []string{n}
		}
		t.Postings = append(t.Postings, s)
		s.Account = spec_mustFindAccount(gs.AccountGuid)
		s.Account.Postings = append(s.Account.Postings, s)
		s.Quantity = spec_mustParseAmount(gs.QuantityFraction, s.Account.Commodity)
	}
}
