package gnucash

import (
	"sort"
	"strings"

	"github.com/mkobetic/coin"
)

type spec_Transaction struct {
	Guid          string   `xml:"id"`
	CurrencySpace string   `xml:"currency>space"`
	CurrencyId    string   `xml:"currency>id"`
	Num           string   `xml:"num,omitempty"`
	PostedStamp   string   `xml:"date-posted>date"`
	EnteredStamp  string   `xml:"date-entered>date"`
	Description   string   `xml:"description,omitempty"`
	Splits        []*Split `xml:"splits>split"`
}

func spec_resolveTransactions(transactions []*Transaction) {
	for _, gt := range transactions {
		ds := strings.SplitN(gt.Description, " - ", 2)
		t := &coin.Transaction{
			Code:        gt.Num,
			Description: ds[0],
		}
		if len(ds) == 2 && len(ds[1]) > 0 {
			t.Notes = []string{ds[1]}
		}
		t.Posted = spec_mustParseTimeStamp(gt.PostedStamp)
		spec_resolveSplits(gt.Splits, t)
		coin.Transactions = append(coin.Transactions, t)
	}
	for _, a := range AccountsByGuid {
		sort.Slice(a.Postings, func(i, j int) bool {
			return a.Postings[i].Transaction.Posted.Before(a.Postings[j].Transaction.Posted)
		})
		a.CheckPostings()
	}
	sort.Slice(coin.Transactions, func(i, j int) bool {
		return coin.Transactions[i].Posted.Before(coin.Transactions[j].Posted)
	})
}
