package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"github.com/mkobetic/coin"
	"github.com/mkobetic/coin/check"
)

const (
	// these are special min values (large enough to not interfere with useful numeric values)
	spec_constants    = iota + 1<<31
	spec_FROM_BALANCE // use the 'from' account balance
	spec_TO_BALANCE   // use the 'to' account balance
)

func (transactions samples) spec_Len() int { return len(transactions) }

func (transactions samples) spec_Swap(i, j int) {
	transactions[i], transactions[j] = transactions[j], transactions[i]
}

func (transactions samples) spec_Less(i, j int) bool {
	return transactions[i].Posted.Before(transactions[j].Posted)
}

func spec_newRule(dates dateGen, payees, from, to string, min, max int) *rule {
	return &rule{
		dates:  dates,
		payees: strings.Split(payees, "|"),
		from:   spec_toAccounts(strings.Split(from, "|")),
		to:     spec_toAccounts(strings.Split(to, "|")),
		min:    min,
		max:    max,
	}
}

func (r *rule) spec_generateTransactions(begin, end time.Time) samples {
	var transactions samples
	for _, posted := range r.dates(begin, end) {
		payee := r.payees[rand.Intn(len(r.payees))]
		t := &coin.Transaction{
			Posted:      posted,
			Description: payee}
		transactions = append(transactions, sample{r, t})
	}
	return transactions
}

func (r *rule) spec_generatePostings(t *coin.Transaction) {
	from := r.from[rnd.Intn(len(r.from))]
	to := r.to[rnd.Intn(len(r.to))]
	amt := spec_amtBetween(r.min, r.max, from, to)
	t.Post(to, from, amt, nil)
	check.NoError(to.Balance().AddIn(amt), "failed to update balance")
	check.NoError(from.Balance().AddIn(amt.Negated()), "failed to update balance")
}

func spec_amtBetween(a, b int, from, to *coin.Account) *coin.Amount {
	if a > spec_constants {
		return spec_amtFromBalance(a, b, from, to)
	}
	if a > b {
		a, b = b, a
	}
	amt := a
	if b != a {
		amt = a + rnd.Intn(b-a)
	}
	return &coin.Amount{
		Int:       big.NewInt(int64(amt) * spec_pow(10, from.Commodity.Decimals)),
		Commodity: from.Commodity,
	}
}

func spec_amtFromBalance(account, divisor int, from, to *coin.Account) *coin.Amount {
	var amt *coin.Amount
	switch account {
	case spec_FROM_BALANCE:
		amt = from.Balance().Negated()
	case spec_TO_BALANCE:
		amt = to.Balance().Negated()
	default:
		panic(fmt.Errorf("invalid constant: %d", account))
	}
	amt.Div(amt.Int, big.NewInt(int64(divisor)))
	return amt
}

func spec_toAccounts(patterns []string) (accounts []*coin.Account) {
	for _, p := range patterns {
		accounts = append(accounts, coin.MustFindAccount(p))
	}
	return accounts
}

func spec_pow(base, exp int) (res int64) {
	bitMask := 1
	pow := int64(base)
	res = 1
	for bitMask <= exp {
		if bitMask&exp != 0 {
			res *= pow
		}
		pow *= pow
		bitMask <<= 1
	}
	return res
}
