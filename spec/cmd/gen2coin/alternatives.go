package main

// Further references of the same behaviour, written another way. Each was
// reviewed against the first reference of the same name.

import (
	"fmt"
	"math/big"
	"time"

	"github.com/mkobetic/coin"
)

// Starts a new batch empty and adds every transaction in one place.
func spec_batchesByLabel__2(transactions samples, labeler func(t time.Time) string) map[string]samples {
	batches := make(map[string]samples)
	if len(transactions) == 0 {
		return batches
	}
	var batch samples
	previous := labeler(transactions[0].Posted)
	for _, t := range transactions {
		if next := labeler(t.Posted); previous != next {
			batches[previous] = batch
			previous, batch = next, nil
		}
		batch = append(batch, t)
	}
	batches[previous] = batch
	return batches
}

// Selects the account first.
func spec_amtFromBalance__2(account, divisor int, from, to *coin.Account) *coin.Amount {
	source := from
	if account == TO_BALANCE {
		source = to
	} else if account != FROM_BALANCE {
		panic(fmt.Errorf("invalid constant: %d", account))
	}
	amt := source.Balance().Negated()
	amt.Div(amt.Int, big.NewInt(int64(divisor)))
	return amt
}
