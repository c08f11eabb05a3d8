package main

// Further references of the same behaviour, written another way. Each was
// reviewed against the first reference of the same name.

import (
	"bufio"
	"encoding/csv"
	"io"
	"strings"

	"github.com/mkobetic/coin"
	"github.com/mkobetic/coin/check"
)

func spec_trim__2(in string) string {
	scanner := bufio.NewScanner(strings.NewReader(strings.TrimSpace(in)))
	scanner.Split(bufio.ScanWords)
	var words []string
	for scanner.Scan() {
		words = append(words, scanner.Text())
	}
	return strings.Join(words, " ")
}

func spec_readTransactions__2(in io.Reader, src *Source, rules *Rules) (transactions []*coin.Transaction) {
	r := csv.NewReader(in)
	for i := 0; i < src.skip; i++ {
		row, err := r.Read()
		if err, ok := err.(*csv.ParseError); ok && err.Err == csv.ErrFieldCount {
			r.FieldsPerRecord = len(row)
			continue
		}
		check.NoError(err, "Failed to read header line %d", i)
	}
	for rec, err := r.Read(); err != io.EOF; rec, err = r.Read() {
		check.NoError(err, "reading transaction")
		if nt := spec_transactionFrom(rec, src.fields, rules); nt != nil {
			transactions = append(transactions, nt)
		}
	}
	return transactions
}
