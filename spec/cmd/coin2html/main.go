package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"

	"github.com/mkobetic/coin"
)

func spec_main() {
	coin.LoadAll()
	var f = os.Stdout
	var encoder = json.NewEncoder(f)
	encoder.SetIndent("", "\t")
	fmt.Fprintln(f, "<!DOCTYPE html>")
	fmt.Fprint(f, `<html lang="en">`, "\n")
	fmt.Fprint(f, htmlHead)
	fmt.Fprintln(f, "<body>")
	fmt.Fprintln(f, `<script type="application/json" id="importedCommodities">`)
	if err := encoder.Encode(coin.Commodities); err != nil {
		fmt.Fprint(os.Stderr, err.Error())
		os.Exit(1)
	}
	fmt.Fprintln(f, "</script>")
	fmt.Fprintf(os.Stderr, "Commodities: %d\n", len(coin.Commodities))
	fmt.Fprintln(f, `<script type="application/json" id="importedPrices">`)
	if err := encoder.Encode(coin.Prices); err != nil {
		fmt.Fprint(os.Stderr, err.Error())
		os.Exit(1)
	}
	fmt.Fprintln(f, "</script>")
	fmt.Fprintf(os.Stderr, "Prices: %d\n", len(coin.Prices))
	fmt.Fprintln(f, `<script type="application/json" id="importedAccounts">`)
	if err := encoder.Encode(coin.AccountsByName); err != nil {
		fmt.Fprint(os.Stderr, err.Error())
		os.Exit(1)
	}
	fmt.Fprintln(f, "</script>")
	fmt.Fprintf(os.Stderr, "Accounts: %d\n", len(coin.AccountsByName))
	fmt.Fprintln(f, `<script type="application/json" id="importedTransactions">`)
	if err := encoder.Encode(coin.Transactions); err != nil {
		fmt.Fprint(os.Stderr, err.Error())
		os.Exit(1)
	}
	fmt.Fprintln(f, "</script>")
	fmt.Fprintf(os.Stderr, "Transactions: %d\n", len(coin.Transactions))

	fmt.Fprint(f, htmlBody)
	fmt.Fprintln(f, "</body>\n</html>")
	f.Close()
}
