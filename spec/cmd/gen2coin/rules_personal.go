package main

import (
	"strings"

	"github.com/mkobetic/coin"
)

const spec_sample1setup = `
commodity CAD
  default

account Assets:Bank:Checking
account Assets:Bank:Savings
account Liabilities:MasterCard
account Liabilities:Amex
account Income:Salary
account Income:Interest
account Expenses:Groceries
account Expenses:Heat
account Expenses:Electricity
account Expenses:Water
`

func spec_personal() []*rule {
	r := strings.NewReader(spec_sample1setup)
	coin.Load(r, "")
	coin.ResolveAll()

	return []*rule{
		spec_newRule(spec_weekly(1, 2, weekday...), "Costco",
			"Checking|MasterCard|Amex",
			"Groceries",
			100, 1000),
		spec_newRule(spec_weekly(2, 1, anyday...),
			"FARM BOY|FRESHCO|LOBLAWS|LOEB|SOBEY'S|NO FRILLS",
			"Checking|MasterCard|Amex",
			"Groceries",
			30, 200),
		spec_newRule(spec_monthly(2, 1, 15, -1), "ACME Inc", "Salary", "Checking", 2000, 2000),
		spec_newRule(spec_monthly(1, 1, -1, -2, -3), "repay balance", "Checking", "MasterCard", spec_TO_BALANCE, 1),
		spec_newRule(spec_monthly(1, 1, -1, -2, -3), "repay balance", "Checking", "Amex", spec_TO_BALANCE, 1),
		spec_newRule(spec_monthly(1, 1, 1), "Enbridge Gas", "Checking", "Heat", 100, 200),
		spec_newRule(spec_monthly(1, 1, 1), "Hydro One", "Checking", "Electricity", 50, 100),
		spec_newRule(spec_monthly(1, 2, -15), "City Water&Sewer", "Checking", "Water", 100, 150),
		spec_newRule(spec_monthly(1, 1, 1), "monthly savings", "Checking", "Savings", 300, 2000),
		spec_newRule(spec_monthly(1, 1, -1), "monthly interest %2/12", "Interest", "Savings", spec_TO_BALANCE, -50*12),
	}
}
