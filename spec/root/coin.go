package coin

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/mkobetic/coin/check"
	"github.com/mkobetic/coin/check/warn"
)

const (
	// Default file names and extensions
	spec_CoinExtension         = ".coin"
	spec_AccountsFilename      = "accounts" + spec_CoinExtension
	spec_CommoditiesFilename   = "commodities" + spec_CoinExtension
	spec_PricesFilename        = "prices" + spec_CoinExtension
	spec_PricesExtension       = ".prices"
	spec_TransactionsFilename  = "transactions" + spec_CoinExtension
	spec_TransactionsExtension = spec_CoinExtension
)

func spec_DefaultCommodity() *Commodity {
	return spec_MustFindCommodity(DefaultCommodityId, "default commodity")
}

func spec_MustFindCommodity(id string, location string) *Commodity {
	if c := Commodities[id]; c != nil {
		return c
	}
	panic(fmt.Errorf("cannot find commodity %s\n\t%s\n", id, location))
}

func spec_LoadPrices() {
	spec_LoadFile(CommoditiesFile)
	if _, err := os.Stat(PricesFile); os.IsNotExist(err) {
		files, err := filepath.Glob(filepath.Join(DB, "*.prices"))
		check.NoError(err, "Failed to list price files")
		for _, f := range files {
			spec_LoadFile(f)
		}
	} else {
		spec_LoadFile(PricesFile)
	}
}

func spec_LoadAll() {
	spec_LoadPrices()
	spec_LoadFile(AccountsFile)
	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
		files, err := filepath.Glob(filepath.Join(DB, "*.coin"))
		check.NoError(err, "Failed to list transaction files")
		for _, f := range files {
			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
				spec_LoadFile(f)
			}
		}
	} else {
		spec_LoadFile(TransactionsFile)
	}
	spec_ResolveAll()
}

func spec_LoadFile(filename string) {
	file, err := os.Open(filename)
	check.NoError(err, "Failed to open %s", filename)
	defer file.Close()
	spec_Load(file, filename)
}

func spec_Load(r io.Reader, fn string) {
	p := spec_NewParser(r)
	for {
		i, err := p.spec_Next(fn)
		check.NoError(err, "Parsing error")
		if i == nil {
			return
		}
		switch i := i.(type) {
		case *Commodity:
			Commodities[i.Id] = i
			if i.Symbol != "" {
				CommoditiesBySymbol[i.Symbol] = i
			}
		case *Account:
			if i.FullName == "" {
				panic(fmt.Errorf("INVALID %#v", i))
			}
			AccountsByName[i.FullName] = i
		case *Price:
			Prices = append(Prices, i)
		case *Transaction:
			Transactions = append(Transactions, i)
		case *Test:
			Tests = append(Tests, i)
		case *Include:
			files, err := i.spec_Files()
			check.NoError(err, "Failed to resolve include %s", i.Path)
			for _, f := range files {
				// This won't catch nested loops, but should catch the easier to make errors.
				check.If(f != fn, "Include loop detected %s", f)
				spec_LoadFile(f)
			}
		default:
			fmt.Fprintf(os.Stderr, "Unknown entity %T", i)
			os.Exit(1)

		}
	}
}

func spec_ResolveAll() {
	spec_ResolvePrices()
	spec_ResolveAccounts()
	spec_ResolveTransactions(true)
}

func spec_ResolvePrices() {
	for _, p := range Prices {
		p.Commodity = spec_MustFindCommodity(p.CommodityId, p.spec_Location())
		p.Currency = spec_MustFindCommodity(p.currencyId, p.spec_Location())
		p.Commodity.spec_AddPrice(p)
	}
	// Sort commodity prices.
	for _, c := range Commodities {
		for _, p := range c.Prices {
			sort.Slice(p, func(i, j int) bool {
				return p[i].Time.After(p[j].Time)
			})
		}
	}
	sort.Slice(Prices, func(i, j int) bool {
		return Prices[i].Time.Before(Prices[j].Time)
	})
}

func spec_ResolveAccounts() {
	if Root == nil {
		Root = AccountsByName["Root"]
		if Root == nil {
			Root = spec_accountFromName("Root")
			AccountsByName["Root"] = Root
		}
	}
	if Unbalanced == nil {
		Unbalanced = spec_accountFromName("Unbalanced")
		AccountsByName["Unbalanced"] = Unbalanced
	}

	// create parents if missing
	var known []*Account
	for _, a := range AccountsByName {
		known = append(known, a)
	}
	for _, a := range known {
		fn := a.FullName
		for {
			fn, _ = spec_parentAndName(fn)
			if fn == "" {
				break
			}
			if AccountsByName[fn] == nil {
				AccountsByName[fn] = spec_accountFromName(fn)
			}
		}
	}

	// link parents with children,
	for _, a := range AccountsByName {
		if a == Root {
			continue
		}
		pName := a.spec_ParentName()
		if pName == "" {
			Root.spec_adopt(a)
			continue
		}
		p := AccountsByName[pName]
		check.If(p != nil, "Missing account %s (%s)\n", pName, a.spec_Location())
		p.spec_adopt(a)
	}

	isChild := func(p, c *Account) bool {
		for _, a := range p.Children {
			if a == c {
				return true
			}
		}
		return false
	}

	// sort children, link commodities
	for _, a := range AccountsByName {
		if pn := a.spec_ParentName(); pn != "" {
			warn.If(!(pn == a.Parent.FullName), "%s doesn't match parent name %s\n", a.Parent.Name, pn)
			warn.If(!isChild(a.Parent, a), "%s is not a child of %s\n", a.FullName, a.Parent.FullName)
		}
		if a.CommodityId != "" {
			a.Commodity = spec_MustFindCommodity(a.CommodityId, a.spec_Location())
		} else {
			a.Commodity = spec_DefaultCommodity()
		}
		sort.Slice(a.Children, func(i, j int) bool {
			return a.Children[i].Name < a.Children[j].Name
		})
	}

}

func spec_ResolveTransactions(checkPostings bool) {
	for _, t := range Transactions {
		// t.Currency = MustFindCommodity(t.currencyId)
		var commodity *Commodity
		var commodities = map[*Commodity]bool{}
		for _, s := range t.Postings {
			s.Account = spec_MustFindAccount(s.accountName)
			s.Account.spec_addPosting(s)
			commodity = s.Account.Commodity
			commodities[commodity] = true
		}
		if len(commodities) > 1 {
			// Postings with different commodities, make sure amounts are set
			for _, s := range t.Postings {
				check.If(s.Quantity != nil, "Posting without quantity in mixed transaction: %s", t.spec_Location())
			}
			continue
		}
		// All postings with the same commodity make sure transaction is balanced
		var empty *Posting
		var total = spec_NewZeroAmount(commodity)
		for _, s := range t.Postings {
			if s.Quantity == nil {
				check.If(empty == nil, "Multiple postings without quantity: %s", t.spec_Location())
				empty = s
			} else {
				err := total.spec_AddIn(s.Quantity)
				check.NoError(err, "cannot compute transaction total: %s", t.spec_Location())
			}
		}
		if empty == nil {
			check.If(total.spec_IsZero(), "Transaction is not balanced %f: %s", total, t.spec_Location())
		} else {
			empty.Quantity = total.spec_Negated()
		}
	}

	spec_AccountsDo(func(a *Account) {
		a.spec_sortPostings()
		if checkPostings {
			a.spec_CheckPostings()
		}
	})
	sort.Stable(Transactions)
}

func spec_MustFindAccount(pattern string) *Account {
	if a := AccountsByName[pattern]; a != nil {
		return a
	}
	as := spec_FindAccounts(pattern)
	if len(as) == 0 {
		panic(fmt.Errorf("cannot find account %s", pattern))
	}
	if len(as) == 1 {
		return as[0]
	}
	parent := as[0].FullName + ":"
	all := true
	for _, a := range as[1:] {
		if all = all && strings.HasPrefix(a.FullName, parent); !all {
			break
		}
	}
	if all {
		return as[0]
	}
	msg := fmt.Sprintf("Found %d accounts matching %s", len(as), pattern)
	for _, a := range as {
		msg += "\n" + a.FullName
	}
	panic(msg)
}

func spec_FindAccountOfxId(acctId string) (found *Account) {
	spec_AccountsDo(func(a *Account) {
		if found == nil && a.OFXAcctId == acctId {
			found = a
		}
	})
	return found
}

func spec_ToRegex(pattern string) *regexp.Regexp {
	multiple := `[\w/_:-]*`
	single := `[\w/_-]*:[\w/_-]*`
	words := strings.Split(pattern, ":")
	rx := `(?i)` + words[0]
	if len(words) > 1 {
		wordLast := true
		for _, w := range words[1:] {
			if w == "" {
				if wordLast {
					rx += multiple
				}
				wordLast = false
			} else {
				if wordLast {
					rx += single
				}
				rx += w
				wordLast = true
			}
		}
	}
	return regexp.MustCompile(rx)
}

func spec_FindAccounts(pattern string) (accounts []*Account) {
	var names []string
	rx := spec_ToRegex(pattern)
	spec_AccountsDo(func(a *Account) {
		if rx.MatchString(a.FullName) {
			names = append(names, a.FullName)
		}
	})
	sort.Strings(names)
	for _, n := range names {
		accounts = append(accounts, AccountsByName[n])
	}
	return accounts
}

func spec_CommoditiesDo(f func(c *Commodity)) {
	var names []string
	for n := range Commodities {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(Commodities[n])
	}
}

func spec_AccountsDo(f func(c *Account)) {
	var names []string
	for n := range AccountsByName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f(AccountsByName[n])
	}
}

// initial values of the package's variables

var spec_DB = os.Getenv("COINDB")
var spec_DefaultCommodityId = "CAD"
var spec_AccountsFile = filepath.Join(DB, AccountsFilename)
var spec_CommoditiesFile = filepath.Join(DB, CommoditiesFilename)
var spec_PricesFile = filepath.Join(DB, PricesFilename)
var spec_TransactionsFile = filepath.Join(DB, TransactionsFilename)
var spec_Tests []*Test
var spec_Root *Account
var spec_Unbalanced *Account
var spec_AccountsByName = map[string]*Account{}
var spec_Prices []*Price
var spec_Transactions TransactionsByTime
