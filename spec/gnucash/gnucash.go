package gnucash

import (
	"compress/gzip"
	"encoding/xml"
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

type spec_Gnucash struct {
	XMLName xml.Name `xml:"gnc-v2"`
	Book    Book     `xml:"book"`
}

type spec_Book struct {
	Accounts     []*Account     `xml:"account"`
	Commodities  []*Commodity   `xml:"commodity"`
	Prices       []*Price       `xml:"pricedb>price"`
	Transactions []*Transaction `xml:"transaction"`
}

const spec_TimeStamp = "2006-01-02 15:04:05 -0700"

type spec_KvpValue struct {
	XMLName xml.Name `xml:"value"`
	Value   string   `xml:",innerxml"`
	Type    string   `xml:"type,attr"`
}

type spec_KvpSlot struct {
	XMLName xml.Name `xml:"slot"`
	Key     string   `xml:"key"`
	Value   KvpValue `xml:"value"`
}

func (book *Book) spec_Resolve() {
	spec_resolveCommodities(book.Commodities)
	spec_resolvePrices(book.Prices)
	spec_resolveAccounts(book.Accounts)
	spec_resolveTransactions(book.Transactions)
}

func spec_Load(fn string) *Book {
	var db Gnucash
	file, err := os.Open(fn)
	if err != nil {
		panic(fmt.Errorf("%s: %s", fn, err))
	}
	defer file.Close()

	r, err := gzip.NewReader(file)
	if err != nil {
		panic(fmt.Errorf("%s: %s", fn, err))
	}

	d := xml.NewDecoder(r)
	err = d.Decode(&db)
	if err != nil {
		panic(err)
	}
	db.Book.spec_Resolve()
	return &(db.Book)
}

func spec_mustParseTimeStamp(ts string) time.Time {
	t, err := time.Parse(spec_TimeStamp, ts)
	if err != nil {
		panic(err)
	}
	return t
}

func spec_mustParseAmount(f string, c *coin.Commodity) *coin.Amount {
	values := strings.Split(f, "/")
	if len(values) != 2 {
		panic("invalid fraction: " + f)
	}
	num, ok := new(big.Int).SetString(values[0], 10)
	if !ok {
		panic("invalid numerator: " + f)
	}
	den, ok := new(big.Int).SetString(values[1], 10)
	if !ok {
		panic("invalid denominator: " + f)
	}
	if den.Sign() <= 0 {
		panic("invalid denominator: " + den.String())
	}
	return coin.NewAmountFrac(num, den, c)
}
