package gnucash

import (
	"encoding/xml"

	"github.com/mkobetic/coin"
)

type spec_Commodity struct {
	XMLName     xml.Name   `xml:"commodity"`
	Space       string     `xml:"space"`
	Id          string     `xml:"id"`
	Name        string     `xml:"name,omitempty"`
	Code        string     `xml:"xcode,omitempty"`
	Fraction    int64      `xml:"fraction"`
	QuoteSource string     `xml:"quote_source,omitempty"`
	QuoteTz     string     `xml:"quote_tz,omitempty"`
	Slots       []*KvpSlot `xml:"slots>slot"`
}

func spec_CommodityFrom(c *Commodity) *coin.Commodity {
	cc := &coin.Commodity{
		Id:     c.Id,
		Name:   c.Name,
		Code:   c.Code,
		Prices: make(map[*coin.Commodity][]*coin.Price),
	}
	cc.SetFraction(c.Fraction)
	return cc
}

func spec_resolveCommodities(commodities []*Commodity) {
	for _, gc := range commodities {
		c := spec_CommodityFrom(gc)
		coin.Commodities[c.Id] = c
	}
}
