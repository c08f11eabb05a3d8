package coin

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/mkobetic/coin/rex"
)

var (
	// Commodities by Id
	spec_Commodities         = map[string]*Commodity{}
	spec_CommoditiesBySymbol = map[string]*Commodity{}
)

const spec_disallowed = " \t0123456789.,;:?!-+*^/&|=<>[](){}@"

var spec_CommodityREX = rex.MustCompile(`(?P<commodity>[A-Za-z][\w]*)`)

var spec_commodityHeadREX = rex.MustCompile(`^commodity\s+%s\s*$`, spec_CommodityREX)

var spec_commodityBodyREX = rex.MustCompile(``+
	`^(\s+note\s+(?P<note>.+))$|`+
	`^(\s+format\s+(?P<format>%s))\s*$|`+
	`^(\s+(?P<nomarket>nomarket)\s*)$|`+
	`^(\s+symbol\s+(?P<symbol>[\w\.]+))\s*$|`+
	`^(\s+(?P<default>default)\s*)$`,
	spec_AmountREX)

func (c *Commodity) spec_AddPrice(p *Price) {
	if c.Prices == nil {
		c.Prices = make(map[*Commodity][]*Price)
	}
	c.Prices[p.Currency] = append(c.Prices[p.Currency], p)
}

func (c *Commodity) spec_Currencies() (currencies []*Commodity) {
	for cur := range c.Prices {
		currencies = append(currencies, cur)
	}
	sort.Slice(currencies, func(i, j int) bool {
		return currencies[i].Id < currencies[j].Id
	})
	return currencies
}

func (c *Commodity) spec_SafeId(ledger bool) string {
	if ledger {
		if c.quotedId == "" {
			c.quotedId = c.Id
			if strings.ContainsAny(c.Id, spec_disallowed) {
				c.quotedId = `"` + c.Id + `"`
			}
		}
		return c.quotedId
	}
	return c.Id
}

func (c *Commodity) spec_String() string {
	if len(c.Prices) == 0 {
		return c.Id
	}
	var prices []string
	for _, cur := range c.spec_Currencies() {
		c, p := cur, c.Prices[cur]
		format := "%s %a %s [%d]"
		if c.Decimals > 0 {
			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
		}
		prices = append(prices,
			fmt.Sprintf(format,
				p[0].Time.Format(DateFormat),
				p[0].Value,
				c.Id,
				len(p)))
	}
	return fmt.Sprintf("%s: %s",
		c.Id,
		strings.Join(prices, ", "))
}

func (c *Commodity) spec_Location() string {
	if c.file == "" {
		return ""
	}
	return fmt.Sprintf("%s:%d", c.file, c.line)
}

func (c *Commodity) spec_Write(w io.Writer, ledger bool) error {
	format := "1"
	if c.Decimals > 0 {
		format = "1." + strings.Repeat("0", c.Decimals)
	}
	lines := []string{"commodity ", c.spec_SafeId(ledger), "\n"}
	if c.Name != "" {
		lines = append(lines, "  note ", c.Name, "\n")
	}
	lines = append(lines, "  format ", format, " ", c.spec_SafeId(ledger), "\n")
	if c.NoMarket {
		lines = append(lines, "  nomarket\n")
	}
	if c.Symbol != "" && !ledger {
		lines = append(lines, "  symbol ", c.Symbol, "\n")
	}
	for _, line := range lines {
		_, err := io.WriteString(w, line)
		if err != nil {
			return err
		}
	}
	return nil
}

func (p *Parser) spec_parseCommodity(fn string) (*Commodity, error) {
	c := &Commodity{Decimals: 2, line: p.lineNr, file: fn}
	match := commodityHeadREX.Match(p.Bytes())
	if match == nil {
		return nil, fmt.Errorf("invalid commodity line: %s", p.Text())
	}
	c.Id = match["commodity"]
	for p.spec_Scan() {
		line := p.Bytes()
		if len(bytes.TrimSpace(line)) == 0 || !unicode.IsSpace(rune(line[0])) {
			return c, nil
		}
		match = commodityBodyREX.Match(line)
		if match == nil {
			return c, fmt.Errorf("unrecognized commodity line: %s", p.Text())
		}
		if n := match["note"]; n != "" {
			c.Name = n
		} else if match["amount"] != "" {
			if f := match["decimals"]; len(f) == 0 {
				c.Decimals = 0
			} else {
				c.Decimals = len(f) - 1
			}
		} else if match["nomarket"] != "" {
			c.NoMarket = true
		} else if s := match["symbol"]; s != "" {
			c.Symbol = s
		} else if match["default"] != "" {
			DefaultCommodityId = c.Id
		} else {
			return c, fmt.Errorf("%s - failed to match commodity line: %s", c.spec_Location(), p.Text())
		}
	}
	return c, p.Err()
}

func (c *Commodity) spec_Convert(amount *Amount, c2 *Commodity) (*Amount, error) {
	return c.spec_convert(amount, c2, nil)
}

func (c *Commodity) spec_includedIn(list []*Commodity) bool {
	for _, c2 := range list {
		if c == c2 {
			return true
		}
	}
	return false
}

func (c *Commodity) spec_convert(amount *Amount, c2 *Commodity, previous []*Commodity) (*Amount, error) {
	if c == c2 {
		// Nothing to convert
		return amount, nil
	}
	// Does c2 have prices in c currency?
	prices := c2.Prices[c]
	if prices != nil {
		p := prices[0]
		val := p.Value.spec_Times(amount)
		return val, nil
	}
	// Otherwise try to follow each c2 price currency
	for _, c3 := range c2.spec_Currencies() {
		// Check if we tried this currency before to avoid cycles
		if c3.spec_includedIn(previous) {
			continue
		}
		p := c2.Prices[c3][0]
		val2 := p.Value.spec_Times(amount)
		val3, err := c.spec_convert(val2, c3, append(previous, c2))
		if err == nil {
			return val3, nil
		}
	}
	// Didn't find any path that leads to c
	return nil, fmt.Errorf("cannot convert %s => %s", c2.Id, c.Id)
}

func (c *Commodity) spec_NewAmountFloat(f float64) *Amount {
	return spec_NewAmount(
		// FIXME: the int64 conversion can overflow
		big.NewInt(int64(f*float64(spec_pow10(c.Decimals)))),
		c,
	)
}

func (c *Commodity) spec_SetFraction(frac int64) {
	c.Decimals = spec_log10(frac)
}

func (c *Commodity) spec_MarshalJSON() ([]byte, error) {
	value := map[string]interface{}{
		"id":       c.Id,
		"name":     c.Name,
		"decimals": c.Decimals,
	}
	if c.spec_Location() != "" {
		value["location"] = c.spec_Location()
	}
	if c.Code != "" {
		value["code"] = c.Code
	}
	return json.MarshalIndent(value, "", "\t")
}
