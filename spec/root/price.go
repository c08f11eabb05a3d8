package coin

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/mkobetic/coin/rex"
)

var spec_priceREX = rex.MustCompile(`^P %s\s+%s\s+%s\s*$`, spec_DateREX, spec_CommodityREX, spec_AmountREX)

func (p *Price) spec_Write(w io.Writer, ledger bool) error {
	date := p.Time.Format(DateFormat)
	_, err := io.WriteString(w, "P "+date+" "+p.Commodity.spec_SafeId(ledger)+" ")
	if err != nil {
		return err
	}
	err = p.Value.spec_Write(w, ledger)
	if err != nil {
		return err
	}
	_, err = io.WriteString(w, "\n")
	return err
}

func (p *Parser) spec_parsePrice(fn string) (*Price, error) {
	match := priceREX.Match(p.Bytes())
	if match == nil {
		return nil, fmt.Errorf("invalid price line")
	}
	date := spec_mustParseDate(match, 0)
	currencyId := string(match["commodity2"])
	line := p.lineNr
	location := fmt.Sprintf("%s:%d", fn, line)
	c := spec_MustFindCommodity(currencyId, location)
	amt, err := spec_parseAmount(match["amount"], c)
	if err != nil {
		return nil, err
	}
	commodityId := string(match["commodity1"])
	p.spec_Scan() // advance to next line before returning
	return &Price{
		Time:        date,
		Value:       amt,
		CommodityId: commodityId,
		currencyId:  currencyId,
		line:        line,
		file:        fn,
	}, nil
}

func (p *Price) spec_String() string {
	var b strings.Builder
	p.spec_Write(&b, false)
	return b.String()
}

func (p *Price) spec_Location() string {
	if p.file == "" {
		return ""
	}
	return fmt.Sprintf("%s:%d", p.file, p.line)
}

func (p *Price) spec_MarshalJSON() ([]byte, error) {
	value := map[string]interface{}{
		"time":      p.Time.Format(DateFormat),
		"commodity": p.Commodity.Id,
		"currency":  p.Currency.Id,
		"value":     p.Value,
	}
	if p.spec_Location() != "" {
		value["location"] = p.spec_Location()
	}
	return json.MarshalIndent(value, "", "\t")
}
