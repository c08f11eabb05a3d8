package coin

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"

	"github.com/mkobetic/coin/rex"
)

var spec_AmountREX = rex.MustCompile(`(?P<amount>-?[\d]+(?P<decimals>\.[\d]+)?)\s+%s`, spec_CommodityREX)

func spec_NewAmountFrac(num, den *big.Int, c *Commodity) *Amount {
	b := new(big.Int).Set(num)
	if c.Decimals > 0 {
		b.Mul(b, spec_bigPow10(c.Decimals))
	}
	b.Quo(b, den)
	return spec_NewAmount(b, c)
}

func spec_NewZeroAmount(c *Commodity) *Amount {
	return spec_NewAmount(new(big.Int), c)
}

func spec_NewAmount(b *big.Int, c *Commodity) *Amount {
	return &Amount{b, c}
}

func (a *Amount) spec_Copy() *Amount {
	return spec_NewAmount(new(big.Int).Set(a.Int), a.Commodity)
}

func (a *Amount) spec_String() string {
	val := new(big.Rat)
	val.SetFrac(a.Int, spec_bigPow10(a.Commodity.Decimals))
	return val.FloatString(a.Commodity.Decimals)
}

func (a *Amount) spec_Format(f fmt.State, c rune) {
	if f.Flag('#') {
		fmt.Fprintf(f, "%d/(10^%d) %s", a.Int, a.Decimals, a.Commodity.Id)
		return
	}
	p, ok := f.Precision()
	if !ok {
		p = a.Commodity.Decimals
	}
	val := new(big.Rat)
	val.SetFrac(a.Int, spec_bigPow10(a.Commodity.Decimals))
	str := val.FloatString(p)
	if f.Flag(' ') && a.Sign() >= 0 {
		str = " " + str
	}
	format := "%"
	if f.Flag('-') {
		format += "-"
	}
	if w, ok := f.Width(); ok {
		fmt.Fprintf(f, format+"*s", w, str)
	} else {
		fmt.Fprintf(f, format+"s", str)
	}
}

func spec_parseAmount(s string, c *Commodity) (*Amount, error) {
	ss := strings.Split(s, ".")
	if len(ss) == 1 {
		i, err := strconv.ParseInt(ss[0], 10, 64)
		if err != nil {
			return nil, err
		}
		bi := big.NewInt(i)
		if c.Decimals > 0 {
			bi.Mul(bi, spec_bigPow10(c.Decimals))
		}
		return spec_NewAmount(bi, c), nil
	}
	if len(ss) != 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
	s = strings.Join(ss, "")
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return nil, err
	}
	bi := big.NewInt(i)
	decimals := len(ss[1])
	if c.Decimals != decimals {
		bi.Mul(bi, spec_bigPow10(c.Decimals))
		bi.Quo(bi, spec_bigPow10(decimals))
	}
	return spec_NewAmount(bi, c), nil
}

func (a *Amount) spec_Write(w io.Writer, ledger bool) error {
	_, err := fmt.Fprintf(w, "%.*f %s", a.Decimals, a, a.spec_SafeId(ledger))
	return err
}

func (b *Amount) spec_adjustedTo(a *Amount) *big.Int {
	c := new(big.Int).Set(b.Int)
	if b.Decimals < a.Decimals {
		c.Mul(c, spec_bigPow10(a.Decimals-b.Decimals))
	} else if a.Decimals < b.Decimals {
		c.Quo(c, spec_bigPow10(b.Decimals-a.Decimals))
	}
	return c
}

func (a *Amount) spec_AddIn(b *Amount) (err error) {
	if a.Commodity != b.Commodity {
		b, err = a.Commodity.spec_Convert(b, b.Commodity)
		if err != nil {
			return err
		}
	}
	a.Add(a.Int, b.spec_adjustedTo(a))
	return nil
}

func (a *Amount) spec_Times(b *Amount) *Amount {
	c := new(big.Int).Mul(a.Int, b.Int)
	return &Amount{
		c.Quo(c, spec_bigPow10(b.Decimals)),
		a.Commodity,
	}
}

func (a *Amount) spec_IsZero() bool {
	return a == nil || a.Sign() == 0
}

func (a *Amount) spec_IsEqual(b *Amount) bool { return a.spec_Cmp(b) == 0 }

func (a *Amount) spec_IsLessThan(b *Amount) bool { return a.spec_Cmp(b) < 0 }

func (a *Amount) spec_IsMoreThan(b *Amount) bool { return a.spec_Cmp(b) > 0 }

func (a *Amount) spec_Cmp(b *Amount) int {
	return a.Int.Cmp(b.spec_adjustedTo(a))
}

func (a *Amount) spec_Magnitude() *big.Int {
	return new(big.Int).Abs(a.Int)
}

func (a *Amount) spec_IsBigger(b *Amount) bool { return a.spec_CmpMagnitude(b) > 0 }

func (a *Amount) spec_IsSmaller(b *Amount) bool { return a.spec_CmpMagnitude(b) < 0 }

func (a *Amount) spec_CmpMagnitude(b *Amount) int {
	return a.spec_Magnitude().Cmp(b.spec_Magnitude())
}

func (a *Amount) spec_Negated() *Amount {
	return &Amount{
		new(big.Int).Neg(a.Int),
		a.Commodity,
	}
}

func spec_MustParseAmount(f string, c *Commodity) *Amount {
	amt, err := spec_parseAmount(f, c)
	if err != nil {
		panic(err)
	}
	return amt
}

func (a *Amount) spec_Width(decimals int) int {
	w := spec_bigLog10(a.Int) + 1
	if w <= a.Decimals {
		w = a.Decimals + 1
	}
	w = w - a.Decimals + decimals
	if decimals > 0 {
		w++ // decimal point
	}
	if a.Int.Sign() < 0 {
		w++ // minus sign
	}
	return w
}

func (a *Amount) spec_MarshalJSON() ([]byte, error) {
	return json.Marshal(fmt.Sprintf("%.*f %s", a.Commodity.Decimals, a, a.Commodity.Id))
}
