package coin

// Further references of the same behaviour, written another way. Each was
// reviewed against the first reference of the same name.

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/mkobetic/coin/check"
	"github.com/mkobetic/coin/check/warn"
)

func (a *Account) spec_addPosting__2(p *Posting) *Posting {
	i, found := a.spec_findPosting(p)
	if !found {
		a.Postings = slices.Insert(a.Postings, i, p)
	}
	return p
}

func (a *Account) spec_addPosting__3(p *Posting) *Posting {
	i, found := a.spec_findPosting(p)
	if found {
		return p
	}
	a.Postings = append(a.Postings, nil)
	copy(a.Postings[i+1:], a.Postings[i:])
	a.Postings[i] = p
	return p
}

func (a *Account) spec_addPosting__4(p *Posting) *Posting {
	i, found := a.spec_findPosting(p)
	if found {
		return p
	}
	a.Postings = append(a.Postings, p)
	copy(a.Postings[i+1:], a.Postings[i:])
	a.Postings[i] = p
	return p
}

func (a *Account) spec_addPosting__5(p *Posting) *Posting {
	i, found := a.spec_findPosting(p)
	if found {
		return p
	}
	ps := make([]*Posting, 0, len(a.Postings)+1)
	ps = append(ps, a.Postings[:i]...)
	ps = append(ps, p)
	a.Postings = append(ps, a.Postings[i:]...)
	return p
}

func (a *Account) spec_addPosting__6(p *Posting) *Posting {
	i, found := a.spec_findPosting(p)
	if found {
		return p
	}
	a.Postings = append(a.Postings[:i], append([]*Posting{p}, a.Postings[i:]...)...)
	return p
}

func (p *Parser) spec_Next__2(fn string) (Item, error) {
	for !p.finished {
		line := p.Bytes()
		if len(bytes.TrimSpace(line)) != 0 && !bytes.ContainsAny(line[:1], ";#%|*") {
			break
		}
		p.spec_Scan()
	}
	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case bytes.HasPrefix(line, []byte("include")):
		return p.spec_parseInclude(fn)
	case bytes.HasPrefix(line, []byte("account")):
		return p.spec_parseAccount(fn)
	case bytes.HasPrefix(line, []byte("commodity ")):
		return p.spec_parseCommodity(fn)
	case bytes.HasPrefix(line, []byte("test ")):
		return p.spec_parseTest(fn)
	case bytes.HasPrefix(line, []byte("P ")):
		return p.spec_parsePrice(fn)
	case '0' <= line[0] && line[0] <= '9':
		return p.spec_parseTransaction(fn)
	default:
		return nil, fmt.Errorf("unrecognized item: %s", line)
	}
}

func (p *Parser) spec_Next__3(fn string) (Item, error) {
	for {
		if p.finished {
			return nil, p.Err()
		}
		switch line := p.Bytes(); {
		case len(bytes.TrimSpace(line)) == 0, bytes.ContainsAny(line[:1], ";#%|*"):
			p.spec_Scan()
			continue
		case bytes.HasPrefix(line, []byte("include")):
			return p.spec_parseInclude(fn)
		case bytes.HasPrefix(line, []byte("account")):
			return p.spec_parseAccount(fn)
		case bytes.HasPrefix(line, []byte("commodity ")):
			return p.spec_parseCommodity(fn)
		case bytes.HasPrefix(line, []byte("test ")):
			return p.spec_parseTest(fn)
		case bytes.HasPrefix(line, []byte("P ")):
			return p.spec_parsePrice(fn)
		case '0' <= line[0] && line[0] <= '9':
			return p.spec_parseTransaction(fn)
		default:
			return nil, fmt.Errorf("unrecognized item: %s", line)
		}
	}
}

func spec_parseAmount__2(s string, c *Commodity) (*Amount, error) {
	ss := strings.Split(s, ".")
	if len(ss) == 1 {
		i, err := strconv.ParseInt(ss[0], 10, 64)
		if err != nil {
			return nil, err
		}
		bi := big.NewInt(i)
		if c.Decimals > 0 {
			bi.Mul(bi, spec_bigPow10(c.Decimals))
		}
		return spec_NewAmount(bi, c), nil
	}
	if len(ss) != 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
	i, err := strconv.ParseInt(ss[0]+ss[1], 10, 64)
	if err != nil {
		return nil, err
	}
	bi := big.NewInt(i)
	decimals := len(ss[1])
	if c.Decimals != decimals {
		bi.Mul(bi, spec_bigPow10(c.Decimals))
		bi.Quo(bi, spec_bigPow10(decimals))
	}
	return spec_NewAmount(bi, c), nil
}

func (a *Account) spec_addPosting__7(p *Posting) *Posting {
	i, found := a.spec_findPosting(p)
	if found {
		return p
	}
	ps := a.Postings
	if cap(ps) > len(ps) {
		ps = ps[:len(ps)+1]
	} else {
		ps = make([]*Posting, len(a.Postings)+1)
		copy(ps, a.Postings[:i])
	}
	copy(ps[i+1:], a.Postings[i:])
	ps[i] = p
	a.Postings = ps
	return p
}

func spec_ResolveAccounts__2() {
	if Root == nil {
		Root = AccountsByName["Root"]
		if Root == nil {
			Root = spec_accountFromName("Root")
			AccountsByName["Root"] = Root
		}
	}
	if Unbalanced == nil {
		Unbalanced = spec_accountFromName("Unbalanced")
		AccountsByName["Unbalanced"] = Unbalanced
	}

	// create parents if missing
	var known []*Account
	for _, a := range AccountsByName {
		known = append(known, a)
	}
	for _, a := range known {
		fn, _ := spec_parentAndName(a.FullName)
		for fn != "" {
			if AccountsByName[fn] == nil {
				AccountsByName[fn] = spec_accountFromName(fn)
			}
			fn, _ = spec_parentAndName(fn)
		}
	}

	// link parents with children,
	for _, a := range AccountsByName {
		if a == Root {
			continue
		}
		pName := a.spec_ParentName()
		if pName == "" {
			Root.spec_adopt(a)
			continue
		}
		p := AccountsByName[pName]
		check.If(p != nil, "Missing account %s (%s)\n", pName, a.spec_Location())
		p.spec_adopt(a)
	}

	isChild := func(p, c *Account) bool {
		for _, a := range p.Children {
			if a == c {
				return true
			}
		}
		return false
	}

	// sort children, link commodities
	for _, a := range AccountsByName {
		if pn := a.spec_ParentName(); pn != "" {
			warn.If(!(pn == a.Parent.FullName), "%s doesn't match parent name %s\n", a.Parent.Name, pn)
			warn.If(!isChild(a.Parent, a), "%s is not a child of %s\n", a.FullName, a.Parent.FullName)
		}
		if a.CommodityId != "" {
			a.Commodity = spec_MustFindCommodity(a.CommodityId, a.spec_Location())
		} else {
			a.Commodity = spec_DefaultCommodity()
		}
		sort.Slice(a.Children, func(i, j int) bool {
			return a.Children[i].Name < a.Children[j].Name
		})
	}

}

// One write of the whole text.
func (c *Commodity) spec_Write__2(w io.Writer, ledger bool) error {
	format := "1"
	if c.Decimals > 0 {
		format = "1." + strings.Repeat("0", c.Decimals)
	}
	id := c.spec_SafeId(ledger)
	text := "commodity " + id + "\n"
	if c.Name != "" {
		text += "  note " + c.Name + "\n"
	}
	text += "  format " + format + " " + id + "\n"
	if c.NoMarket {
		text += "  nomarket\n"
	}
	if c.Symbol != "" && !ledger {
		text += "  symbol " + c.Symbol + "\n"
	}
	_, err := io.WriteString(w, text)
	return err
}

// A write for each line.
func (c *Commodity) spec_Write__3(w io.Writer, ledger bool) error {
	format := "1"
	if c.Decimals > 0 {
		format = "1." + strings.Repeat("0", c.Decimals)
	}
	id := c.spec_SafeId(ledger)
	if _, err := io.WriteString(w, "commodity "+id+"\n"); err != nil {
		return err
	}
	if c.Name != "" {
		if _, err := io.WriteString(w, "  note "+c.Name+"\n"); err != nil {
			return err
		}
	}
	if _, err := io.WriteString(w, "  format "+format+" "+id+"\n"); err != nil {
		return err
	}
	if c.NoMarket {
		if _, err := io.WriteString(w, "  nomarket\n"); err != nil {
			return err
		}
	}
	if c.Symbol != "" && !ledger {
		if _, err := io.WriteString(w, "  symbol "+c.Symbol+"\n"); err != nil {
			return err
		}
	}
	return nil
}

// Leaves it to writeStrings to skip what follows an error.
func (s *Posting) spec_Write__2(w io.Writer, accountOffset, accountWidth, amountWidth int, ledger bool) error {
	notes := s.Notes
	commodity := s.Quantity.Commodity
	line := fmt.Sprintf("%*s%-*s  %*.*f %s",
		accountOffset, "",
		accountWidth, s.Account.FullName,
		amountWidth, commodity.Decimals, s.Quantity, commodity.spec_SafeId(ledger))
	if s.BalanceAsserted {
		commodity = s.Balance.Commodity
		line += fmt.Sprintf(" = %.*f %s", commodity.Decimals, s.Balance, commodity.spec_SafeId(ledger))
	}
	if len(notes) > 0 && len(notes[0])+len(line) < TRANSACTION_LINE_MAX-3 {
		line += " ; " + notes[0]
		notes = notes[1:]
	}
	err := spec_writeStrings(w, nil, line, "\n")
	for _, n := range notes {
		err = spec_writeStrings(w, err, "    ; ", n, "\n")
	}
	return err
}

// Starts the powers of ten at one.
func spec_init_pow10__2() {
	log10s = make([]int64, 18)
	x := int64(1)
	for i := range log10s {
		x *= 10
		log10s[i] = x
	}
	bigPow10s = make([]*big.Int, 50)
	prev := big1
	for i := range bigPow10s {
		next := new(big.Int)
		next.Mul(prev, big10)
		bigPow10s[i] = next
		prev = next
	}
}

func (a *Account) spec_IsClosed__2() bool {
	for ; a != nil; a = a.Parent {
		if !a.Closed.IsZero() {
			return true
		}
	}
	return false
}

func (a *Account) spec_findPosting__2(p *Posting) (i int, found bool) {
	i, found = sort.Find(len(a.Postings), func(i int) int {
		return p.Transaction.Posted.Compare(a.Postings[i].Transaction.Posted)
	})
	if !found {
		return i, false
	}
	for i < len(a.Postings) && a.Postings[i].Transaction.Posted.Equal(p.Transaction.Posted) {
		if a.Postings[i] == p {
			return i, true
		}
		i++
	}
	return i, false
}

func spec_parseAmount__6(s string, c *Commodity) (*Amount, error) {
	ss := strings.Split(s, ".")
	if len(ss) > 2 {
		return nil, fmt.Errorf("malformed value %s", s)
	}
	i, err := strconv.ParseInt(strings.Join(ss, ""), 10, 64)
	if err != nil {
		return nil, err
	}
	bi := big.NewInt(i)
	if len(ss) == 1 {
		if c.Decimals > 0 {
			bi.Mul(bi, bigPow10(c.Decimals))
		}
		return NewAmount(bi, c), nil
	}
	decimals := len(ss[1])
	if c.Decimals != decimals {
		bi.Mul(bi, bigPow10(c.Decimals))
		bi.Quo(bi, bigPow10(decimals))
	}
	return NewAmount(bi, c), nil
}

func (a *Account) spec_Depth__2() int {
	depth := 1
	for p := a.Parent; p != nil && p != Root; p = p.Parent {
		depth++
	}
	return depth
}

func (t *Transaction) spec_IsEqual__2(t2 *Transaction) bool {
	if !t.Posted.Equal(t2.Posted) {
		return false
	}
	if t.Code != t2.Code {
		return false
	}
	if len(t.Postings) != len(t2.Postings) {
		return false
	}
	for i, s := range t2.Postings {
		if !s.IsEqual(t.Postings[i]) {
			return false
		}
	}
	return true
}

func (transactions TransactionsByTime) spec_Includes__2(t *Transaction) bool {
	for _, t2 := range transactions {
		if t2.IsEqual(t) {
			return true
		}
	}
	return false
}

func spec_ParseTags__2(lines ...string) Tags {
	var tags Tags
	for _, line := range lines {
		for _, match := range tagREX.FindAllStringSubmatch(line, -1) {
			if tags == nil {
				tags = make(Tags)
			}
			tags[match[tagREXKey]] = match[tagREXValue]
		}
	}
	return tags
}
