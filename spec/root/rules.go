package coin

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"regexp"
	"sort"
	"unicode"

	"github.com/mkobetic/coin/check"
)

var spec_patternRE = `([\w:$^\\-]+)`

var spec_headerRE = regexp.MustCompile(`^(\w+)\s+` + spec_patternRE + `|^(\w+)`)

var spec_bodyRE = regexp.MustCompile(`^\s+` + spec_patternRE + `(\s+(\S(?:.*\S)?))?|` +
	`^\s+@(\w+)|` +
	`^\s+;\s+(.*)`)

func (rs *RuleIndex) spec_AccountRulesFor(acctId string) *AccountRules {
	ars := rs.Accounts[acctId]
	if ars != nil {
		return ars
	}
	account := spec_FindAccountOfxId(acctId)
	check.If(account != nil, "could not find account for Acct ID %s", acctId)
	return &AccountRules{Account: account}
}

func (rs *RuleIndex) spec_Write(w io.Writer) error {
	for _, r := range rs.Sets {
		if _, err := fmt.Fprintf(w, "%s\n", r.spec_Name()); err != nil {
			return err
		}
		if err := spec_writeRules(r.Rules, w); err != nil {
			return err
		}
	}
	var accounts []*AccountRules
	ids := map[*AccountRules]string{}
	var max int
	for id, ars := range rs.Accounts {
		ids[ars] = id
		accounts = append(accounts, ars)
		if len(id) > max {
			max = len(id)
		}
	}
	sort.Slice(accounts, func(i, j int) bool {
		if ni, nj := accounts[i].Account.FullName, accounts[j].Account.FullName; ni != nj {
			return ni < nj
		}
		return ids[accounts[i]] < ids[accounts[j]]
	})
	for _, ars := range accounts {
		id := ids[ars]
		if _, err := fmt.Fprintf(w, "%-*s %s\n", max, id, ars.Account.FullName); err != nil {
			return err
		}
		if err := spec_writeRules(ars.Rules, w); err != nil {
			return err
		}
	}
	return nil
}

func spec_writeRules(rules []Rules, w io.Writer) error {
	var max int
	for _, r := range rules {
		if l := len(r.Name()); l > max {
			max = l
		}
	}
	for _, r := range rules {
		if err := r.Write(w, max); err != nil {
			return err
		}
	}
	return nil
}

func (ars *AccountRules) spec_RuleFor(payee string) *Rule {
	for _, r := range ars.Rules {
		if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	return nil
}

func (rs *RuleSet) spec_Name() string {
	return rs.name
}

func (rs *RuleSet) spec_Write(w io.Writer, max int) error {
	_, err := fmt.Fprintf(w, "  @%-*s\n", max, rs.spec_Name())
	return err
}

func (rs *RuleSet) spec_RuleFor(payee string) *Rule {
	for _, r := range rs.Rules {
		if pr := r.RuleFor(payee); pr != nil {
			return pr
		}
	}
	return nil
}

func (r *Rule) spec_Name() string {
	if r.Account == nil {
		return "--"
	}
	return r.Account.FullName
}

func (r *Rule) spec_Write(w io.Writer, max int) error {
	if _, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.spec_Name(), r.String()); err != nil {
		return err
	}
	for _, n := range r.Notes {
		if _, err := fmt.Fprintf(w, "  ; %s\n", n); err != nil {
			return err
		}
	}
	return nil
}

func (r *Rule) spec_RuleFor(payee string) *Rule {
	if r.MatchString(payee) {
		return r
	}
	return nil
}

func spec_ReadRules(r io.Reader) (*RuleIndex, error) {
	s := bufio.NewScanner(r)
	if !s.Scan() {
		return nil, s.Err()
	}
	return spec_ScanRules(s.Bytes(), s)
}

func spec_ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
	ri := &RuleIndex{
		Accounts:   make(map[string]*AccountRules),
		SetsByName: make(map[string]*RuleSet),
	}
	for {
		match := headerRE.FindSubmatch(line)
		if match != nil {
			var setRules func(rules []Rules)
			if len(match[1]) > 0 {
				ar := &AccountRules{Account: spec_MustFindAccount(string(match[2]))}
				ri.Accounts[string(match[1])] = ar
				setRules = func(rules []Rules) { ar.Rules = rules }
			} else {
				rs := &RuleSet{name: string(match[3])}
				ri.Sets = append(ri.Sets, rs)
				ri.SetsByName[rs.spec_Name()] = rs
				setRules = func(rules []Rules) { rs.Rules = rules }
			}
			var rules []Rules
			var lastRule *Rule
			for {
				if !s.Scan() {
					setRules(rules)
					return ri, s.Err()
				}
				line = s.Bytes()
				match = bodyRE.FindSubmatch(line)
				if match == nil {
					break
				}
				if len(match[1]) > 0 {
					var account *Account
					if string(match[1]) != "--" {
						account = spec_MustFindAccount(string(match[1]))
					}
					lastRule = &Rule{
						Account: account,
						Regexp:  regexp.MustCompile(string(match[3]))}
					rules = append(rules, lastRule)
				} else if len(match[4]) > 0 {
					r := ri.SetsByName[string(match[4])]
					if r == nil {
						panic(fmt.Errorf("invalid rule set ref: %s", string(match[4])))
					}
					rules = append(rules, r)
					lastRule = nil
				} else if lastRule != nil {
					lastRule.Notes = append(lastRule.Notes, string(match[5]))
				}
			}
			setRules(rules)
		} else {
			if len(line) > 0 && unicode.IsSpace(rune(line[0])) && len(bytes.TrimSpace(line)) > 0 {
				return nil, fmt.Errorf("invalid rule line: %s", line)
			}
			if !s.Scan() {
				return ri, s.Err()
			}
			line = s.Bytes()
		}
	}
}

func spec_stringify(m [][]byte) (o []string) {
	for _, b := range m {
		o = append(o, string(b))
	}
	return o
}
