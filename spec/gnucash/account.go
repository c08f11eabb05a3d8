package gnucash

import (
	"regexp"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
)

type spec_Account struct {
	Guid           string     `xml:"id"`
	Name           string     `xml:"name"`
	Type           string     `xml:"type"`
	CommoditySpace string     `xml:"commodity>space"`
	CommodityId    string     `xml:"commodity>id"`
	CommodityScu   int        `xml:"commodity-scu"`
	NonStandardScu int        `xml:"non-standard-scu,omitempty"`
	ParentGuid     string     `xml:"parent"`
	Code           string     `xml:"code,omitempty"`
	Description    string     `xml:"description,omitempty"`
	Slots          []*KvpSlot `xml:"slots>slot"`
}

var (
	spec_AccountsByGuid     = map[string]*coin.Account{}
	spec_AccountParentGuids = map[*coin.Account]string{}
)

var spec_gc_online_id = regexp.MustCompile(`((?P<bank>\d+)\s+)?(?P<acct>\d+)`)

func spec_AccountFrom(a *Account) *coin.Account {
	var name string
	if a.Name == "Root Account" {
		name = "Root"
	} else {
		name = strings.Replace(a.Name, " ", "", -1)
	}
	return &coin.Account{
		Name:        name,
		Type:        a.Type,
		Code:        a.Code,
		Description: a.Description,
	}
}

func spec_resolveAccounts(accounts []*Account) {
	for _, gca := range accounts {
		if gca.Guid == "" {
			panic("account without guid: " + gca.Name)
		}
		a := spec_AccountFrom(gca)
		AccountsByGuid[gca.Guid] = a
		if gca.ParentGuid != "" {
			AccountParentGuids[a] = gca.ParentGuid
		} else {
			coin.Root = a
		}
		if gca.CommodityId != "" {
			a.Commodity = coin.MustFindCommodity(gca.CommodityId, "gnucash account")
		} else {
			a.Commodity = coin.DefaultCommodity()
		}
		if online_id := gca.spec_slot("online_id"); online_id != "" {
			ids := gc_online_id.FindStringSubmatch(online_id)
			a.OFXBankId = ids[2]
			a.OFXAcctId = ids[3]
		}
	}
	// Link parents and children.
	for a, guid := range AccountParentGuids {
		a.Parent = spec_mustFindAccount(guid)
		a.Parent.Children = append(a.Parent.Children, a)
	}

	// Sort children.
	for _, a := range AccountsByGuid {
		a.FullName = spec_buildFullName(a)
		coin.AccountsByName[a.FullName] = a
		sort.Slice(a.Children, func(i, j int) bool {
			return a.Children[i].Name < a.Children[j].Name
		})
	}
}

func spec_isRoot(a *coin.Account) bool {
	return a.Type == "ROOT" || a.Parent == nil
}

func spec_buildFullName(a *coin.Account) string {
	if a.FullName != "" {
		return a.FullName
	}
	if spec_isRoot(a) || spec_isRoot(a.Parent) {
		a.FullName = a.Name
	} else {
		a.FullName = spec_buildFullName(a.Parent) + ":" + a.Name
	}
	return a.FullName
}

func (a *Account) spec_slot(key string) string {
	for _, s := range a.Slots {
		if s.Key == key {
			return s.Value.Value
		}
	}
	return ""
}

func spec_mustFindAccount(guid string) *coin.Account {
	a := AccountsByGuid[guid]
	if a == nil {
		panic("unknown account guid: " + guid)
	}
	return a
}
