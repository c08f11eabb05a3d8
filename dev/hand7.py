# Hand-written refactorings that keep the behaviour: lists filled by position, comma-ok, counting
R=[]
def r(id,*edits): R.append(dict(id=id,edits=list(edits)))
MO='cmd/coin/modify.go'; TO='cmd/coin/totals.go'; BA='cmd/coin/balance.go'; MA='cmd/coin/main.go'; UT='cmd/coin/utils.go'; AM='amount.go'; CM='commodity.go'; AC='account.go'; GR='cmd/gen2coin/rule.go'
TG='tags.go'; TR='transaction.go'
r('fill-tags',(MO,'''	var parts []string
	for _, k := range tags.Keys() {
		v := tags[k]
		if len(v) > 0 {
			v = ":" + v
		}
		parts = append(parts, fmt.Sprintf("#%s%s", k, v))
	}
''','''	keys := tags.Keys()
	parts := make([]string, len(keys))
	for i, k := range keys {
		parts[i] = "#" + k
		if v := tags[k]; v != "" {
			parts[i] += ":" + v
		}
	}
'''))
r('fill-accts',(GR,'''func toAccounts(patterns []string) (accounts []*coin.Account) {
	for _, p := range patterns {
		accounts = append(accounts, coin.MustFindAccount(p))
	}
	return accounts
}''','''func toAccounts(patterns []string) []*coin.Account {
	accounts := make([]*coin.Account, len(patterns))
	for i, p := range patterns {
		accounts[i] = coin.MustFindAccount(p)
	}
	return accounts
}'''))
r('bal-cum',(BA,'''		cump := cumulative[a.Parent]
		if cump == nil {
			return
		}
		cum := cumulative[a]
		err := cump.AddIn(cum)
		check.NoError(err, "cannot add total to parent of %s\\n", a.FullName)
''','''		if parent, ok := cumulative[a.Parent]; ok {
			err := parent.AddIn(cumulative[a])
			check.NoError(err, "cannot add total to parent of %s\\n", a.FullName)
		}
'''))
r('main-ok',(MA,'''	cmd := aliases[cmdArg]
	if cmd == nil {
''','''	cmd, known := aliases[cmdArg]
	if !known {
'''))
