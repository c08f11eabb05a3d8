package main

import (
	"fmt"
	"io"
	"regexp"

	"github.com/mkobetic/coin"
)

func spec_init_accounts() {
	(&cmdAccounts{}).spec_newCommand("accounts", "acc", "a")
}

func (*cmdAccounts) spec_newCommand(names ...string) command {
	var cmd cmdAccounts
	cmd.FlagSet = spec_newCommand(&cmd, names...)
	spec_setUsage(cmd.FlagSet, `(accounts|acc|a) [flags]

Lists accounts and their commodities.`)
	cmd.BoolVar(&cmd.closed, "c", false, "show closed accounts")
	return &cmd
}

func (cmd *cmdAccounts) spec_init() {
	coin.LoadFile(coin.CommoditiesFile)
	coin.LoadFile(coin.AccountsFile)
	coin.ResolveAccounts()
}

func (cmd *cmdAccounts) spec_execute(f io.Writer) {
	var pattern *regexp.Regexp
	if cmd.NArg() > 0 {
		pattern = coin.ToRegex(cmd.Arg(0))
	}
	var max int
	coin.AccountsDo(func(a *coin.Account) {
		if pattern != nil && !pattern.MatchString(a.FullName) {
			return
		}
		if l := len(a.FullName); l > max {
			max = l
		}
	})
	coin.AccountsDo(func(a *coin.Account) {
		if !cmd.closed && a.IsClosed() {
			return
		}
		if pattern != nil && !pattern.MatchString(a.FullName) {
			return
		}
		fmt.Fprintf(f, "%-*s | %-10s | %s\n", max, a.FullName, a.CommodityId, a.Description)
	})
}
