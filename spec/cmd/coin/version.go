package main

import (
	"fmt"
	"io"

	"github.com/mkobetic/coin"
)

func spec_init_version() {
	(&cmdVersion{}).spec_newCommand("version", "ver", "v")
}

func (*cmdVersion) spec_newCommand(names ...string) command {
	var cmd cmdVersion
	cmd.FlagSet = spec_newCommand(&cmd, names...)
	spec_setUsage(cmd.FlagSet, `(version|ver|v)

Print version information about the coin executable.`)
	return &cmd
}

func (cmd *cmdVersion) spec_init() {}

func (cmd *cmdVersion) spec_execute(w io.Writer) {
	fmt.Fprintln(w, "built on "+coin.Built)
	fmt.Fprintf(w, "built from %s@%s\n", coin.Branch, coin.Commit)
	fmt.Fprintln(w, "built with "+coin.GoVersion)
}
