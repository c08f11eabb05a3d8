package main

import (
	"fmt"
	"io"
	"os"
	"path"

	"github.com/mkobetic/coin"
	"github.com/mkobetic/coin/check"
)

func spec_init_format() {
	(&cmdFormat{}).spec_newCommand("format", "fmt", "f")
}

func (*cmdFormat) spec_newCommand(names ...string) command {
	var cmd cmdFormat
	cmd.FlagSet = spec_newCommand(&cmd, names...)
	spec_setUsage(cmd.FlagSet, `(format|fmt|f) [flags] files...

Output transactions from specified files sorted and in the standard format.`)
	cmd.BoolVar(&cmd.ledger, "ledger", false, "use ledger compatible format")
	cmd.BoolVar(&cmd.replace, "i", false, "format files in-place")
	cmd.BoolVar(&cmd.trimWS, "t", false, "trim excessive whitespace from descriptions")
	return &cmd
}

func (cmd *cmdFormat) spec_init() {
	coin.LoadFile(coin.CommoditiesFile)
	coin.LoadFile(coin.AccountsFile)
	coin.ResolveAccounts()
}

func (cmd *cmdFormat) spec_execute(f io.Writer) {
	if len(cmd.Args()) == 0 { // for testing
		cmd.spec_writeTransactions(f)
		return
	}
	for _, fn := range cmd.Args() {
		var err error
		var tf *os.File
		coin.LoadFile(fn)
		coin.ResolveTransactions(false)
		if cmd.replace {
			tf, err = os.CreateTemp(path.Dir(fn), path.Base(fn))
			check.NoError(err, "creating temp file")
			f = tf
		}
		cmd.spec_writeTransactions(f)
		if cmd.replace {
			check.NoError(tf.Close(), "closing temp file")
			err = os.Rename(tf.Name(), fn)
			check.NoError(err, "renaming temp file")
		}
		coin.DropTransactions()
	}
}

func (cmd *cmdFormat) spec_writeTransactions(f io.Writer) {
	for _, t := range coin.Transactions {
		if cmd.trimWS {
			t.Description = spec_trimWS(t.Description)[0]
			t.Notes = spec_trimWS(t.Notes...)
		}
		check.NoError(t.Write(f, cmd.ledger), "writing transaction")
		_, err := fmt.Fprintln(f)
		check.NoError(err, "writing transaction")
	}
}
