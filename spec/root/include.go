package coin

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
)

var spec_includeHead = regexp.MustCompile(`^include\s+(.+)`)

func (p *Parser) spec_parseInclude(fn string) (*Include, error) {
	matches := includeHead.FindSubmatch(p.Bytes())
	if matches == nil {
		return nil, fmt.Errorf("invalid include line: %s", p.Text())
	}
	i := &Include{Path: string(matches[1]), line: p.lineNr, file: fn}
	p.spec_Scan()
	return i, nil
}

func (i *Include) spec_Location() string {
	return fmt.Sprintf("%s:%d", i.file, i.line)
}

func (i *Include) spec_Files() ([]string, error) {
	var resolved string
	if i.Path[0] == '/' {
		resolved = "." + i.Path
	} else if i.Path[0] == '$' {
		resolved = i.Path
	} else {
		resolved = filepath.Join(filepath.Dir(i.file), i.Path)
	}
	resolved = os.ExpandEnv(resolved)
	return filepath.Glob(resolved)
}
