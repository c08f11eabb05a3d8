package coin

import (
	"bytes"
	"fmt"
	"regexp"
)

var spec_testHead = regexp.MustCompile(`^test\s+(.+)`)

func (p *Parser) spec_parseTest(fn string) (*Test, error) {
	matches := testHead.FindSubmatch(p.Bytes())
	if matches == nil {
		return nil, fmt.Errorf("invalid test line: %s", p.Text())
	}
	t := &Test{Cmd: string(matches[1]), line: p.lineNr, file: fn}
	var b bytes.Buffer
	for p.spec_Scan() {
		if bytes.Equal((bytes.TrimSpace(p.Bytes())), []byte("end test")) {
			t.Result = b.Bytes()
			p.spec_Scan()
			return t, nil
		}
		b.Write(p.Bytes())
		fmt.Fprintln(&b)
	}
	if err := p.Err(); err != nil {
		return t, err
	}
	return t, fmt.Errorf("test without \"end test\": %s", t.Cmd)
}

func (t *Test) spec_Location() string {
	return fmt.Sprintf("%s:%d", t.file, t.line)
}
