package coin

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
)

func spec_NewParser(r io.Reader) *Parser {
	p := &Parser{Scanner: bufio.NewScanner(r)}
	p.spec_Scan()
	return p
}

func (p *Parser) spec_Scan() bool {
	p.finished = !p.Scanner.Scan()
	if !p.finished {
		p.lineNr++
	}
	return !p.finished
}

func (p *Parser) spec_Next(fn string) (Item, error) {
	if p.finished {
		return nil, p.Err()
	}
	switch line := p.Bytes(); {
	case len(bytes.TrimSpace(line)) == 0:
		p.spec_Scan()
		return p.spec_Next(fn)
	case bytes.ContainsAny(line[:1], ";#%|*"):
		p.spec_Scan()
		return p.spec_Next(fn)
	case bytes.HasPrefix(line, []byte("include")):
		return p.spec_parseInclude(fn)
	case bytes.HasPrefix(line, []byte("account")):
		return p.spec_parseAccount(fn)
	case bytes.HasPrefix(line, []byte("commodity ")):
		return p.spec_parseCommodity(fn)
	case bytes.HasPrefix(line, []byte("test ")):
		return p.spec_parseTest(fn)
	case bytes.HasPrefix(line, []byte("P ")):
		return p.spec_parsePrice(fn)
	case '0' <= line[0] && line[0] <= '9':
		return p.spec_parseTransaction(fn)
	default:
		return nil, fmt.Errorf("unrecognized item: %s", line)
	}
}
