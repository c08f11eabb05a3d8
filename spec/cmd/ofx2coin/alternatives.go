package main

// Further references of the same behaviour, written another way. Each was
// reviewed against the first reference of the same name.

import (
	"bufio"
	"bytes"
	"strings"
)

func spec_trim__2(in string) string {
	scanner := bufio.NewScanner(strings.NewReader(strings.TrimSpace(in)))
	scanner.Split(bufio.ScanWords)
	var words []string
	for scanner.Scan() {
		words = append(words, scanner.Text())
	}
	return strings.Join(words, " ")
}

// Notes reaching the header at every line after it.
func (r *bmoReader) spec_Read__2(p []byte) (n int, err error) {
	if len(r.lastLine) == 0 {
	loop:
		for {
			r.lastLine, err = r.ReadBytes('\n')
			if err != nil && len(r.lastLine) == 0 {
				return 0, err
			}
			if !r.reachedHeader && bytes.Equal(r.lastLine, emptyLine) {
				continue loop
			}
			r.reachedHeader = true
			if !r.reachedBody {
				if bytes.Equal(r.lastLine, []byte("<OFX>\n")) {
					r.reachedBody = true
					if !r.emptyLineAfterHeader {
						n = copy(p, emptyLine)
						return n, nil
					}
				} else if bytes.Equal(r.lastLine, emptyLine) {
					r.emptyLineAfterHeader = true
				}
				break loop
			}
			for _, ignore := range ignore {
				if bytes.Equal(r.lastLine, ignore) {
					continue loop
				}
			}
			break loop
		}
	}
	n = copy(p, r.lastLine)
	r.lastLine = r.lastLine[n:]
	return n, nil
}
