package main

import (
	"bufio"
	"bytes"
	"io"
)

var spec_ignore = [][]byte{
	[]byte("<BANKMSGSET><BANKMSGSETV1>\n"),
	[]byte("<BANKMSGSETV1><BANKMSGSET>\n"),
}

var spec_emptyLine = []byte("\n")

func spec_newBMOReader(r io.Reader) *bmoReader {
	return &bmoReader{Reader: bufio.NewReader(r)}
}

func (r *bmoReader) spec_Read(p []byte) (n int, err error) {
	if len(r.lastLine) == 0 {
	loop:
		for {
			r.lastLine, err = r.ReadBytes('\n')
			if err != nil && len(r.lastLine) == 0 {
				return 0, err
			}
			if !r.reachedHeader {
				if bytes.Equal(r.lastLine, emptyLine) {
					continue loop
				} else {
					r.reachedHeader = true
				}
			}
			if !r.reachedBody {
				if bytes.Equal(r.lastLine, []byte("<OFX>\n")) {
					r.reachedBody = true
					if !r.emptyLineAfterHeader {
						n = copy(p, emptyLine)
						return n, nil
					}
				} else if bytes.Equal(r.lastLine, emptyLine) {
					r.emptyLineAfterHeader = true
				}
				break loop
			}
			for _, ignore := range ignore {
				if bytes.Equal(r.lastLine, ignore) {
					continue loop
				}
			}
			break loop
		}
	}
	n = copy(p, r.lastLine)
	r.lastLine = r.lastLine[n:]
	return n, nil
}
