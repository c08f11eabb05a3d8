package check

import (
	"fmt"
	"os"
)

var spec_OK = spec_If

func spec_If(holds bool, format string, args ...interface{}) {
	if holds {
		return
	}
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(1)
}

func spec_NoError(err error, format string, args ...interface{}) {
	spec_If(err == nil, "Error: %s\n"+format, append([]interface{}{err}, args...)...)
}

func spec_Equal(a, b interface{}, format string, args ...interface{}) {
	spec_If(a == b, "Not equal\n%v\n%v\n"+format, append([]interface{}{a, b}, args...)...)
}

func spec_Includes(list []string, s string, format string, args ...interface{}) {
	for _, each := range list {
		if each == s {
			return
		}
	}
	fmt.Fprint(os.Stderr, "Bad value %s\n"+format, append([]interface{}{s}, args...))
	os.Exit(1)
}
