package main

import (
	"go/types"
	"strconv"
)

func strconvItoa(k int64) string { return strconv.FormatInt(k, 10) }

func newPointer(t types.Type) types.Type { return types.NewPointer(t) }
