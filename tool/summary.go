package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summary says what a function of the module may read and write through
// memory it does not own, computed over the call graph until nothing changes.
// Keys are field names, "[]T" for elements, "map[K]V" for map contents,
// "val" for big-integer values and "*T" for whole cells. The mask tells
// through which parameters the object is reached; the top bit stands for
// globals and anything else.
type Summary struct {
	Writes map[string]uint64
	Reads  map[string]uint64
	IO     bool
	Fresh  bool
	Ret    uint64 // parameters (or top) the result may be reachable from
}

const topBit = uint64(1) << 63

func (w *World) summaries() map[*ssa.Function]*Summary {
	if w.sums != nil {
		return w.sums
	}
	w.sums = map[*ssa.Function]*Summary{}
	for _, f := range w.Funcs {
		w.sums[f] = &Summary{Writes: map[string]uint64{}, Reads: map[string]uint64{}}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Funcs {
			if w.summarize(f) {
				changed = true
			}
		}
	}
	return w.sums
}

type origin struct {
	mask  uint64
	alloc bool
}

func paramBit(i int) uint64 {
	if i > 60 {
		return topBit
	}
	return 1 << uint(i)
}

func (w *World) origin(v ssa.Value) origin {
	o := &origin{}
	w.origins(v, map[ssa.Value]bool{}, o)
	return *o
}

// origins traces a value back to parameters, globals and allocations.
func (w *World) origins(v ssa.Value, seen map[ssa.Value]bool, o *origin) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				o.mask |= paramBit(i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				o.mask |= paramBit(len(v.Parent().Params) + i)
			}
		}
	case *ssa.Global:
		o.mask |= topBit
	case *ssa.Alloc:
		o.alloc = true
		// a local cell holds what is stored in it
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				w.origins(s.Val, seen, o)
			}
		}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		o.alloc = true
	case *ssa.FieldAddr:
		w.origins(v.X, seen, o)
	case *ssa.Field:
		w.origins(v.X, seen, o)
	case *ssa.IndexAddr:
		w.origins(v.X, seen, o)
	case *ssa.Index:
		w.origins(v.X, seen, o)
	case *ssa.Lookup:
		w.origins(v.X, seen, o)
	case *ssa.UnOp:
		w.origins(v.X, seen, o)
	case *ssa.BinOp:
		o.alloc = true
	case *ssa.Phi:
		for _, e := range v.Edges {
			w.origins(e, seen, o)
		}
	case *ssa.Slice:
		w.origins(v.X, seen, o)
	case *ssa.Convert:
		w.origins(v.X, seen, o)
	case *ssa.ChangeType:
		w.origins(v.X, seen, o)
	case *ssa.ChangeInterface:
		w.origins(v.X, seen, o)
	case *ssa.MakeInterface:
		w.origins(v.X, seen, o)
	case *ssa.TypeAssert:
		w.origins(v.X, seen, o)
	case *ssa.Extract:
		w.origins(v.Tuple, seen, o)
	case *ssa.Next:
		w.origins(v.Iter, seen, o)
	case *ssa.Range:
		w.origins(v.X, seen, o)
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			w.origins(b, seen, o)
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			n := fnName(f)
			if s := w.sums[f]; s != nil {
				if s.Fresh {
					o.alloc = true
				}
				o.mask |= s.Ret & topBit
				for i, a := range v.Call.Args {
					if s.Ret&paramBit(i) != 0 {
						w.origins(a, seen, o)
					}
				}
				if mc, ok := v.Call.Value.(*ssa.MakeClosure); ok {
					for i, b := range mc.Bindings {
						if s.Ret&paramBit(len(f.Params)+i) != 0 {
							w.origins(b, seen, o)
						}
					}
				}
				return
			}
			if strings.HasPrefix(n, "math/big.Int.") && len(v.Call.Args) > 0 {
				w.origins(v.Call.Args[0], seen, o)
				return
			}
			o.alloc = true
			return
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			o.alloc = true
			for _, a := range v.Call.Args {
				w.origins(a, seen, o)
			}
			return
		}
		o.alloc = true
		if v.Call.IsInvoke() || v.Call.StaticCallee() == nil {
			o.mask |= topBit
		}
	default:
		o.mask |= topBit
	}
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func addrKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		s := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return s.Field(v.Field).Name()
	case *ssa.IndexAddr:
		return "[]" + typeName(v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Global:
		return "global:" + globalName(v)
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		return "*" + typeName(p.Elem())
	}
	return "*"
}

func globalName(v *ssa.Global) string { return shortPkg(v.Pkg.Pkg.Path()) + "." + v.Name() }

func mapTypeKey(t types.Type) string {
	if m, ok := t.Underlying().(*types.Map); ok {
		return "map[" + typeName(m.Key()) + "]" + typeName(m.Elem())
	}
	return "map"
}

func (w *World) summarize(f *ssa.Function) bool {
	s := w.sums[f]
	ch := false
	add := func(m map[string]uint64, k string, mask uint64) {
		if mask != 0 && m[k]&mask != mask {
			m[k] |= mask
			ch = true
		}
	}
	write := func(k string, v ssa.Value) { add(s.Writes, k, w.origin(v).mask) }
	read := func(k string, v ssa.Value) { add(s.Reads, k, w.origin(v).mask) }
	io := func() {
		if !s.IO {
			s.IO = true
			ch = true
		}
	}
	// translate a callee's mask to ours
	trans := func(mask uint64, g *ssa.Function, args []ssa.Value, binds []ssa.Value) uint64 {
		r := mask & topBit
		for i, a := range args {
			if mask&paramBit(i) != 0 {
				r |= w.origin(a).mask
			}
		}
		for i, b := range binds {
			if mask&paramBit(len(g.Params)+i) != 0 {
				r |= w.origin(b).mask
			}
		}
		return r
	}
	inherit := func(g *ssa.Function, args, binds []ssa.Value) {
		gs := w.sums[g]
		for k, m := range gs.Writes {
			add(s.Writes, k, trans(m, g, args, binds))
		}
		for k, m := range gs.Reads {
			add(s.Reads, k, trans(m, g, args, binds))
		}
		if gs.IO {
			io()
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if _, ok := i.Addr.(*ssa.Alloc); ok {
					continue
				}
				if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" || ok && al.Comment == "slicelit" {
						continue
					}
				}
				write(addrKey(i.Addr), i.Addr)
			case *ssa.MapUpdate:
				write(mapTypeKey(i.Map.Type()), i.Map)
			case *ssa.Lookup:
				read(mapTypeKey(i.X.Type()), i.X)
			case *ssa.Range:
				read(mapTypeKey(i.X.Type()), i.X)
			case *ssa.UnOp:
				if i.Op.String() == "*" {
					read(addrKey(i.X), i.X)
				}
			case *ssa.Return:
				for _, r := range i.Results {
					if !isPtrLike(r.Type()) {
						continue
					}
					if types.Identical(r.Type(), types.Universe.Lookup("error").Type()) {
						continue
					}
					o := w.origin(r)
					if o.alloc && !s.Fresh {
						s.Fresh = true
						ch = true
					}
					if s.Ret&o.mask != o.mask {
						s.Ret |= o.mask
						ch = true
					}
				}
			case ssa.CallInstruction:
				c := i.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy":
						write("[]"+typeName(c.Args[0].Type()), c.Args[0])
					case "delete", "clear":
						write(mapTypeKey(c.Args[0].Type()), c.Args[0])
					}
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					if c.IsInvoke() {
						n := "invoke:" + typeName(c.Value.Type()) + "." + c.Method.Name()
						if readerName(n) || strings.HasSuffix(n, ".Error") || strings.HasSuffix(n, ".String") {
							continue
						}
						io()
						for _, m := range w.implsOf(c) {
							if w.sums[m] != nil {
								inherit(m, append([]ssa.Value{c.Value}, c.Args...), nil)
							}
						}
						continue
					}
					write("dyn", c.Value)
					continue
				}
				binds := []ssa.Value(nil)
				if mc, ok := c.Value.(*ssa.MakeClosure); ok {
					binds = mc.Bindings
				}
				if w.sums[g] != nil {
					inherit(g, c.Args, binds)
				} else {
					n := fnName(g)
					switch {
					case strings.HasPrefix(n, "math/big.Int."):
						if !bigReader(n) {
							write("val", c.Args[0])
						} else {
							read("val", c.Args[0])
						}
						for _, a := range c.Args[1:] {
							if isPtrLike(a.Type()) {
								read("val", a)
							}
						}
					case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse"):
						if len(c.Args) > 0 && n != "sort.Search" && n != "sort.Find" && n != "sort.SearchStrings" {
							t := c.Args[0].Type()
							if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
								t = mi.X.Type()
							}
							k := "[]"
							if sl, ok := t.Underlying().(*types.Slice); ok {
								k += typeName(sl.Elem())
							}
							write(k, c.Args[0])
						}
					case pureName(n) || readerName(n):
					default:
						io()
						for _, a := range c.Args {
							if isPtrLike(a.Type()) && !isFuncOrString(a.Type()) {
								write("ext", a)
							}
						}
					}
				}
				// closures handed out may run
				for _, a := range c.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						cf := mc.Fn.(*ssa.Function)
						if w.sums[cf] != nil {
							inherit(cf, nil, mc.Bindings)
						}
					} else if cf, ok := a.(*ssa.Function); ok && w.sums[cf] != nil {
						inherit(cf, nil, nil)
					}
				}
			}
		}
	}
	return ch
}

func isFuncOrString(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func bigReader(n string) bool {
	switch n[len("math/big.Int."):] {
	case "Cmp", "CmpAbs", "Sign", "IsInt64", "Int64", "String", "BitLen", "Text", "IsUint64", "Uint64", "Bit", "ProbablyPrime", "Bits", "Bytes", "Append", "Format", "MarshalJSON", "MarshalText":
		return true
	}
	return false
}

// readerName: external functions that observe an object without changing it.
func readerName(n string) bool {
	switch n {
	case "bufio.Scanner.Bytes", "bufio.Scanner.Text", "bufio.Scanner.Err",
		"bytes.Buffer.Bytes", "bytes.Buffer.String", "bytes.Buffer.Len", "strings.Builder.String", "strings.Builder.Len",
		"flag.FlagSet.Arg", "flag.FlagSet.Args", "flag.FlagSet.NArg", "flag.Arg", "flag.Args", "flag.NArg", "flag.FlagSet.Name",
		"os.File.Name", "invoke:error.Error", "invoke:fmt.State.Flag", "invoke:fmt.State.Width", "invoke:fmt.State.Precision",
		"invoke:coin.Rules.Name", "invoke:cmd/coin.command.Name", "ofxgo.String.String", "github.com/aclindsa/ofxgo.String.String",
		"os.LookupEnv":
		return true
	}
	return false
}

// implsOf lists in-module methods an interface call may reach.
func (w *World) implsOf(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if w.named == nil {
		for p := range w.Mod {
			for _, m := range p.Members {
				if t, ok := m.(*ssa.Type); ok {
					w.named = append(w.named, t.Type())
				}
			}
		}
	}
	var out []*ssa.Function
	for _, T := range w.named {
		if types.IsInterface(T) {
			continue
		}
		for _, X := range []types.Type{T, types.NewPointer(T)} {
			if types.Implements(X, it) {
				if m := w.Prog.LookupMethod(X, c.Method.Pkg(), c.Method.Name()); m != nil {
					out = append(out, m)
				}
				break
			}
		}
	}
	return out
}
