package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func typeName(T types.Type) string {
	return types.TypeString(T, func(p *types.Package) string { return shortPkg(p.Path()) })
}

func (g *GV) callInfo(fr *frame, c *ssa.CallCommon) (string, []*Term, *ssa.Function) {
	var args []*Term
	if c.IsInvoke() {
		r := g.val(fr, c.Value)
		args = append(args, r)
		for _, a := range c.Args {
			args = append(args, g.val(fr, a))
		}
		if r.Op == "iface" && r.T != nil {
			if m := g.w.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				args[0] = r.A[0]
				return fnName(m), args, m
			}
		}
		return "invoke:" + typeName(c.Value.Type()) + "." + c.Method.Name(), args, nil
	}
	for _, a := range c.Args {
		args = append(args, g.val(fr, a))
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f), args, f
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name(), args, nil
	}
	v := g.val(fr, c.Value)
	if f := g.ts.fn[v]; f != nil {
		return fnName(f), args, f
	}
	return "dyn", append([]*Term{v}, args...), nil
}

func (g *GV) expandable(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !g.w.inModule(f) && f.Synthetic == "" {
		return false
	}
	if f.Synthetic != "" && !g.w.inModule(f) {
		// wrappers (bound methods, promoted methods) around anything
		if f.Pkg != nil {
			return false
		}
	}
	if g.Opaque != nil && g.Opaque(f) {
		return false
	}
	for _, s := range g.stack {
		if s == f {
			return false
		}
	}
	return len(g.stack) < g.MaxDepth
}

func (g *GV) call(fr *frame, c *ssa.Call, cur *Node, st *State, L *natLoop) (*Term, *Node) {
	name, args, callee := g.callInfo(fr, &c.Call)
	var fvs []*Term
	if !c.Call.IsInvoke() {
		v := c.Call.Value
		if t := fr.env[v]; t != nil && t.Op == "closure" {
			fvs = t.A
		} else if mc, ok := v.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				fvs = append(fvs, g.val(fr, b))
			}
		}
	}
	if name == "dyn" {
		v := args[0]
		if v.Op == "ite" {
			return g.dynIte(fr, c, v, args[1:], cur, st)
		}
		if v.Op == "closure" || v.Op == "fn" {
			callee = g.ts.fn[v]
			fvs = v.A
			args = args[1:]
			name = fnName(callee)
		}
	}
	if len(args) == 2 && strings.HasSuffix(name, ".Parse") && (strings.HasPrefix(name, "invoke:") || name == "flag.FlagSet.Parse") {
		// parsing no arguments is the same however they came about
		if l := g.length(args[1]); !args[1].isNil() {
			args = []*Term{args[0], g.ite(g.ts.ilt(l, g.ts.Int(1)), g.ts.Nil(), args[1])}
		}
	}
	return g.invoke(fr.fn, c.Pos(), c.Type(), name, args, fvs, callee, cur, st)
}

func (g *GV) dynIte(fr *frame, c *ssa.Call, v *Term, args []*Term, cur *Node, st *State) (*Term, *Node) {
	B := g.ts.b
	sub := func(v *Term, n *Node, st *State) (*Term, *Node) {
		if v.Op == "ite" {
			return g.dynIte(fr, c, v, args, n, st)
		}
		f := g.ts.fn[v]
		if f == nil {
			return g.invoke(fr.fn, c.Pos(), c.Type(), "dyn", append([]*Term{v}, args...), nil, nil, n, st)
		}
		return g.invoke(fr.fn, c.Pos(), c.Type(), fnName(f), args, v.A, f, n, st)
	}
	s1, s2 := st.clone(), st.clone()
	t1, n1 := sub(v.A[0], B.And(cur, v.B), s1)
	t2, n2 := sub(v.A[1], B.And(cur, B.Not(v.B)), s2)
	ng := B.Or(n1, n2)
	m := g.mergeStates([]edge{{g: n1, st: s1}, {g: n2, st: s2}}, ng)
	st.mem = m.mem
	if t1 == nil || t2 == nil {
		return t1, ng
	}
	return g.ite(v.B, t1, t2), ng
}

// aliases: the same function for strings and for bytes, which are not told
// apart.
var aliases = map[string]string{
	"regexp.Regexp.MatchString":             "regexp.Regexp.Match",
	"regexp.Regexp.FindStringIndex":         "regexp.Regexp.FindIndex",
	"regexp.Regexp.FindStringSubmatch":      "regexp.Regexp.FindSubmatch",
	"regexp.Regexp.FindStringSubmatchIndex": "regexp.Regexp.FindSubmatchIndex",
	"bufio.Scanner.Text":                    "bufio.Scanner.Bytes",
}

// invoke applies a callee: expands it, interprets it, or records it.
func (g *GV) invoke(in *ssa.Function, pos token.Pos, T types.Type, name string, args, fvs []*Term, callee *ssa.Function, cur *Node, st *State) (*Term, *Node) {
	B := g.ts.b
	if a := aliases[name]; a != "" {
		name = a
	}
	if t, n, ok := g.intrinsic(in, pos, T, name, args, cur, st); ok {
		return t, n
	}
	if g.expandable(callee) {
		g.path = append(g.path, cur)
		g.callPath = append(g.callPath, pos)
		vals, ng, out := g.Eval(callee, args, fvs, st)
		g.callPath = g.callPath[:len(g.callPath)-1]
		g.path = g.path[:len(g.path)-1]
		st.mem = out.mem
		n := B.And(cur, ng)
		switch len(vals) {
		case 0:
			return g.ts.mk("tuple", ""), n
		case 1:
			return vals[0], n
		}
		return g.ts.mk("tuple", "", vals...), n
	}
	return g.opaque(in, pos, T, name, args, callee, cur, st), cur
}

func variadic(f *ssa.Function, name string) bool {
	if f != nil {
		return f.Signature.Variadic()
	}
	return false
}

// callArgs strips the call-site marker of an impure call.
func (t *Term) callArgs() []*Term {
	if t.Op != "call" {
		return nil
	}
	if n := len(t.A); n > 0 && t.A[n-1].Op == "site" {
		return t.A[:n-1]
	}
	return t.A
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "bytes.", "path.", "path/filepath.", "errors.", "math.", "math/bits.", "regexp.", "time.", "slices.", "maps.", "rex.", "cmp."}
var impure = map[string]bool{
	"time.Now": true, "path/filepath.Glob": true, "path/filepath.Walk": true, "path/filepath.Abs": true,
	"strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBuffer": true,
}

func pureName(n string) bool {
	if impure[n] {
		return false
	}
	if strings.HasPrefix(n, "strings.Builder.") || strings.HasPrefix(n, "bytes.Buffer.") || strings.HasPrefix(n, "strings.Reader.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") {
		return false
	}
	switch n {
	case "flag.String", "flag.Bool", "flag.Int", "flag.Duration", "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "os.Getenv", "os.ExpandEnv", "os.IsNotExist":
		return true
	}
	if strings.HasPrefix(n, "math/big.") {
		return true
	}
	if strings.HasPrefix(n, "builtin.") {
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// ---------- big integers: value semantics in "val" cells

func (g *GV) bigval(st *State, o *Term) *Term {
	if o.Op == "ite" {
		return g.ite(o.B, g.bigval(st, o.A[0]), g.bigval(st, o.A[1]))
	}
	k := g.ts.mk("val", "", o)
	if v := st.mem[k]; v != nil {
		return v
	}
	if o.Op == "alloc" {
		if v := g.verOf(st, "val", o); v != nil {
			return g.ts.mk("val", "", o, v)
		}
		return g.ts.Int(0)
	}
	if o.Op == "call" && o.S == "coin.bigPow10" {
		return g.ts.mk("bigpow10", "", o.A[0])
	}
	if o.Op == "call" && o.S == "math/big.NewInt" {
		return o.A[0]
	}
	if v := g.verOf(st, "val", o); v != nil {
		return g.ts.mk("val", "", o, v)
	}
	return k
}

func (g *GV) bigop(op string, a, b *Term) *Term {
	if a.Op == "ite" && a.depth() < 12 {
		return g.ite(a.B, g.bigop(op, a.A[0], b), g.bigop(op, a.A[1], b))
	}
	if b != nil && b.Op == "ite" && b.depth() < 12 {
		return g.ite(b.B, g.bigop(op, a, b.A[0]), g.bigop(op, a, b.A[1]))
	}
	if b == nil {
		if i, ok := a.isInt(); ok && op == "neg" {
			return g.ts.Int(-i)
		}
		if op == "neg" && a.Op == "bigneg" {
			return a.A[0]
		}
		return g.ts.mk("big"+op, "", a)
	}
	ia, oka := a.isInt()
	ib, okb := b.isInt()
	switch op {
	case "add":
		if oka && ia == 0 {
			return b
		}
		if okb && ib == 0 {
			return a
		}
	case "sub":
		if okb && ib == 0 {
			return a
		}
		if oka && ia == 0 {
			return g.bigop("neg", b, nil)
		}
	case "mul":
		if oka && ia == 1 {
			return b
		}
		if okb && ib == 1 {
			return a
		}
		if oka && ia == 0 || okb && ib == 0 {
			return g.ts.Int(0)
		}
		if oka && ia == -1 {
			return g.bigop("neg", b, nil)
		}
		if okb && ib == -1 {
			return g.bigop("neg", a, nil)
		}
	case "quo":
		if okb && ib == 1 {
			return a
		}
	}
	if (op == "add" || op == "mul") && a.id > b.id {
		a, b = b, a
	}
	return g.ts.mk("big"+op, "", a, b)
}

func (g *GV) intrinsic(in *ssa.Function, pos token.Pos, T types.Type, name string, args []*Term, cur *Node, st *State) (*Term, *Node, bool) {
	ts, B := g.ts, g.ts.b
	ok := func(t *Term) (*Term, *Node, bool) { return t, cur, true }
	if t, done := g.textIntrinsic(in, pos, T, name, args, cur, st); done {
		return ok(t)
	}
	if strings.HasPrefix(name, "math/big.Int.") {
		op := name[len("math/big.Int."):]
		bin := map[string]string{"Add": "add", "Sub": "sub", "Mul": "mul", "Quo": "quo", "Div": "div", "Rem": "rem", "Mod": "mod", "Exp": "exp", "And": "and", "Or": "or", "Xor": "xor", "Lsh": "lsh", "Rsh": "rsh"}
		un := map[string]string{"Neg": "neg", "Abs": "abs", "Set": "set", "SetInt64": "seti", "Not": "not", "Sqrt": "sqrt", "SetUint64": "seti"}
		set := func(v *Term) (*Term, *Node, bool) {
			o := args[0]
			g.emit("mut", name, cur, pos, in, o, append([]*Term{o, v}, args[1:]...)...)
			if o.Op == "ite" {
				g.store(st, ts.mk("val", "", o.A[0]), g.ite(o.B, v, g.bigval(st, o.A[0])))
				g.store(st, ts.mk("val", "", o.A[1]), g.ite(o.B, g.bigval(st, o.A[1]), v))
			} else {
				st.mem[ts.mk("val", "", o)] = v
			}
			return o, cur, true
		}
		if b := bin[op]; b != "" {
			x := g.bigval(st, args[1])
			var y *Term
			if op == "Lsh" || op == "Rsh" {
				y = args[2]
			} else {
				y = g.bigval(st, args[2])
			}
			return set(g.bigop(b, x, y))
		}
		if u := un[op]; u != "" {
			if u == "set" {
				return set(g.bigval(st, args[1]))
			}
			if u == "seti" {
				return set(args[1])
			}
			return set(g.bigop(u, g.bigval(st, args[1]), nil))
		}
		switch op {
		case "Cmp":
			return ok(ts.mk("cmp3", "", g.bigval(st, args[0]), g.bigval(st, args[1])))
		case "CmpAbs":
			return ok(ts.mk("cmp3", "", g.bigop("abs", g.bigval(st, args[0]), nil), g.bigop("abs", g.bigval(st, args[1]), nil)))
		case "Sign":
			return ok(ts.mk("cmp3", "", g.bigval(st, args[0]), ts.Int(0)))
		case "IsInt64", "Int64", "String", "BitLen", "Text", "IsUint64", "Uint64", "Bit", "ProbablyPrime":
			t := ts.mk("call", name, append([]*Term{g.bigval(st, args[0])}, args[1:]...)...)
			t.T = T
			return ok(t)
		}
		if op == "DivMod" || op == "QuoRem" {
			x, y := g.bigval(st, args[1]), g.bigval(st, args[2])
			q, r := "quo", "rem"
			if op == "DivMod" {
				q, r = "div", "mod"
			}
			for i, v := range []*Term{g.bigop(q, x, y), g.bigop(r, x, y)} {
				o := args[3*i]
				g.emit("mut", name, cur, pos, in, o, o, v)
				st.mem[ts.mk("val", "", o)] = v
			}
			return ok(ts.mk("tuple", "", args[0], args[3]))
		}
		if op == "SetString" {
			v := ts.mk("bigparse", "", args[1], args[2])
			set(v)
			n := B.atom(ts.mk("parses", "", args[1], args[2]))
			return ok(ts.mk("tuple", "", g.ite(n, args[0], ts.Nil()), ts.BoolT(n)))
		}
		if op == "ModInverse" || op == "GCD" || op == "MulRange" || op == "SetBits" || op == "SetBytes" {
			g.uid++
			set(ts.mk("unk", "big#"+strconv.Itoa(g.uid)))
			return nil, cur, false
		}
		return nil, cur, false
	}
	if strings.HasPrefix(name, "math/big.Rat.") {
		// a rational is what its setters made of it; they return the receiver
		set := func(v *Term) (*Term, *Node, bool) {
			o := args[0]
			if o.Op != "alloc" {
				return nil, cur, false
			}
			g.emit("mut", name, cur, pos, in, o, append([]*Term{o, v}, args[1:]...)...)
			st.mem[ts.mk("val", "", o)] = v
			return o, cur, true
		}
		val := func(o *Term) *Term {
			if v := st.mem[ts.mk("val", "", o)]; v != nil {
				return v
			}
			return nil
		}
		switch op := name[len("math/big.Rat."):]; op {
		case "SetFrac":
			return set(ts.mk("ratfrac", "", g.bigval(st, args[1]), g.bigval(st, args[2])))
		case "SetInt":
			return set(ts.mk("ratfrac", "", g.bigval(st, args[1]), ts.Int(1)))
		case "SetInt64":
			return set(ts.mk("ratfrac", "", args[1], ts.Int(1)))
		case "SetFrac64":
			return set(ts.mk("ratfrac", "", args[1], args[2]))
		case "Add", "Sub", "Mul", "Quo", "Neg", "Abs", "Inv", "Set":
			var vs []*Term
			for _, a := range args[1:] {
				v := val(a)
				if v == nil {
					return nil, cur, false
				}
				vs = append(vs, v)
			}
			if op == "Set" {
				return set(vs[0])
			}
			return set(ts.mk("rat"+strings.ToLower(op), "", vs...))
		case "FloatString", "String", "RatString", "Cmp", "Sign", "IsInt", "Float64", "Float32", "FloatPrec":
			var vs []*Term
			for _, a := range args {
				v := val(a)
				if _, isP := a.T.(*types.Pointer); v == nil && (isP || a == args[0]) {
					return nil, cur, false
				} else if v == nil {
					v = a
				}
				vs = append(vs, v)
			}
			t := ts.mk("call", name, vs...)
			t.T = T
			return ok(t)
		}
		return nil, cur, false
	}
	if strings.Contains(name, ".init#") && !strings.Contains(name, "$") {
		return ok(ts.mk("tuple", ""))
	}
	switch name {
	case "time.Time.Year", "time.Time.Month", "time.Time.Day":
		i := map[string]string{"Year": "0", "Month": "1", "Day": "2"}[name[len("time.Time."):]]
		t := ts.mk("ext", i, ts.mk("call", "time.Time.Date", args...))
		t.T = T
		return ok(t)
	case "rex.MustCompile":
		if f, isC := args[0].isStr(); isC && len(args) == 2 {
			subs, isL := flatten(args)
			var ps []*Term
			for _, a := range subs {
				a = stripIface(a)
				if a.Op != "call" || a.S != "rex.MustCompile" || len(a.A) != 1 {
					isL = false
					break
				}
				ps = append(ps, a.A[0])
			}
			if isL {
				r := args[0]
				if len(ps) > 0 {
					parts := strings.Split(f, "%s")
					if len(parts) != len(ps)+1 {
						return nil, cur, false
					}
					r = ts.Str(parts[0])
					for i, p := range ps {
						r = g.concat(g.concat(r, p), ts.Str(parts[i+1]))
					}
				}
				t := ts.mk("call", name, r)
				t.T = T
				return ok(t)
			}
		}
	case "math/big.NewInt":
		g.uid++
		o := ts.mk("alloc", "heap:big.Int#"+strconv.Itoa(g.uid))
		if len(g.loops) > 0 {
			o.L = g.loops[len(g.loops)-1]
		}
		g.emit("mut", "NewInt", cur, pos, in, o, o, args[0])
		st.mem[ts.mk("val", "", o)] = args[0]
		return ok(o)
	case "time.Time.Before":
		return ok(ts.BoolT(g.lt(args[0], args[1])))
	case "time.Time.After":
		return ok(ts.BoolT(g.lt(args[1], args[0])))
	case "time.Time.Compare":
		return ok(ts.mk("cmp3", "", args[0], args[1]))
	case "time.Time.Equal":
		return ok(ts.BoolT(g.symEq("teq", args[0], args[1])))
	case "strings.Compare", "cmp.Compare", "bytes.Compare":
		return ok(ts.mk("cmp3", "", args[0], args[1]))
	case "bytes.Equal", "strings.EqualFold":
		if name == "bytes.Equal" {
			return ok(ts.BoolT(g.eq(args[0], args[1])))
		}
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Panic", "log.Panicf":
		g.emit("term", name, cur, pos, in, nil, args...)
		return ts.mk("tuple", ""), B.False, true
	case "builtin.panic":
		g.emit("term", "panic", cur, pos, in, nil, args...)
		return ts.mk("tuple", ""), B.False, true
	case "builtin.recover":
		// what a panic leaves undone is not modelled, so stopping one is an
		// effect of its own
		g.emit("call", "recover", cur, pos, in, nil)
		t := ts.mk("call", "recover")
		t.T = T
		return ok(t)
	case "builtin.len":
		return ok(g.length(args[0]))
	case "builtin.cap":
		t := ts.mk("cap", "", args[0])
		t.T = T
		return ok(t)
	case "builtin.append":
		x := args[0]
		if len(args) == 1 {
			return ok(x)
		}
		if args[1].Op == "list" {
			if x.Op == "list" {
				return ok(ts.mk("list", "", append(append([]*Term{}, x.A...), args[1].A...)...))
			}
			if x.isNil() {
				return ok(args[1])
			}
			if len(args[1].A) == 0 {
				return ok(x)
			}
			pre := []*Term{x}
			if x.Op == "append" {
				pre = append([]*Term{}, x.A...)
			}
			return ok(ts.mk("append", "", append(pre, args[1].A...)...))
		}
		if (x.isNil() || x.Op == "list" && len(x.A) == 0) && false {
			return ok(args[1])
		}
		// append(s[:i], s[j:]...) with j at or after i moves the tail down
		if y := args[1]; x.Op == "slice" && y.Op == "slice" && x.A[0] == y.A[0] && y.A[2].isNil() && !x.A[2].isNil() {
			at := x.A[2]
			if d, isC := g.binop(token.SUB, y.A[1], at, types.Typ[types.Int]).isInt(); isC && d >= 0 {
				g.emit("copy", "builtin.copy", cur, pos, in, nil, g.slice(y.A[0], at, ts.Nil()), y)
				n := g.binop(token.SUB, g.length(y.A[0]), ts.Int(d), types.Typ[types.Int])
				return ok(g.slice(y.A[0], x.A[1], n))
			}
		}
		if t := g.concatLists(x, args[1]); t != nil {
			return ok(t)
		}
		return ok(ts.mk("appendall", "", x, args[1]))
	case "slices.Delete":
		x, i := args[0], args[1]
		if d, isC := g.binop(token.SUB, args[2], i, types.Typ[types.Int]).isInt(); isC && d >= 0 {
			g.emit("copy", "builtin.copy", cur, pos, in, nil, g.slice(x, i, ts.Nil()), g.slice(x, args[2], ts.Nil()))
			return ok(g.slice(x, ts.Int(0), g.binop(token.SUB, g.length(x), ts.Int(d), types.Typ[types.Int])))
		}
	case "builtin.copy":
		g.emit("copy", name, cur, pos, in, nil, args...)
		t := ts.mk("call", name, args...)
		t.T = T
		return ok(t)
	case "builtin.delete":
		g.emit("mapdel", "", cur, pos, in, nil, args...)
		if mt := args[0].T; mt != nil {
			g.mapWrite(st, args[0], args[1], ts.mk("absent", ""), mt)
		}
		return ok(ts.mk("tuple", ""))
	case "builtin.clear":
		g.emit("mapdel", "clear", cur, pos, in, nil, args...)
		return ok(ts.mk("tuple", ""))
	case "builtin.min", "builtin.max":
		r := args[0]
		for _, a := range args[1:] {
			c := g.binop(token.LSS, a, r, T)
			if name == "builtin.max" {
				c = g.binop(token.LSS, r, a, T)
			}
			r = g.ite(g.cond(c), a, r)
		}
		return ok(r)
	case "sort.Search":
		p := g.applyClosure(args[1], st, ts.mkT("bound", "σ", types.Typ[types.Int]))
		if p != nil {
			t := ts.mk("search", "", args[0], p[0])
			t.T = T
			return ok(t)
		}
	case "sort.Find":
		p := g.applyClosure(args[1], st, ts.mkT("bound", "σ", types.Typ[types.Int]))
		if p != nil {
			t := ts.mk("find", "", args[0], p[0])
			i, f := ts.mk("ext", "0", t), ts.mk("ext", "1", t)
			i.T = types.Typ[types.Int]
			f.T = types.Typ[types.Bool]
			return ok(ts.mk("tuple", "", i, f))
		}
	case "sort.Slice", "sort.SliceStable":
		var p *Term
		x := args[0]
		if x.Op == "iface" {
			x = x.A[0]
		}
		if r := g.applyClosure(args[1], st, ts.mkT("bound", "i", types.Typ[types.Int]), ts.mkT("bound", "j", types.Typ[types.Int])); r != nil {
			p = r[0]
		}
		// Where the whole element is what is compared, equal elements cannot
		// be told apart and every sort is a stable one.
		if p != nil && p == ts.BoolT(g.lt(ts.mk("elem", "", x, ts.mkT("bound", "i", nil)), ts.mk("elem", "", x, ts.mkT("bound", "j", nil)))) {
			name = "sort.Strings"
		}
		g.emit("sort", name, g.unsorted(x, cur), pos, in, p, x, args[1])
		return ok(ts.mk("tuple", ""))
	case "slices.SortFunc", "slices.SortStableFunc":
		var p *Term
		a, b := ts.mk("elem", "", args[0], ts.mkT("bound", "i", types.Typ[types.Int])), ts.mk("elem", "", args[0], ts.mkT("bound", "j", types.Typ[types.Int]))
		if r := g.applyClosure(args[1], st, a, b); r != nil {
			if n := g.cmp3(r[0], ts.Int(0), "<"); n != nil {
				p = ts.BoolT(n)
			} else {
				p = ts.BoolT(g.lt(r[0], ts.Int(0)))
			}
		}
		g.emit("sort", name, g.unsorted(args[0], cur), pos, in, p, args[0], args[1])
		return ok(ts.mk("tuple", ""))
	case "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "slices.Sort", "sort.Float64s":
		x := args[0]
		var p *Term
		if x.Op == "iface" {
			if m := g.w.Prog.LookupMethod(x.T, nil, "Less"); m != nil && m.Blocks != nil {
				if r := g.apply(m, nil, st, x.A[0], ts.mkT("bound", "i", types.Typ[types.Int]), ts.mkT("bound", "j", types.Typ[types.Int])); r != nil {
					p = r[0]
				}
			}
			x = x.A[0]
		} else {
			p = ts.BoolT(g.lt(ts.mk("elem", "", x, ts.mkT("bound", "i", nil)), ts.mk("elem", "", x, ts.mkT("bound", "j", nil))))
		}
		g.emit("sort", name, g.unsorted(x, cur), pos, in, p, x)
		return ok(ts.mk("tuple", ""))
	}
	return nil, cur, false
}

func (g *GV) symEq(op string, a, b *Term) *Node {
	if a == b {
		return g.ts.b.True
	}
	if a.Op == "ite" && a.depth() < 20 {
		return g.ts.b.ite(a.B, g.symEq(op, a.A[0], b), g.symEq(op, a.A[1], b))
	}
	if b.Op == "ite" && b.depth() < 20 {
		return g.ts.b.ite(b.B, g.symEq(op, a, b.A[0]), g.symEq(op, a, b.A[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return g.ts.b.atom(g.ts.mk(op, "", a, b))
}

func (ts *Terms) mkT(op, s string, T types.Type) *Term {
	t := ts.mk(op, s)
	if t.T == nil {
		t.T = T
	}
	return t
}

// applyClosure evaluates a function value on symbolic arguments without
// recording its effects.
func (g *GV) applyClosure(f *Term, st *State, args ...*Term) []*Term {
	fn := g.ts.fn[f]
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return g.apply(fn, f.A, st, args...)
}

func (g *GV) apply(fn *ssa.Function, fvs []*Term, st *State, args ...*Term) []*Term {
	g.quiet++
	defer func() { g.quiet-- }()
	sp := g.path
	sl := g.loops
	g.path, g.loops = nil, nil
	vals, _, _ := g.Eval(fn, args, fvs, st)
	g.path, g.loops = sp, sl
	if len(vals) == 0 {
		return nil
	}
	return vals
}

// unsorted: cur, where there is something in x to sort.
func (g *GV) unsorted(x *Term, cur *Node) *Node {
	B := g.ts.b
	var empty func(t *Term) *Node
	empty = func(t *Term) *Node {
		switch t.Op {
		case "nil":
			return B.True
		case "list":
			return B.Bool(len(t.A) == 0)
		case "ite":
			return B.ite(t.B, empty(t.A[0]), empty(t.A[1]))
		}
		if init, dom := zeroTripOf(t); init != nil {
			return B.And(empty(init), g.ts.ilt(g.length(dom), g.ts.Int(1)))
		}
		return B.False
	}
	return B.And(cur, B.Not(empty(x)))
}
