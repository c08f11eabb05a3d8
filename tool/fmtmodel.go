package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text building: formatting calls, string builders and writers are reduced to
// the sequence of pieces they produce.

func (g *GV) method(T types.Type, name string) *ssa.Function {
	if T == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(T, true, nil, name)
	f, ok := o.(*types.Func)
	if !ok || !f.Exported() {
		return nil
	}
	ms := g.w.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return g.w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// runes: the text of a choice of constant characters.
func (g *GV) runes(t *Term) *Term {
	if c, ok := t.isInt(); ok && c >= 0 && c < 0x80 {
		return g.ts.Str(string(rune(c)))
	}
	if t.Op == "ite" {
		if a, b := g.runes(t.A[0]), g.runes(t.A[1]); a != nil && b != nil {
			return g.ite(t.B, a, b)
		}
	}
	return nil
}

// piece renders one operand of a formatting verb.
func (g *GV) piece(in *ssa.Function, pos token.Pos, verb string, x *Term, extra []*Term, cur *Node, st *State) *Term {
	last := verb[len(verb)-1]
	if x.Op == "ite" {
		return g.ite(x.B, g.piece(in, pos, verb, x.A[0], extra, g.ts.b.And(cur, x.B), st), g.piece(in, pos, verb, x.A[1], extra, g.ts.b.And(cur, g.ts.b.Not(x.B)), st))
	}
	if x.Op == "iface" && len(extra) == 0 && x.T != nil {
		T := x.T
		custom := g.method(T, "Format") != nil || g.method(T, "Error") != nil || g.method(T, "GoString") != nil && last != 's' && last != 'v'
		if b, ok := T.Underlying().(*types.Basic); ok && !custom {
			hasStr := g.method(T, "String") != nil
			switch {
			case b.Info()&types.IsString != 0 && !hasStr && (verb == "%s" || verb == "%v"):
				return x.A[0]
			case b.Info()&types.IsInteger != 0 && verb == "%c" && g.runes(x.A[0]) != nil:
				return g.runes(x.A[0])
			case b.Info()&types.IsInteger != 0 && !hasStr && (verb == "%d" || verb == "%v"):
				t := g.ts.mk("call", "strconv.Itoa", x.A[0])
				t.T = types.Typ[types.String]
				return t
			}
		}
		if isByteString(T) && !custom && g.method(T, "String") == nil && verb == "%s" {
			return x.A[0]
		}
		if (verb == "%s" || verb == "%v") && !custom {
			if m := g.method(T, "String"); m != nil && g.w.inModule(m) {
				r, _ := g.invoke(in, pos, types.Typ[types.String], fnName(m), []*Term{x.A[0]}, nil, m, cur, st)
				return r
			}
		}
	}
	if x.Op == "iface" && x.T != nil {
		if s := g.w.summaryFor("", g.method(x.T, "Format")); s != nil {
			if v := g.reads(st, s, []*Term{x.A[0]}); v != nil {
				extra = append(extra, v...)
			}
		} else if s := g.w.summaryFor("", g.method(x.T, "String")); s != nil {
			if v := g.reads(st, s, []*Term{x.A[0]}); v != nil {
				extra = append(extra, v...)
			}
		}
	}
	t := g.ts.mk("fmt", verb, append([]*Term{x}, extra...)...)
	t.T = types.Typ[types.String]
	return t
}

func (g *GV) sprintf(in *ssa.Function, pos token.Pos, format string, args []*Term, cur *Node, st *State) *Term {
	r := g.ts.Str("")
	i := 0
	next := func() *Term {
		if i < len(args) {
			i++
			return args[i-1]
		}
		return g.ts.mk("unk", "missing-arg")
	}
	for len(format) > 0 {
		p := strings.IndexByte(format, '%')
		if p < 0 {
			r = g.concat(r, g.ts.Str(format))
			break
		}
		r = g.concat(r, g.ts.Str(format[:p]))
		format = format[p:]
		j := 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return nil
		}
		verb := format[:j+1]
		format = format[j+1:]
		if verb == "%%" {
			r = g.concat(r, g.ts.Str("%"))
			continue
		}
		if strings.ContainsAny(verb, "[]") {
			return nil
		}
		if w, _, _ := strings.Cut(verb, "."); !strings.ContainsAny(w, "0123456789*") {
			verb = strings.ReplaceAll(verb, "-", "") // nothing to pad
		}
		var extra []*Term
		for k := 0; k < strings.Count(verb, "*"); k++ {
			w := next()
			if w.Op == "iface" {
				w = w.A[0]
			}
			extra = append(extra, w)
		}
		r = g.concat(r, g.piece(in, pos, verb, next(), extra, cur, st))
	}
	return r
}

func (g *GV) sprint(in *ssa.Function, pos token.Pos, ln bool, args []*Term, cur *Node, st *State) *Term {
	r := g.ts.Str("")
	isStr := func(x *Term) bool {
		if x.Op != "iface" || x.T == nil {
			return false
		}
		b, ok := x.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for i, a := range args {
		if i > 0 && (ln || !isStr(a) && !isStr(args[i-1])) {
			r = g.concat(r, g.ts.Str(" "))
		}
		r = g.concat(r, g.piece(in, pos, "%v", a, nil, cur, st))
	}
	if ln {
		r = g.concat(r, g.ts.Str("\n"))
	}
	return r
}

func builderOf(t *Term) *Term {
	for t.Op == "iface" {
		t = t.A[0]
	}
	if t.Op == "alloc" && (strings.Contains(t.S, ":strings.Builder#") || strings.Contains(t.S, ":bytes.Buffer#")) {
		return t
	}
	return nil
}

func (g *GV) content(st *State, b *Term) (*Term, *Term) {
	c := g.ts.mk("content", "", b)
	v := st.mem[c]
	if v == nil {
		v = g.ts.Str("")
	}
	return c, v
}

// write appends text to a writer.
func (g *GV) write(in *ssa.Function, pos token.Pos, T types.Type, w, text *Term, cur *Node, st *State) *Term {
	if b := builderOf(w); b != nil {
		c, v := g.content(st, b)
		st.mem[c] = g.concat(v, text)
		if st.mem[c].T == nil {
			st.mem[c].T = types.Typ[types.String]
		}
		n := g.length(text)
		return g.ts.mk("tuple", "", n, g.ts.Nil())
	}
	for w.Op == "iface" {
		w = w.A[0]
	}
	site := g.newSite()
	t := g.ts.mk("call", "write", w, text, site)
	t.T = T
	g.tagLoop(t)
	g.emit("write", "write", cur, pos, in, t, w, text)
	return t
}

func flatten(args []*Term) ([]*Term, bool) {
	if len(args) == 0 {
		return nil, false
	}
	l := args[len(args)-1]
	if l.Op == "list" {
		return l.A, true
	}
	if l.isNil() {
		return nil, true
	}
	return nil, false
}

// sprintfCases: the format is one of a few constants, the arguments plain
// values.
func (g *GV) sprintfCases(in *ssa.Function, pos token.Pos, f *Term, va []*Term, cur *Node, st *State) *Term {
	for _, a := range va {
		if a.Op != "iface" {
			return nil
		}
		switch a.S {
		case "string", "int", "bool", "uint", "int64":
		default:
			return nil
		}
	}
	ls := g.textCases(f, 0)
	if len(ls) < 2 || len(ls) > 8 {
		return nil
	}
	var r *Term
	for i := len(ls) - 1; i >= 0; i-- {
		t := g.sprintf(in, pos, ls[i].s, va, cur, st)
		if t == nil {
			return nil
		}
		if r == nil {
			r = t
		} else {
			r = g.ite(ls[i].b, t, r)
		}
	}
	return r
}

type textCase struct {
	b *Node
	s string
}

// textCases: the constants a text is one of.
func (g *GV) textCases(t *Term, depth int) []textCase {
	if s, ok := t.isStr(); ok {
		return []textCase{{g.ts.b.True, s}}
	}
	if depth > 6 {
		return nil
	}
	switch t.Op {
	case "ite":
		x, y := g.textCases(t.A[0], depth+1), g.textCases(t.A[1], depth+1)
		if x == nil || y == nil {
			return nil
		}
		var r []textCase
		for _, c := range x {
			r = append(r, textCase{g.ts.b.And(t.B, c.b), c.s})
		}
		for _, c := range y {
			r = append(r, textCase{g.ts.b.And(g.ts.b.Not(t.B), c.b), c.s})
		}
		return r
	case "concat":
		r := []textCase{{g.ts.b.True, ""}}
		for _, a := range t.A {
			x := g.textCases(a, depth+1)
			if x == nil || len(r)*len(x) > 16 {
				return nil
			}
			var n []textCase
			for _, p := range r {
				for _, q := range x {
					if b := g.ts.b.And(p.b, q.b); b != g.ts.b.False {
						n = append(n, textCase{b, p.s + q.s})
					}
				}
			}
			r = n
		}
		return r
	}
	return nil
}

func (g *GV) textIntrinsic(in *ssa.Function, pos token.Pos, T types.Type, name string, args []*Term, cur *Node, st *State) (*Term, bool) {
	switch name {
	case "fmt.Sprintf", "fmt.Fprintf", "fmt.Printf", "fmt.Appendf":
		k := 0
		if name == "fmt.Fprintf" || name == "fmt.Appendf" {
			k = 1
		}
		var text *Term
		va, ok := flatten(args)
		f, isC := args[k].isStr()
		if ok && isC {
			text = g.sprintf(in, pos, f, va, cur, st)
		}
		if text == nil && ok {
			text = g.sprintfCases(in, pos, args[k], va, cur, st)
		}
		if text == nil {
			if ok {
				var ps []*Term
				for _, a := range va {
					ps = append(ps, g.piece(in, pos, "%?", a, nil, cur, st))
				}
				text = g.ts.mk("fmtf", "", append([]*Term{args[k]}, ps...)...)
			} else {
				text = g.ts.mk("fmtf", "", args[k:]...)
			}
			text.T = types.Typ[types.String]
		}
		switch name {
		case "fmt.Sprintf":
			return text, true
		case "fmt.Appendf":
			return g.concat(args[0], text), true
		case "fmt.Printf":
			return g.write(in, pos, T, g.ts.mk("fld", "*", g.ts.mk("global", "os.Stdout")), text, cur, st), true
		}
		return g.write(in, pos, T, args[0], text, cur, st), true
	case "fmt.Sprint", "fmt.Sprintln", "fmt.Fprint", "fmt.Fprintln", "fmt.Print", "fmt.Println":
		va, ok := flatten(args)
		if !ok {
			return nil, false
		}
		text := g.sprint(in, pos, strings.HasSuffix(name, "ln"), va, cur, st)
		if strings.HasPrefix(name, "fmt.S") {
			return text, true
		}
		w := g.ts.mk("fld", "*", g.ts.mk("global", "os.Stdout"))
		if strings.HasPrefix(name, "fmt.F") {
			w = args[0]
		}
		return g.write(in, pos, T, w, text, cur, st), true
	case "io.WriteString", "os.File.WriteString", "os.File.Write", "invoke:io.Writer.Write", "bufio.Writer.WriteString", "bufio.Writer.Write",
		"strings.Builder.WriteString", "strings.Builder.Write", "bytes.Buffer.Write", "bytes.Buffer.WriteString", "invoke:io.StringWriter.WriteString":
		return g.write(in, pos, T, args[0], args[1], cur, st), true
	case "strings.Builder.WriteByte", "strings.Builder.WriteRune", "bytes.Buffer.WriteByte", "bytes.Buffer.WriteRune":
		c := g.ts.mk("chr", "", args[1])
		if k, ok := args[1].isInt(); ok {
			c = g.ts.Str(string(rune(k)))
		}
		r := g.write(in, pos, T, args[0], c, cur, st)
		if strings.HasSuffix(name, "WriteByte") && r.Op == "tuple" {
			return g.ts.Nil(), true
		}
		return r, true
	case "strings.Builder.String", "bytes.Buffer.String", "bytes.Buffer.Bytes":
		if b := builderOf(args[0]); b != nil {
			_, v := g.content(st, b)
			return v, true
		}
	case "strings.Builder.Len", "bytes.Buffer.Len":
		if b := builderOf(args[0]); b != nil {
			_, v := g.content(st, b)
			return g.length(v), true
		}
	case "strings.Builder.Reset", "bytes.Buffer.Reset":
		if b := builderOf(args[0]); b != nil {
			c, _ := g.content(st, b)
			st.mem[c] = g.ts.Str("")
			return g.ts.mk("tuple", ""), true
		}
	case "strings.Builder.Grow", "bytes.Buffer.Grow":
		return g.ts.mk("tuple", ""), true
	case "strings.Join":
		if l := args[0]; l.Op == "list" {
			r := g.ts.Str("")
			for i, a := range l.A {
				if i > 0 {
					r = g.concat(r, args[1])
				}
				r = g.concat(r, a)
			}
			return r, true
		}
		if s, ok := args[1].isStr(); ok && s == "" {
			if t := g.joined(args[0]); t != nil {
				return t, true
			}
		}
		if t := g.joinedBy(args[0], args[1]); t != nil {
			return t, true
		}
	case "strings.Repeat":
		if k, ok := args[1].isInt(); ok && k >= 0 && k <= 8 {
			r := g.ts.Str("")
			for ; k > 0; k-- {
				r = g.concat(r, args[0])
			}
			return r, true
		}
	case "strconv.Itoa":
		if k, ok := args[0].isInt(); ok {
			return g.ts.mk("const", `"`+strconvItoa(k)+`"`), true
		}
	case "strconv.FormatInt":
		if k, ok := args[1].isInt(); ok && k == 10 {
			t := g.ts.mk("call", "strconv.Itoa", args[0])
			t.T = types.Typ[types.String]
			return t, true
		}
	case "strings.HasPrefix", "bytes.HasPrefix":
		return g.ts.BoolT(g.fix(args[0], args[1], false, cur)), true
	case "strings.HasSuffix", "bytes.HasSuffix":
		return g.ts.BoolT(g.fix(args[0], args[1], true, cur)), true
	case "strings.TrimPrefix", "bytes.TrimPrefix":
		return g.ite(g.fix(args[0], args[1], false, cur), g.slice(args[0], g.length(args[1]), g.ts.Nil()), args[0]), true
	case "strings.TrimSuffix", "bytes.TrimSuffix":
		return g.ite(g.fix(args[0], args[1], true, cur), g.slice(args[0], g.ts.Int(0), g.ts.Sub(g.length(args[0]), g.length(args[1]))), args[0]), true
	case "strings.CutPrefix", "bytes.CutPrefix":
		n := g.fix(args[0], args[1], false, cur)
		return g.ts.mk("tuple", "", g.ite(n, g.slice(args[0], g.length(args[1]), g.ts.Nil()), args[0]), g.ts.BoolT(n)), true
	case "strings.CutSuffix", "bytes.CutSuffix":
		n := g.fix(args[0], args[1], true, cur)
		return g.ts.mk("tuple", "", g.ite(n, g.slice(args[0], g.ts.Int(0), g.ts.Sub(g.length(args[0]), g.length(args[1]))), args[0]), g.ts.BoolT(n)), true
	case "strings.Contains", "bytes.Contains", "strings.ContainsRune", "bytes.ContainsRune", "strings.ContainsAny", "bytes.ContainsAny", "strings.ContainsFunc":
		op := map[string]string{"": "Index", "Rune": "IndexRune", "Any": "IndexAny", "Func": "IndexFunc"}[name[strings.Index(name, "Contains")+8:]]
		return g.ts.BoolT(g.ts.b.Not(g.lt(g.strIndex(op, args[0], args[1]), g.ts.Int(0)))), true
	case "strings.Index", "bytes.Index", "strings.IndexByte", "bytes.IndexByte", "strings.IndexRune", "bytes.IndexRune", "strings.IndexAny", "bytes.IndexAny",
		"strings.LastIndex", "bytes.LastIndex", "strings.LastIndexByte", "bytes.LastIndexByte", "strings.LastIndexAny":
		return g.strIndex(name[strings.IndexByte(name, '.')+1:], args[0], args[1]), true
	case "strings.Cut", "bytes.Cut":
		i := g.strIndex("Index", args[0], args[1])
		no := g.lt(i, g.ts.Int(0))
		return g.ts.mk("tuple", "", g.ite(no, args[0], g.slice(args[0], g.ts.Int(0), i)),
			g.ite(no, g.ts.Str(""), g.slice(args[0], g.ts.Add(i, g.length(args[1])), g.ts.Nil())), g.ts.BoolT(g.ts.b.Not(no))), true
	case "strings.Split", "bytes.Split", "strings.SplitAfter", "strings.ReplaceAll", "bytes.ReplaceAll":
		op := map[string]string{"Split": "SplitN", "SplitAfter": "SplitAfterN", "ReplaceAll": "Replace"}[name[strings.IndexByte(name, '.')+1:]]
		t := g.ts.mk("call", "strings."+op, append(append([]*Term{}, args...), g.ts.Int(-1))...)
		if t.T == nil {
			t.T = T
		}
		return t, true
	case "strings.SplitN", "bytes.SplitN":
		if n, ok := args[2].isInt(); ok && n == 2 {
			if sep, ok := args[1].isStr(); ok && sep != "" { // strings.Cut by another name
				i := g.strIndex("Index", args[0], args[1])
				one := g.ts.mk("list", "", args[0])
				two := g.ts.mk("list", "", g.slice(args[0], g.ts.Int(0), i), g.slice(args[0], g.ts.Add(i, g.length(args[1])), g.ts.Nil()))
				one.T, two.T = T, T
				return g.ite(g.lt(i, g.ts.Int(0)), one, two), true
			}
		}
		t := g.ts.mk("call", "strings.SplitN", args...)
		if t.T == nil {
			t.T = T
		}
		return t, true
	case "bytes.TrimSpace", "bytes.Replace", "bytes.Fields", "bytes.ToLower":
		t := g.ts.mk("call", "strings."+name[strings.IndexByte(name, '.')+1:], args...)
		if t.T == nil {
			t.T = T
		}
		return t, true
	}
	return nil, false
}

// fix says that x begins (ends) with p.
func (g *GV) fix(x, p *Term, suffix bool, cur *Node) *Node {
	c, ok := p.isStr()
	if _, cx := x.isStr(); cx && ok {
		s, _ := x.isStr()
		if suffix {
			return g.ts.b.Bool(strings.HasSuffix(s, c))
		}
		return g.ts.b.Bool(strings.HasPrefix(s, c))
	}
	if ok && len(c) <= 8 {
		n, lo := g.length(x), g.ts.Int(0)
		if suffix {
			lo = g.ts.Sub(n, g.ts.Int(int64(len(c))))
		}
		short := g.lt(n, g.ts.Int(int64(len(c))))
		if g.ts.b.And(g.guard(), cur, short) == g.ts.b.False {
			return g.bytesAt(x, lo, c) // known to be long enough
		}
		return g.ts.b.And(g.ts.b.Not(short), g.bytesAt(x, lo, c))
	}
	nm := "strings.HasPrefix"
	if suffix {
		nm = "strings.HasSuffix"
	}
	t := g.ts.mk("call", nm, x, p)
	t.T = types.Typ[types.Bool]
	return g.cond(t)
}

func (g *GV) strIndex(op string, x, p *Term) *Term {
	if k, ok := p.isInt(); ok && k > 0 && k < 128 && (strings.HasSuffix(op, "Byte") || strings.HasSuffix(op, "Rune")) {
		op, p = op[:len(op)-4], g.ts.Str(string(rune(k)))
	}
	if c, ok := p.isStr(); ok && len(c) == 1 && c[0] < 128 && strings.HasSuffix(op, "Any") {
		op = op[:len(op)-3]
	}
	t := g.ts.mk("call", "strings."+op, x, p)
	if t.T == nil {
		t.T = types.Typ[types.Int]
	}
	return t
}
