package main

// Development aid: behaviour-preserving rewrites of the repository's
// functions, used to see that the checks stay quiet on them.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type edit struct {
	a, b int
	s    string
}

type rsite struct {
	edits []edit
	tail  string
	more  []fileEdit
}

type rfunc struct {
	name string
	file string
	fd   *ast.FuncDecl
	pkg  *packages.Package
	syn  *ast.File
	src  []byte
}

type refactorer struct {
	w   *World
	fn  *rfunc
	uid int
	out []rsite
}

func (r *refactorer) off(p token.Pos) int { return r.w.Fset.Position(p).Offset }
func (r *refactorer) txt(n ast.Node) string {
	return string(r.fn.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *refactorer) rng(a, b token.Pos) string { return string(r.fn.src[r.off(a):r.off(b)]) }
func (r *refactorer) body(b *ast.BlockStmt) string {
	return string(r.fn.src[r.off(b.Lbrace)+1 : r.off(b.Rbrace)])
}
func (r *refactorer) typ(e ast.Expr) types.Type { return r.fn.pkg.TypesInfo.TypeOf(e) }
func (r *refactorer) rep(n ast.Node, s string) edit {
	return edit{r.off(n.Pos()), r.off(n.End()), s}
}
func (r *refactorer) add(es ...edit)                 { r.out = append(r.out, rsite{edits: es}) }
func (r *refactorer) fresh(s string) string          { r.uid++; return fmt.Sprintf("%sRx%d", s, r.uid) }
func (r *refactorer) tailed(t string, es ...edit)    { r.out = append(r.out, rsite{edits: es, tail: t}) }
func (r *refactorer) obj(id *ast.Ident) types.Object { return r.fn.pkg.TypesInfo.ObjectOf(id) }

// lists calls f for every statement list of the function.
func (r *refactorer) lists(f func(list []ast.Stmt, parent ast.Node)) {
	ast.Inspect(r.fn.fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			f(x.List, x)
		case *ast.CaseClause:
			f(x.Body, x)
		}
		return true
	})
}

func (r *refactorer) each(f func(n ast.Node)) {
	ast.Inspect(r.fn.fd.Body, func(n ast.Node) bool {
		if n != nil {
			f(n)
		}
		return true
	})
}

func negate(r *refactorer, e ast.Expr) string {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return r.txt(u.X)
	}
	if b, ok := e.(*ast.BinaryExpr); ok {
		m := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GEQ: "<", token.GTR: "<=", token.LEQ: ">"}
		if o := m[b.Op]; o != "" && !isFloat(r.typ(b.X)) {
			return r.txt(b.X) + " " + o + " " + r.txt(b.Y)
		}
	}
	return "!(" + r.txt(e) + ")"
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func hasBranch(n ast.Node, toks ...token.Token) bool {
	found := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if y.Label != nil {
					found = true
				}
				for _, t := range toks {
					if y.Tok == t && !(loop && (t == token.BREAK || t == token.CONTINUE)) && !(sw && t == token.BREAK) {
						found = true
					}
				}
			case *ast.ForStmt:
				if x != n {
					walk(y.Body, true, sw)
					return false
				}
			case *ast.RangeStmt:
				if x != n {
					walk(y.Body, true, sw)
					return false
				}
			case *ast.SwitchStmt:
				if x != n {
					walk(y.Body, loop, true)
					return false
				}
			case *ast.TypeSwitchStmt:
				if x != n {
					walk(y.Body, loop, true)
					return false
				}
			}
			return true
		})
	}
	walk(n, false, false)
	return found
}

func hasReturn(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			f = true
		}
		return true
	})
	return f
}

func terminates(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	switch x := list[len(list)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func pure(e ast.Node) bool {
	p := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			p = false
		case *ast.FuncLit, *ast.TypeAssertExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr:
			p = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW || x.Op == token.AND {
				p = false
			}
		case *ast.BinaryExpr:
			if x.Op == token.QUO || x.Op == token.REM {
				p = false
			}
		}
		return true
	})
	return p
}

func (r *refactorer) idents(n ast.Node) map[types.Object]bool {
	m := map[types.Object]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok {
			if o := r.obj(id); o != nil {
				m[o] = true
			}
		}
		return true
	})
	return m
}

func (r *refactorer) typeStr(t types.Type) (string, bool) {
	ok := true
	imp := map[string]string{}
	for _, is := range r.fn.syn.Imports {
		p := strings.Trim(is.Path.Value, `"`)
		if is.Name != nil {
			imp[p] = is.Name.Name
		} else if o := r.fn.pkg.Imports[p]; o != nil {
			imp[p] = o.Name
		}
	}
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.fn.pkg.Types {
			return ""
		}
		if n, has := imp[p.Path()]; has {
			return n
		}
		ok = false
		return p.Name()
	})
	if b, is := t.(*types.Basic); is && b.Info()&types.IsUntyped != 0 {
		ok = false
	}
	if strings.Contains(s, "func(yield") {
		ok = false
	}
	return s, ok
}

// free lists the local variables an node uses that are declared outside it.
func (r *refactorer) free(n ast.Node) (vars []*types.Var) {
	seen := map[types.Object]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		id, ok := x.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := r.fn.pkg.TypesInfo.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Parent() == nil || v.Parent() == r.fn.pkg.Types.Scope() || v.Parent() == types.Universe || seen[v] {
			return true
		}
		if v.Pkg() != r.fn.pkg.Types {
			return true
		}
		if n.Pos() <= v.Pos() && v.Pos() < n.End() {
			return true
		}
		seen[v] = true
		vars = append(vars, v)
		return true
	})
	return
}

// assigned lists outer variables assigned (or whose address is taken) in n.
func (r *refactorer) assigned(n ast.Node) map[types.Object]bool {
	m := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.obj(id); o != nil {
				m[o] = true
			}
		}
	}
	root := func(e ast.Expr) ast.Expr {
		for {
			switch x := e.(type) {
			case *ast.SelectorExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.IndexExpr:
				if _, ok := r.typ(x.X).Underlying().(*types.Array); !ok {
					return nil
				}
				e = x.X
			default:
				return e
			}
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if e := root(l); e != nil {
					mark(e)
				}
			}
		case *ast.IncDecStmt:
			if e := root(y.X); e != nil {
				mark(e)
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND {
				if e := root(y.X); e != nil {
					mark(e)
				}
			}
		case *ast.RangeStmt:
			if y.Tok == token.ASSIGN {
				mark(y.Key)
				mark(y.Value)
			}
		case *ast.SelectorExpr: // method with pointer receiver on addressable value
			if sel := r.fn.pkg.TypesInfo.Selections[y]; sel != nil && sel.Kind() == types.MethodVal {
				if f, ok := sel.Obj().(*types.Func); ok {
					if rv := f.Type().(*types.Signature).Recv(); rv != nil {
						if _, p := rv.Type().(*types.Pointer); p {
							if _, isp := r.typ(y.X).Underlying().(*types.Pointer); !isp {
								if e := root(y.X); e != nil {
									mark(e)
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	return m
}

type rkind struct {
	name string
	f    func(r *refactorer)
}

var rkinds = []rkind{
	{"invert-if", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.IfStmt)
			if !ok || x.Else == nil {
				return
			}
			els, ok := x.Else.(*ast.BlockStmt)
			if !ok {
				r.add(r.rep(x.Cond, negate(r, x.Cond)), r.rep(x.Body, "{ "+r.txt(x.Else)+"\n}"), r.rep(x.Else, r.txt(x.Body)))
				return
			}
			r.add(r.rep(x.Cond, negate(r, x.Cond)), r.rep(x.Body, r.txt(els)), r.rep(els, r.txt(x.Body)))
		})
	}},
	{"not-cond", func(r *refactorer) { // if c {A} -> if !c {} else {A}
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.IfStmt)
			if !ok || x.Else != nil {
				return
			}
			r.add(r.rep(x.Cond, negate(r, x.Cond)), r.rep(x.Body, "{\n} else "+r.txt(x.Body)))
		})
	}},
	{"rest-in-else", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for i, s := range l {
				x, ok := s.(*ast.IfStmt)
				if !ok || x.Else != nil || i == len(l)-1 || !terminates(x.Body.List) {
					continue
				}
				rest := r.rng(l[i+1].Pos(), l[len(l)-1].End())
				r.add(edit{r.off(x.End()), r.off(l[len(l)-1].End()), " else {\n" + rest + "\n}"})
				r.add(r.rep(x.Cond, negate(r, x.Cond)), edit{r.off(x.Body.Pos()), r.off(l[len(l)-1].End()), "{\n" + rest + "\n} else " + r.txt(x.Body)})
			}
		})
	}},
	{"guard", func(r *refactorer) { // last if of a loop body or void function
		ast.Inspect(r.fn.fd, func(n ast.Node) bool {
			var b *ast.BlockStmt
			kw := "continue"
			switch x := n.(type) {
			case *ast.ForStmt:
				b = x.Body
			case *ast.RangeStmt:
				b = x.Body
			case *ast.FuncDecl:
				if x.Type.Results == nil {
					b, kw = x.Body, "return"
				}
			case *ast.FuncLit:
				if x.Type.Results == nil {
					b, kw = x.Body, "return"
				}
			}
			if b == nil || len(b.List) == 0 {
				return true
			}
			x, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || x.Init != nil {
				return true
			}
			if x.Else == nil {
				r.add(r.rep(x, "if "+negate(r, x.Cond)+" {\n"+kw+"\n}\n"+r.body(x.Body)))
			} else if e, ok := x.Else.(*ast.BlockStmt); ok {
				r.add(r.rep(x, "if "+r.txt(x.Cond)+" {\n"+r.body(x.Body)+"\n"+kw+"\n}\n"+r.body(e)))
			}
			return true
		})
	}},
	{"unnest-else", func(r *refactorer) { // if c {A; return} else {B} -> if c {A; return}; B
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				if x, ok := s.(*ast.IfStmt); ok && x.Else != nil && x.Init == nil && terminates(x.Body.List) {
					if e, ok := x.Else.(*ast.BlockStmt); ok {
						r.add(r.rep(x, "if "+r.txt(x.Cond)+" "+r.txt(x.Body)+"\n"+r.body(e)))
					} else {
						r.add(r.rep(x, "if "+r.txt(x.Cond)+" "+r.txt(x.Body)+"\n"+r.txt(x.Else)))
					}
				}
			}
		})
	}},
	{"range-index", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.RangeStmt)
			if !ok || x.Tok == token.ASSIGN {
				return
			}
			if _, ok := r.typ(x.X).Underlying().(*types.Slice); !ok {
				return
			}
			xs, i := r.fresh("xs"), r.fresh("i")
			if k, ok := x.Key.(*ast.Ident); ok && k.Name != "_" {
				i = k.Name
			}
			v := ""
			if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
				v = id.Name + " := " + xs + "[" + i + "]\n"
			}
			asg := r.assigned(x.Body)
			if k, ok := x.Key.(*ast.Ident); ok && asg[r.obj(k)] {
				return
			}
			r.add(edit{r.off(x.Pos()), r.off(x.Body.Lbrace) + 1, xs + " := " + r.txt(x.X) + "\nfor " + i + " := 0; " + i + " < len(" + xs + "); " + i + "++ {\n" + v})
			// and counting with range over the length
			r.add(edit{r.off(x.Pos()), r.off(x.Body.Lbrace) + 1, xs + " := " + r.txt(x.X) + "\nfor " + i + " := range " + xs + " {\n" + v})
			// and without a copy, when the slice is a plain variable not assigned in the body
			if id, ok := x.X.(*ast.Ident); ok && !asg[r.obj(id)] {
				v2 := ""
				if v != "" {
					v2 = x.Value.(*ast.Ident).Name + " := " + id.Name + "[" + i + "]\n"
				}
				r.add(edit{r.off(x.Pos()), r.off(x.Body.Lbrace) + 1, "for " + i + " := 0; " + i + " < len(" + id.Name + "); " + i + "++ {\n" + v2})
				r.add(edit{r.off(x.Pos()), r.off(x.Body.Lbrace) + 1, "for " + i + ", " + r.fresh("n") + " := 0, len(" + id.Name + "); " + i + " < " + fmt.Sprintf("nRx%d", r.uid) + "; " + i + "++ {\n" + v2})
			}
		})
	}},
	{"for-while", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.ForStmt)
			if !ok || x.Init == nil && x.Post == nil || hasBranch(x, token.CONTINUE) {
				return
			}
			s := "{\n"
			if x.Init != nil {
				s += r.txt(x.Init) + "\n"
			}
			s += "for "
			if x.Cond != nil {
				s += r.txt(x.Cond)
			}
			s += " {\n" + r.body(x.Body) + "\n"
			if x.Post != nil {
				s += r.txt(x.Post) + "\n"
			}
			r.add(r.rep(x, s+"}\n}"))
		})
	}},
	{"for-break", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.ForStmt)
			if !ok || x.Cond == nil {
				return
			}
			h := "for "
			if x.Init != nil || x.Post != nil {
				if x.Init != nil {
					h += r.txt(x.Init)
				}
				h += "; ; "
				if x.Post != nil {
					h += r.txt(x.Post)
				}
			}
			r.add(r.rep(x, h+" {\nif "+negate(r, x.Cond)+" {\nbreak\n}\n"+r.body(x.Body)+"\n}"))
		})
	}},
	{"cond-local", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				if x, ok := s.(*ast.IfStmt); ok {
					v := r.fresh("ok")
					if x.Init == nil {
						r.add(edit{r.off(x.Pos()), r.off(x.Pos()), v + " := " + r.txt(x.Cond) + "\n"}, r.rep(x.Cond, v))
					} else {
						r.add(edit{r.off(x.Pos()), r.off(x.Body.Pos()), "{\n" + r.txt(x.Init) + "\nif " + r.txt(x.Cond) + " "}, edit{r.off(x.End()), r.off(x.End()), "\n}"})
						r.add(edit{r.off(x.Pos()), r.off(x.Body.Pos()), "{\n" + r.txt(x.Init) + "\n" + v + " := " + r.txt(x.Cond) + "\nif " + v + " "}, edit{r.off(x.End()), r.off(x.End()), "\n}"})
					}
				}
			}
		})
	}},
	{"first-arg-local", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				var c *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					c, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						c, _ = x.Rhs[0].(*ast.CallExpr)
						for _, lh := range x.Lhs {
							if _, ok := lh.(*ast.Ident); !ok {
								c = nil
							}
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						c, _ = x.Results[0].(*ast.CallExpr)
					}
				}
				if c == nil || len(c.Args) == 0 {
					continue
				}
				if tv := r.fn.pkg.TypesInfo.Types[c.Fun]; tv.IsType() || tv.IsBuiltin() {
					continue
				}
				a := c.Args[0]
				if tv := r.fn.pkg.TypesInfo.Types[a]; tv.Value != nil || tv.IsNil() || tv.IsType() {
					continue
				}
				if _, tup := r.typ(a).(*types.Tuple); tup {
					continue
				}
				if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
					if _, isc := sel.X.(*ast.CallExpr); isc {
						v := r.fresh("recv")
						r.add(edit{r.off(s.Pos()), r.off(s.Pos()), v + " := " + r.txt(sel.X) + "\n"}, r.rep(sel.X, v))
						continue
					}
				}
				v := r.fresh("arg")
				r.add(edit{r.off(s.Pos()), r.off(s.Pos()), v + " := " + r.txt(a) + "\n"}, r.rep(a, v))
			}
		})
	}},
	{"return-local", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.ReturnStmt)
			if !ok || len(x.Results) != 1 {
				return
			}
			t := r.typ(x.Results[0])
			if tup, ok := t.(*types.Tuple); ok {
				var vs []string
				for i := 0; i < tup.Len(); i++ {
					vs = append(vs, r.fresh("r"))
				}
				r.add(r.rep(x, strings.Join(vs, ", ")+" := "+r.txt(x.Results[0])+"\nreturn "+strings.Join(vs, ", ")))
				return
			}
			if tv := r.fn.pkg.TypesInfo.Types[x.Results[0]]; tv.IsNil() {
				return
			}
			if tv := r.fn.pkg.TypesInfo.Types[x.Results[0]]; tv.Value != nil {
				return
			}
			v := r.fresh("r")
			r.add(r.rep(x, v+" := "+r.txt(x.Results[0])+"\nreturn "+v))
		})
	}},
	{"op-assign", func(r *refactorer) {
		r.each(func(n ast.Node) {
			switch x := n.(type) {
			case *ast.AssignStmt:
				m := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.QUO_ASSIGN: "/"}
				if o := m[x.Tok]; o != "" && pureLHS(x.Lhs[0]) {
					r.add(r.rep(x, r.txt(x.Lhs[0])+" = "+r.txt(x.Lhs[0])+" "+o+" ("+r.txt(x.Rhs[0])+")"))
				}
			case *ast.IncDecStmt:
				o := "+"
				if x.Tok == token.DEC {
					o = "-"
				}
				if pureLHS(x.X) {
					r.add(r.rep(x, r.txt(x.X)+" "+o+"= 1"))
					r.add(r.rep(x, r.txt(x.X)+" = "+r.txt(x.X)+" "+o+" 1"))
				}
			}
		})
	}},
	{"demorgan", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.BinaryExpr)
			if !ok {
				return
			}
			switch x.Op {
			case token.LAND:
				r.add(r.rep(x, "!("+negate(r, x.X)+" || "+negate(r, x.Y)+")"))
			case token.LOR:
				r.add(r.rep(x, "!("+negate(r, x.X)+" && "+negate(r, x.Y)+")"))
			}
		})
	}},
	{"flip-compare", func(r *refactorer) {
		m := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GEQ: "<=", token.GTR: "<", token.LEQ: ">="}
		m2 := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GEQ: "<", token.GTR: "<=", token.LEQ: ">"}
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.BinaryExpr)
			if !ok || m[x.Op] == "" || isFloat(r.typ(x.X)) {
				return
			}
			if pure(x.X) || pure(x.Y) {
				r.add(r.rep(x, r.txt(x.Y)+" "+m[x.Op]+" "+r.txt(x.X)))
			}
			r.add(r.rep(x, "!("+r.txt(x.X)+" "+m2[x.Op]+" "+r.txt(x.Y)+")"))
			if b, ok := r.typ(x.X).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if tv := r.fn.pkg.TypesInfo.Types[x.Y]; tv.Value != nil && b.Kind() == types.Int {
					switch x.Op {
					case token.LSS:
						r.add(r.rep(x, r.txt(x.X)+" <= "+r.txt(x.Y)+" - 1"))
					case token.GTR:
						r.add(r.rep(x, r.txt(x.X)+" >= "+r.txt(x.Y)+" + 1"))
					}
				}
			}
		})
	}},
	{"len-style", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.BinaryExpr)
			if !ok {
				return
			}
			c, ok := x.X.(*ast.CallExpr)
			if ok {
				if id, is := c.Fun.(*ast.Ident); is && id.Name == "len" && r.txt(x.Y) == "0" {
					b, str := r.typ(c.Args[0]).Underlying().(*types.Basic)
					str = str && b.Info()&types.IsString != 0
					switch x.Op {
					case token.EQL:
						r.add(r.rep(x, r.txt(c)+" < 1"))
						if str {
							r.add(r.rep(x, r.txt(c.Args[0])+` == ""`))
						}
					case token.GTR, token.NEQ:
						r.add(r.rep(x, r.txt(c)+" >= 1"))
						r.add(r.rep(x, r.txt(c)+" != 0"))
						if str {
							r.add(r.rep(x, r.txt(c.Args[0])+` != ""`))
						}
					}
				}
			}
			if r.txt(x.Y) == `""` && (x.Op == token.EQL || x.Op == token.NEQ) {
				r.add(r.rep(x, "len("+r.txt(x.X)+") "+x.Op.String()+" 0"))
			}
		})
	}},
	{"switch-if", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.SwitchStmt)
			if !ok || hasBranch(x.Body, token.BREAK, token.FALLTHROUGH) {
				return
			}
			s := "{\n"
			tag := ""
			if x.Init != nil {
				s += r.txt(x.Init) + "\n"
			}
			if x.Tag != nil {
				tag = r.fresh("tag")
				s += tag + " := " + r.txt(x.Tag) + "\n"
			}
			def := ""
			first := true
			for _, cs := range x.Body.List {
				c := cs.(*ast.CaseClause)
				b := ""
				if len(c.Body) > 0 {
					b = r.rng(c.Body[0].Pos(), c.Body[len(c.Body)-1].End())
				}
				if c.List == nil {
					def = b
					continue
				}
				var cond []string
				for _, e := range c.List {
					if tag != "" {
						cond = append(cond, tag+" == "+r.txt(e))
					} else {
						cond = append(cond, r.txt(e))
					}
				}
				if !first {
					s += " else "
				}
				first = false
				s += "if " + strings.Join(cond, " || ") + " {\n" + b + "\n}"
			}
			if def != "" {
				s += " else {\n" + def + "\n}"
			}
			r.add(r.rep(x, s+"\n}"))
		})
	}},
	{"if-switch", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, st := range l {
				x, ok := st.(*ast.IfStmt)
				if !ok || x.Init != nil || hasBranch(x, token.BREAK) {
					continue
				}
				s := "switch {\n"
				ok = true
				for x != nil {
					if x.Init != nil {
						ok = false
					}
					s += "case " + r.txt(x.Cond) + ":\n" + r.body(x.Body) + "\n"
					switch e := x.Else.(type) {
					case *ast.IfStmt:
						x = e
						continue
					case *ast.BlockStmt:
						s += "default:\n" + r.body(e) + "\n"
					}
					break
				}
				if ok {
					r.add(r.rep(st, s+"}"))
				}
			}
		})
	}},
	{"split-and", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.IfStmt)
			if !ok {
				return
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if !ok {
				return
			}
			if b.Op == token.LAND && x.Else == nil {
				r.add(r.rep(b, r.txt(b.X)), r.rep(x.Body, "{\nif "+r.txt(b.Y)+" "+r.txt(x.Body)+"\n}"))
			}
			if b.Op == token.LOR && x.Else == nil && x.Init == nil && terminates(x.Body.List) {
				r.add(r.rep(x, "if "+r.txt(b.X)+" "+r.txt(x.Body)+"\nif "+r.txt(b.Y)+" "+r.txt(x.Body)))
			}
			if b.Op == token.LOR && x.Else == nil && x.Init == nil {
				r.add(r.rep(x, "if "+r.txt(b.X)+" "+r.txt(x.Body)+" else if "+r.txt(b.Y)+" "+r.txt(x.Body)))
			}
		})
	}},
	{"merge-nested-if", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.IfStmt)
			if !ok || x.Else != nil || len(x.Body.List) != 1 {
				return
			}
			y, ok := x.Body.List[0].(*ast.IfStmt)
			if !ok || y.Else != nil || y.Init != nil {
				return
			}
			r.add(r.rep(x.Cond, "("+r.txt(x.Cond)+") && ("+r.txt(y.Cond)+")"), r.rep(x.Body, r.txt(y.Body)))
		})
	}},
	{"swap-stmts", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for i := 0; i+1 < len(l); i++ {
				a, b := l[i], l[i+1]
				if r.independent(a, b) {
					r.add(r.rep(a, r.txt(b)), r.rep(b, r.txt(a)))
				}
			}
		})
	}},
	{"noop", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, p ast.Node) {
			if len(l) == 0 {
				return
			}
			v := r.fresh("n")
			at := r.off(l[0].Pos())
			r.add(edit{at, at, v + " := 0\n" + v + "++\n_ = " + v + "\n"})
			r.add(edit{at, at, "_ = len(\"x\")\n"})
			if _, ok := p.(*ast.BlockStmt); ok {
				r.add(edit{at, at, "if false {\npanic(\"x\")\n}\n"})
			}
		})
	}},
	{"closure-local", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				e, ok := s.(*ast.ExprStmt)
				if !ok {
					continue
				}
				c, ok := e.X.(*ast.CallExpr)
				if !ok {
					continue
				}
				for _, a := range c.Args {
					if fl, ok := a.(*ast.FuncLit); ok {
						v := r.fresh("f")
						r.add(edit{r.off(s.Pos()), r.off(s.Pos()), v + " := " + r.txt(fl) + "\n"}, r.rep(fl, v))
					}
				}
			}
		})
	}},
	{"wrap-closure", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				switch s.(type) {
				case *ast.IfStmt, *ast.ExprStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
				default:
					continue
				}
				if hasReturn(s) || hasBranch(s, token.BREAK, token.CONTINUE, token.GOTO, token.FALLTHROUGH) {
					if _, f := s.(*ast.ForStmt); !f {
						if _, f := s.(*ast.RangeStmt); !f || hasReturn(s) {
							continue
						}
					} else if hasReturn(s) {
						continue
					}
				}
				r.add(r.rep(s, "func() {\n"+r.txt(s)+"\n}()"))
			}
		})
	}},
	{"helper-expr", func(r *refactorer) {
		r.each(func(n ast.Node) {
			e, ok := n.(ast.Expr)
			if !ok {
				return
			}
			switch x := e.(type) {
			case *ast.BinaryExpr:
			case *ast.CallExpr:
				tv := r.fn.pkg.TypesInfo.Types[x.Fun]
				if tv.IsType() || tv.IsBuiltin() {
					return
				}
			default:
				return
			}
			tv := r.fn.pkg.TypesInfo.Types[e]
			if tv.Value != nil || tv.IsVoid() {
				return
			}
			t := tv.Type
			if _, tup := t.(*types.Tuple); tup {
				return
			}
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedBool {
				t = types.Typ[types.Bool]
			}
			r.helper(e, "return "+r.txt(e), t, r.rep)
		})
	}},
	{"helper-stmts", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, p ast.Node) {
			for i := range l {
				for _, n := range []int{1, 2, 3} {
					if i+n <= len(l) {
						r.helperStmts(l[i:i+n], l[i+n:])
					}
				}
			}
			if len(l) > 3 {
				r.helperStmts(l, nil)
			}
		})
	}},
	{"split-append", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Rhs) != 1 || len(a.Lhs) != 1 {
					continue
				}
				c, ok := a.Rhs[0].(*ast.CallExpr)
				if !ok || len(c.Args) < 3 || c.Ellipsis.IsValid() {
					continue
				}
				id, ok := c.Fun.(*ast.Ident)
				if !ok || id.Name != "append" || r.txt(c.Args[0]) != r.txt(a.Lhs[0]) {
					continue
				}
				var ss []string
				for _, x := range c.Args[1:] {
					ss = append(ss, r.txt(a.Lhs[0])+" = append("+r.txt(a.Lhs[0])+", "+r.txt(x)+")")
				}
				r.add(r.rep(s, strings.Join(ss, "\n")))
			}
		})
	}},
	{"split-concat", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.ADD_ASSIGN {
					continue
				}
				b, ok := a.Rhs[0].(*ast.BinaryExpr)
				if !ok || b.Op != token.ADD {
					continue
				}
				if _, isid := a.Lhs[0].(*ast.Ident); !isid || r.idents(b)[r.obj(a.Lhs[0].(*ast.Ident))] {
					continue
				}
				if bt, ok := r.typ(b).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
					r.add(r.rep(s, r.txt(a.Lhs[0])+" += "+r.txt(b.X)+"\n"+r.txt(a.Lhs[0])+" += "+r.txt(b.Y)))
				}
			}
		})
	}},
	{"sprintf", func(r *refactorer) {
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) < 2 {
				return
			}
			switch r.txt(c.Fun) {
			case "fmt.Fprintf":
				r.add(r.rep(c, "fmt.Fprint("+r.txt(c.Args[0])+", fmt.Sprintf("+r.rng(c.Args[1].Pos(), c.End()-1)+"))"))
			case "fmt.Fprintln":
				if len(c.Args) == 2 {
					r.add(r.rep(c, "fmt.Fprintf("+r.txt(c.Args[0])+", \"%v\\n\", "+r.txt(c.Args[1])+")"))
				}
			}
		})
	}},
	{"err-return", func(r *refactorer) {
		r.each(func(n ast.Node) {
			x, ok := n.(*ast.ReturnStmt)
			if !ok || len(x.Results) != 1 || r.fn.fd.Type.Results == nil {
				return
			}
			c, ok := x.Results[0].(*ast.CallExpr)
			if !ok || types.TypeString(r.typ(c), nil) != "error" {
				return
			}
			v := r.fresh("err")
			r.add(r.rep(x, "if "+v+" := "+r.txt(c)+"; "+v+" != nil {\nreturn "+v+"\n}\nreturn nil"))
		})
		r.lists(func(l []ast.Stmt, _ ast.Node) { // if err != nil {return err}; return nil
			for i := 0; i+1 < len(l); i++ {
				x, ok := l[i].(*ast.IfStmt)
				y, ok2 := l[i+1].(*ast.ReturnStmt)
				if !ok || !ok2 || x.Init != nil || x.Else != nil || len(x.Body.List) != 1 || len(y.Results) != 1 || r.txt(y.Results[0]) != "nil" {
					continue
				}
				z, ok := x.Body.List[0].(*ast.ReturnStmt)
				if ok && len(z.Results) == 1 && r.txt(x.Cond) == r.txt(z.Results[0])+" != nil" {
					r.add(edit{r.off(x.Pos()), r.off(y.End()), r.txt(z)})
				}
			}
		})
	}},
	{"var-decl", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
					r.add(r.rep(a, "var "+r.txt(a.Lhs[0])+" = "+r.txt(a.Rhs[0])))
					if ts, ok := r.typeStr(r.typ(a.Lhs[0])); ok && r.fn.pkg.TypesInfo.Defs[a.Lhs[0].(*ast.Ident)] != nil {
						if !r.idents(a.Rhs[0])[r.obj(a.Lhs[0].(*ast.Ident))] && !shadows(r, a) {
							r.add(r.rep(a, "var "+r.txt(a.Lhs[0])+" "+ts+"\n"+r.txt(a.Lhs[0])+" = "+r.txt(a.Rhs[0])))
						}
					}
				}
				if d, ok := s.(*ast.DeclStmt); ok {
					g := d.Decl.(*ast.GenDecl)
					if g.Tok == token.VAR && len(g.Specs) == 1 {
						vs := g.Specs[0].(*ast.ValueSpec)
						if len(vs.Names) == 1 && len(vs.Values) == 0 {
							switch t := r.typ(vs.Names[0]).Underlying().(type) {
							case *types.Basic:
								z := "0"
								if t.Info()&types.IsString != 0 {
									z = `""`
								} else if t.Info()&types.IsBoolean != 0 {
									z = "false"
								}
								r.add(r.rep(s, vs.Names[0].Name+" := "+r.txt(vs.Type)+"("+z+")"))
							case *types.Slice, *types.Map, *types.Pointer:
								r.add(r.rep(s, "var "+vs.Names[0].Name+" "+r.txt(vs.Type)+" = nil"))
							}
						}
					}
				}
			}
		})
	}},
	{"split-multi", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Lhs) != len(a.Rhs) || len(a.Lhs) < 2 {
					continue
				}
				if a.Tok != token.DEFINE {
					continue
				}
				ok = true
				var ss []string
				for i := range a.Lhs {
					id, is := a.Lhs[i].(*ast.Ident)
					if !is || r.fn.pkg.TypesInfo.Defs[id] == nil {
						ok = false
						break
					}
					for j := range a.Rhs {
						for o := range r.idents(a.Rhs[j]) {
							if o.Name() == id.Name {
								ok = false
							}
						}
					}
					ss = append(ss, id.Name+" := "+r.txt(a.Rhs[i]))
				}
				if ok {
					r.add(r.rep(s, strings.Join(ss, "\n")))
				}
			}
		})
	}},
	{"ifassign", func(r *refactorer) { // x := a; if c {x = b} -> var x; if c {x = b} else {x = a}
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for i := 0; i+1 < len(l); i++ {
				a, ok := l[i].(*ast.AssignStmt)
				x, ok2 := l[i+1].(*ast.IfStmt)
				if !ok || !ok2 || a.Tok != token.DEFINE || len(a.Lhs) != 1 || x.Init != nil || x.Else != nil || len(x.Body.List) != 1 {
					continue
				}
				b, ok := x.Body.List[0].(*ast.AssignStmt)
				if !ok || b.Tok != token.ASSIGN || len(b.Lhs) != 1 || r.txt(b.Lhs[0]) != r.txt(a.Lhs[0]) || !pure(a.Rhs[0]) {
					continue
				}
				id := a.Lhs[0].(*ast.Ident)
				if r.idents(x.Cond)[r.obj(id)] || r.idents(b.Rhs[0])[r.obj(id)] {
					continue
				}
				ts, ok := r.typeStr(r.typ(id))
				if ok {
					r.add(edit{r.off(a.Pos()), r.off(x.End()), "var " + id.Name + " " + ts + "\nif " + r.txt(x.Cond) + " " + r.txt(x.Body) + " else {\n" + id.Name + " = " + r.txt(a.Rhs[0]) + "\n}"})
				}
			}
		})
	}},
	{"inline-local", func(r *refactorer) { // x := e; S(x) with x used once, first thing evaluated
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for i := 0; i+1 < len(l); i++ {
				a, ok := l[i].(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
					continue
				}
				id := a.Lhs[0].(*ast.Ident)
				o := r.obj(id)
				var uses []*ast.Ident
				for u, d := range r.fn.pkg.TypesInfo.Uses {
					if d == o {
						uses = append(uses, u)
					}
				}
				if len(uses) != 1 || uses[0].Pos() < l[i+1].Pos() || uses[0].End() > l[i+1].End() {
					continue
				}
				switch l[i+1].(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					continue
				}
				in := false
				ast.Inspect(l[i+1], func(n ast.Node) bool {
					switch n.(type) {
					case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
						if n.Pos() <= uses[0].Pos() && uses[0].End() <= n.End() {
							in = true
						}
					}
					return true
				})
				if in || !pure(a.Rhs[0]) {
					continue
				}
				asg := r.assigned(l[i+1])
				bad := asg[o]
				for q := range r.idents(a.Rhs[0]) {
					if asg[q] {
						bad = true
					}
				}
				if !bad {
					r.add(edit{r.off(a.Pos()), r.off(a.End()), ""}, r.rep(uses[0], "("+r.txt(a.Rhs[0])+")"))
				}
			}
		})
	}},
	{"mapcomma", func(r *refactorer) { // v := m[k] -> v, ok := m[k]; _ = ok
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
					continue
				}
				ix, ok := a.Rhs[0].(*ast.IndexExpr)
				if !ok {
					continue
				}
				if _, ok := r.typ(ix.X).Underlying().(*types.Map); ok {
					v := r.fresh("ok")
					r.add(r.rep(a, r.txt(a.Lhs[0])+", "+v+" := "+r.txt(ix)+"\n_ = "+v))
				}
			}
		})
	}},
}

func shadows(r *refactorer, a *ast.AssignStmt) bool {
	n := a.Lhs[0].(*ast.Ident).Name
	for o := range r.idents(a.Rhs[0]) {
		if o.Name() == n {
			return true
		}
	}
	return false
}

func pureLHS(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pureLHS(x.X)
	case *ast.IndexExpr:
		return pureLHS(x.X) && pure(x.Index)
	}
	return false
}

// independent: two simple statements whose order cannot matter.
func (r *refactorer) independent(a, b ast.Stmt) bool {
	info := func(s ast.Stmt) (def, use map[types.Object]bool, ok bool) {
		switch x := s.(type) {
		case *ast.AssignStmt:
			def, use = map[types.Object]bool{}, map[types.Object]bool{}
			for _, l := range x.Lhs {
				id, is := l.(*ast.Ident)
				if !is {
					return nil, nil, false
				}
				if o := r.obj(id); o != nil {
					if o.Parent() == r.fn.pkg.Types.Scope() {
						return nil, nil, false
					}
					def[o] = true
					if x.Tok != token.DEFINE && x.Tok != token.ASSIGN {
						use[o] = true
					}
				}
			}
			for _, e := range x.Rhs {
				if !pure(e) && !r.pureCalls(e) {
					return nil, nil, false
				}
				for o := range r.idents(e) {
					use[o] = true
				}
			}
			return def, use, true
		case *ast.DeclStmt:
			def, use = map[types.Object]bool{}, map[types.Object]bool{}
			g := x.Decl.(*ast.GenDecl)
			if g.Tok != token.VAR {
				return nil, nil, false
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					return nil, nil, false
				}
				for _, n := range vs.Names {
					def[r.obj(n)] = true
				}
			}
			return def, use, true
		case *ast.IncDecStmt:
			id, is := x.X.(*ast.Ident)
			if !is {
				return nil, nil, false
			}
			m := map[types.Object]bool{r.obj(id): true}
			return m, m, true
		}
		return nil, nil, false
	}
	d1, u1, ok1 := info(a)
	d2, u2, ok2 := info(b)
	if !ok1 || !ok2 {
		return false
	}
	for o := range d1 {
		if d2[o] || u2[o] {
			return false
		}
	}
	for o := range d2 {
		if u1[o] {
			return false
		}
	}
	// := may reuse names
	return true
}

// pureCalls: only calls to constructors without side effects
func (r *refactorer) pureCalls(e ast.Expr) bool {
	p := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			switch r.txt(x.Fun) {
			case "make", "len", "new", "coin.NewZeroAmount", "NewZeroAmount", "regexp.MustCompile", "strings.TrimSpace":
			default:
				p = false
			}
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.FuncLit:
			p = false
		}
		return true
	})
	return p
}

func (r *refactorer) helper(n ast.Node, body string, res types.Type, rep func(ast.Node, string) edit) {
	rs, ok := r.typeStr(res)
	if !ok {
		return
	}
	var ps, as []string
	asg := r.assigned(n)
	for _, v := range r.free(n) {
		ts, ok := r.typeStr(v.Type())
		if !ok || asg[v] {
			return
		}
		ps = append(ps, v.Name()+" "+ts)
		as = append(as, v.Name())
	}
	if !r.tailOK(n) {
		return
	}
	h := r.fresh("helper")
	r.tailed("\nfunc "+h+"("+strings.Join(ps, ", ")+") "+rs+" {\n"+body+"\n}\n", rep(n, h+"("+strings.Join(as, ", ")+")"))
}

// tailOK: no function-local types or constants used.
func (r *refactorer) tailOK(n ast.Node) bool {
	ok := true
	ast.Inspect(n, func(x ast.Node) bool {
		if id, is := x.(*ast.Ident); is {
			o := r.fn.pkg.TypesInfo.Uses[id]
			switch o.(type) {
			case *types.TypeName, *types.Const:
				if o.Parent() != r.fn.pkg.Types.Scope() && o.Pkg() == r.fn.pkg.Types && !(n.Pos() <= o.Pos() && o.Pos() < n.End()) {
					ok = false
				}
			}
		}
		return true
	})
	return ok
}

type stmtRange struct{ a, b ast.Stmt }

func (s stmtRange) Pos() token.Pos { return s.a.Pos() }
func (s stmtRange) End() token.Pos { return s.b.End() }

// helperStmts moves a run of statements into a new function that returns
// the variables it assigns and that are used later.
func (r *refactorer) helperStmts(l []ast.Stmt, rest []ast.Stmt) {
	for _, s := range l {
		if hasReturn(s) || hasBranch(s, token.BREAK, token.CONTINUE, token.GOTO, token.FALLTHROUGH) {
			return
		}
		switch s.(type) {
		case *ast.DeferStmt, *ast.LabeledStmt, *ast.ReturnStmt, *ast.BranchStmt:
			return
		}
		if hasDefer(s) {
			return
		}
	}
	blk := &ast.BlockStmt{Lbrace: l[0].Pos(), List: l, Rbrace: l[len(l)-1].End() - 1}
	if !r.tailOK(blk) {
		return
	}
	asg := r.assigned(blk)
	lo, hi := l[0].Pos(), l[len(l)-1].End()
	var ps, as []string
	var rets []*types.Var
	inner := map[*types.Var]bool{}
	for _, v := range r.free(blk) {
		if lo <= v.Pos() && v.Pos() < hi {
			continue
		}
		ts, ok := r.typeStr(v.Type())
		if !ok {
			return
		}
		ps = append(ps, v.Name()+" "+ts)
		as = append(as, v.Name())
		if asg[v] {
			// value semantics of a copy: only plain assignments
			if _, st := v.Type().Underlying().(*types.Struct); st {
				return
			}
			rets = append(rets, v)
		}
	}
	for _, v := range r.free(blk) {
		// an object with identity is not copied
		if t := types.TypeString(v.Type(), nil); t == "strings.Builder" || t == "bytes.Buffer" {
			return
		}
	}
	// captured by closures elsewhere: give up when assigned
	for _, v := range rets {
		if r.capturedVar(v) {
			return
		}
	}
	// variables defined here and used after
	for id, o := range r.fn.pkg.TypesInfo.Uses {
		v, ok := o.(*types.Var)
		if ok && lo <= v.Pos() && v.Pos() < hi && (id.Pos() >= hi || id.Pos() < lo) && !v.IsField() {
			if !inner[v] {
				inner[v] = true
				rets = append(rets, v)
				if r.capturedVar(v) {
					return
				}
			}
		}
	}
	if len(rets) > 2 {
		return
	}
	for _, v := range rets {
		if t := types.TypeString(v.Type(), nil); t == "strings.Builder" || t == "bytes.Buffer" {
			return
		}
	}
	sort.Slice(rets, func(i, j int) bool { return rets[i].Pos() < rets[j].Pos() })
	var rt, rn []string
	def := false
	for _, v := range rets {
		ts, ok := r.typeStr(v.Type())
		if !ok {
			return
		}
		rt = append(rt, ts)
		rn = append(rn, v.Name())
		if inner[v] {
			def = true
		}
	}
	if def {
		for _, v := range rets {
			if !inner[v] && v.Parent() != r.scopeOf(l[0]) {
				return
			}
		}
	}
	h := r.fresh("helper")
	call := h + "(" + strings.Join(as, ", ") + ")"
	body := r.rng(lo, hi)
	sig := "\nfunc " + h + "(" + strings.Join(ps, ", ") + ") "
	if len(rets) > 0 {
		sig += "(" + strings.Join(rt, ", ") + ") "
		body += "\nreturn " + strings.Join(rn, ", ")
		op := " = "
		if def {
			op = " := "
		}
		call = strings.Join(rn, ", ") + op + call
	}
	r.tailed(sig+"{\n"+body+"\n}\n", edit{r.off(lo), r.off(hi), call})
}

func (r *refactorer) scopeOf(s ast.Stmt) *types.Scope {
	return r.fn.pkg.Types.Scope().Innermost(s.Pos())
}

func (r *refactorer) capturedVar(v *types.Var) bool {
	c := false
	ast.Inspect(r.fn.fd.Body, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok && !(fl.Pos() <= v.Pos() && v.Pos() < fl.End()) {
			if r.idents(fl)[v] {
				c = true
			}
		}
		if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if id, ok := u.X.(*ast.Ident); ok && r.obj(id) == v {
				c = true
			}
		}
		return true
	})
	return c
}

func hasDefer(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.DeferStmt); ok {
			f = true
		}
		return true
	})
	return f
}

func applyEdits(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].a < es[j].a })
	var out []byte
	at := 0
	for _, e := range es {
		if e.a < at {
			panic("overlapping edits")
		}
		out = append(out, src[at:e.a]...)
		out = append(out, e.s...)
		at = e.b
	}
	return append(out, src[at:]...)
}

// runRefac applies, one kind and site index at a time, a rewrite to every
// function that has such a site and reports the functions the checks then
// reject. Environment: KIND, FUNC restrict; SHOW prints the rewritten text.
func runRefac(repo, spec string) {
	w, err := loadWorld(repo, spec)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	all := readLines(filepath.Join(spec, "OBLIGATIONS"))
	var fns []*rfunc
	srcs := map[string][]byte{}
	for _, p := range w.Pkgs {
		for _, f := range p.Syntax {
			file := w.Fset.Position(f.Pos()).Filename
			if strings.HasPrefix(filepath.Base(file), specFilePrefix) {
				continue
			}
			b, _ := os.ReadFile(file)
			srcs[file] = b
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fo, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if fo == nil {
					continue
				}
				n := ""
				for k, v := range w.Impl {
					if v.Pos() == fo.Pos() {
						n = k
					}
				}
				if w.Specs[n] == nil {
					continue
				}
				fns = append(fns, &rfunc{name: n, file: file, fd: fd, pkg: p, syn: f, src: b})
			}
		}
	}
	ln := 160
	if os.Getenv("LONG") != "" {
		fmt.Sscan(os.Getenv("LONG"), &ln)
	}
	kinds := os.Getenv("KIND")
	only := os.Getenv("FUNC")
	total, alarms, broken := 0, 0, 0
	t0 := time.Now()
	for _, k := range rkinds {
		if kinds != "" && !strings.Contains(","+kinds+",", ","+k.name+",") {
			continue
		}
		sites := map[*rfunc][]rsite{}
		max := 0
		uid := 0
		for _, f := range fns {
			if only != "" && only != f.name {
				continue
			}
			r := &refactorer{w: w, fn: f, uid: uid}
			k.f(r)
			uid = r.uid
			sites[f] = r.out
			if len(r.out) > max {
				max = len(r.out)
			}
		}
		lim := 1 << 30
		if m := os.Getenv("MAXSITES"); m != "" {
			fmt.Sscan(m, &lim)
		}
		for i := 0; i < max && i < lim; i++ {
			if only := os.Getenv("SITE"); only != "" && only != fmt.Sprint(i) {
				continue
			}
			cur := map[*rfunc]rsite{}
			for f, s := range sites {
				if i < len(s) {
					cur[f] = s[i]
				}
			}
			for try := 0; try < 12; try++ {
				extraOverlay = map[string][]byte{}
				per := map[string][]edit{}
				tails := map[string]string{}
				for _, f := range fns {
					s, ok := cur[f]
					if !ok {
						continue
					}
					per[f.file] = append(per[f.file], s.edits...)
					tails[f.file] += s.tail
					for _, m := range s.more {
						per[m.file] = append(per[m.file], m.e)
					}
				}
				for file, es := range per {
					extraOverlay[file] = append(applyEdits(srcs[file], es), tails[file]...)
				}
				if d := os.Getenv("WRITE"); d != "" { // leave the rewritten files in a copy of the tree
					for file, b := range extraOverlay {
						if rel, err := filepath.Rel(repo, file); err == nil {
							os.WriteFile(filepath.Join(d, rel), b, 0o644)
						}
					}
				}
				initStates = map[*ssa.Package]*initState{}
				w2, err := loadWorld(repo, spec)
				if err != nil {
					// drop the functions that no longer compile
					dropped := false
					for f := range cur {
						delete(extraOverlay, "")
						if strings.Contains(err.Error(), filepath.Base(f.file)) {
							if r := compiles(w, f, cur[f], srcs); !r {
								delete(cur, f)
								broken++
								dropped = true
								if os.Getenv("BROKEN") != "" {
									fmt.Println("BROKEN", k.name, i, f.name)
								}
							}
						}
					}
					if !dropped {
						fmt.Println("??", k.name, i, clip(err.Error(), 300))
						break
					}
					continue
				}
				c := newChecker(w2, all)
				if os.Getenv("MAXLEVEL") != "" {
					fmt.Sscan(os.Getenv("MAXLEVEL"), &c.max)
				}
				c.quick = true
				var names []*rfunc
				for f := range cur {
					names = append(names, f)
				}
				sort.Slice(names, func(a, b int) bool { return names[a].name < names[b].name })
				for _, f := range names {
					total++
					t := time.Now()
					if os.Getenv("TRACE") != "" {
						fmt.Println("..", k.name, i, f.name)
					}
					o := c.decide(f.name)
					if d := time.Since(t); d > 20*time.Second {
						fmt.Printf("SLOW %s#%d %s %v\n", k.name, i, f.name, d.Round(time.Second))
					}
					if mut := strings.HasPrefix(k.name, "mut-"); mut {
						if o.How != "" {
							alarms++
							fmt.Printf("SURVIVES %s#%d %s (%s)\n", k.name, i, f.name, o.How)
							for _, e := range cur[f].edits {
								p := w.Fset.File(f.fd.Pos()).Pos(e.a)
								fmt.Printf("   %s  %s  =>  %s\n", w.pos(p), clip(string(f.src[e.a:e.b]), 200), clip(e.s, 200))
							}
						}
						continue
					}
					if o.How == "" {
						alarms++
						what := ""
						if len(o.Diffs) > 0 {
							what = o.Diffs[0].What
						}
						fmt.Printf("ALARM %s#%d %s: %s\n", k.name, i, f.name, clip(what, ln))
						if os.Getenv("SHOW") != "" {
							for _, e := range cur[f].edits {
								fmt.Printf("   - %s\n   + %s\n", clip(string(f.src[e.a:e.b]), 300), clip(e.s, 600))
							}
							fmt.Println(cur[f].tail)
						}
					}
				}
				break
			}
		}
		fmt.Printf("== %s: up to %d sites; so far %d variants, %d alarms, %d not compiling, %v\n", k.name, max, total, alarms, broken, time.Since(t0).Round(time.Second))
	}
	extraOverlay = nil
}

// compiles type-checks one package with a single function rewritten.
func compiles(w *World, f *rfunc, s rsite, srcs map[string][]byte) bool {
	ov := map[string][]byte{f.file: append(applyEdits(srcs[f.file], append([]edit{}, s.edits...)), s.tail...)}
	for _, file := range []string{f.file} {
		if embedRE.Match(ov[file]) {
			ov[file] = embedRE.ReplaceAll(ov[file], []byte("//"))
		}
	}
	cfg := &packages.Config{Mode: packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles, Dir: w.Repo, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, f.pkg.PkgPath)
	if err != nil || len(ps) == 0 {
		return false
	}
	for _, e := range ps[0].Errors {
		if !strings.Contains(e.Msg, "embed") && !strings.Contains(e.Msg, "pattern") {
			return false
		}
	}
	return true
}
