package main

// Development aid: behaviour-changing rewrites of the repository's functions,
// used to see what the comparison would miss. The sites left without a
// difference are read by hand: they are either equivalent or a hole.

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

func init() {
	rkinds = append(rkinds, mutants...)
}

var mutants = []rkind{
	{"mut-cond", func(r *refactorer) {
		r.each(func(n ast.Node) {
			switch s := n.(type) {
			case *ast.IfStmt:
				r.add(r.rep(s.Cond, negate(r, s.Cond)))
			case *ast.ForStmt:
				if s.Cond != nil {
					r.add(r.rep(s.Cond, "false && ("+r.txt(s.Cond)+")"))
				}
			}
		})
	}},
	{"mut-op", func(r *refactorer) {
		m := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		r.each(func(n ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok {
				return
			}
			for _, o := range m[b.Op] {
				if b.Op == token.ADD && r.isString(b) {
					continue
				}
				r.add(edit{r.off(b.OpPos), r.off(b.OpPos) + len(b.Op.String()), o})
			}
		})
	}},
	{"mut-const", func(r *refactorer) {
		r.each(func(n ast.Node) {
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return
			}
			switch b.Kind {
			case token.INT:
				if i, err := strconv.Atoi(b.Value); err == nil {
					r.add(r.rep(b, strconv.Itoa(i+1)))
				}
			case token.STRING:
				if s, err := strconv.Unquote(b.Value); err == nil {
					r.add(r.rep(b, strconv.Quote(s+"x")))
				}
			}
		})
	}},
	{"mut-drop", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					r.add(r.rep(s, ""))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						r.add(r.rep(s, ""))
					}
				case *ast.IfStmt:
					if x.Else == nil {
						r.add(r.rep(s, ""))
					} else {
						r.add(edit{r.off(x.Body.End()), r.off(x.Else.End()), ""})
					}
				case *ast.BranchStmt:
					r.add(r.rep(s, ""))
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						r.add(r.rep(s, ""))
					}
				}
			}
		})
	}},
	{"mut-swap", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for i := 0; i+1 < len(l); i++ {
				if _, ok := l[i].(*ast.ReturnStmt); ok {
					continue
				}
				if _, ok := l[i+1].(*ast.ReturnStmt); ok {
					continue
				}
				if d, ok := l[i].(*ast.AssignStmt); ok && d.Tok == token.DEFINE {
					used := false
					for _, x := range d.Lhs {
						if id, ok := x.(*ast.Ident); ok && id.Name != "_" && r.idents(l[i+1])[r.obj(id)] {
							used = true
						}
					}
					if used {
						continue
					}
				}
				r.add(edit{r.off(l[i].Pos()), r.off(l[i+1].End()), r.txt(l[i+1]) + "\n" + r.txt(l[i])})
			}
		})
	}},
	{"mut-args", func(r *refactorer) {
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return
			}
			for i := 0; i+1 < len(c.Args); i++ {
				a, b := c.Args[i], c.Args[i+1]
				if ta, tb := r.typ(a), r.typ(b); ta == nil || tb == nil || !types.Identical(ta, tb) || r.txt(a) == r.txt(b) {
					continue
				}
				r.add(r.rep(a, r.txt(b)), r.rep(b, r.txt(a)))
			}
		})
	}},
	{"mut-field", func(r *refactorer) { // another field of the same type
		r.each(func(n ast.Node) {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return
			}
			sel := r.fn.pkg.TypesInfo.Selections[s]
			if sel == nil || sel.Kind() != types.FieldVal {
				return
			}
			t := r.typ(s.X)
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() != s.Sel.Name && types.Identical(f.Type(), sel.Type()) {
					r.add(r.rep(s.Sel, f.Name()))
					break
				}
			}
		})
	}},
	{"mut-var", func(r *refactorer) { // another variable of the same type
		seen := []*types.Var{}
		r.each(func(n ast.Node) {
			id, ok := n.(*ast.Ident)
			if !ok {
				return
			}
			if v, ok := r.fn.pkg.TypesInfo.Defs[id].(*types.Var); ok && !v.IsField() {
				seen = append(seen, v)
				return
			}
			v, ok := r.fn.pkg.TypesInfo.Uses[id].(*types.Var)
			if !ok || v.IsField() {
				return
			}
			for _, o := range seen {
				if o != v && types.Identical(o.Type(), v.Type()) && o.Parent() != nil && o.Parent().Contains(id.Pos()) && o.Name() != "_" {
					r.add(r.rep(id, o.Name()))
					break
				}
			}
			for i := 0; i < 1; i++ {
				known := false
				for _, o := range seen {
					known = known || o == v
				}
				if !known && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() {
					seen = append(seen, v)
				}
			}
		})
	}},
	{"mut-branch", func(r *refactorer) {
		r.each(func(n ast.Node) {
			if b, ok := n.(*ast.BranchStmt); ok && b.Label == nil {
				switch b.Tok {
				case token.BREAK:
					r.add(r.rep(b, "continue"))
				case token.CONTINUE:
					r.add(r.rep(b, "break"))
				}
			}
		})
	}},
	{"mut-ret", func(r *refactorer) {
		r.each(func(n ast.Node) {
			s, ok := n.(*ast.ReturnStmt)
			if !ok {
				return
			}
			for _, e := range s.Results {
				t := r.typ(e)
				if t == nil {
					continue
				}
				x := r.txt(e)
				switch u := t.Underlying().(type) {
				case *types.Basic:
					switch {
					case x == "true":
						r.add(r.rep(e, "false"))
					case x == "false":
						r.add(r.rep(e, "true"))
					case u.Info()&types.IsBoolean != 0:
						r.add(r.rep(e, "!("+x+")"))
					case u.Info()&types.IsInteger != 0:
						r.add(r.rep(e, x+"+1"))
					}
				case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
					if x != "nil" {
						r.add(r.rep(e, "nil"))
					}
				}
			}
		})
	}},
	{"mut-mapslice", func(r *refactorer) { // shared instead of copied, kept instead of updated
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return
			}
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && len(c.Args) == 0 && (s.Sel.Name == "Copy" || s.Sel.Name == "Negated" || s.Sel.Name == "Clone") {
				r.add(r.rep(c, r.txt(s.X)))
			}
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && c.Ellipsis == token.NoPos && len(c.Args) > 1 {
				r.add(r.rep(c, "append("+r.txt(c.Args[0])+"[:0], "+r.rng(c.Args[1].Pos(), c.Args[len(c.Args)-1].End())+")"))
			}
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && len(c.Args) == 1 && (s.Sel.Name == "AddIn" || s.Sel.Name == "MulIn") {
				r.add(r.rep(s.Sel, "DeductIn"))
			}
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Before" {
				r.add(r.rep(s.Sel, "After"))
			}
		})
	}},
}
