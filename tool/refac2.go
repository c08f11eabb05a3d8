package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// More behaviour-preserving rewrites, used to look for false alarms.

type fileEdit struct {
	file string
	e    edit
}

func (r *refactorer) imports(path string) bool {
	for _, is := range r.fn.syn.Imports {
		if strings.Trim(is.Path.Value, `"`) == path && is.Name == nil {
			return true
		}
	}
	return false
}

func (r *refactorer) isString(e ast.Expr) bool {
	b, ok := r.typ(e).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func init() {
	rkinds = append(rkinds, rkinds2...)
}

var rkinds2 = []rkind{
	{"rename-func", func(r *refactorer) {
		fd := r.fn.fd
		n := fd.Name.Name
		if token.IsExported(n) || n == "init" || n == "main" || dispatched[n] {
			return
		}
		o := r.fn.pkg.TypesInfo.Defs[fd.Name]
		nn := r.fresh(n)
		s := rsite{}
		for id, d := range r.fn.pkg.TypesInfo.Uses {
			if d == o {
				s.more = append(s.more, fileEdit{r.w.Fset.Position(id.Pos()).Filename, edit{r.off(id.Pos()), r.off(id.End()), nn}})
			}
		}
		s.more = append(s.more, fileEdit{r.fn.file, edit{r.off(fd.Name.Pos()), r.off(fd.Name.End()), nn}})
		r.out = append(r.out, s)
	}},
	{"rename-fields", func(r *refactorer) { // receiver and parameters
		names := map[types.Object]string{}
		for _, l := range []*ast.FieldList{r.fn.fd.Recv, r.fn.fd.Type.Params} {
			if l == nil {
				continue
			}
			for _, f := range l.List {
				for _, id := range f.Names {
					if o := r.obj(id); o != nil && id.Name != "_" {
						names[o] = r.fresh(id.Name)
					}
				}
			}
		}
		var es []edit
		ast.Inspect(r.fn.fd, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && names[r.obj(id)] != "" {
				es = append(es, r.rep(id, names[r.obj(id)]))
			}
			return true
		})
		if len(es) > 0 {
			r.add(es...)
		}
	}},
	{"name-results", func(r *refactorer) {
		rs := r.fn.fd.Type.Results
		if rs == nil || len(rs.List) == 0 || len(rs.List[0].Names) > 0 {
			return
		}
		var ns []string
		for _, f := range rs.List {
			ns = append(ns, r.fresh("res")+" "+r.txt(f.Type))
		}
		a, b := rs.Pos(), rs.End()
		if !rs.Opening.IsValid() {
			r.add(edit{r.off(a), r.off(b), "(" + ns[0] + ")"})
			return
		}
		r.add(edit{r.off(a), r.off(b), "(" + strings.Join(ns, ", ") + ")"})
	}},
	{"bare-return", func(r *refactorer) {
		rs := r.fn.fd.Type.Results
		if rs == nil || len(rs.List) == 0 || len(rs.List[0].Names) > 0 {
			return
		}
		var ns, vs []string
		for _, f := range rs.List {
			v := r.fresh("res")
			vs = append(vs, v)
			ns = append(ns, v+" "+r.txt(f.Type))
		}
		es := []edit{{r.off(rs.Pos()), r.off(rs.End()), "(" + strings.Join(ns, ", ") + ")"}}
		ast.Inspect(r.fn.fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					es = append(es, r.rep(x, "{\n"+strings.Join(vs, ", ")+" = "+r.rng(x.Results[0].Pos(), x.End())+"\nreturn\n}"))
				}
			}
			return true
		})
		r.add(es...)
	}},
	{"lit-fields", func(r *refactorer) { // x := &T{A: a} -> x := &T{}; x.A = a
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
					continue
				}
				e := a.Rhs[0]
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e = u.X
				}
				c, ok := e.(*ast.CompositeLit)
				if !ok || len(c.Elts) == 0 {
					continue
				}
				if _, ok := r.typ(c).Underlying().(*types.Struct); !ok {
					continue
				}
				es := []edit{r.rep(c, r.txt(c.Type)+"{}")}
				tail := ""
				for _, el := range c.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						tail = ""
						break
					}
					if _, ok := kv.Value.(*ast.CompositeLit); ok && kv.Value.(*ast.CompositeLit).Type == nil {
						tail = ""
						break
					}
					tail += "\n" + r.txt(a.Lhs[0]) + "." + r.txt(kv.Key) + " = " + r.txt(kv.Value)
				}
				if tail == "" {
					continue
				}
				es = append(es, edit{r.off(a.End()), r.off(a.End()), tail})
				r.add(es...)
			}
		})
	}},
	{"ret-lit", func(r *refactorer) { // return &T{..} -> x := &T{..}; return x
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.ReturnStmt)
				if !ok || len(a.Results) == 0 {
					continue
				}
				e := a.Results[0]
				u, ok := e.(*ast.UnaryExpr)
				if !ok || u.Op != token.AND {
					continue
				}
				c, ok := u.X.(*ast.CompositeLit)
				if !ok {
					continue
				}
				x := r.fresh("lit")
				body := x + " := new(" + r.txt(c.Type) + ")\n"
				good := true
				for _, el := range c.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						good = false
						break
					}
					if cl, ok := kv.Value.(*ast.CompositeLit); ok && cl.Type == nil {
						good = false
						break
					}
					body += x + "." + r.txt(kv.Key) + " = " + r.txt(kv.Value) + "\n"
				}
				if !good {
					continue
				}
				r.add(edit{r.off(a.Pos()), r.off(a.Pos()), body}, r.rep(u, x))
			}
		})
	}},
	{"contains-index", func(r *refactorer) {
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) != 2 {
				return
			}
			switch r.txt(c.Fun) {
			case "strings.Contains", "bytes.Contains":
				r.add(r.rep(c, "("+strings.TrimSuffix(r.txt(c.Fun), "Contains")+"Index("+r.txt(c.Args[0])+", "+r.txt(c.Args[1])+") >= 0)"))
			case "strings.Split":
				r.add(r.rep(c, "strings.SplitN("+r.txt(c.Args[0])+", "+r.txt(c.Args[1])+", -1)"))
			case "strings.HasPrefix":
				if pure(c.Args[0]) {
					if s, ok := strLit(c.Args[1]); ok {
						k := strconv.Itoa(len(s))
						r.add(r.rep(c, "(len("+r.txt(c.Args[0])+") >= "+k+" && "+r.txt(c.Args[0])+"[:"+k+"] == "+r.txt(c.Args[1])+")"))
					}
				}
			}
			if r.txt(c.Fun) == "strings.ReplaceAll" || r.txt(c.Fun) == "strings.Replace" {
				return
			}
		})
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if ok && len(c.Args) == 3 && r.txt(c.Fun) == "strings.ReplaceAll" {
				r.add(r.rep(c, "strings.Replace("+r.rng(c.Args[0].Pos(), c.Args[2].End())+", -1)"))
			}
			if ok && len(c.Args) == 4 && r.txt(c.Fun) == "strings.Replace" && r.txt(c.Args[3]) == "-1" {
				r.add(r.rep(c, "strings.ReplaceAll("+r.rng(c.Args[0].Pos(), c.Args[2].End())+")"))
			}
		})
	}},
	{"concat-sprintf", func(r *refactorer) {
		if !r.imports("fmt") {
			return
		}
		r.each(func(n ast.Node) {
			b, ok := n.(*ast.BinaryExpr)
			if !ok || b.Op != token.ADD || r.fn.pkg.TypesInfo.Types[b].Value != nil {
				return
			}
			if t, ok := r.typ(b).(*types.Basic); !ok || t.Kind() != types.String {
				return
			}
			r.add(r.rep(b, "fmt.Sprintf(\"%s%s\", "+r.txt(b.X)+", "+r.txt(b.Y)+")"))
			r.add(r.rep(b, "strings.Join([]string{"+r.txt(b.X)+", "+r.txt(b.Y)+"}, \"\")"))
		})
	}},
	{"sprintf-concat", func(r *refactorer) {
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) < 2 || r.txt(c.Fun) != "fmt.Sprintf" {
				return
			}
			f, ok := strLit(c.Args[0])
			if !ok || strings.Count(f, "%") != strings.Count(f, "%s") || strings.Count(f, "%s") != len(c.Args)-1 {
				return
			}
			ps := strings.Split(f, "%s")
			var out []string
			for i, p := range ps {
				if p != "" {
					out = append(out, strconv.Quote(p))
				}
				if i < len(ps)-1 {
					t, ok := r.typ(c.Args[i+1]).(*types.Basic)
					if !ok || t.Info()&types.IsString == 0 {
						return
					}
					out = append(out, r.txt(c.Args[i+1]))
				}
			}
			r.add(r.rep(c, "("+strings.Join(out, " + ")+")"))
		})
	}},
	{"fprint-variants", func(r *refactorer) {
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) == 0 {
				return
			}
			args := r.rng(c.Args[0].Pos(), c.End()-1)
			switch f := r.txt(c.Fun); f {
			case "fmt.Println", "fmt.Printf", "fmt.Print":
				if r.imports("os") {
					r.add(r.rep(c, "fmt.F"+strings.ToLower(f[4:5])+f[5:]+"(os.Stdout, "+args+")"))
				}
			case "fmt.Fprintln":
				if len(c.Args) == 2 {
					r.add(r.rep(c, "fmt.Fprint("+args+", \"\\n\")"))
				}
			case "fmt.Fprint":
				if len(c.Args) == 2 && r.isString(c.Args[1]) {
					r.add(r.rep(c, "fmt.Fprintf("+r.txt(c.Args[0])+", \"%s\", "+r.txt(c.Args[1])+")"))
				}
			case "io.WriteString":
				r.add(r.rep(c, r.txt(c.Args[0])+".Write([]byte("+r.txt(c.Args[1])+"))"))
			}
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "WriteString" && r.imports("fmt") && len(c.Args) == 1 {
				if t := types.TypeString(r.typ(s.X), nil); t == "strings.Builder" {
					r.add(r.rep(c, "fmt.Fprint(&"+r.txt(s.X)+", "+args+")"))
					r.add(r.rep(c, r.txt(s.X)+".Write([]byte("+args+"))"))
				}
			}
		})
	}},
	{"make-empty", func(r *refactorer) {
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CompositeLit)
			if ok && len(c.Elts) == 0 && c.Type != nil {
				switch r.typ(c).Underlying().(type) {
				case *types.Map:
					r.add(r.rep(c, "make("+r.txt(c.Type)+")"))
				case *types.Slice:
					r.add(r.rep(c, "make("+r.txt(c.Type)+", 0, 4)"))
				}
			}
			k, ok := n.(*ast.CallExpr)
			if ok && len(k.Args) >= 1 && r.txt(k.Fun) == "make" {
				switch r.typ(k).Underlying().(type) {
				case *types.Map:
					r.add(r.rep(k, r.txt(k.Args[0])+"{}"))
				case *types.Slice:
					if len(k.Args) == 3 && r.txt(k.Args[1]) == "0" {
						r.add(r.rep(k, r.txt(k.Args[0])+"{}"))
					}
				}
			}
		})
	}},
	{"typeswitch-if", func(r *refactorer) {
		r.each(func(n ast.Node) {
			ts, ok := n.(*ast.TypeSwitchStmt)
			if !ok || ts.Init != nil {
				return
			}
			var v, x string
			switch a := ts.Assign.(type) {
			case *ast.AssignStmt:
				v = r.txt(a.Lhs[0])
				x = r.txt(a.Rhs[0].(*ast.TypeAssertExpr).X)
			case *ast.ExprStmt:
				x = r.txt(a.X.(*ast.TypeAssertExpr).X)
			}
			out := ""
			last := ""
			for _, cc := range ts.Body.List {
				c := cc.(*ast.CaseClause)
				if hasBranch(c, token.BREAK, token.FALLTHROUGH) {
					return
				}
				body := ""
				if len(c.Body) > 0 {
					body = r.rng(c.Body[0].Pos(), c.Body[len(c.Body)-1].End())
				}
				if c.List == nil {
					d := ""
					if v != "" {
						d = v + " := " + x + "\n_ = " + v + "\n"
					}
					last = " else {\n" + d + body + "\n}"
					continue
				}
				if len(c.List) != 1 || r.txt(c.List[0]) == "nil" {
					return
				}
				if out != "" {
					out += " else "
				}
				w := v
				if w == "" {
					w = "_"
				}
				use := ""
				if v != "" {
					use = "_ = " + v + "\n"
				}
				ok := r.fresh("ok")
				out += "if " + w + ", " + ok + " := " + x + ".(" + r.txt(c.List[0]) + "); " + ok + " {\n" + use + body + "\n}"
			}
			if out != "" {
				r.add(r.rep(ts, out+last))
			}
		})
	}},
	{"append-loop", func(r *refactorer) {
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Rhs) != 1 || len(a.Lhs) != 1 || a.Tok != token.ASSIGN {
					continue
				}
				c, ok := a.Rhs[0].(*ast.CallExpr)
				if !ok || r.txt(c.Fun) != "append" || !c.Ellipsis.IsValid() || len(c.Args) != 2 || r.txt(c.Args[0]) != r.txt(a.Lhs[0]) || r.isString(c.Args[1]) {
					continue
				}
				e := r.fresh("e")
				r.add(r.rep(s, "for _, "+e+" := range "+r.txt(c.Args[1])+" {\n"+r.txt(a.Lhs[0])+" = append("+r.txt(a.Lhs[0])+", "+e+")\n}"))
			}
		})
	}},
	{"len-hoist", func(r *refactorer) { // for i := 0; i < len(x); i++
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Cond == nil {
					continue
				}
				b, ok := f.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.LSS {
					continue
				}
				c, ok := b.Y.(*ast.CallExpr)
				if !ok || r.txt(c.Fun) != "len" {
					continue
				}
				id, ok := c.Args[0].(*ast.Ident)
				if !ok || r.assigned(f.Body)[r.obj(id)] {
					continue
				}
				v := r.fresh("n")
				r.add(edit{r.off(f.Pos()), r.off(f.Pos()), v + " := " + r.txt(c) + "\n"}, r.rep(c, v))
			}
		})
	}},
	{"loop-return", func(r *refactorer) { // for { if c { return v } } return d -> r := d; for { if c { r = v; break } } return r
		rs := r.fn.fd.Type.Results
		if rs == nil || rs.NumFields() != 1 {
			return
		}
		l := r.fn.fd.Body.List
		if len(l) < 2 {
			return
		}
		d, ok := l[len(l)-1].(*ast.ReturnStmt)
		if !ok || len(d.Results) != 1 {
			return
		}
		switch x := d.Results[0].(type) {
		case *ast.BasicLit:
		case *ast.Ident:
			if x.Name != "nil" && x.Name != "true" && x.Name != "false" {
				return
			}
		default:
			return
		}
		loop := l[len(l)-2]
		var body *ast.BlockStmt
		switch x := loop.(type) {
		case *ast.RangeStmt:
			body = x.Body
		case *ast.ForStmt:
			body = x.Body
		default:
			return
		}
		v := r.fresh("found")
		lab := r.fresh("Loop")
		es := []edit{{r.off(loop.Pos()), r.off(loop.Pos()), "var " + v + " " + r.txt(rs.List[0].Type) + " = " + r.txt(d.Results[0]) + "\n" + lab + ":\n"}, r.rep(d.Results[0], v)}
		n := 0
		ast.Inspect(body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				n++
				es = append(es, r.rep(y, "{\n"+v+" = "+r.txt(y.Results[0])+"\nbreak "+lab+"\n}"))
			}
			return true
		})
		if n > 0 {
			r.add(es...)
		}
	}},
	{"case-order", func(r *refactorer) { // switch on distinct constants: reverse the cases
		r.each(func(n ast.Node) {
			s, ok := n.(*ast.SwitchStmt)
			if !ok || s.Tag == nil || hasBranch(s, token.FALLTHROUGH) {
				return
			}
			var cs []string
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				for _, e := range cc.List {
					if r.fn.pkg.TypesInfo.Types[e].Value == nil {
						return
					}
				}
				end := cc.Colon + 1
				if len(cc.Body) > 0 {
					end = cc.Body[len(cc.Body)-1].End()
				}
				cs = append([]string{r.rng(cc.Pos(), end)}, cs...)
			}
			if len(cs) > 1 {
				r.add(edit{r.off(s.Body.Lbrace) + 1, r.off(s.Body.Rbrace), "\n" + strings.Join(cs, "\n") + "\n"})
			}
		})
	}},
	{"comma-ok-nil", func(r *refactorer) { // v, ok := m[k]; ok of pointers never nil is not known: only _, ok forms
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				x, ok := s.(*ast.IfStmt)
				if !ok || x.Init == nil {
					continue
				}
				// if init; cond {} -> { init; if cond {} }
				if _, isIf := s.(*ast.IfStmt); isIf {
					r.add(r.rep(s, "{\n"+r.txt(x.Init)+"\nif "+r.rng(x.Cond.Pos(), x.End())+"\n}"))
				}
			}
		})
	}},
	{"var-group", func(r *refactorer) { // a := x; b := y -> a, b := x, y
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for i := 0; i+1 < len(l); i++ {
				a, ok := l[i].(*ast.AssignStmt)
				b, ok2 := l[i+1].(*ast.AssignStmt)
				if !ok || !ok2 || a.Tok != token.DEFINE || b.Tok != token.DEFINE || len(a.Lhs) != 1 || len(b.Lhs) != 1 || len(a.Rhs) != 1 || len(b.Rhs) != 1 {
					continue
				}
				if r.idents(b.Rhs[0])[r.obj(a.Lhs[0].(*ast.Ident))] {
					continue
				}
				r.add(edit{r.off(a.Pos()), r.off(b.End()), r.txt(a.Lhs[0]) + ", " + r.txt(b.Lhs[0]) + " := " + r.txt(a.Rhs[0]) + ", " + r.txt(b.Rhs[0])})
			}
		})
	}},
	{"min-max", func(r *refactorer) { // x = max(x, e) -> if e > x { x = e }
		r.lists(func(l []ast.Stmt, _ ast.Node) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.ASSIGN || len(a.Lhs) != 1 {
					continue
				}
				c, ok := a.Rhs[0].(*ast.CallExpr)
				if !ok || len(c.Args) != 2 || r.txt(c.Fun) != "max" && r.txt(c.Fun) != "min" {
					continue
				}
				op := " > "
				if r.txt(c.Fun) == "min" {
					op = " < "
				}
				if r.txt(c.Args[0]) == r.txt(a.Lhs[0]) {
					v := r.fresh("m")
					r.add(r.rep(s, "if "+v+" := "+r.txt(c.Args[1])+"; "+v+op+r.txt(a.Lhs[0])+" {\n"+r.txt(a.Lhs[0])+" = "+v+"\n}"))
				}
			}
		})
		r.lists(func(l []ast.Stmt, _ ast.Node) { // if a > b { b = a } -> b = max(a, b)
			for _, s := range l {
				x, ok := s.(*ast.IfStmt)
				if !ok || x.Init != nil || x.Else != nil || len(x.Body.List) != 1 {
					continue
				}
				c, ok := x.Cond.(*ast.BinaryExpr)
				a, ok2 := x.Body.List[0].(*ast.AssignStmt)
				if !ok || !ok2 || a.Tok != token.ASSIGN || len(a.Lhs) != 1 {
					continue
				}
				if t, ok := r.typ(c.X).Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
					continue
				}
				f := ""
				switch {
				case (c.Op == token.GTR) && r.txt(c.X) == r.txt(a.Rhs[0]) && r.txt(c.Y) == r.txt(a.Lhs[0]):
					f = "max"
				case (c.Op == token.LSS) && r.txt(c.X) == r.txt(a.Rhs[0]) && r.txt(c.Y) == r.txt(a.Lhs[0]):
					f = "min"
				}
				if f != "" {
					r.add(r.rep(s, r.txt(a.Lhs[0])+" = "+f+"("+r.txt(c.X)+", "+r.txt(c.Y)+")"))
				}
			}
		})
	}},
	{"slices-contains", func(r *refactorer) {
		r.each(func(n ast.Node) {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return
			}
			switch r.txt(c.Fun) {
			case "sort.Strings":
				r.add(r.rep(c, "sort.Slice("+r.txt(c.Args[0])+", func(i, j int) bool { return "+r.txt(c.Args[0])+"[i] < "+r.txt(c.Args[0])+"[j] })"))
			}
		})
	}},
}

func strLit(e ast.Expr) (string, bool) {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		return "", false
	}
	return unq(b.Value)
}

func unq(s string) (string, bool) {
	u, err := strconv.Unquote(s)
	return u, err == nil
}
