package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// genSpecs writes, for every function of the tree that has no reference yet,
// a reference skeleton to be reviewed by hand (development aid; checks never
// call it).
func genSpecs(repo, dir string, only map[string]bool) error {
	w, err := loadWorld(repo, dir)
	if err != nil {
		return err
	}
	want := func(f *types.Func) bool {
		if f.Pkg() == nil || !strings.HasPrefix(f.Pkg().Path(), modPath) {
			return false
		}
		sf := w.Prog.FuncValue(f)
		if sf == nil || sf.Blocks == nil {
			return false
		}
		n := fnName(sf)
		if strings.HasPrefix(f.Name(), "spec_") || f.Name() == "init" && f.Type().(*types.Signature).Recv() == nil {
			return false
		}
		if w.Specs[n] != nil {
			return true
		}
		if strings.HasPrefix(f.Pkg().Path(), modPath+"/assert") {
			return false
		}
		return len(only) == 0 || only[n]
	}
	for _, p := range w.Pkgs {
		for i, file := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasPrefix(filepath.Base(name), specFilePrefix) {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			var out bytes.Buffer
			fmt.Fprintf(&out, "package %s\n\n", file.Name.Name)
			tf := p.Fset.File(file.Pos())
			off := func(n ast.Node) (int, int) { return tf.Offset(n.Pos()), tf.Offset(n.End()) }
			for _, d := range file.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok.String() == "import" {
					a, b := off(g)
					out.Write(src[a:b])
					out.WriteString("\n")
				}
			}
			n := 0
			for _, d := range file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok == token.IMPORT {
					continue
				}
				var at []int
				skip := gd.Tok == token.TYPE
				for _, sp := range gd.Specs {
					switch sp := sp.(type) {
					case *ast.ValueSpec:
						if gd.Tok == token.VAR && len(sp.Values) == 0 {
							skip = true
						}
						for _, nm := range sp.Names {
							if nm.Name != "_" {
								at = append(at, tf.Offset(nm.Pos()))
							}
						}
						for _, v := range sp.Values {
							ast.Inspect(v, func(x ast.Node) bool {
								if id, ok := x.(*ast.Ident); ok {
									switch o := p.TypesInfo.Uses[id].(type) {
									case *types.Func:
										if want(o) && o.Pkg() == p.Types {
											at = append(at, tf.Offset(id.Pos()))
										}
									case *types.Const:
										if o.Pkg() == p.Types && o.Parent() == p.Types.Scope() {
											at = append(at, tf.Offset(id.Pos()))
										}
									case *types.Var:
										if o.Pkg() == p.Types && o.Parent() == p.Types.Scope() {
											at = append(at, tf.Offset(id.Pos()))
										}
									}
								}
								return true
							})
						}
					case *ast.TypeSpec:
						if st, ok := sp.Type.(*ast.StructType); ok {
							for _, f := range st.Fields.List {
								if f.Tag != nil {
									skip = false
								}
							}
							at = append(at, tf.Offset(sp.Name.Pos()))
						}
					}
				}
				if skip {
					continue
				}
				sort.Ints(at)
				a, b := off(gd)
				a = tf.Offset(gd.TokPos)
				out.WriteString("\n")
				cur := a
				for _, x := range at {
					out.Write(src[cur:x])
					out.WriteString("spec_")
					cur = x
				}
				out.Write(src[cur:b])
				out.WriteString("\n")
				n++
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fo, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				isInit := fd.Recv == nil && fd.Name.Name == "init"
				if isInit && filepath.Base(name) != "charts.go" {
				} else if fo == nil || !want(fo) || w.Specs[fnName(w.Prog.FuncValue(fo))] != nil {
					continue
				}
				type edit struct{ at int }
				var at []int
				ast.Inspect(fd, func(x ast.Node) bool {
					if id, ok := x.(*ast.Ident); ok {
						if c, ok := p.TypesInfo.Uses[id].(*types.Const); ok && c.Pkg() == p.Types && c.Parent() == p.Types.Scope() {
							at = append(at, tf.Offset(id.Pos()))
							return true
						}
						o, _ := p.TypesInfo.Uses[id].(*types.Func)
						if id == fd.Name {
							o = fo
						}
						if isInit && id == fd.Name {
							at = append(at, tf.Offset(id.Pos()))
						} else if o != nil && want(o) && (id == fd.Name || o.Pkg() == p.Types) {
							at = append(at, tf.Offset(id.Pos()))
						}
					}
					return true
				})
				sort.Ints(at)
				a, b := off(fd)
				if fd.Doc != nil {
					a = tf.Offset(fd.Type.Pos())
				}
				out.WriteString("\n")
				cur := a
				for _, x := range at {
					out.Write(src[cur:x])
					out.WriteString("spec_")
					cur = x
					if isInit && x == tf.Offset(fd.Name.Pos()) {
						out.WriteString("init_" + strings.TrimSuffix(filepath.Base(name), ".go"))
						cur += len("init")
					}
				}
				out.Write(src[cur:b])
				out.WriteString("\n")
				n++
			}
			if n == 0 {
				continue
			}
			rel, _ := filepath.Rel(repo, name)
			if !strings.Contains(rel, "/") {
				rel = "root/" + rel
			}
			dst := filepath.Join(dir, rel)
			os.MkdirAll(filepath.Dir(dst), 0755)
			if _, err := os.Stat(dst); err == nil {
				dst = strings.TrimSuffix(dst, ".go") + "_new.go"
			}
			if err := os.WriteFile(dst, out.Bytes(), 0644); err != nil {
				return err
			}
			fmt.Println(dst, n)
		}
	}
	return nil
}
