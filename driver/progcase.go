package main

import (
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

// docOf parses a generated file and projects what it declares.
func docOf(src string) M {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return M{"st": "unparseable"}
	}
	seen := map[*ast.CommentGroup]bool{}
	doc := func(g *ast.CommentGroup) []string {
		if g != nil {
			seen[g] = true
		}
		return docLines(g)
	}
	line := func(p token.Pos) int { return fset.Position(p).Line }
	text := func(from, to token.Pos) []Tok {
		return tokenize(src[fset.Position(from).Offset:fset.Position(to).Offset])
	}
	ret := M{"st": "ok", "pkg": f.Name.Name, "pdoc": doc(f.Doc)}
	fc, canon := [][]string{}, []string{}
	for _, g := range f.Comments {
		if g == f.Doc {
			continue
		}
		if g.End() < f.Package {
			fc = append(fc, doc(g))
		} else if line(g.Pos()) == line(f.Name.Pos()) {
			canon = append(canon, doc(g)...)
		}
	}
	imports, decls := []M{}, []M{}
	late := false
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				if len(decls) > 0 {
					late = true
				}
				for _, s := range d.Specs {
					is := s.(*ast.ImportSpec)
					a := ""
					if is.Name != nil {
						a = is.Name.Name
					}
					p, _ := strconv.Unquote(is.Path.Value)
					imports = append(imports, M{"a": a, "p": p})
				}
				continue
			}
			x := M{"k": d.Tok.String(), "paren": d.Lparen.IsValid(), "doc": doc(d.Doc)}
			specs := []M{}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					names := []string{}
					for _, n := range s.Names {
						names = append(names, n.Name)
					}
					ty, init := []M{}, [][]Tok{}
					if s.Type != nil {
						ty = append(ty, astType(s.Type))
					}
					if n := len(s.Values); n > 0 {
						init = append(init, text(s.Values[0].Pos(), s.Values[n-1].End()))
					}
					specs = append(specs, M{"doc": doc(s.Doc), "names": names, "ty": ty, "init": init})
				case *ast.TypeSpec:
					specs = append(specs, M{"doc": doc(s.Doc), "name": s.Name.Name, "alias": s.Assign.IsValid(), "ty": astType(s.Type)})
				}
			}
			x["specs"] = specs
			decls = append(decls, x)
		case *ast.FuncDecl:
			recv := []M{}
			if d.Recv != nil {
				for _, fl := range d.Recv.List {
					r := M{"n": "", "ptr": false}
					t := fl.Type
					if st, ok := t.(*ast.StarExpr); ok {
						r["ptr"] = true
						t = st.X
					}
					r["t"] = astType(t)
					if len(fl.Names) > 0 {
						r["n"] = fl.Names[0].Name
					}
					recv = append(recv, r)
				}
			}
			body := []Tok{}
			if d.Body != nil {
				body = text(d.Body.Lbrace+1, d.Body.Rbrace)
			}
			decls = append(decls, M{"k": "func", "doc": doc(d.Doc), "name": d.Name.Name, "recv": recv, "sig": astSig(d.Type), "body": body})
		}
	}
	// the docs of fields and interface elements
	ast.Inspect(f, func(n ast.Node) bool {
		if fl, ok := n.(*ast.Field); ok && fl.Doc != nil {
			seen[fl.Doc] = true
		}
		return true
	})
	stray := 0
	for _, g := range f.Comments {
		if !seen[g] && line(g.Pos()) != line(f.Name.Pos()) {
			stray++
		}
	}
	ret["fc"], ret["canon"], ret["imports"], ret["decls"], ret["stray"], ret["late"] = fc, canon, imports, decls, stray, late
	return ret
}

func init() {
	kinds["prog"] = func(raw json.RawMessage) interface{} {
		var p Prog
		if err := json.Unmarshal(raw, &p); err != nil {
			die(err)
		}
		fresh := make([]M, len(p.Files))
		for i := range p.Files {
			out, st := build(&p).render(i)
			out2, st2 := buildIn(&p, true).render(i)
			if st != "panic" {
				out = st + hash(out)
				out2 = st2 + hash(out2)
			} else {
				out, out2 = st, st2
			}
			fresh[i] = M{"h": out, "h2": out2}
		}
		m := build(&p)
		tables := func() [][]M {
			ret := [][]M{}
			for _, f := range m.files {
				ret = append(ret, importsOf(&f.Imports))
			}
			return ret
		}
		writes := []M{}
		seen := map[string]bool{}
		before, tab0 := m.snapshot(), tables()
		snap0 := before
		for _, i := range p.Writes {
			out, st := m.render(i)
			h := st
			if st != "panic" {
				h += hash(out)
			}
			after := m.snapshot()
			if os.Getenv("DRIVER_SHOW") != "" {
				os.Stderr.WriteString("---- " + h + "\n" + out + "\n")
				if after != before {
					os.Stderr.WriteString(before + "\n" + after + "\n")
				}
			}
			w := M{"f": i, "st": st, "h": h, "snap": hash(after), "tabs": tables(), "doc": []M{}, "canon": true}
			if st == "ok" && !seen[strconv.Itoa(i)+h] {
				seen[strconv.Itoa(i)+h] = true
				w["doc"] = []M{docOf(out)}
				src, err := format.Source([]byte(out))
				w["canon"] = err == nil && string(src) == out
			}
			before = after
			writes = append(writes, w)
		}
		return M{"fresh": fresh, "snap0": hash(snap0), "tabs0": tab0, "writes": writes}
	}
}
