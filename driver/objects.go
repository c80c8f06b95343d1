package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"github.com/jhump/gopoet"
)

// Objects of type-checked packages.

type objEmbed struct {
	E   []int `json:"e"`
	Ptr bool  `json:"ptr"`
}

type objMeth struct {
	N   string `json:"n"`
	Ptr bool   `json:"ptr"`
}

type objDecl struct {
	K       string     `json:"k"`
	Name    string     `json:"name"`
	Form    string     `json:"form"`
	Of      [][]int    `json:"of"`
	Embeds  []objEmbed `json:"embeds"`
	Methods []objMeth  `json:"methods"`
}

type objPkg struct {
	P     string    `json:"p"`
	N     string    `json:"n"`
	Decls []objDecl `json:"decls"`
}

type objQuery struct {
	E    []int  `json:"e"` // empty: predeclared
	Name string `json:"name"`
	M    string `json:"m"`
	Via  string `json:"via"`
}

type objCase struct {
	Pkgs    []objPkg   `json:"pkgs"`
	Queries []objQuery `json:"queries"`
}

func (c *objCase) source(i int) string {
	p := &c.Pkgs[i]
	var b strings.Builder
	ref := func(e []int) string {
		n := c.Pkgs[e[0]].Decls[e[1]].Name
		if e[0] == i {
			return n
		}
		return fmt.Sprintf("imp%d.%s", e[0], n)
	}
	used := map[int]bool{}
	for di := range p.Decls {
		d := &p.Decls[di]
		switch d.K {
		case "const":
			fmt.Fprintf(&b, "const %s = 1\n", d.Name)
		case "var":
			fmt.Fprintf(&b, "var %s int\n", d.Name)
		case "func":
			fmt.Fprintf(&b, "func %s() {}\n", d.Name)
		default:
			fmt.Fprintf(&b, "type %s ", d.Name)
			if d.K == "alias" {
				b.WriteString("= ")
			}
			for _, e := range d.Embeds {
				used[e.E[0]] = true
			}
			switch d.Form {
			case "of":
				if len(d.Of) == 0 {
					b.WriteString("int\n")
				} else {
					used[d.Of[0][0]] = true
					b.WriteString(ref(d.Of[0]) + "\n")
				}
			case "struct":
				b.WriteString("struct {\n")
				for _, e := range d.Embeds {
					if e.Ptr {
						b.WriteString("*")
					}
					b.WriteString(ref(e.E) + "\n")
				}
				b.WriteString("}\n")
			case "iface":
				b.WriteString("interface {\n")
				for _, e := range d.Embeds {
					b.WriteString(ref(e.E) + "\n")
				}
				for _, m := range d.Methods {
					b.WriteString(m.N + "()\n")
				}
				b.WriteString("}\n")
			}
			if d.Form != "iface" {
				for _, m := range d.Methods {
					star := ""
					if m.Ptr {
						star = "*"
					}
					fmt.Fprintf(&b, "func (r %s%s) %s() {}\n", star, d.Name, m.N)
				}
			}
		}
	}
	head := "package " + p.N + "\n"
	for j := range c.Pkgs {
		if used[j] && j != i {
			head += fmt.Sprintf("import imp%d %q\n", j, c.Pkgs[j].P)
		}
	}
	return head + b.String()
}

type mapImporter map[string]*types.Package

func (m mapImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %q", path)
}

func (c *objCase) check() []*types.Package {
	imp := mapImporter{}
	var ret []*types.Package
	for i := range c.Pkgs {
		fset := token.NewFileSet()
		src := c.source(i)
		f, err := parser.ParseFile(fset, "x.go", src, 0)
		if err != nil {
			die(err, src)
		}
		conf := types.Config{Importer: imp}
		p, err := conf.Check(c.Pkgs[i].P, fset, []*ast.File{f}, nil)
		if err != nil {
			die(err, src)
		}
		imp[c.Pkgs[i].P] = p
		ret = append(ret, p)
	}
	return ret
}

// object finds what the query asks for
func (c *objCase) object(pkgs []*types.Package, q *objQuery) types.Object {
	if len(q.E) == 0 {
		o := types.Universe.Lookup(q.Name)
		if q.Name == "Pointer" {
			o = types.Unsafe.Scope().Lookup("Pointer")
		}
		if q.M == "" {
			return o
		}
		m, _, _ := types.LookupFieldOrMethod(o.Type(), true, nil, q.M)
		return m
	}
	p := pkgs[q.E[0]]
	o := p.Scope().Lookup(c.Pkgs[q.E[0]].Decls[q.E[1]].Name)
	if q.M == "" {
		return o
	}
	t := o.Type()
	switch q.Via {
	case "ptr":
		if _, ok := t.Underlying().(*types.Interface); !ok {
			t = types.NewPointer(t)
		}
	case "set":
		if _, ok := t.Underlying().(*types.Interface); !ok {
			t = types.NewPointer(t)
		}
		if s := types.NewMethodSet(t).Lookup(p, q.M); s != nil {
			return s.Obj()
		}
		return nil
	}
	m, _, _ := types.LookupFieldOrMethod(t, true, p, q.M)
	if m == nil {
		return nil
	}
	if q.Via == "own" {
		// the same method, found in the list of its receiver's type
		rt := m.(*types.Func).Type().(*types.Signature).Recv().Type()
		if pt, ok := rt.(*types.Pointer); ok {
			rt = pt.Elem()
		}
		if n, ok := rt.(*types.Named); ok {
			for i := 0; i < n.NumMethods(); i++ {
				if n.Method(i).Name() == q.M {
					return n.Method(i)
				}
			}
			if it, ok := n.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumExplicitMethods(); i++ {
					if it.ExplicitMethod(i).Name() == q.M {
						return it.ExplicitMethod(i)
					}
				}
			}
		}
	}
	return m
}

func refOf(s gopoet.SymbolOrMethodRef) []M {
	sym := func(s gopoet.Symbol, k, m string) []M {
		return []M{{"k": k, "p": s.Package.ImportPath, "q": s.Package.Name, "name": s.Name, "m": m}}
	}
	switch s := s.(type) {
	case gopoet.Symbol:
		return sym(s, "sym", "")
	case *gopoet.Symbol:
		return sym(*s, "sym", "")
	case gopoet.MethodReference:
		return sym(s.Type, "mref", s.Method)
	case *gopoet.MethodReference:
		return sym(s.Type, "mref", s.Method)
	}
	return []M{{"k": fmt.Sprintf("%T", s), "p": "", "q": "", "name": "", "m": ""}}
}

func init() {
	kinds["obj"] = func(raw json.RawMessage) interface{} {
		var c objCase
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		pkgs := c.check()
		refs, ps := []M{}, []M{}
		for i := range c.Queries {
			q := &c.Queries[i]
			o := c.object(pkgs, q)
			if o == nil {
				refs = append(refs, M{"st": "ok", "ref": []M{}})
				continue
			}
			r, p := guard(func() interface{} { return refOf(gopoet.SymbolForGoObject(o)) })
			if p != "" {
				refs = append(refs, M{"st": "panic", "ref": []M{}})
				continue
			}
			refs = append(refs, M{"st": "ok", "ref": r})
		}
		proj := func(p gopoet.Package) M { return M{"p": p.ImportPath, "n": p.Name} }
		for _, p := range pkgs {
			ps = append(ps, proj(gopoet.PackageForGoType(p)))
		}
		return M{"refs": refs, "pkgs": ps, "none": proj(gopoet.PackageForGoType(nil))}
	}
	gens["obj"] = genObj
}

func genObj(r R, prof string) M {
	w := r.world(1 + r.Intn(4))
	var pkgs []objPkg
	var queries []objQuery
	seq := 0
	for pi, p := range w {
		if p.P == "unsafe" {
			p = Pk{"un/safe", "unsafe"}
		}
		pk := objPkg{P: p.P, N: p.N, Decls: []objDecl{}}
		// types declared so far, in this package or earlier ones
		type tinfo struct {
			e     []int
			d     *objDecl
			iface bool
			under *objDecl
		}
		var all []tinfo
		for i := range pkgs {
			for j := range pkgs[i].Decls {
				all = append(all, tinfo{e: []int{i, j}, d: &pkgs[i].Decls[j]})
			}
		}
		var names []string
		n := 1 + r.few(7)
		pk.Decls = make([]objDecl, 0, n)
		declAt := func(e []int) *objDecl {
			if e[0] == pi {
				return &pk.Decls[e[1]]
			}
			return &pkgs[e[0]].Decls[e[1]]
		}
		var under func(e []int) *objDecl
		under = func(e []int) *objDecl {
			d := declAt(e)
			if d.Form == "of" && len(d.Of) > 0 {
				return under(d.Of[0])
			}
			return d
		}
		exported := func(e []int) bool { s := declAt(e).Name; return s[0] >= 'A' && s[0] <= 'Z' }
		pickType := func(f func(e []int) bool) ([]int, bool) {
			var c [][]int
			for i := 0; i <= pi; i++ {
				ds := pk.Decls
				if i < pi {
					ds = pkgs[i].Decls
				}
				for j := range ds {
					e := []int{i, j}
					if (ds[j].K == "type" || ds[j].K == "alias") && (i == pi || exported(e)) && f(e) {
						c = append(c, e)
					}
				}
			}
			if len(c) == 0 {
				return nil, false
			}
			return c[r.Intn(len(c))], true
		}
		for di := 0; di < n; di++ {
			seq++
			d := objDecl{K: r.pick("const", "var", "func", "type", "type", "type", "type", "type", "alias"), Of: [][]int{}, Embeds: []objEmbed{}, Methods: []objMeth{}}
			d.Name = fmt.Sprintf("%s%d", r.pick("T", "U", "t", "Élan", "T_"), seq)
			if r.chance(10) {
				d.Name = fmt.Sprintf("%s%d", p.N, seq)
			}
			if d.K == "type" {
				d.Form = r.pick("struct", "struct", "iface", "iface", "of")
			} else if d.K == "alias" {
				d.Form = "of"
			}
			switch d.Form {
			case "of":
				if e, ok := pickType(func([]int) bool { return true }); ok && r.chance(85) {
					d.Of = [][]int{e}
				}
			case "struct", "iface":
				used := map[string]bool{}
				for i := r.few(4); i > 0; i-- {
					e, ok := pickType(func(e []int) bool {
						return !used[declAt(e).Name] && (d.Form == "struct" || under(e).Form == "iface")
					})
					if !ok {
						break
					}
					used[declAt(e).Name] = true
					d.Embeds = append(d.Embeds, objEmbed{E: e, Ptr: d.Form == "struct" && under(e).Form != "iface" && r.chance(40)})
				}
			}
			canHave := d.K == "type" && d.Form != ""
			if d.Form == "of" && len(d.Of) > 0 && under(d.Of[0]).Form == "iface" {
				canHave = false
			}
			if canHave {
				usedM := map[string]bool{}
				for i := r.few(4); i > 0; i-- {
					m := objMeth{N: fmt.Sprintf("%s%d", r.pick("M", "m", "Get"), r.Intn(4)), Ptr: r.chance(50)}
					if d.Form == "iface" {
						seq++
						m = objMeth{N: fmt.Sprintf("%s%d", r.pick("I", "i"), seq)}
					}
					if usedM[m.N] {
						continue
					}
					usedM[m.N] = true
					d.Methods = append(d.Methods, m)
				}
			}
			for _, m := range d.Methods {
				names = append(names, m.N)
			}
			pk.Decls = append(pk.Decls, d)
		}
		pkgs = append(pkgs, pk)
		_, _ = all, names
	}
	// ask for every object, every declared method, and methods found elsewhere
	var names []string
	for i := range pkgs {
		for j := range pkgs[i].Decls {
			e := []int{i, j}
			d := &pkgs[i].Decls[j]
			queries = append(queries, objQuery{E: e, Via: "scope"})
			for _, m := range d.Methods {
				queries = append(queries, objQuery{E: e, M: m.N, Via: r.pick("lookup", "ptr", "set", "own")})
				names = append(names, m.N)
			}
		}
	}
	for i := range pkgs {
		for j := range pkgs[i].Decls {
			if k := pkgs[i].Decls[j].K; k != "type" && k != "alias" || len(names) == 0 {
				continue
			}
			for n := 6; n > 0; n-- {
				queries = append(queries, objQuery{E: []int{i, j}, M: names[r.Intn(len(names))], Via: r.pick("lookup", "ptr", "set", "own")})
			}
		}
	}
	for _, n := range []string{"int", "error", "true", "iota", "nil", "len", "any", "byte", "comparable"} {
		if r.chance(20) {
			queries = append(queries, objQuery{E: []int{}, Name: n, Via: "scope"})
		}
	}
	if r.chance(30) {
		queries = append(queries, objQuery{E: []int{}, Name: "error", M: "Error", Via: "scope"})
	}
	return M{"pkgs": pkgs, "queries": queries}
}
