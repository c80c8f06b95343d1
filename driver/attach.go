package main

import (
	"encoding/json"
	"fmt"

	"github.com/jhump/gopoet"
)

type attRecv struct {
	Via  string `json:"via"`
	N    string `json:"n"`
	Name string `json:"name"`
	T    []*T   `json:"t"`
	Elem []int  `json:"elem"`
}

type attOp struct {
	Op    string          `json:"op"`
	Names []string        `json:"names"`
	Name  string          `json:"name"`
	Form  string          `json:"form"`
	T     json.RawMessage `json:"t"`
	Elem  []int           `json:"elem"`
	Ms    []int           `json:"ms"`
	Recv  attRecv         `json:"recv"`
	S     int             `json:"s"`
	N     string          `json:"n"`
	P     string          `json:"p"`
	V     bool            `json:"v"`
	K     string          `json:"k"`
	Specs []int           `json:"specs"`
	D     int             `json:"d"`
	F     int             `json:"f"`
	X     int             `json:"x"`
	Ptr   bool            `json:"ptr"`

	Fields []attField `json:"fields"`
	Els    []attEl    `json:"els"`
}

type attField struct {
	N    string `json:"n"`
	T    []*T   `json:"t"`
	Elem []int  `json:"elem"`
	Tag  string `json:"tag"`
}

// an element of an interface: a method, or an embedded interface
type attEl struct {
	M   []int  `json:"m"`
	Sym []*Sym `json:"sym"`
}

func (o *attOp) ts() []*T {
	var ts []*T
	if err := json.Unmarshal(o.T, &ts); err != nil {
		die(err)
	}
	return ts
}

func (o *attOp) t1() gopoet.TypeName {
	var t T
	if err := json.Unmarshal(o.T, &t); err != nil {
		die(err)
	}
	return t.gp()
}

type attState struct {
	items []interface{}
	decls []gopoet.FileElement
	files []*gopoet.GoFile
	kept  map[int][]attKept
}

// attKept is a type that was obtained from an element, and what it was then.
type attKept struct {
	t   gopoet.TypeName
	was string
}

// keep obtains the types of element i, and says whether one obtained before changed.
func (a *attState) keep(i int) bool {
	obtain := func(f func() gopoet.TypeName) {
		t, p := guard(func() interface{} { return f() })
		if p == "" {
			k := attKept{t.(gopoet.TypeName), jsonOf(projT(t.(gopoet.TypeName)))}
			for _, o := range a.kept[i] {
				if o.was == k.was {
					return
				}
			}
			a.kept[i] = append(a.kept[i], k)
		}
	}
	for _, k := range a.kept[i] {
		if s, p := guard(func() interface{} { return jsonOf(projT(k.t)) }); p != "" || s != k.was {
			return true
		}
	}
	switch x := a.items[i].(type) {
	case *gopoet.TypeSpec:
		obtain(x.ToTypeName)
		obtain(x.Underlying)
	case *gopoet.FuncSpec:
		obtain(x.ToTypeName)
	case *gopoet.InterfaceMethod:
		obtain(x.ToTypeName)
	}
	return false
}

func (a *attState) do(o *attOp) {
	item := func() interface{} { return a.items[o.S-1] }
	sig := func() *gopoet.Signature {
		switch x := item().(type) {
		case *gopoet.FuncSpec:
			return &x.Signature
		case *gopoet.InterfaceMethod:
			return &x.Signature
		}
		panic("not a func")
	}
	switch o.Op {
	case "const":
		a.items = append(a.items, gopoet.NewConst(o.Names...))
	case "var":
		a.items = append(a.items, gopoet.NewVar(o.Names...))
	case "func":
		a.items = append(a.items, gopoet.NewFunc(o.Name))
	case "imethod":
		a.items = append(a.items, gopoet.NewInterfaceMethod(o.Name))
	case "method":
		r := &o.Recv
		var rs *gopoet.ReceiverSpec
		ty := func() gopoet.TypeNameOrSpec {
			if len(r.Elem) > 0 {
				return a.items[r.Elem[0]-1].(*gopoet.TypeSpec)
			}
			return r.T[0].gp()
		}
		switch r.Via {
		case "name":
			rs = gopoet.NewReceiver(r.N, r.Name)
		case "ptrname":
			rs = gopoet.NewPointerReceiver(r.N, r.Name)
		case "for":
			rs = gopoet.NewReceiverForType(r.N, ty())
		case "ptrfor":
			rs = gopoet.NewPointerReceiverForType(r.N, ty())
		}
		a.items = append(a.items, gopoet.NewMethod(rs, o.Name))
	case "type":
		var t *gopoet.TypeSpec
		switch o.Form {
		case "of":
			t = gopoet.NewTypeSpec(o.Name, o.ts()[0].gp())
		case "alias":
			t = gopoet.NewTypeAlias(o.Name, o.ts()[0].gp())
		case "from":
			t = gopoet.NewTypeSpec(o.Name, a.items[o.Elem[0]-1].(*gopoet.TypeSpec))
		case "aliasfrom":
			t = gopoet.NewTypeAlias(o.Name, a.items[o.Elem[0]-1].(*gopoet.TypeSpec))
		case "struct":
			t = gopoet.NewStructTypeSpec(o.Name, gopoet.NewField("F", o.ts()[0].gp()))
		case "structs":
			var fs []*gopoet.FieldSpec
			for _, f := range o.Fields {
				var ty gopoet.TypeNameOrSpec
				if len(f.Elem) > 0 {
					ty = a.items[f.Elem[0]-1].(*gopoet.TypeSpec)
				} else {
					ty = f.T[0].gp()
				}
				fs = append(fs, gopoet.NewField(f.N, ty).SetTag(f.Tag).SetComment("c"))
			}
			t = gopoet.NewStructTypeSpec(o.Name, fs...)
		case "ifaces":
			var els []gopoet.InterfaceElement
			for _, e := range o.Els {
				if len(e.M) > 0 {
					els = append(els, a.items[e.M[0]-1].(*gopoet.InterfaceMethod))
				} else {
					els = append(els, gopoet.NewInterfaceEmbed(e.Sym[0].gp()))
				}
			}
			t = gopoet.NewInterfaceTypeSpec(o.Name, els...)
		case "iface":
			var els []gopoet.InterfaceElement
			for _, m := range o.Ms {
				els = append(els, a.items[m-1].(*gopoet.InterfaceMethod))
			}
			t = gopoet.NewInterfaceTypeSpec(o.Name, els...)
		}
		a.items = append(a.items, t)
	case "arg":
		switch x := item().(type) {
		case *gopoet.FuncSpec:
			chain(x, x.AddArg(o.N, o.t1()))
		case *gopoet.InterfaceMethod:
			chain(x, x.AddArg(o.N, o.t1()))
		}
	case "result":
		switch x := item().(type) {
		case *gopoet.FuncSpec:
			chain(x, x.AddResult(o.N, o.t1()))
		case *gopoet.InterfaceMethod:
			chain(x, x.AddResult(o.N, o.t1()))
		}
	case "variadic":
		switch x := item().(type) {
		case *gopoet.FuncSpec:
			chain(x, x.SetVariadic(o.V))
		case *gopoet.InterfaceMethod:
			chain(x, x.SetVariadic(o.V))
		}
	case "setarg":
		sig().Args[o.X-1] = gopoet.ArgType{Name: o.N, Type: o.t1()}
	case "setres":
		sig().Results[o.X-1] = gopoet.ArgType{Name: o.N, Type: o.t1()}
	case "dropargs":
		sig().Args = nil
	case "setname":
		switch x := item().(type) {
		case *gopoet.ConstSpec:
			x.Names = append([]string{}, o.Names...)
		case *gopoet.VarSpec:
			x.Names = append([]string{}, o.Names...)
		case *gopoet.TypeSpec:
			x.Name = o.Name
		case *gopoet.FuncSpec:
			x.Name = o.Name
		case *gopoet.InterfaceMethod:
			x.Name = o.Name
		}
	case "setrecv":
		*item().(*gopoet.FuncSpec).Receiver = gopoet.ReceiverSpec{Name: o.N, Type: o.Name, IsPointer: o.Ptr}
	case "file":
		a.files = append(a.files, gopoet.NewGoFile("f.go", o.P, o.N))
	case "rename":
		a.files[o.F-1].PackageName = o.N
	case "decl":
		var d gopoet.FileElement
		switch o.K {
		case "const":
			var l []*gopoet.ConstSpec
			for _, s := range o.Specs {
				l = append(l, a.items[s-1].(*gopoet.ConstSpec))
			}
			d = gopoet.NewConstDecl(l...)
		case "var":
			var l []*gopoet.VarSpec
			for _, s := range o.Specs {
				l = append(l, a.items[s-1].(*gopoet.VarSpec))
			}
			d = gopoet.NewVarDecl(l...)
		case "type":
			var l []*gopoet.TypeSpec
			for _, s := range o.Specs {
				l = append(l, a.items[s-1].(*gopoet.TypeSpec))
			}
			d = gopoet.NewTypeDecl(l...)
		}
		a.decls = append(a.decls, d)
	case "append":
		switch d := a.decls[o.D-1].(type) {
		case *gopoet.ConstDecl:
			chain(d, d.AddConst(item().(*gopoet.ConstSpec)))
		case *gopoet.VarDecl:
			chain(d, d.AddVar(item().(*gopoet.VarSpec)))
		case *gopoet.TypeDecl:
			chain(d, d.AddType(item().(*gopoet.TypeSpec)))
		}
	case "add":
		chain(a.files[o.F-1], a.files[o.F-1].AddElement(a.decls[o.D-1]))
	case "additem":
		f := a.files[o.F-1]
		switch x := item().(type) {
		case *gopoet.ConstSpec:
			chain(f, f.AddConst(x))
		case *gopoet.VarSpec:
			chain(f, f.AddVar(x))
		case *gopoet.TypeSpec:
			chain(f, f.AddType(x))
		case *gopoet.FuncSpec:
			chain(f, f.AddElement(x))
		}
	default:
		die("unknown op", o.Op)
	}
}

func attRef(r gopoet.SymbolOrMethodRef) M {
	switch s := r.(type) {
	case gopoet.Symbol:
		return M{"p": s.Package.ImportPath, "q": s.Package.Name, "name": s.Name, "m": ""}
	case *gopoet.Symbol:
		return attRef(*s)
	case gopoet.MethodReference:
		return M{"p": s.Type.Package.ImportPath, "q": s.Type.Package.Name, "name": s.Type.Name, "m": s.Method}
	case *gopoet.MethodReference:
		return attRef(*s)
	}
	return M{"p": "", "q": "", "name": fmt.Sprintf("bad %T", r), "m": ""}
}

func ask(f func() interface{}) []interface{} {
	v, p := guard(f)
	if p != "" {
		return []interface{}{}
	}
	return []interface{}{v}
}

func attAnswer(x interface{}) M {
	none := []interface{}{}
	a := M{"syms": none, "one": none, "str": "", "tn": none, "mref": none, "und": none, "alias": false, "recv": none}
	val := func(names []string, at func(int) gopoet.Symbol, one func() gopoet.Symbol) {
		syms := []interface{}{}
		for i := range names {
			i := i
			syms = append(syms, ask(func() interface{} { return attRef(at(i)) }))
		}
		a["syms"], a["one"] = syms, ask(func() interface{} { return attRef(one()) })
	}
	str := func(f func() string) {
		s, p := guard(func() interface{} { return f() })
		if p != "" {
			s = "!panic"
		}
		a["str"] = s
	}
	switch x := x.(type) {
	case *gopoet.ConstSpec:
		val(x.Names, x.SymbolAt, x.ToSymbol)
		str(x.String)
	case *gopoet.VarSpec:
		val(x.Names, x.SymbolAt, x.ToSymbol)
		str(x.String)
	case *gopoet.TypeSpec:
		a["one"] = ask(func() interface{} { return attRef(x.ToSymbol()) })
		str(func() string {
			if x.Name != "" {
				return x.String()
			}
			// (with an invalid signature there is no text)
			s, p := guard(func() interface{} { return x.String() })
			s2, p2 := guard(func() interface{} { return x.ToTypeName().String() })
			if s != s2 || (p == "") != (p2 == "") {
				return fmt.Sprint(s, p)
			}
			return "="
		})
		a["tn"] = ask(func() interface{} { return projT(x.ToTypeName()) })
		a["und"] = ask(func() interface{} { return projT(x.Underlying()) })
		a["alias"] = x.IsAlias()
	case *gopoet.FuncSpec:
		a["one"] = ask(func() interface{} { return attRef(x.ToSymbol()) })
		str(x.String)
		a["tn"] = ask(func() interface{} { return projT(x.ToTypeName()) })
		if x.Receiver != nil {
			a["recv"] = []interface{}{M{"n": x.Receiver.Name, "t": x.Receiver.Type, "ptr": x.Receiver.IsPointer}}
		}
	case *gopoet.InterfaceMethod:
		str(x.String)
		a["tn"] = ask(func() interface{} { return projT(x.ToTypeName()) })
		a["mref"] = ask(func() interface{} { return attRef(x.ToMethodRef()) })
	}
	return a
}

// elem says which of the declarations and elements el is.
func (a *attState) elem(el gopoet.FileElement) M {
	for i, d := range a.decls {
		if d == el {
			return M{"e": "decl", "i": i + 1}
		}
	}
	var only interface{} = el
	switch d := el.(type) {
	case *gopoet.ConstDecl:
		if len(d.Consts) == 1 {
			only = d.Consts[0]
		}
	case *gopoet.VarDecl:
		if len(d.Vars) == 1 {
			only = d.Vars[0]
		}
	case *gopoet.TypeDecl:
		if len(d.Types) == 1 {
			only = d.Types[0]
		}
	}
	for i, x := range a.items {
		if x == only {
			return M{"e": "item", "i": i + 1}
		}
	}
	return M{"e": "?", "i": 0}
}

func (a *attState) file(f *gopoet.GoFile) M {
	els := []M{}
	for i := 0; i < f.NumElements(); i++ {
		els = append(els, a.elem(f.ElementAt(i)))
	}
	return M{"p": f.Package().ImportPath, "n": f.Package().Name, "elems": els}
}

func init() {
	kinds["attach"] = func(raw json.RawMessage) interface{} {
		var c struct{ Ops []attOp }
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		a := &attState{kept: map[int][]attKept{}}
		seen := map[string]string{}
		changed := func(key string, i int, v M) []M {
			s := jsonOf(v)
			if k := fmt.Sprint(key, i); seen[k] != s {
				seen[k] = s
				return []M{{"i": i, "a": v}}
			}
			return nil
		}
		steps := []M{}
		for i := range c.Ops {
			st := "ok"
			if _, p := guard(func() interface{} { a.do(&c.Ops[i]); return nil }); p != "" {
				st = "panic"
			}
			its, fs := []M{}, []M{}
			for j, x := range a.items {
				its = append(its, changed("i", j+1, attAnswer(x))...)
			}
			kept := []int{}
			for j := range a.items {
				if a.keep(j) {
					kept = append(kept, j+1)
				}
			}
			for j, f := range a.files {
				fs = append(fs, changed("f", j+1, a.file(f))...)
			}
			steps = append(steps, M{"st": st, "items": its, "files": fs, "kept": kept})
		}
		return M{"steps": steps}
	}
	gens["attach"] = genAttach
}

func genAttach(r R, prof string) M {
	type it struct {
		k, name string
		inType  bool
		na, nr  int
	}
	var items []it
	var decls []string
	nfiles := 0
	ops := []M{}
	emit := func(o M) { ops = append(ops, o) }
	// (an operation that panics creates nothing: the generator tracks what can panic)
	attached, doubt := map[int]bool{}, map[int]bool{}
	declSpecs := map[int][]int{}
	o := &typeOpts{world: r.world(4), q: trueName}
	of := func(ks ...string) int {
		var l []int
		for i, x := range items {
			for _, k := range ks {
				if x.k == k {
					l = append(l, i)
				}
			}
		}
		if len(l) == 0 {
			return -1
		}
		return l[r.Intn(len(l))]
	}
	seq := 0
	name := func(p string) string { seq++; return fmt.Sprintf("%s%d", p, seq) }
	n := 6 + r.Intn(22)
	// many arguments at once: enough of them that the list has room left, or has not
	burst := func() {
		if !r.chance(40) {
			return
		}
		i := len(items) - 1
		for k := r.Intn(7); k > 0; k-- {
			items[i].na++
			emit(M{"op": "arg", "s": i + 1, "n": r.pick("", "x", "y"), "t": r.typ(1, o)})
			n++
		}
		for k := r.Intn(5); k > 0; k-- {
			items[i].nr++
			emit(M{"op": "result", "s": i + 1, "n": r.pick("", "", "res"), "t": r.typ(1, o)})
			n++
		}
	}
	for len(ops) < n {
		switch k := r.Intn(103); {
		case k < 10:
			w := append([]Pk{{"", "main"}, {"a/x", ""}}, worldPool...)
			p := w[r.Intn(len(w))]
			emit(M{"op": "file", "p": p.P, "n": p.N})
			nfiles++
		case k < 22:
			k := r.pick("const", "var")
			names := []string{}
			for i := []int{1, 1, 1, 2, 3}[r.Intn(5)]; i > 0; i-- {
				names = append(names, name("v"))
			}
			emit(M{"op": k, "names": names})
			items = append(items, it{k: k, name: names[0]})
		case k < 34:
			t := M{"op": "type", "name": name("T"), "form": r.pick("of", "alias", "struct", "of"), "t": []*T{r.typ(2, o)}, "elem": []int{}, "ms": []int{}}
			if r.chance(15) {
				t["name"] = ""
			}
			if i := of("type"); i >= 0 && r.chance(25) && !doubt[i] {
				// (definite only: attached for sure, or unnamed)
				if items[i].name == "" || attached[i] {
					t["form"], t["elem"] = r.pick("from", "aliasfrom"), []int{i + 1}
				} else {
					t["form"], t["elem"] = "from", []int{i + 1}
					emit(t)
					continue // panics
				}
			}
			if r.chance(70) && t["form"] == "of" {
				ms := []int{}
				for i := range items {
					if items[i].k == "imethod" && r.chance(60) {
						ms = append(ms, i+1)
						items[i].inType = true
					}
				}
				t["form"], t["ms"] = "iface", ms
				if r.chance(60) {
					els := []M{}
					for _, m := range ms {
						els = append(els, M{"m": []int{m}, "sym": []Sym{}})
					}
					for i := r.Intn(3); i > 0; i-- {
						y := r.sym(o)
						els = append(els, M{"m": []int{}, "sym": []Sym{y}})
					}
					r.Shuffle(len(els), func(i, j int) { els[i], els[j] = els[j], els[i] })
					t["form"], t["els"] = "ifaces", els
				}
			}
			if t["form"] == "struct" && r.chance(70) {
				fs := []M{}
				for i := r.Intn(4); i > 0; i-- {
					f := M{"n": name("F"), "t": []*T{r.typ(2, o)}, "elem": []int{}, "tag": r.tag()}
					if r.chance(20) {
						f["n"], f["t"] = "", []*T{r.namedT(o)}
					}
					if j := of("type"); j >= 0 && r.chance(40) && (items[j].name == "" || attached[j]) {
						f["t"], f["elem"] = []*T{}, []int{j + 1}
					}
					fs = append(fs, f)
				}
				t["form"], t["fields"] = "structs", fs
			}
			emit(t)
			items = append(items, it{k: "type", name: t["name"].(string)})
		case k < 40:
			emit(M{"op": "func", "name": name("F")})
			items = append(items, it{k: "func", name: "F"})
			burst()
		case k < 46:
			emit(M{"op": "imethod", "name": name("I")})
			items = append(items, it{k: "imethod", name: "I"})
			burst()
		case k < 55:
			rv := M{"via": r.pick("name", "ptrname", "for", "ptrfor"), "n": r.pick("", "r", "_"), "name": r.pick("T", "Local"), "t": []*T{}, "elem": []int{}}
			ok := true
			switch rv["via"] {
			case "name":
				if r.chance(8) {
					rv["name"] = ""
					ok = false
				}
			case "for", "ptrfor":
				if i := of("type"); i >= 0 && r.chance(50) {
					rv["elem"] = []int{i + 1}
					ok = items[i].name != ""
				} else {
					t := r.namedT(o)
					if r.chance(30) {
						t = &T{K: "ptr", E: t}
						ok = rv["via"] == "for"
					}
					if r.chance(30) {
						t = r.typ(2, o)
						ok = t.K == "named" || t.K == "ptr" && t.E.K == "named" && rv["via"] == "for"
					}
					rv["t"] = []*T{t}
				}
			}
			emit(M{"op": "method", "name": name("M"), "recv": rv})
			if ok {
				items = append(items, it{k: "method", name: "M"})
				burst()
			}
		case k < 66:
			i := of("func", "method", "imethod")
			if i < 0 || items[i].inType {
				continue
			}
			switch r.Intn(6) {
			case 4:
				if items[i].na > 0 {
					emit(M{"op": "setarg", "s": i + 1, "x": 1 + r.Intn(items[i].na), "n": r.pick("", "z"), "t": r.typ(2, o)})
				}
			case 5:
				switch k := r.Intn(4); {
				case k == 0:
					emit(M{"op": "dropargs", "s": i + 1})
					items[i].na = 0
				case k == 1 && items[i].k == "method":
					emit(M{"op": "setrecv", "s": i + 1, "n": r.pick("", "q"), "name": r.pick("T", "Other"), "ptr": r.chance(50)})
				case items[i].nr > 0:
					emit(M{"op": "setres", "s": i + 1, "x": 1 + r.Intn(items[i].nr), "n": r.pick("", "z"), "t": r.typ(2, o)})
				}
			case 0:
				items[i].nr++
				emit(M{"op": "result", "s": i + 1, "n": r.pick("", "", "res"), "t": r.typ(2, o)})
			case 1:
				emit(M{"op": "variadic", "s": i + 1, "v": r.chance(80)})
			default:
				t := r.typ(2, o)
				if r.chance(50) {
					t = &T{K: "slice", E: t}
				}
				items[i].na++
				emit(M{"op": "arg", "s": i + 1, "n": r.pick("", "", "x", "y"), "t": t})
			}
		case k < 76:
			k := r.pick("const", "var", "type")
			l := []int{}
			for i := range items {
				if items[i].k == k && items[i].name != "" && r.chance(50) {
					l = append(l, i+1)
				}
			}
			emit(M{"op": "decl", "k": k, "specs": l})
			decls = append(decls, k)
			declSpecs[len(decls)] = l
		case k < 82:
			if len(decls) == 0 {
				continue
			}
			d := r.Intn(len(decls))
			if i := of(decls[d]); i >= 0 && items[i].name != "" {
				emit(M{"op": "append", "d": d + 1, "s": i + 1})
				declSpecs[d+1] = append(append([]int{}, declSpecs[d+1]...), i+1)
				delete(attached, i)
				doubt[i] = true
			}
		case k < 90:
			if len(decls) == 0 || nfiles == 0 {
				continue
			}
			d := r.Intn(len(decls)) + 1
			emit(M{"op": "add", "f": 1 + r.Intn(nfiles), "d": d})
			for _, s := range declSpecs[d] {
				attached[s-1] = true
				delete(doubt, s-1)
			}
		case k < 98:
			i := of("const", "var", "type", "func", "method")
			if i < 0 || nfiles == 0 || items[i].name == "" && r.chance(70) {
				continue
			}
			emit(M{"op": "additem", "f": 1 + r.Intn(nfiles), "s": i + 1})
			attached[i] = true
			delete(doubt, i)
		case k < 101:
			i := of("const", "var", "type", "func", "method", "imethod")
			if i < 0 || items[i].inType || items[i].name == "" {
				continue
			}
			switch items[i].k {
			case "const", "var":
				l := []string{}
				for k := 1 + r.Intn(3); k > 0; k-- {
					l = append(l, name("w"))
				}
				emit(M{"op": "setname", "s": i + 1, "names": l, "name": ""})
			default:
				emit(M{"op": "setname", "s": i + 1, "names": []string{}, "name": name("N")})
			}
		default:
			if nfiles > 0 {
				emit(M{"op": "rename", "f": 1 + r.Intn(nfiles), "n": r.pick("renamed", "main", "")})
			}
		}
	}
	return M{"ops": ops}
}
