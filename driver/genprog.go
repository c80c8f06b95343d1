package main

import "fmt"

// Random programs. The structure is that of Prog, as maps, so that a case
// holds just the fields that its kind of thing has.

type progGen struct {
	R
	world []Pk
	own   Pk // package of the file being generated
	files []Pk
	decls []declInfo // declared so far
	pool  []M
	infos []argInfo
	nblk  int
	seq   int
	text  bool // pieces are literal text
}

type declInfo struct {
	file  int
	pkg   Pk
	e     []int
	k     string // const, var, type, func, method
	name  string
	multi bool
}

type argInfo struct{ class string } // value, type, pkg, sig, bare

func (g *progGen) name(pfx string) string {
	g.seq++
	return fmt.Sprintf("%s%d", pfx, g.seq)
}

var docPool = []string{"Foo is one.", "some words", "100% of it", "%!d(MISSING) %s %[1]q", "quotes \"x\" and `y`", "see a/b.C", "end", "é 世界 ß", "*/ and /*", "// twice", "tab\tin it", "back\\slash \\n", "Deprecated: no.", "nolint:all", "go:generate x", "import \"x/y\"", "{", "func f() {}", "x"}

func (g *progGen) doc(pct int) []string {
	if !g.chance(pct) {
		return []string{}
	}
	n := 1 + g.few(3)
	ret := []string{}
	for i := 0; i < n; i++ {
		ret = append(ret, g.pick(docPool...))
		if g.Intn(400) == 0 {
			ret[len(ret)-1] = "@long"
		}
		if i < n-1 && g.chance(25) {
			ret = append(ret, "")
		}
	}
	return ret
}

func (g *progGen) opts() *typeOpts {
	w := append([]Pk{}, g.world...)
	if g.chance(50) {
		w = append(w, g.own, g.own)
	}
	return &typeOpts{world: w, q: func(r R, p Pk) string {
		if p.N != p.P && g.chance(4) && p.P != g.own.P {
			return ""
		}
		return p.N
	}}
}

func (g *progGen) tyAny() M {
	switch k := g.Intn(100); {
	case k < 72:
		return M{"k": "t", "t": g.typ(g.Intn(4), g.opts())}
	case k < 86:
		if d, ok := g.elem("type"); ok {
			return M{"k": "elem", "e": d.e}
		}
	default:
		return M{"k": "anon", "spec": g.typeBody("", 1)}
	}
	return M{"k": "t", "t": g.namedT(g.opts())}
}

// elem picks an element that was declared already
func (g *progGen) elem(ks ...string) (declInfo, bool) {
	var c []declInfo
	for _, d := range g.decls {
		for _, k := range ks {
			if d.k == k && !d.multi {
				c = append(c, d)
			}
		}
	}
	if len(c) == 0 {
		return declInfo{}, false
	}
	return c[g.Intn(len(c))], true
}

// typeBody makes the part of a type spec after its name
func (g *progGen) typeBody(name string, depth int) M {
	s := M{"doc": []string{}, "name": name, "alias": false, "form": "of", "ty": []M{}, "fields": []M{}, "elems": []M{}, "names": []string{}, "init": []M{}}
	k := g.Intn(100)
	switch {
	case k < 34 || depth <= 0:
		if depth > 0 {
			s["ty"] = []M{g.tyAny()}
		} else {
			s["ty"] = []M{{"k": "t", "t": g.typ(2, g.opts())}}
		}
	case k < 70:
		s["form"] = "struct"
		fs := []M{}
		used := map[string]bool{}
		for i := g.few(5); i > 0; i-- {
			f := M{"n": g.name("F"), "tag": g.tag(), "doc": g.doc(25)}
			if g.chance(25) {
				t := g.namedT(g.opts())
				if used[t.Name] || t.Name == "Pointer" {
					continue
				}
				used[t.Name] = true
				if g.chance(40) {
					t = &T{K: "ptr", E: t}
				}
				f["n"], f["ty"] = "", M{"k": "t", "t": t}
				if d, ok := g.elem("type"); ok && g.chance(30) && !used[d.name] {
					used[d.name] = true
					f["ty"] = M{"k": "elem", "e": d.e}
				}
			} else if depth > 1 || g.chance(75) {
				f["ty"] = g.tyAny()
				if a, ok := f["ty"].(M)["spec"]; ok && depth <= 1 {
					_ = a
					f["ty"] = M{"k": "anon", "spec": g.typeBody("", 0)}
				}
			} else {
				f["ty"] = M{"k": "anon", "spec": g.typeBody("", depth-1)}
			}
			if m, ok := f["ty"].(M); ok && f["n"] != "" && g.chance(25) {
				// named like its type, but not embedded
				n := ""
				if t, ok := m["t"].(*T); ok && m["k"] == "t" && t.K == "named" {
					n = t.Name
				}
				if n != "" && n != "error" && !used[n] {
					used[n] = true
					f["n"] = n
				}
			}
			fs = append(fs, f)
		}
		s["fields"] = fs
	default:
		s["form"] = "iface"
		es := []M{}
		used := map[string]bool{}
		for i := g.few(4); i > 0; i-- {
			if g.chance(40) {
				y := g.sym(g.opts())
				if y.P == "unsafe" || used[y.Name] {
					continue
				}
				used[y.Name] = true
				es = append(es, M{"k": "embed", "doc": g.doc(25), "sym": y})
			} else {
				es = append(es, M{"k": "method", "doc": g.doc(25), "n": g.name("M"), "sig": g.sig(2, g.opts())})
			}
		}
		s["elems"] = es
	}
	return s
}

func tk(c, s string) Tok { return Tok{c, s} }

// toks makes tokens from a compact notation: words are identifiers, numbers
// are literals, 'x is a string, anything else is an operator or keyword
func toks(ss ...string) []Tok {
	ret := []Tok{}
	for _, s := range ss {
		switch {
		case s[0] == '\'':
			ret = append(ret, Tok{"str", s[1:]})
		case s[0] >= '0' && s[0] <= '9':
			ret = append(ret, Tok{"lit", s})
		case s == "var" || s == "if" || s == "for" || s == "func" || s == "return" || s == "map" || s == "struct" || s == "interface":
			ret = append(ret, Tok{"kw", s})
		case s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z' || s[0] == '_':
			ret = append(ret, Tok{"id", s})
		default:
			ret = append(ret, Tok{"op", s})
		}
	}
	return ret
}

func lit(ss ...string) M { return M{"k": "lit", "toks": toks(ss...)} }

func (g *progGen) argPart(a int) M {
	v := "v"
	if g.chance(40) {
		v = "s"
	}
	if g.pool[a]["k"] == "int" {
		v = "d"
	}
	return M{"k": "arg", "a": a, "verb": v}
}

var argKinds = []string{"sym", "sym", "psym", "pkg", "ppkg", "mref", "pmref", "tn", "tn", "tn", "sig", "psig", "rtype", "gtype", "gobj", "gobj", "gpkg",
	"elem", "elem", "elem", "elem", "atspec", "embed", "imethod", "field", "str", "int"}

// newArg adds an argument to the pool
func (g *progGen) newArg() {
	k := g.pick(argKinds...)
	o := g.opts()
	pk := func() (Pk, bool) {
		p := o.world[g.Intn(len(o.world))]
		for _, f := range g.files {
			if f.P == p.P {
				return p, false // (a package is not a way to refer to own elements)
			}
		}
		return p, true
	}
	a, cl := M{"k": k}, "value"
	mkSym := func() Sym {
		y := g.R.sym(o)
		if y.P == "unsafe" {
			y.Name = "Sizeof"
		}
		return y
	}
	switch k {
	case "sym", "psym", "embed":
		a["sym"] = mkSym()
	case "mref", "pmref":
		a["sym"], a["m"] = mkSym(), "Meth"
	case "pkg", "ppkg", "gpkg":
		p, ok := pk()
		if !ok {
			return
		}
		a["p"], a["q"], cl = p.P, p.N, "pkg"
	case "tn":
		a["t"], cl = g.typ(g.Intn(4), o), "type"
	case "sig", "psig":
		a["sig"], cl = g.sig(2, o), "sig"
	case "rtype":
		a["t"], cl = g.rtyp(g.Intn(3)), "type"
		if _, p := guard(func() interface{} { return rtOf(a["t"].(*T)) }); p != "" {
			return
		}
	case "gtype":
		o.q = trueName
		o.gotypes = true
		a["t"], cl = g.typ(g.Intn(4), o), "type"
	case "gobj":
		o.q = trueName
		y := mkSym()
		ob := g.pick("const", "var", "func", "type", "alias", "universe", "method", "pmethod", "imethod")
		if y.P == "" {
			ob = "universe"
			y.Name = g.pick("error", "int", "true", "iota", "nil", "append", "rune")
		}
		if ob == "universe" {
			y.P, y.Q = "", ""
			y.Name = g.pick("error", "int", "true", "iota", "nil", "append", "rune")
		}
		if y.P == "unsafe" {
			ob = "func"
		}
		a["obj"], a["sym"], a["m"] = ob, y, "Meth"
	case "elem":
		d, ok := g.elem("const", "var", "type", "func", "method")
		if !ok {
			return
		}
		a["e"] = d.e
		if d.k == "method" {
			cl = "bare"
		}
		if d.k == "type" {
			cl = "type"
		}
	case "atspec":
		a["spec"], cl = g.typeBody("", 0), "type"
	case "imethod", "field":
		a["m"], cl = "Bare", "bare"
		if k == "imethod" {
			a["sig"] = &Sig{}
		}
	case "str":
		a["s"], cl = g.pick("ident", "x1", "someName"), "bare"
	case "int":
		a["n"], cl = g.Intn(1000), "num"
	}
	g.pool = append(g.pool, a)
	g.infos = append(g.infos, argInfo{cl})
}

// an expression, as parts
func (g *progGen) expr(tmpl bool) []M {
	for tries := 0; tries < 20 && len(g.pool) > 0; tries++ {
		i := g.Intn(len(g.pool))
		if tmpl && g.pool[i]["k"] == "elem" && g.infos[i].class == "bare" {
			continue
		}
		a := g.argPart(i)
		switch g.infos[i].class {
		case "value", "num":
			return []M{a}
		case "bare":
			return []M{lit("x", "."), a}
		case "pkg":
			return []M{a, lit(".", "Member")}
		case "type":
			if g.chance(50) {
				return []M{lit("new", "("), a, lit(")")}
			}
			return []M{lit("("), a, lit(")", "(", "nil", ")")}
		case "sig":
			if tmpl {
				return []M{lit("("), a, lit(")", "(", "nil", ")")}
			}
		}
	}
	return []M{lit(g.pick("x", "y1"), "+", "1")}
}

func (g *progGen) stmt(tmpl bool) []M {
	e := g.expr(tmpl)
	switch k := g.Intn(100); {
	case k < 40:
		e = append([]M{lit("_", "=")}, e...)
	case k < 55:
		e = append(append([]M{lit("f", "(")}, e...), lit(",", "'str 100%", ")"))
	case k < 65:
		e = append(append([]M{lit("x", "=", "append", "(", "x", ",")}, e...), lit(")"))
	case k < 75:
		e = append(append(append([]M{lit("if", "y", "{", "z", "=")}, e...), lit("}", ";")), g.stmt(tmpl)...)
		return e
	case k < 85:
		e2 := g.expr(tmpl)
		e = append(append(append([]M{lit("a", ",", "b", "=")}, e...), lit(",")), e2...)
	default:
		return []M{lit("x", "=", "y", "%", "2", ";")}
	}
	return append(e, lit(";"))
}

var shapes = []string{"slice", "array", "parray", "map", "struct", "pstruct", "embed", "hidden", "phidden", "nest", "typed", "typedmap", "bare", "key", "keyed", "keyed", "tnlist"}

func countArgs(ps []M) int {
	n := 0
	for _, p := range ps {
		if p["k"] == "arg" {
			n++
		}
	}
	return n
}

func (g *progGen) piece(maxBlock int) M {
	k := g.Intn(100)
	if k < 15 && maxBlock > 0 {
		return M{"k": "add", "block": g.Intn(maxBlock)}
	}
	switch {
	case k < 30:
		return M{"k": g.pick("print", "println"), "parts": []M{lit("x", "=", "y", "%", "2", ";", "f", "(", "'%d %v %%", ")", ";")}}
	case k < 70:
		return M{"k": g.pick("printf", "printlnf"), "parts": g.stmt(false)}
	default:
		ps := g.stmt(true)
		sh := g.pick(shapes...)
		if n := countArgs(ps); n > 4 || n != 1 && (sh == "bare" || sh == "key") {
			sh = "slice"
		}
		return M{"k": "tmpl", "parts": ps, "shape": sh}
	}
}

func (g *progGen) pieces(n, maxBlock int) []M {
	ret := []M{}
	for i := 0; i < n; i++ {
		ret = append(ret, g.piece(maxBlock))
	}
	return ret
}

func (g *progGen) init() []M {
	e := g.expr(false)
	switch g.Intn(4) {
	case 0:
		return []M{{"via": "fmt", "pieces": []M{{"k": "printf", "parts": e}}}}
	case 1:
		ps := []M{{"k": "printf", "parts": e}, {"k": "print", "parts": []M{lit("+", "1")}}}
		return []M{{"via": "pieces", "pieces": ps}}
	case 2:
		e := g.expr(true)
		sh := g.pick(shapes...)
		if n := countArgs(e); n != 1 && (sh == "bare" || sh == "key") {
			sh = "struct"
		}
		return []M{{"via": "pieces", "pieces": []M{{"k": "tmpl", "parts": e, "shape": sh}}}}
	default:
		if g.nblk > 0 {
			return []M{{"via": "block", "block": 0}} // block 0 is an expression
		}
	}
	return []M{{"via": "pieces", "pieces": []M{{"k": "print", "parts": []M{lit("1", "+", "2")}}}}}
}

func genProg(r R, prof string) M {
	g := &progGen{R: r}
	g.world = r.world(2 + r.Intn(5))
	nf := 1 + r.few(3)
	if r.chance(30) {
		nf = 1
	}
	for i := 0; i < nf; i++ {
		p := g.world[r.Intn(len(g.world))]
		for p.P == "unsafe" {
			p = worldPool[r.Intn(20)]
		}
		if i > 0 && r.chance(25) {
			p = g.files[0]
		}
		g.files = append(g.files, p)
	}
	for _, p := range g.files {
		found := false
		for _, w := range g.world {
			found = found || w.P == p.P
		}
		if !found {
			g.world = append(g.world, p)
		}
	}
	files := []M{}
	for fi, p := range g.files {
		g.own = p
		f := M{"name": fmt.Sprintf("f%d.go", fi), "path": p.P, "pkg": p.N, "fc": g.doc(25), "pc": g.doc(30), "canon": ""}
		if r.chance(20) {
			f["canon"] = p.P
		}
		regs := []Pk{}
		for i := r.few(4); i > 1; i-- {
			regs = append(regs, g.world[r.Intn(len(g.world))])
		}
		f["regs"] = regs
		ds := []M{}
		nd := r.few(6)
		types := []string{}
		for di := 0; di < nd; di++ {
			var d M
			k := r.pick("const", "var", "var", "type", "type", "type", "func", "func", "func")
			reg := func(si int, k, name string, multi bool) {
				g.decls = append(g.decls, declInfo{fi, p, []int{fi, di, si}, k, name, multi})
			}
			switch k {
			case "func":
				d = M{"k": "func", "doc": g.doc(30), "name": g.name("Fn"), "recv": []M{}, "body": []M{}}
				o := g.opts()
				d["sig"] = g.sig(1+r.Intn(3), o)
				if r.chance(40) {
					rt := "Rcv"
					if len(types) > 0 && r.chance(70) {
						rt = types[r.Intn(len(types))]
					}
					d["recv"] = []M{{"n": r.pick("", "r", "rc"), "t": rt, "ptr": r.chance(50), "via": r.pick("name", "named", "elem")}}
					reg(0, "method", d["name"].(string), false)
				} else {
					reg(0, "func", d["name"].(string), false)
				}
			default:
				n := 1
				if r.chance(40) {
					n = 2 + r.few(2)
				}
				d = M{"k": k, "doc": g.doc(15), "via": "decl"}
				if n == 1 && len(d["doc"].([]string)) == 0 && r.chance(50) {
					d["via"] = "add"
				}
				specs := []M{}
				for si := 0; si < n; si++ {
					if k == "type" {
						nm := g.name("Ty")
						s := g.typeBody(nm, 2)
						s["doc"] = g.doc(30)
						s["alias"] = r.chance(20)
						specs = append(specs, s)
						types = append(types, nm)
						continue
					}
					names := []string{g.name("v" + k)}
					for r.chance(15) {
						names = append(names, g.name("w"+k))
					}
					s := M{"doc": g.doc(30), "names": names, "ty": []M{}, "init": []M{}, "name": "", "alias": false, "form": "", "fields": []M{}, "elems": []M{}}
					specs = append(specs, s)
				}
				if k != "type" {
					for _, s := range specs {
						if k == "const" && r.chance(40) {
							s["ty"] = []M{{"k": "t", "t": g.typ(0, g.opts())}}
						} else if k == "var" && r.chance(60) {
							s["ty"] = []M{g.tyAny()}
						}
					}
				}
				d["specs"] = specs
				for si, s := range specs {
					if k == "type" {
						reg(si, "type", s["name"].(string), false)
					} else {
						nn := s["names"].([]string)
						reg(si, k, nn[0], len(nn) > 1)
					}
				}
			}
			ds = append(ds, d)
		}
		f["decls"] = ds
		files = append(files, f)
	}
	for i := 2 + r.few(8); i > 0; i-- {
		g.own = g.files[r.Intn(nf)]
		g.newArg()
	}
	blocks := [][]M{}
	for i := r.Intn(4); i > 0; i-- {
		if len(blocks) == 0 {
			blocks = append(blocks, []M{{"k": "printf", "parts": g.expr(false)}})
			continue
		}
		bs := g.pieces(1+r.few(3), 0)
		if len(blocks) > 1 && r.chance(40) {
			bs = append(bs, M{"k": "add", "block": 1 + r.Intn(len(blocks)-1)})
		}
		blocks = append(blocks, bs)
	}
	g.nblk = len(blocks)
	for _, f := range files {
		for _, d := range f["decls"].([]M) {
			if d["k"] == "func" {
				b := []M{}
				for i := r.few(4); i > 0; i-- {
					if g.nblk > 1 && r.chance(20) {
						b = append(b, M{"k": "add", "block": 1 + r.Intn(g.nblk-1)})
					} else {
						b = append(b, g.piece(0))
					}
				}
				d["body"] = b
				continue
			}
			for si, s := range d["specs"].([]M) {
				switch d["k"] {
				case "const":
					if si == 0 || len(s["ty"].([]M)) > 0 || r.chance(70) {
						s["init"] = g.init()
					}
				case "var":
					if len(s["ty"].([]M)) == 0 || r.chance(50) {
						s["init"] = g.init()
					}
				}
			}
		}
	}
	writes := []int{}
	for i := range files {
		writes = append(writes, i)
	}
	for i := r.few(4); i > 0; i-- {
		writes = append(writes, r.Intn(nf))
	}
	r.Shuffle(len(writes), func(i, j int) { writes[i], writes[j] = writes[j], writes[i] })
	// every package that can be referred to, with its true name
	world := append([]Pk{}, g.world...)
	have := map[string]bool{}
	for _, w := range world {
		have[w.P] = true
	}
	for _, k := range rtKeys {
		if k.P != "" && !have[k.P] {
			have[k.P] = true
			world = append(world, Pk{k.P, k.Q})
		}
	}
	pool := g.pool
	if pool == nil {
		pool = []M{}
	}
	return M{"world": world, "pool": pool, "blocks": blocks, "files": files, "writes": writes}
}

func init() { gens["prog"] = genProg }
