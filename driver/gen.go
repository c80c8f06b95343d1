package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
)

// Random case generators. They only produce inputs; every judgement is TLC's.

type R struct{ *rand.Rand }

func (r R) chance(pct int) bool { return r.Intn(100) < pct }
func (r R) pick(ss ...string) string {
	return ss[r.Intn(len(ss))]
}

// few is Intn(n) but, once in a while, larger: some mistakes need many elements
// to show (thresholds of algorithms, two-digit counters, growth of slices).
func (r R) few(n int) int {
	if r.chance(2) {
		return n + r.Intn(14)
	}
	return r.Intn(n)
}

// Pk is a package of the generated world: import path and true name.
type Pk struct {
	P string `json:"p"`
	N string `json:"n"`
}

// worldPool holds packages whose names clash with each other, with aliases
// that could be generated for others, or are not derivable from the path.
var worldPool = []Pk{
	{"a/foo", "foo"}, {"b/foo", "foo"}, {"c/foo", "foo"}, {"d/foo", "foo"}, {"e/foo1", "foo1"}, {"f/foo2", "foo2"},
	{"foo", "foo"}, {"foo1", "foo1"}, {"g/foo11", "foo11"}, {"h/go-foo", "foo"}, {"i/foo/v2", "foo"}, {"j/foo.v1", "foo"},
	{"bar", "bar"}, {"k/bar", "bar"}, {"l/bar/v3", "bar"}, {"m/bar-go", "bargo"}, {"n/Bar", "Bar"},
	{"o/func", "funcs"}, {"p/type", "types"}, {"q/123", "n123"}, {"r/1x", "onex"}, {"s/_", "under"}, {"t/a.b", "ab"},
	{"time", "time"}, {"io", "io"}, {"net/http", "http"}, {"u/http", "http"}, {"text/template", "template"}, {"html/template", "template"},
	{"unsafe", "unsafe"}, {"gopkg.in/yaml.v2", "yaml"}, {"v/yaml", "yaml"}, {"w/pkg", "pkg"}, {"x/---", "dashes"}, {"y/λ", "λ"}, {"z/map", "maps"},
	{"a", "foo"}, {"a/foo/b", "b"}, {"a-b/c", "c"}, {"A/c", "c"}, {"a/foo_", "foo_"}, {"a/é", "é"},
	{"cmd/tool", "main"}, {"a/vendor/b/foo", "foo"}, {"vendor/foo", "foo"}, {"example.com/Foo/bar/v10", "bar"},
	{"github.com/u/foo/internal/foo", "foo"}, {"a/foo_test", "foo_test"}, {"a/foo/foo", "foo"}, {"example.com/a.b/go-x.go", "x"},
}

func (r R) world(n int) []Pk {
	idx := r.Perm(len(worldPool))
	if r.chance(40) {
		// concentrate on clashing names
		idx = r.Perm(12)
	}
	if n > len(idx) {
		n = len(idx)
	}
	ret := make([]Pk, n)
	for i := range ret {
		ret[i] = worldPool[idx[i]]
	}
	if r.chance(3) {
		// many packages, with few names
		for i := 8 + r.Intn(12); i > 0; i-- {
			ret = append(ret, Pk{fmt.Sprintf("%s%02d/%s", r.pick("many/m", "many/n"), i, "foo"), r.pick("foo", "foo", "foo", "foo1", "bar")})
		}
		r.Shuffle(len(ret), func(i, j int) { ret[i], ret[j] = ret[j], ret[i] })
	}
	return ret
}

type typeOpts struct {
	world   []Pk
	own     string // references to it are allowed
	q       func(r R, p Pk) string
	gotypes bool // only what go/types can represent
	noIface bool
	plain   bool // no struct or interface literals
	made    []madeT
}

type madeT struct {
	depth int
	t     *T
}

// twin copies a type with other packages, which to gives the paths of.
func twin(t *T, to func(p string) string) *T {
	var c T
	b, err := json.Marshal(t)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		die(err)
	}
	var walk func(t *T)
	sig := func(s *Sig) {
		if s != nil {
			for _, a := range append(append([]Arg{}, s.Args...), s.Res...) {
				walk(a.T)
			}
		}
	}
	walk = func(t *T) {
		if t == nil {
			return
		}
		t.P = to(t.P)
		for i := range t.Embeds {
			t.Embeds[i].P = to(t.Embeds[i].P)
		}
		walk(t.E)
		walk(t.Key)
		sig(t.Sig)
		for _, f := range t.Fields {
			walk(f.T)
		}
		for _, m := range t.Meths {
			sig(m.Sig)
		}
	}
	walk(&c)
	return &c
}

// twin makes a type that differs from one made before in nothing but the paths
// of packages of the same names, if there are such.
func (o *typeOpts) twin(r R, depth int) *T {
	var ts []*T
	for _, m := range o.made {
		if m.depth <= depth {
			ts = append(ts, m.t)
		}
	}
	if len(ts) == 0 {
		return nil
	}
	by := map[string][]string{}
	names := map[string]string{}
	for _, p := range o.world {
		if names[p.P] == "" && p.N != "" {
			names[p.P] = p.N
			by[p.N] = append(by[p.N], p.P)
		}
	}
	k := r.Intn(4)
	return twin(ts[r.Intn(len(ts))], func(p string) string {
		g := by[names[p]]
		for i := range g {
			if g[i] == p {
				return g[(i+k)%len(g)]
			}
		}
		return p
	})
}

func trueName(r R, p Pk) string { return p.N }

var typeNames = []string{"T", "U", "Thing", "X1", "Élan", "Very_Long"}
var basicNames = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128"}

func (r R) sym(o *typeOpts) Sym {
	if len(o.world) == 0 || r.chance(12) {
		return Sym{Name: r.pick("error", "Local", "Other")}
	}
	p := o.world[r.Intn(len(o.world))]
	if p.P == "unsafe" {
		return Sym{P: "unsafe", Q: o.q(r, p), Name: "Pointer"}
	}
	return Sym{P: p.P, Q: o.q(r, p), Name: typeNames[r.Intn(len(typeNames))]}
}

func (r R) namedT(o *typeOpts) *T {
	s := r.sym(o)
	return &T{K: "named", P: s.P, Q: s.Q, Name: s.Name}
}

var tagPool = []string{"", "", "", `json:"a,omitempty"`, "back`quote", "new\nline", `q"uote`, "tab\there", `mixed "q" and ` + "`b`", "é", ` lead`, "//x", "/*x*/", "%s %d", "a\\b", "${x}", "; }"}

// characters that need care in one or the other kind of string literal or comment
var oddChars = []string{"`", `"`, "\\", "\r", "\n", "\r\n", "\t", "\x00", "\x7f", "\u00a0", "\u2028", "\ufeff", "é", "世", "\U0001F600", "%", "%s", "'", "//", "/*", "*/", "{{", "}}", " ", ":", ";", "a", "b", "x:1", "\u0085", "\v"}

func (r R) oddText(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += oddChars[r.Intn(len(oddChars))]
	}
	return s
}

func (r R) tag() string {
	if r.chance(25) {
		return r.oddText(1 + r.Intn(4))
	}
	return tagPool[r.Intn(len(tagPool))]
}

func (r R) args(depth int, o *typeOpts, max int, pfx string) []Arg {
	n := 0
	if max > 0 {
		n = r.few(max + 1)
	}
	mode := r.Intn(4) // none named, all named, mixed, mixed
	var ret []Arg
	for i := 0; i < n; i++ {
		a := Arg{T: r.typ(depth-1, o)}
		if mode == 1 || mode > 1 && r.chance(50) {
			a.N = fmt.Sprintf("%s%d", pfx, i)
			if r.chance(10) {
				a.N = "_"
			}
		}
		ret = append(ret, a)
	}
	return ret
}

func (r R) sig(depth int, o *typeOpts) *Sig {
	s := &Sig{Args: r.args(depth, o, 3, "p"), Res: r.args(depth, o, 3, "r")}
	if n := len(s.Args); n > 0 && r.chance(35) {
		s.Var = true
		s.Args[n-1].T = &T{K: "slice", E: s.Args[n-1].T}
	} else if n == 0 && r.chance(10) {
		s.Var = true
		s.Args = []Arg{{T: &T{K: "slice", E: r.typ(depth-1, o)}}}
	}
	return s
}

func (r R) typ(depth int, o *typeOpts) *T {
	if depth > 0 && r.chance(8) {
		if t := o.twin(r, depth); t != nil {
			return t
		}
	}
	t := r.typ1(depth, o)
	if depth > 0 && t.K != "basic" {
		o.made = append(o.made, madeT{depth, t})
	}
	return t
}

func (r R) typ1(depth int, o *typeOpts) *T {
	if depth <= 0 || r.chance(12) {
		if r.chance(60) {
			return r.namedT(o)
		}
		return &T{K: "basic", B: basicNames[r.Intn(len(basicNames))]}
	}
	k := r.Intn(100)
	switch {
	case k < 12:
		return &T{K: "ptr", E: r.typ(depth-1, o)}
	case k < 24:
		return &T{K: "slice", E: r.typ(depth-1, o)}
	case k < 33:
		return &T{K: "array", N: r.pick("0", "1", "3", "42", "1000000", "2147483648", "9223372036854775807"), E: r.typ(depth-1, o)}
	case k < 45:
		return &T{K: "map", Key: r.typ(depth-1, o), E: r.typ(depth-1, o)}
	case k < 60:
		return &T{K: "chan", Dir: r.pick("both", "both", "send", "recv"), E: r.typ(depth-1, o)}
	case k < 78 || o.plain:
		return &T{K: "func", Sig: r.sig(depth, o)}
	case k < 90 || o.noIface:
		t := &T{K: "struct"}
		n := r.few(4)
		embedded := map[string]bool{}
		for i := 0; i < n; i++ {
			f := Field{N: fmt.Sprintf("F%d", i), T: r.typ(depth-1, o), Tag: r.tag()}
			if r.chance(10) {
				f.N = "_"
			}
			if r.chance(25) {
				e := r.namedT(o)
				if embedded[e.Name] {
					continue
				}
				embedded[e.Name] = true
				f.N = ""
				f.T = e
				if r.chance(40) {
					f.T = &T{K: "ptr", E: f.T}
				}
			} else if n := f.T.Name; f.T.K == "named" && n != "" && n != "error" && !embedded[n] && r.chance(25) {
				// named like its type, but not embedded
				embedded[n] = true
				f.N = n
			}
			t.Fields = append(t.Fields, f)
		}
		return t
	default:
		t := &T{K: "iface"}
		ne, nm := r.few(3), r.few(3)
		seen := map[Sym]bool{}
		for i := 0; i < ne; i++ {
			s := r.sym(o)
			if s.P == "unsafe" || seen[s] {
				continue
			}
			seen[s] = true
			t.Embeds = append(t.Embeds, s)
		}
		for i := 0; i < nm; i++ {
			t.Meths = append(t.Meths, Meth{N: fmt.Sprintf("M%d", i), Sig: r.sig(depth-1, o)})
		}
		return t
	}
}

func generate(kind string, seed int64, n int, prof string, emit func(interface{})) {
	g := gens[kind]
	if g == nil {
		die("no generator for", kind)
	}
	for i := 0; i < n; i++ {
		r := R{rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(len(kind))))}
		c := g(r, prof)
		c["id"] = fmt.Sprintf("%s-r%d-%d", kind, seed, i)
		if _, ok := c["kind"]; !ok {
			c["kind"] = kind
		}
		emit(c)
	}
}

var gens = map[string]func(r R, prof string) M{
	"imports": genImports,
	"type": func(r R, prof string) M {
		w := r.world(1 + r.Intn(5))
		return M{"t": r.typ(1+r.Intn(4), &typeOpts{world: w, q: func(r R, p Pk) string {
			if r.chance(10) {
				return ""
			}
			return p.N
		}})}
	},
	"gotype": func(r R, prof string) M {
		w := r.world(1 + r.Intn(5))
		o := &typeOpts{world: w, q: trueName, gotypes: true}
		if r.chance(12) {
			// a method: the receiver becomes the first parameter
			t := &T{K: "func", Sig: r.sig(3, o)}
			r.addAliases(t)
			p := w[r.Intn(len(w))]
			recv := &T{K: "named", P: p.P, Q: p.N, Name: "T"}
			if r.chance(50) {
				recv = &T{K: "ptr", E: recv}
			}
			return M{"t": t, "recv": []*T{recv}, "rn": r.pick("", "r", "_")}
		}
		t := r.typ(1+r.Intn(4), o)
		r.addAliases(t)
		return M{"t": t, "recv": []*T{}, "rn": ""}
	},
	"ctor": genCtor,
	"vars": func(r R, prof string) M {
		names := []string{}
		for n := range typeVars {
			names = append(names, n)
		}
		sort.Strings(names)
		return M{"names": names}
	},
}

// addAliases turns some references into alias types (a go/types notion).
func (r R) addAliases(t *T) {
	if t == nil {
		return
	}
	if t.K == "named" && t.P != "" && t.P != "unsafe" && r.chance(25) {
		t.K = "alias"
		switch r.Intn(3) {
		case 0:
			t.E = &T{K: "basic", B: "int"}
		case 1:
			t.E = &T{K: "slice", E: &T{K: "named", P: "other/pkg", Q: "pkg", Name: "Aliased"}}
		default:
			t.E = &T{K: "named", P: "other/pkg", Q: "pkg", Name: "Aliased"}
		}
		return
	}
	for i, e := range t.Embeds {
		if e.P != "" && r.chance(30) {
			t.Embeds[i].Name = "Al" + e.Name // gtWorld makes it an alias
		}
	}
	r.addAliases(t.E)
	r.addAliases(t.Key)
	if t.Sig != nil {
		for _, a := range append(append([]Arg{}, t.Sig.Args...), t.Sig.Res...) {
			r.addAliases(a.T)
		}
	}
	for _, f := range t.Fields {
		r.addAliases(f.T)
	}
	for _, m := range t.Meths {
		for _, a := range append(append([]Arg{}, m.Sig.Args...), m.Sig.Res...) {
			r.addAliases(a.T)
		}
	}
}

var weirdNames = []string{"", "", "foo", "foo", "foo", "foo1", "foo2", "foo3", "func", "_", "a-b", "a.b", "1x", "x y", "Foo", "λ", "type", "go", "__", "map", "string", "-", "世", "foo_", "_foo", "pkg", "pkg1"}
var weirdPaths = []string{"a/foo", "b/foo", "c/foo", "d/foo", "e/foo", "x/foo1", "x/foo2", "foo", "foo1", "k/func", "k/v2", "k/go-x.v3", "k/123", "k/_", "k/--", "k/type", "k/1a", "own/pkg", "m/pkg", "unsafe", "z", "Z", "a/foo/x", "a-foo", "a", "k/a b", "k/interface", "n/pkg1", "n/n_"}

func genImports(r R, prof string) M {
	own := r.pick("own/pkg", "own/pkg", "a/foo", "", "foo")
	nops := 1 + r.Intn(14)
	if r.chance(10) {
		nops = 30
	}
	ops := []impOp{}
	path := func() string {
		if r.chance(30) {
			return weirdPaths[r.Intn(8)]
		}
		return weirdPaths[r.Intn(len(weirdPaths))]
	}
	if r.chance(8) {
		// many packages of one name, so that suffixes get long
		n := 12 + r.Intn(15)
		nm := r.pick("foo", "foo1", "x", "func")
		for i := 0; i < n; i++ {
			ops = append(ops, impOp{Op: "reg", P: fmt.Sprintf("many/p%02d/foo", i), Q: nm})
			if r.chance(20) {
				ops = append(ops, impOp{Op: "prefix", P: fmt.Sprintf("many/p%02d/foo", r.Intn(n))})
			}
		}
	}
	// within one operation a package is declared with one name only
	names := map[string]string{}
	nameOf := func(p string) string {
		if _, ok := names[p]; !ok {
			names[p] = weirdNames[r.Intn(len(weirdNames))]
			if r.chance(40) {
				names[p] = r.pick("foo", "foo1", "pkg")
			}
		}
		return names[p]
	}
	for i := 0; i < nops; i++ {
		if r.chance(50) {
			names = map[string]string{}
		}
		var w []Pk
		for j := 0; j < 4; j++ {
			w = append(w, Pk{P: path()})
		}
		if r.chance(20) {
			w = append(w, Pk{P: own})
		}
		o := &typeOpts{world: w, q: func(r R, p Pk) string { return nameOf(p.P) }}
		p := w[r.Intn(len(w))].P
		pfx := "ensure"
		if r.chance(25) {
			pfx = "qual"
		} else if r.chance(20) {
			pfx = "data"
		}
		switch k := r.Intn(100); {
		case k < 25:
			ops = append(ops, impOp{Op: "reg", P: p, Q: nameOf(p)})
		case k < 32:
			ops = append(ops, impOp{Op: "regpkg", P: p, Q: nameOf(p)})
		case k < 36:
			ops = append(ops, impOp{Op: "datapkg", P: p, Q: nameOf(p)})
		case k < 50:
			if r.chance(40) && len(ops) > 0 {
				// something referred to before
				for t := 0; t < 5; t++ {
					if q := ops[r.Intn(len(ops))].P; q != "" {
						p = q
					}
				}
			}
			ops = append(ops, impOp{Op: "prefix", P: p})
		case k < 65:
			s := r.sym(o)
			ops = append(ops, impOp{Op: pfx + "Sym", Sym: &s})
		case k < 85:
			t := r.typ(1+r.Intn(3), o)
			ops = append(ops, impOp{Op: pfx + "T", T: t})
			if r.chance(25) {
				// the same but for the paths of packages
				k, idx := r.Intn(len(weirdPaths)), map[string]int{}
				for i, p := range weirdPaths {
					idx[p] = i
				}
				ops = append(ops, impOp{Op: pfx + "T", T: twin(t, func(p string) string {
					if i, ok := idx[p]; ok && p != "unsafe" {
						q := weirdPaths[(i+k)%len(weirdPaths)]
						if q == "unsafe" {
							q = "unsafe2"
						}
						return q
					}
					return p
				})})
			}
		default:
			ops = append(ops, impOp{Op: pfx + "Sig", Sig: r.sig(1+r.Intn(3), o)})
		}
	}
	return M{"own": own, "ops": ops}
}
