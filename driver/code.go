package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"text/template"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

// Text of code blocks. Text is represented by its bytes, one character each.

type codePart struct {
	K string `json:"k"` // lit, plain, arg
	S string `json:"s"`
	// plain
	V   json.RawMessage `json:"v"`
	Out string          `json:"out"`
	Raw string          `json:"raw"` // this, in the format, and no argument
	// arg, plain
	A    int    `json:"a"`
	Verb string `json:"verb"`
	W    int    `json:"w"`
	Left bool   `json:"left"`
	Prec int    `json:"prec"`
	Star bool   `json:"star"`
	Plus bool   `json:"plus"`
}

type codePiece struct {
	K     string     `json:"k"`
	Parts []codePart `json:"parts"`
	Idx   bool       `json:"idx"`
	Shape string     `json:"shape"`
}

type codeOp struct {
	Op    string    `json:"op"`
	Kind  string    `json:"kind"`
	Via   string    `json:"via"`
	Piece codePiece `json:"piece"`
	B     int       `json:"b"`
	C     int       `json:"c"`
	How   string    `json:"how"`
	Regs  []Pk      `json:"regs"`
}

type codeCase struct {
	Own  string   `json:"own"`
	Pkg  string   `json:"pkg"`
	Pool []ArgD   `json:"pool"`
	Ops  []codeOp `json:"ops"`
}

func toBytes(s string) string {
	var b []byte
	for _, r := range s {
		if r > 255 {
			die("not a byte: ", s)
		}
		b = append(b, byte(r))
	}
	return string(b)
}

func fromBytes(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteRune(rune(s[i]))
	}
	return b.String()
}

func plainValue(raw json.RawMessage) interface{} {
	var v struct {
		K string `json:"k"`
		S string `json:"s"`
	}
	if err := json.Unmarshal(raw, &v); err != nil {
		die(err)
	}
	switch v.K {
	case "int":
		n, _ := strconv.Atoi(v.S)
		return n
	case "float":
		f, _ := strconv.ParseFloat(v.S, 64)
		return f
	case "bool":
		return v.S == "true"
	case "str":
		return toBytes(v.S)
	case "bytes":
		return []byte(toBytes(v.S))
	case "strs":
		return strings.Split(toBytes(v.S), ",")
	case "err":
		return fmt.Errorf("%s", toBytes(v.S))
	case "nil":
		return nil
	}
	panic("bad plain value " + v.K)
}

func (p *codePart) directive(star, index int) string {
	f := "%"
	if p.Plus {
		f += "+"
	}
	if p.Left {
		f += "-"
	}
	if star > 0 {
		f += "*"
	} else if p.W > 0 {
		f += strconv.Itoa(p.W)
	}
	if p.Prec >= 0 {
		f += "." + strconv.Itoa(p.Prec)
	}
	if index > 0 {
		f += "[" + strconv.Itoa(index) + "]"
	}
	return f + p.Verb
}

func percents(s string) string { return strings.Replace(s, "%", "%%", -1) }

func (p *codePart) value(pool []interface{}) interface{} {
	if p.K == "plain" {
		return plainValue(p.V)
	}
	return pool[p.A]
}

func (p *codePiece) format(pool []interface{}) (string, []interface{}) {
	var f strings.Builder
	var args []interface{}
	n := 0
	for _, x := range p.Parts {
		if x.K != "lit" && x.Verb != "" {
			n++
		}
	}
	i := 0
	if p.Idx {
		args = make([]interface{}, n)
	}
	for j := range p.Parts {
		x := &p.Parts[j]
		switch {
		case x.K == "lit":
			f.WriteString(percents(toBytes(x.S)))
		case x.Raw != "":
			f.WriteString(x.Raw)
		case x.Verb == "":
			f.WriteString(percents(toBytes(x.Out)))
		case x.Verb == "extra":
			args = append(args, x.value(pool))
		case p.Idx:
			// the arguments are passed in reverse
			args[n-1-i] = x.value(pool)
			f.WriteString(x.directive(0, n-i))
			i++
		case x.Star:
			args = append(args, x.W, x.value(pool))
			f.WriteString(x.directive(1, 0))
		default:
			args = append(args, x.value(pool))
			f.WriteString(x.directive(0, 0))
		}
	}
	return f.String(), args
}

func (p *codePiece) text() string {
	var b strings.Builder
	for _, x := range p.Parts {
		b.WriteString(toBytes(x.S))
	}
	return b.String()
}

func (p *codePiece) template(pool []interface{}) (*template.Template, interface{}) {
	var args []interface{}
	for i := range p.Parts {
		if p.Parts[i].K != "lit" {
			args = append(args, p.Parts[i].value(pool))
		}
	}
	data, expr := shaped(p.Shape, args)
	left, right := "{{", "}}"
	if strings.ContainsAny(p.text(), "{}") {
		left, right = "\x01(", ")\x01"
	}
	var b strings.Builder
	i := 0
	for _, x := range p.Parts {
		switch {
		case x.K == "lit":
			b.WriteString(toBytes(x.S))
			continue
		case expr == nil:
			b.WriteString(left + "range $k, $v := ." + right + left + "$k" + right + left + "end" + right)
		default:
			b.WriteString(left + expr(i) + right)
		}
		i++
	}
	return template.Must(template.New("t").Delims(left, right).Parse(b.String())), data
}

func (p *codePiece) putTo(to printer, pool []interface{}) {
	switch p.K {
	case "print":
		to.print(p.text())
	case "println":
		to.println(p.text())
	case "printf":
		f, args := p.format(pool)
		to.printf(f, args...)
	case "printlnf":
		f, args := p.format(pool)
		to.printlnf(f, args...)
	case "tmpl":
		t, data := p.template(pool)
		to.render(t, data)
	default:
		panic("bad piece " + p.K)
	}
}

func (p *codePiece) construct(pool []interface{}) *gopoet.CodeBlock {
	switch p.K {
	case "print":
		return gopoet.Print(p.text())
	case "println":
		return gopoet.Println(p.text())
	case "printf":
		f, args := p.format(pool)
		return gopoet.Printf(f, args...)
	case "printlnf":
		f, args := p.format(pool)
		return gopoet.Printlnf(f, args...)
	case "tmpl":
		return gopoet.RenderCode(p.template(pool))
	}
	panic("bad piece " + p.K)
}

const (
	blockStart = "_ = `<<~<"
	blockEnd   = ">~>>`"
	showStart  = "`[[~["
	showEnd    = "]~]]`"
)

func between(s, from, to string, inclusive bool) (string, bool) {
	i, j := strings.Index(s, from), strings.LastIndex(s, to)
	if i < 0 || j < i+len(from) {
		return "", false
	}
	if inclusive {
		return s[i : j+len(to)], true
	}
	return s[i+len(from) : j], true
}

// rawSafe tells whether the text may be part of a raw string literal
func rawSafe(s string) bool {
	return utf8.ValidString(s) && !strings.ContainsAny(s, "`\r\x00\ufeff")
}

type codeBlock struct {
	cb *gopoet.CodeBlock
	fn *gopoet.FuncSpec
}

func (b codeBlock) printer() printer {
	if b.fn != nil {
		return fnPrinter{b.fn}
	}
	return cbPrinter{b.cb}
}

func (b codeBlock) block() *gopoet.CodeBlock {
	if b.fn != nil {
		return &b.fn.CodeBlock
	}
	return b.cb
}

func (c *codeCase) show(o *codeOp, b codeBlock) M {
	file := func() *gopoet.GoFile {
		f := gopoet.NewGoFile("f.go", c.Own, c.Pkg)
		for _, r := range o.Regs {
			f.RegisterImport(r.P, r.N)
		}
		wrap := func() *gopoet.CodeBlock {
			return gopoet.Print(showStart).AddCode(b.block()).Print(showEnd)
		}
		switch o.How {
		case "var":
			chain(f, f.AddVar(gopoet.NewVar("v").SetInitializer(wrap())))
		case "const":
			chain(f, f.AddConst(gopoet.NewConst("v").SetInitializer(wrap())))
		case "func":
			fn := gopoet.NewFunc("f")
			chain(fn, fn.Print("_ = "))
			chain(fn, fn.AddCode(wrap()))
			chain(f, f.AddElement(fn.Println("")))
		case "fn":
			chain(f, f.AddElement(b.fn))
		default:
			panic("bad show " + o.How)
		}
		return f
	}
	from, to, fn := showStart, showEnd, o.How == "fn"
	if fn {
		from, to = blockStart, blockEnd
	}
	render := func(f *gopoet.GoFile) (string, string) {
		return (&model{files: []*gopoet.GoFile{f}}).render(0)
	}
	// what formatting would be given, complete
	f := file()
	f.PackageName = "0" + f.PackageName
	out, st := render(f)
	ret := M{"st": st, "text": "", "imports": importsOf(&f.Imports), "ftext": []string{}, "fimports": []M{}}
	if st == "panic" {
		return ret
	}
	text, ok := between(out, from, to, fn)
	if st != "err" || !ok {
		ret["st"] = "lost"
		return ret
	}
	ret["st"], ret["text"] = "ok", fromBytes(text)
	inner := text
	if fn {
		inner = inner[len(from) : len(inner)-len(to)]
	}
	if rawSafe(inner) {
		f := file()
		out, st := render(f)
		text, ok := between(out, from, to, fn)
		if st != "ok" || !ok {
			ret["st"] = "formatted-" + st
			return ret
		}
		ret["ftext"], ret["fimports"] = []string{fromBytes(text)}, importsOf(&f.Imports)
	}
	return ret
}

func init() {
	kinds["code"] = func(raw json.RawMessage) interface{} {
		var c codeCase
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		m := &model{prog: &Prog{}, gt: newGtWorld()}
		for i := range c.Pool {
			m.pool = append(m.pool, m.arg(&c.Pool[i]))
		}
		var blocks []codeBlock
		steps := []M{}
		for i := range c.Ops {
			o := &c.Ops[i]
			st := M{"st": "ok"}
			_, p := guard(func() interface{} {
				switch o.Op {
				case "new":
					if o.Kind == "func" {
						blocks = append(blocks, codeBlock{fn: gopoet.NewFunc("f").Print(blockStart)})
					} else {
						blocks = append(blocks, codeBlock{cb: &gopoet.CodeBlock{}})
					}
				case "con":
					blocks = append(blocks, codeBlock{cb: o.Piece.construct(m.pool)})
				case "init":
					f, args := o.Piece.format(m.pool)
					if o.Via == "const" {
						blocks = append(blocks, codeBlock{cb: gopoet.NewConst("c").Initialize(f, args...).Initializer})
					} else {
						blocks = append(blocks, codeBlock{cb: gopoet.NewVar("v").Initialize(f, args...).Initializer})
					}
				case "put":
					o.Piece.putTo(blocks[o.B-1].printer(), m.pool)
				case "add":
					blocks[o.B-1].printer().add(blocks[o.C-1].block())
				case "end":
					blocks[o.B-1].printer().print(blockEnd)
				case "show":
					st = c.show(o, blocks[o.B-1])
				default:
					die("bad op", o.Op)
				}
				return nil
			})
			if p != "" {
				st = M{"st": "panic"}
			}
			steps = append(steps, st)
			if st["st"] == "panic" {
				break
			}
		}
		return M{"steps": steps}
	}
	gens["code"] = genCode
}

// ------------------------------------------------------------------ generator

type codeGen struct {
	R
	world []Pk
	own   Pk
	pool  []M
}

var codeWords = []string{"%", "%s", "%d", "%%", "%!", "%[1]s", "{{.}}", "{{", "}}", "{", "}", "`", "\"", "\\", "\r", "\n", "\t", "\x00", "//", "/*", "*/", "x", "foo", "foo.Bar", " ", "  ", "\n\n", "'", "é", "\xff", "$", "0", "a b", "\\n", "if x {\n", "\v", "\xef\xbb\xbf", "bar", "=", ""}

func (g *codeGen) text() string {
	s := ""
	for n := g.few(4); n >= 0; n-- {
		s += codeWords[g.Intn(len(codeWords))]
	}
	return fromBytes(s)
}

func (g *codeGen) ref() (p, q, name string) {
	switch k := g.Intn(10); {
	case k == 0:
		return "", "", g.pick("error", "Local")
	case k < 3:
		return g.own.P, g.own.N, "Own"
	}
	w := g.world[g.Intn(len(g.world))]
	return w.P, w.N, g.pick("T", "Thing", "X1", "y")
}

func (g *codeGen) simpleT(depth int) *T {
	if depth > 0 {
		switch g.Intn(5) {
		case 0:
			return &T{K: "ptr", E: g.simpleT(depth - 1)}
		case 1:
			return &T{K: "slice", E: g.simpleT(depth - 1)}
		case 2:
			return &T{K: "array", N: g.pick("0", "7", "1000"), E: g.simpleT(depth - 1)}
		case 3:
			return &T{K: "map", Key: g.simpleT(0), E: g.simpleT(depth - 1)}
		}
	}
	if g.chance(30) {
		return &T{K: "basic", B: g.pick("int", "string", "bool", "uint16", "float64", "uintptr")}
	}
	p, q, name := g.ref()
	return &T{K: "named", P: p, Q: q, Name: name}
}

func (g *codeGen) arg() M {
	p, q, name := g.ref()
	sym := Sym{P: p, Q: q, Name: name}
	k := g.pick("sym", "sym", "psym", "pkg", "ppkg", "mref", "pmref", "tn", "tn", "gtype", "gpkg", "gobj", "gobj", "embed")
	switch k {
	case "pkg", "ppkg", "gpkg":
		if p == "" {
			p, q = g.world[0].P, g.world[0].N
		}
		return M{"k": k, "p": p, "q": q}
	case "mref", "pmref":
		return M{"k": k, "sym": sym, "m": "Meth"}
	case "tn", "gtype":
		if k == "gtype" && p == "" {
			k = "tn"
		}
		t := g.simpleT(g.Intn(4))
		if k == "gtype" && hasLocal(t) {
			k = "tn"
		}
		return M{"k": k, "t": t}
	case "gobj":
		if p == "" {
			return M{"k": k, "obj": "universe", "sym": Sym{Name: g.pick("error", "true", "len", "int")}, "m": ""}
		}
		return M{"k": k, "obj": g.pick("const", "var", "func", "type", "method", "pmethod"), "sym": sym, "m": "Meth"}
	}
	return M{"k": k, "sym": sym}
}

func hasLocal(t *T) bool {
	return t != nil && (t.K == "named" && t.P == "" || hasLocal(t.E) || hasLocal(t.Key))
}

func (g *codeGen) part(tmpl bool) M {
	switch k := g.Intn(100); {
	case k < 45:
		return M{"k": "lit", "s": g.text()}
	case k < 60:
		k := g.pick("int", "str", "str", "bool", "float", "strs", "err", "bytes")
		s := ""
		switch k {
		case "int":
			s = g.pick("0", "-7", "123456789")
		case "bool":
			s = g.pick("true", "false")
		case "float":
			s = g.pick("1.5", "-0", "1e300")
		default:
			s = g.text()
		}
		if tmpl && k == "bytes" {
			k = "str"
		}
		x := codePart{V: json.RawMessage(jsonOf(M{"k": k, "s": s})), Prec: -1}
		p := M{"k": "plain", "v": M{"k": k, "s": s}, "verb": "", "w": 0, "left": false, "prec": -1, "star": false, "plus": false}
		if tmpl {
			p["verb"], p["out"] = "v", fromBytes(fmt.Sprint(plainValue(x.V)))
			return p
		}
		x.Verb = g.pick("v", "s", "d", "q", "x", "T", "t", "g", "#v", "z", "+v", "05d")
		if g.chance(25) {
			x.W = 1 + g.Intn(12)
			x.Left = g.chance(50)
			p["w"], p["left"] = x.W, x.Left
		}
		if g.chance(15) {
			x.Prec = g.Intn(5)
			p["prec"] = x.Prec
		}
		if x.W > 0 || x.Prec >= 0 || x.Left {
			x.Verb = x.Verb[len(x.Verb)-1:]
		}
		p["verb"] = x.Verb
		p["out"] = fromBytes(fmt.Sprintf(x.directive(0, 0), plainValue(x.V)))
		return p
	}
	p := M{"k": "arg", "a": g.Intn(len(g.pool)), "verb": g.pick("s", "v", "s", "v", "q"), "w": 0, "left": false, "prec": -1, "star": false, "plus": false}
	if tmpl {
		p["verb"] = "s"
		return p
	}
	p["plus"] = g.chance(5)
	if g.chance(20) {
		p["w"] = 1 + g.Intn(20)
		p["left"] = g.chance(50)
		p["star"] = g.chance(30)
	}
	if g.chance(10) {
		p["prec"] = g.Intn(12)
	}
	return p
}

func (g *codeGen) piece(ks ...string) M {
	k := g.pick(ks...)
	parts := []M{}
	idx := false
	shape := ""
	switch k {
	case "print", "println":
		for n := g.Intn(3); n >= 0; n-- {
			parts = append(parts, M{"k": "lit", "s": g.text()})
		}
	case "printf", "printlnf":
		for n := g.few(5); n > 0; n-- {
			parts = append(parts, g.part(false))
		}
		idx = g.chance(20)
		for _, p := range parts {
			// (an index has to stand right before the verb, as this driver writes it)
			if v, ok := p["verb"]; ok && (p["star"] == true || len(v.(string)) != 1) {
				idx = false
			}
		}
		if !idx && g.chance(12) {
			// a format that is not right: fmt tells so, in the text
			p := M{"k": "plain", "v": M{"k": "nil", "s": ""}, "verb": "", "w": 0, "left": false, "prec": -1, "star": false, "plus": false}
			switch raw := g.pick("%", "%", "%d", "%-7s", "%!", "%[90]d", "extra"); {
			case raw == "extra" && k != "printf":
			case raw == "extra":
				v := M{"k": g.pick("int", "str"), "s": "12"}
				p["v"], p["verb"] = v, raw
				p["out"] = fromBytes(fmt.Sprintf("", plainValue(json.RawMessage(jsonOf(v)))))
				parts = append(parts, p)
			case raw != "%" || k == "printf":
				p["raw"], p["out"] = raw, fromBytes(fmt.Sprintf(raw))
				parts = append(parts, p)
			}
		}
	case "tmpl":
		shape = g.pick("slice", "array", "parray", "map", "struct", "pstruct", "hidden", "phidden", "nest", "typed", "typedmap", "embed", "bare", "key", "keyed")
		max := 4
		if shape == "bare" || shape == "key" {
			max = 1
		}
		n := 0
		for i := g.few(6); i > 0; i-- {
			p := g.part(true)
			if p["k"] != "lit" {
				if n == max {
					continue
				}
				n++
			}
			parts = append(parts, p)
		}
		if n == 0 && max == 1 {
			shape = "slice"
		}
	}
	return M{"k": k, "parts": parts, "idx": idx, "shape": shape}
}

func genCode(r R, prof string) M {
	g := &codeGen{R: r}
	var w []Pk
	for _, p := range r.world(2 + r.Intn(5)) {
		if p.P != "unsafe" && isASCII(p.P+p.N) {
			w = append(w, p)
		}
	}
	if len(w) < 2 {
		w = []Pk{worldPool[0], worldPool[1]}
	}
	g.world, g.own = w[1:], w[0]
	for i := 3 + r.Intn(4); i > 0; i-- {
		g.pool = append(g.pool, g.arg())
	}
	ops := []M{}
	add := func(o M) { ops = append(ops, o) }
	var kinds []string
	var size []int
	ended := map[int]bool{}
	all := []string{"print", "println", "printf", "printf", "printlnf", "tmpl"}
	psize := func(p M) int { return len(p["parts"].([]M)) + 1 }
	for i := 6 + r.Intn(20); i > 0; i-- {
		n := len(kinds)
		switch k := r.Intn(100); {
		case n == 0 || k < 12 && n < 6:
			kind := r.pick("cb", "cb", "func")
			add(M{"op": "new", "kind": kind})
			kinds, size = append(kinds, kind), append(size, 1)
		case k < 20 && n < 6:
			p := g.piece(all...)
			add(M{"op": "con", "piece": p})
			kinds, size = append(kinds, "cb"), append(size, psize(p))
		case k < 24 && n < 6:
			p := g.piece("printf")
			add(M{"op": "init", "via": r.pick("const", "var"), "piece": p})
			kinds, size = append(kinds, "cb"), append(size, psize(p))
		case k < 66:
			b := r.Intn(n)
			if ended[b] {
				continue
			}
			p := g.piece(all...)
			size[b] += psize(p)
			add(M{"op": "put", "b": b + 1, "piece": p})
		case k < 84:
			b, c := r.Intn(n), r.Intn(n)
			if ended[b] || size[b]+size[c] > 120 {
				continue
			}
			size[b] += size[c]
			add(M{"op": "add", "b": b + 1, "c": c + 1})
		case k < 87:
			b := r.Intn(n)
			if kinds[b] == "func" && !ended[b] {
				ended[b] = true
				add(M{"op": "end", "b": b + 1})
			}
		default:
			g.addShow(add, r.Intn(n), kinds, ended)
		}
	}
	for b := range kinds {
		if kinds[b] == "func" && !ended[b] {
			ended[b] = true
			add(M{"op": "end", "b": b + 1})
		}
		g.addShow(add, b, kinds, ended)
	}
	return M{"own": g.own.P, "pkg": g.own.N, "world": w, "pool": g.pool, "ops": ops}
}

func (g *codeGen) addShow(add func(M), b int, kinds []string, ended map[int]bool) {
	how := g.pick("var", "const", "func")
	if ended[b] && g.chance(70) {
		how = "fn"
	}
	regs := []Pk{}
	if g.chance(30) {
		// (registered first, these take names that others have to avoid)
		for i := g.few(3); i >= 0; i-- {
			regs = append(regs, g.world[g.Intn(len(g.world))])
		}
	}
	add(M{"op": "show", "b": b + 1, "how": how, "regs": regs})
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
