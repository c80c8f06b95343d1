package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// A Prog describes several files, whose elements and code may share values and
// refer to each other.
type Prog struct {
	World  []Pk      `json:"world"`
	Pool   []ArgD    `json:"pool"`
	Blocks [][]Piece `json:"blocks"`
	Files  []FileD   `json:"files"`
	Writes []int     `json:"writes"`
}

type FileD struct {
	Name  string   `json:"name"`
	Path  string   `json:"path"`
	Pkg   string   `json:"pkg"`
	FC    []string `json:"fc"`
	PC    []string `json:"pc"`
	Canon string   `json:"canon"`
	Regs  []Pk     `json:"regs"`
	Decls []DeclD  `json:"decls"`
}

type DeclD struct {
	K     string   `json:"k"` // const, var, type, func
	Doc   []string `json:"doc"`
	Via   string   `json:"via"`
	Specs []SpecD  `json:"specs"` // const, var, type
	// func
	Name string  `json:"name"`
	Recv []RecvD `json:"recv"`
	Sig  *Sig    `json:"sig"`
	Body []Piece `json:"body"`
}

type RecvD struct {
	N   string `json:"n"`
	T   string `json:"t"`
	Ptr bool   `json:"ptr"`
	Via string `json:"via"` // name, named, elem
}

type SpecD struct {
	Doc   []string `json:"doc"`
	Names []string `json:"names"` // const, var
	Ty    []Ty     `json:"ty"`    // const, var: optional; type with form "of"
	Init  []InitD  `json:"init"`
	// type
	Name   string  `json:"name"`
	Alias  bool    `json:"alias"`
	Form   string  `json:"form"` // of, struct, iface
	Fields []FldD  `json:"fields"`
	Elems  []ElemD `json:"elems"`
}

type InitD struct {
	Via    string  `json:"via"` // pieces, fmt, block
	Pieces []Piece `json:"pieces"`
	Block  int     `json:"block"`
}

// Ty is a type as supplied: a TypeName, a declared TypeSpec, an unnamed one.
type Ty struct {
	K    string `json:"k"` // t, elem, anon
	T    *T     `json:"t"`
	E    []int  `json:"e"`
	Spec *SpecD `json:"spec"`
}

type FldD struct {
	N   string   `json:"n"`
	Ty  Ty       `json:"ty"`
	Tag string   `json:"tag"`
	Doc []string `json:"doc"`
}

type ElemD struct {
	K   string   `json:"k"` // embed, method
	Doc []string `json:"doc"`
	Sym Sym      `json:"sym"`
	N   string   `json:"n"`
	Sig *Sig     `json:"sig"`
}

// ArgD describes an argument of a code block.
type ArgD struct {
	K    string `json:"k"`
	Sym  Sym    `json:"sym"`
	P    string `json:"p"`
	Q    string `json:"q"`
	M    string `json:"m"`
	T    *T     `json:"t"`
	Sig  *Sig   `json:"sig"`
	E    []int  `json:"e"`
	Obj  string `json:"obj"`
	S    string `json:"s"`
	N    int    `json:"n"`
	Spec *SpecD `json:"spec"`
}

type Part struct {
	K    string `json:"k"` // lit, arg
	Toks []Tok  `json:"toks"`
	A    int    `json:"a"`
	Verb string `json:"verb"`
}

type Piece struct {
	K     string `json:"k"` // print, println, printf, printlnf, tmpl, add
	Parts []Part `json:"parts"`
	Block int    `json:"block"`
	Shape string `json:"shape"`
}

// ------------------------------------------------------------------ building

type model struct {
	prog   *Prog
	files  []*gopoet.GoFile
	specs  map[[3]int]interface{} // *ConstSpec, *VarSpec, *TypeSpec, *FuncSpec
	decls  map[[2]int]interface{} // *ConstDecl, *VarDecl, *TypeDecl
	pool   []interface{}
	made   []bool // for a model that grows: the members of pool there are
	blocks []*gopoet.CodeBlock
	data   []interface{} // template data values, in order of creation
	gt     *gtWorld
	// what type specs were made from
	fields map[*gopoet.TypeSpec][]*gopoet.FieldSpec
	elems  map[*gopoet.TypeSpec][]gopoet.InterfaceElement
	parts  []interface{} // all of them, in order of creation
}

// longLine is a long line of a comment, "@long" in cases and observations.
var longLine = strings.Repeat("long ", 14000) + "line"

func lines(ss []string) string {
	l := append([]string{}, ss...)
	for i := range l {
		if l[i] == "@long" {
			l[i] = longLine
		}
	}
	return strings.Join(l, "\n")
}

func key3(e []int) [3]int {
	k := [3]int{}
	copy(k[:], e)
	return k
}

func build(p *Prog) *model { return buildIn(p, false) }

// buildIn makes the arguments in order, or backwards: what is made first is at a
// lower address, usually, and must not matter.
func buildIn(p *Prog, backwards bool) *model {
	m := &model{prog: p, specs: map[[3]int]interface{}{}, decls: map[[2]int]interface{}{}, gt: newGtWorld(),
		fields: map[*gopoet.TypeSpec][]*gopoet.FieldSpec{}, elems: map[*gopoet.TypeSpec][]gopoet.InterfaceElement{}}
	for _, fd := range p.Files {
		f := gopoet.NewGoFile(fd.Name, fd.Path, fd.Pkg)
		f.FileComment, f.PackageComment, f.CanonicalImportPath = lines(fd.FC), lines(fd.PC), fd.Canon
		for i, r := range fd.Regs {
			m.register(f, i, r)
		}
		m.files = append(m.files, f)
	}
	// elements, without code
	for fi := range p.Files {
		for di := range p.Files[fi].Decls {
			m.decl(fi, di)
		}
	}
	// code
	m.pool = make([]interface{}, len(p.Pool))
	for i := range p.Pool {
		if backwards {
			i = len(p.Pool) - 1 - i
		}
		m.pool[i] = m.arg(&p.Pool[i])
	}
	for range p.Blocks {
		m.blocks = append(m.blocks, &gopoet.CodeBlock{})
	}
	for i, b := range p.Blocks {
		m.fill(m.blocks[i], b)
	}
	for fi := range p.Files {
		for di := range p.Files[fi].Decls {
			m.code(fi, di)
		}
	}
	return m
}

// register registers an import explicitly, in several ways.
func (m *model) register(f *gopoet.GoFile, i int, r Pk) {
	switch i % 3 {
	case 0:
		f.RegisterImport(r.P, r.N)
	case 1:
		f.RegisterImportForPackage(gopoet.Package{ImportPath: r.P, Name: r.N})
	default:
		f.EnsureImported(gopoet.Package{ImportPath: r.P, Name: r.N}.Symbol("X"))
	}
}

func (m *model) ty(t *Ty) gopoet.TypeNameOrSpec {
	switch t.K {
	case "t":
		return t.T.gp()
	case "elem":
		return m.specs[key3(t.E)].(*gopoet.TypeSpec)
	case "anon":
		return m.typeSpec(t.Spec)
	}
	panic("bad ty " + t.K)
}

func (m *model) typeSpec(s *SpecD) *gopoet.TypeSpec {
	var ts *gopoet.TypeSpec
	if s.Form != "of" && s.Alias {
		body := *s
		body.Alias, body.Name, body.Doc = false, "", nil
		inner := m.typeSpec(&body)
		ts = gopoet.NewTypeAlias(s.Name, inner).SetComment(lines(s.Doc))
		m.fields[ts], m.elems[ts] = m.fields[inner], m.elems[inner]
		return ts
	}
	switch s.Form {
	case "of":
		if s.Alias {
			ts = gopoet.NewTypeAlias(s.Name, m.ty(&s.Ty[0]))
		} else {
			ts = gopoet.NewTypeSpec(s.Name, m.ty(&s.Ty[0]))
		}
	case "struct":
		var fs []*gopoet.FieldSpec
		for i := range s.Fields {
			fd := &s.Fields[i]
			f := gopoet.NewField(fd.N, m.ty(&fd.Ty)).SetComment(lines(fd.Doc))
			if fd.Tag != "" {
				chain(f, f.SetTag(fd.Tag))
			}
			fs = append(fs, f)
			m.parts = append(m.parts, f)
		}
		ts = gopoet.NewStructTypeSpec(s.Name, fs...)
		m.fields[ts] = append([]*gopoet.FieldSpec(nil), fs...)
	case "iface":
		var es []gopoet.InterfaceElement
		for i := range s.Elems {
			ed := &s.Elems[i]
			if ed.K == "embed" {
				es = append(es, gopoet.NewInterfaceEmbed(ed.Sym.gp()).SetComment(lines(ed.Doc)))
				continue
			}
			im := gopoet.NewInterfaceMethod(ed.N).SetComment(lines(ed.Doc))
			for _, a := range ed.Sig.Args {
				chain(im, im.AddArg(a.N, a.T.gp()))
			}
			for _, a := range ed.Sig.Res {
				chain(im, im.AddResult(a.N, a.T.gp()))
			}
			if ed.Sig.Var {
				chain(im, im.SetVariadic(true))
			}
			es = append(es, im)
		}
		ts = gopoet.NewInterfaceTypeSpec(s.Name, es...)
		m.elems[ts] = append([]gopoet.InterfaceElement(nil), es...)
		for _, e := range es {
			m.parts = append(m.parts, e)
		}
	default:
		panic("bad form " + s.Form)
	}
	chain(ts, ts.SetComment(lines(s.Doc)))
	return ts
}

func (m *model) decl(fi, di int) {
	d := &m.prog.Files[fi].Decls[di]
	f := m.files[fi]
	switch d.K {
	case "const":
		var cs []*gopoet.ConstSpec
		for si := range d.Specs {
			s := &d.Specs[si]
			c := gopoet.NewConst(s.Names...).SetComment(lines(s.Doc))
			if len(s.Ty) > 0 {
				chain(c, c.SetType(m.ty(&s.Ty[0])))
			}
			m.specs[[3]int{fi, di, si}] = c
			cs = append(cs, c)
		}
		if d.Via == "add" {
			chain(f, f.AddConst(cs[0]))
			return
		}
		cd := gopoet.NewConstDecl(cs[:1]...)
		for _, c := range cs[1:] {
			chain(cd, cd.AddConst(c))
		}
		m.decls[[2]int{fi, di}] = cd
		chain(f, f.AddElement(cd.SetComment(lines(d.Doc))))
	case "var":
		var vs []*gopoet.VarSpec
		for si := range d.Specs {
			s := &d.Specs[si]
			v := gopoet.NewVar(s.Names...).SetComment(lines(s.Doc))
			if len(s.Ty) > 0 {
				chain(v, v.SetType(m.ty(&s.Ty[0])))
			}
			m.specs[[3]int{fi, di, si}] = v
			vs = append(vs, v)
		}
		if d.Via == "add" {
			chain(f, f.AddVar(vs[0]))
			return
		}
		vd := gopoet.NewVarDecl(vs[:1]...)
		for _, v := range vs[1:] {
			chain(vd, vd.AddVar(v))
		}
		m.decls[[2]int{fi, di}] = vd
		chain(f, f.AddElement(vd.SetComment(lines(d.Doc))))
	case "type":
		var ts []*gopoet.TypeSpec
		for si := range d.Specs {
			t := m.typeSpec(&d.Specs[si])
			m.specs[[3]int{fi, di, si}] = t
			ts = append(ts, t)
		}
		if d.Via == "add" {
			chain(f, f.AddType(ts[0]))
			return
		}
		td := gopoet.NewTypeDecl(ts[:1]...)
		for _, t := range ts[1:] {
			chain(td, td.AddType(t))
		}
		m.decls[[2]int{fi, di}] = td
		chain(f, f.AddElement(td.SetComment(lines(d.Doc))))
	case "func":
		fn := gopoet.NewFunc(d.Name)
		if len(d.Recv) > 0 {
			fn = gopoet.NewMethod(m.recv(fi, &d.Recv[0]), d.Name)
		}
		chain(fn, fn.SetComment(lines(d.Doc)))
		for _, a := range d.Sig.Args {
			chain(fn, fn.AddArg(a.N, a.T.gp()))
		}
		for _, a := range d.Sig.Res {
			chain(fn, fn.AddResult(a.N, a.T.gp()))
		}
		if d.Sig.Var {
			chain(fn, fn.SetVariadic(true))
		}
		m.specs[[3]int{fi, di, 0}] = fn
		chain(f, f.AddElement(fn))
	default:
		panic("bad decl " + d.K)
	}
}

func (m *model) recv(fi int, r *RecvD) *gopoet.ReceiverSpec {
	switch r.Via {
	case "named":
		t := gopoet.NamedType(m.files[fi].Package().Symbol(r.T))
		if r.Ptr {
			if len(r.N)%2 == 0 {
				return gopoet.NewReceiverForType(r.N, gopoet.PointerType(t))
			}
			return gopoet.NewPointerReceiverForType(r.N, t)
		}
		return gopoet.NewReceiverForType(r.N, t)
	case "elem":
		ts := gopoet.NewTypeSpec(r.T, gopoet.IntType)
		if r.Ptr {
			return gopoet.NewPointerReceiverForType(r.N, ts)
		}
		return gopoet.NewReceiverForType(r.N, ts)
	}
	if r.Ptr {
		return gopoet.NewPointerReceiver(r.N, r.T)
	}
	return gopoet.NewReceiver(r.N, r.T)
}

func (m *model) gtObj(kind string, s Sym, meth string) types.Object {
	pkg := m.gt.pkg(s.P, s.Q)
	sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	switch kind {
	case "const":
		return types.NewConst(token.NoPos, pkg, s.Name, types.Typ[types.Int], nil)
	case "var":
		return types.NewVar(token.NoPos, pkg, s.Name, types.Typ[types.Int])
	case "func":
		return types.NewFunc(token.NoPos, pkg, s.Name, sig)
	case "type":
		return m.gt.symType(s).(*types.Named).Obj()
	case "alias":
		return types.NewAlias(types.NewTypeName(token.NoPos, pkg, s.Name, nil), types.Typ[types.Int]).Obj()
	case "universe":
		return types.Universe.Lookup(s.Name)
	case "method", "pmethod":
		var rt types.Type = m.gt.symType(s)
		if kind == "pmethod" {
			rt = types.NewPointer(rt)
		}
		recv := types.NewParam(token.NoPos, pkg, "r", rt)
		return types.NewFunc(token.NoPos, pkg, meth, types.NewSignatureType(recv, nil, nil, nil, nil, false))
	case "imethod":
		recv := types.NewParam(token.NoPos, pkg, "", m.gt.ifaceNamed(s))
		return types.NewFunc(token.NoPos, pkg, meth, types.NewSignatureType(recv, nil, nil, nil, nil, false))
	}
	panic("bad obj " + kind)
}

func (m *model) arg(a *ArgD) interface{} {
	switch a.K {
	case "sym":
		return a.Sym.gp()
	case "psym":
		s := a.Sym.gp()
		return &s
	case "pkg":
		return gopoet.Package{ImportPath: a.P, Name: a.Q}
	case "ppkg":
		return &gopoet.Package{ImportPath: a.P, Name: a.Q}
	case "mref":
		return gopoet.MethodReference{Type: a.Sym.gp(), Method: a.M}
	case "pmref":
		return &gopoet.MethodReference{Type: a.Sym.gp(), Method: a.M}
	case "tn":
		return a.T.gp()
	case "sig":
		return *a.Sig.gp()
	case "psig":
		return a.Sig.gp()
	case "rtype":
		return rtOf(a.T)
	case "gtype":
		return m.gt.typ(a.T)
	case "gobj":
		return m.gtObj(a.Obj, a.Sym, a.M)
	case "gpkg":
		return m.gt.pkg(a.P, a.Q)
	case "elem":
		return m.specs[key3(a.E)]
	case "atspec":
		return m.typeSpec(a.Spec)
	case "embed":
		return gopoet.NewInterfaceEmbed(a.Sym.gp())
	case "imethod":
		im := gopoet.NewInterfaceMethod(a.M)
		im.Signature = *a.Sig.gp()
		return im
	case "field":
		return gopoet.NewField(a.M, gopoet.IntType)
	case "str":
		return a.S
	case "int":
		return a.N
	}
	panic("bad arg " + a.K)
}

func joinToks(ts []Tok) string {
	var b strings.Builder
	for _, t := range ts {
		if t.C == "str" {
			b.WriteString(strconv.Quote(t.S))
		} else {
			b.WriteString(t.S)
		}
		b.WriteByte(' ')
	}
	return b.String()
}

// the two kinds of receivers of print methods
type printer interface {
	print(string)
	println(string)
	printf(string, ...interface{})
	printlnf(string, ...interface{})
	render(*template.Template, interface{})
	add(*gopoet.CodeBlock)
}

type cbPrinter struct{ cb *gopoet.CodeBlock }

func (p cbPrinter) print(s string)                      { chain(p.cb, p.cb.Print(s)) }
func (p cbPrinter) println(s string)                    { chain(p.cb, p.cb.Println(s)) }
func (p cbPrinter) printf(f string, a ...interface{})   { chain(p.cb, p.cb.Printf(f, a...)) }
func (p cbPrinter) printlnf(f string, a ...interface{}) { chain(p.cb, p.cb.Printlnf(f, a...)) }
func (p cbPrinter) render(t *template.Template, data interface{}) {
	chain(p.cb, p.cb.RenderCode(t, data))
}
func (p cbPrinter) add(cb *gopoet.CodeBlock) { chain(p.cb, p.cb.AddCode(cb)) }

type fnPrinter struct{ fn *gopoet.FuncSpec }

func (p fnPrinter) print(s string)                      { chain(p.fn, p.fn.Print(s)) }
func (p fnPrinter) println(s string)                    { chain(p.fn, p.fn.Println(s)) }
func (p fnPrinter) printf(f string, a ...interface{})   { chain(p.fn, p.fn.Printf(f, a...)) }
func (p fnPrinter) printlnf(f string, a ...interface{}) { chain(p.fn, p.fn.Printlnf(f, a...)) }
func (p fnPrinter) render(t *template.Template, data interface{}) {
	chain(p.fn, p.fn.RenderCode(t, data))
}
func (p fnPrinter) add(cb *gopoet.CodeBlock) { chain(p.fn, p.fn.AddCode(cb)) }

func (m *model) format(parts []Part) (string, []interface{}) {
	var f strings.Builder
	var args []interface{}
	for _, p := range parts {
		if p.K == "lit" {
			f.WriteString(strings.Replace(joinToks(p.Toks), "%", "%%", -1))
			continue
		}
		f.WriteString("%" + p.Verb + " ")
		args = append(args, m.poolArg(p.A))
	}
	return f.String(), args
}

func (m *model) fillTo(to printer, ps []Piece) {
	for i := range ps {
		p := &ps[i]
		switch p.K {
		case "print", "println":
			var toks []Tok
			for _, x := range p.Parts {
				toks = append(toks, x.Toks...)
			}
			if p.K == "print" {
				to.print(joinToks(toks))
			} else {
				to.println(joinToks(toks))
			}
		case "printf":
			f, args := m.format(p.Parts)
			to.printf(f, args...)
		case "printlnf":
			f, args := m.format(p.Parts)
			to.printlnf(f, args...)
		case "tmpl":
			t, data := m.template(p)
			m.data = append(m.data, data)
			to.render(t, data)
		case "add":
			to.add(m.blocks[p.Block])
		default:
			panic("bad piece " + p.K)
		}
	}
}

func (m *model) fill(cb *gopoet.CodeBlock, ps []Piece) { m.fillTo(cbPrinter{cb}, ps) }

// ---------------------------------------------------------------- templates

type dStruct struct{ A, B, C, D interface{} }

type dHidden struct {
	Name   string
	hidden []interface{}
	n      int
}

func (d dHidden) Get(i int) interface{} { return d.hidden[i] }

type dNest struct {
	X *struct {
		L []map[string]interface{}
	}
	Y [2]interface{}
}

// dKeyed has the arguments as keys of a map, too.
type dKeyed struct {
	M map[interface{}]string
	A []interface{}
}

type dEmbed struct {
	dStruct
	Other *int
}

// shaped builds a data value of the given shape that makes the arguments
// available, and the expressions for them. Without expressions (nil), the data
// is a map whose key is the only argument.
func shaped(shape string, args []interface{}) (interface{}, func(i int) string) {
	at := func(i int) interface{} {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	var data interface{}
	var expr func(i int) string
	idx := func(i int) string { return fmt.Sprintf("index . %d", i) }
	same := len(args) > 0
	var elemType reflect.Type
	for _, a := range args {
		if reflect.TypeOf(a) != reflect.TypeOf(args[0]) {
			same = false
		}
	}
	// types from outside cannot be replaced in slots of their own type
	if same {
		elemType = reflect.TypeOf(args[0])
		switch args[0].(type) {
		case gopoet.TypeName:
			elemType = reflect.TypeOf((*gopoet.TypeName)(nil)).Elem()
		case reflect.Type, types.Type, types.Object, *types.Package:
			same = false
		}
	}
	switch shape {
	case "slice":
		data, expr = args, idx
	case "array":
		data, expr = [4]interface{}{at(0), at(1), at(2), at(3)}, idx
	case "parray":
		data, expr = &[4]interface{}{at(0), at(1), at(2), at(3)}, idx
	case "map":
		mm := map[string]interface{}{}
		for i, a := range args {
			mm[fmt.Sprintf("k%d", i)] = a
		}
		data, expr = mm, func(i int) string { return fmt.Sprintf(".k%d", i) }
	case "struct", "pstruct", "embed":
		s := dStruct{at(0), at(1), at(2), at(3)}
		data, expr = s, func(i int) string { return "." + string(rune('A'+i)) }
		if shape == "pstruct" {
			data = &s
		} else if shape == "embed" {
			data = &dEmbed{dStruct: s}
		}
	case "hidden", "phidden":
		d := dHidden{"x", args, len(args)}
		data, expr = d, func(i int) string { return fmt.Sprintf(".Get %d", i) }
		if shape == "phidden" {
			data = &d
		}
	case "nest":
		var d dNest
		d.X = &struct{ L []map[string]interface{} }{}
		for _, a := range args {
			d.X.L = append(d.X.L, map[string]interface{}{"v": a, "n": 1})
		}
		d.Y[1] = &d.X
		data, expr = d, func(i int) string { return fmt.Sprintf("(index .X.L %d).v", i) }
	case "typed":
		if !same {
			data, expr = args, idx
			break
		}
		rv := reflect.MakeSlice(reflect.SliceOf(elemType), 0, len(args))
		for _, a := range args {
			rv = reflect.Append(rv, reflect.ValueOf(a))
		}
		data, expr = rv.Interface(), idx
	case "typedmap":
		if !same {
			data, expr = args, idx
			break
		}
		rv := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), elemType))
		for i, a := range args {
			rv.SetMapIndex(reflect.ValueOf(i), reflect.ValueOf(a))
		}
		data, expr = rv.Interface(), idx
	case "bare":
		data, expr = at(0), func(int) string { return "." }
	case "key":
		// usable for one hashable argument
		if len(args) != 1 || !reflect.TypeOf(args[0]).Comparable() {
			data, expr = args, idx
			break
		}
		data, expr = map[interface{}]bool{args[0]: true}, nil
	case "keyed":
		d := dKeyed{map[interface{}]string{}, args}
		for _, a := range args {
			if reflect.TypeOf(a).Comparable() {
				d.M[a] = ""
			}
		}
		data, expr = d, func(i int) string { return fmt.Sprintf("index .A %d", i) }
	case "tnlist":
		var ts []gopoet.TypeName
		for _, a := range args {
			t, ok := a.(gopoet.TypeName)
			if !ok {
				ts = nil
				break
			}
			ts = append(ts, t)
		}
		data, expr = ts, idx
		if ts == nil {
			data = args
		}
	default:
		panic("bad shape " + shape)
	}
	return data, expr
}

// template builds a template text and a data value of the given shape that
// makes the arguments available.
func (m *model) template(p *Piece) (*template.Template, interface{}) {
	var args []interface{}
	for _, x := range p.Parts {
		if x.K == "arg" {
			args = append(args, m.poolArg(x.A))
		}
	}
	data, expr := shaped(p.Shape, args)
	var b strings.Builder
	i := 0
	for _, x := range p.Parts {
		if x.K == "lit" {
			b.WriteString(joinToks(x.Toks))
			continue
		}
		switch args[i].(type) {
		case gopoet.Signature, *gopoet.Signature:
			e := "."
			if expr != nil {
				e = "(" + expr(i) + ")"
			}
			if p.Shape == "bare" {
				e = "$"
			}
			if expr == nil {
				e = "$k"
				b.WriteString("{{range $k, $v := .}}")
			}
			b.WriteString("func (")
			b.WriteString("{{range " + e + ".Args}} {{.Type}}, {{end}}) ")
			b.WriteString("({{range " + e + ".Results}} {{.Type}}, {{end}}) ")
			if expr == nil {
				b.WriteString("{{end}}")
			}
		default:
			if expr == nil {
				b.WriteString("{{range $k, $v := .}}{{$k}}{{end}} ")
			} else {
				b.WriteString("{{" + expr(i) + "}} ")
			}
		}
		i++
	}
	return template.Must(template.New("t").Parse(b.String())), data
}

// poolArg is an argument, made when it is first used.
func (m *model) poolArg(i int) interface{} {
	for len(m.pool) <= i {
		m.pool, m.made = append(m.pool, nil), append(m.made, false)
	}
	if i < len(m.made) && !m.made[i] {
		m.pool[i], m.made[i] = m.arg(&m.prog.Pool[i]), true
	}
	return m.pool[i]
}

func (m *model) code(fi, di int) {
	d := &m.prog.Files[fi].Decls[di]
	if d.K == "func" {
		m.fillTo(fnPrinter{m.specs[[3]int{fi, di, 0}].(*gopoet.FuncSpec)}, d.Body)
		return
	}
	for si := range d.Specs {
		if in := d.Specs[si].Init; len(in) > 0 {
			m.init(fi, di, si, &in[0])
		}
	}
}

func (m *model) init(fi, di, si int, in *InitD) {
	var cb *gopoet.CodeBlock
	var f string
	var args []interface{}
	switch in.Via {
	case "block":
		cb = m.blocks[in.Block]
	case "fmt":
		f, args = m.format(in.Pieces[0].Parts)
	default:
		cb = &gopoet.CodeBlock{}
		m.fill(cb, in.Pieces)
	}
	switch x := m.specs[[3]int{fi, di, si}].(type) {
	case *gopoet.ConstSpec:
		if cb == nil {
			chain(x, x.Initialize(f, args...))
		} else {
			chain(x, x.SetInitializer(cb))
		}
	case *gopoet.VarSpec:
		if cb == nil {
			chain(x, x.Initialize(f, args...))
		} else {
			chain(x, x.SetInitializer(cb))
		}
	}
}

// ------------------------------------------------------------------ snapshot

func projTy(t gopoet.TypeNameOrSpec) interface{} {
	switch t := t.(type) {
	case nil:
		return "none"
	case gopoet.TypeName:
		return M{"t": projT(t)}
	case *gopoet.TypeSpec:
		return projTypeSpec(t)
	}
	return "?"
}

func try(f func() interface{}) interface{} {
	v, p := guard(f)
	if p != "" {
		return "panic"
	}
	return v
}

func projTypeSpec(t *gopoet.TypeSpec) M {
	return M{
		"k": "typespec", "name": t.Name, "doc": t.Comment, "str": t.String(), "alias": t.IsAlias(), "under": projT(t.Underlying()),
		"sym": try(func() interface{} { return projSym(t.ToSymbol()) }),
		"tn":  try(func() interface{} { return projT(t.ToTypeName()) }),
	}
}

func projFn(f *gopoet.FuncSpec) M {
	rc := ""
	if f.Receiver != nil {
		rc = fmt.Sprintf("%+v", *f.Receiver)
	}
	return M{
		"k": "func", "name": f.Name, "doc": f.Comment, "str": f.String(), "recv": rc, "sig": projSig(&f.Signature),
		"sym": try(func() interface{} { return projRef(f.ToSymbol()) }),
		"tn":  try(func() interface{} { return projT(f.ToTypeName()) }),
	}
}

func projRef(s gopoet.SymbolOrMethodRef) M {
	switch s := s.(type) {
	case gopoet.Symbol:
		return M{"k": "sym", "sym": projSym(s)}
	case *gopoet.Symbol:
		return M{"k": "sym", "sym": projSym(*s)}
	case gopoet.MethodReference:
		return M{"k": "mref", "sym": projSym(s.Type), "m": s.Method}
	case *gopoet.MethodReference:
		return M{"k": "mref", "sym": projSym(s.Type), "m": s.Method}
	}
	return M{"k": fmt.Sprintf("bad %T", s)}
}

func projVal(k string, names []string, doc, str string, ty gopoet.TypeNameOrSpec, at func(i int) gopoet.Symbol, one func() gopoet.Symbol) M {
	syms := []interface{}{}
	for i := range names {
		i := i
		syms = append(syms, try(func() interface{} { return projSym(at(i)) }))
	}
	return M{"k": k, "names": names, "doc": doc, "str": str, "ty": projTy(ty), "syms": syms,
		"sym": try(func() interface{} { return projSym(one()) })}
}

func projConst(c *gopoet.ConstSpec) M {
	return projVal("const", c.Names, c.Comment, c.String(), c.Type, c.SymbolAt, c.ToSymbol)
}

func projVar(c *gopoet.VarSpec) M {
	return projVal("var", c.Names, c.Comment, c.String(), c.Type, c.SymbolAt, c.ToSymbol)
}

func projElement(e gopoet.FileElement) interface{} {
	l := []interface{}{}
	switch e := e.(type) {
	case *gopoet.ConstDecl:
		for _, c := range e.Consts {
			l = append(l, projConst(c))
		}
		return M{"k": "const", "doc": e.Comment, "specs": l}
	case *gopoet.VarDecl:
		for _, c := range e.Vars {
			l = append(l, projVar(c))
		}
		return M{"k": "var", "doc": e.Comment, "specs": l}
	case *gopoet.TypeDecl:
		for _, t := range e.Types {
			l = append(l, projTypeSpec(t))
		}
		return M{"k": "type", "doc": e.Comment, "specs": l}
	case *gopoet.FuncSpec:
		return projFn(e)
	}
	return fmt.Sprintf("%T", e)
}

// projArg projects any value that may be an argument.
func projArg(a interface{}) interface{} {
	switch a := a.(type) {
	case gopoet.Symbol, *gopoet.Symbol, gopoet.MethodReference, *gopoet.MethodReference:
		return projRef(a.(gopoet.SymbolOrMethodRef))
	case gopoet.Package:
		return M{"k": "pkg", "p": a.ImportPath, "q": a.Name}
	case *gopoet.Package:
		return M{"k": "pkg", "p": a.ImportPath, "q": a.Name}
	case gopoet.Signature:
		return M{"k": "sig", "sig": projSig(&a)}
	case *gopoet.Signature:
		return M{"k": "sig", "sig": projSig(a)}
	case gopoet.TypeName:
		return M{"k": "tn", "t": projT(a)}
	case *gopoet.ConstSpec:
		return projConst(a)
	case *gopoet.VarSpec:
		return projVar(a)
	case *gopoet.TypeSpec:
		return projTypeSpec(a)
	case *gopoet.FuncSpec:
		return projFn(a)
	case *gopoet.InterfaceEmbed:
		return M{"k": "embed", "sym": projSym(a.Type), "doc": a.Comment, "str": a.String()}
	case *gopoet.InterfaceMethod:
		return M{"k": "imethod", "n": a.Name, "sig": projSig(&a.Signature), "doc": a.Comment, "str": a.String()}
	case *gopoet.FieldSpec:
		return M{"k": "field", "n": a.Name, "ty": projTy(a.Type), "tag": string(a.Tag), "str": a.String()}
	}
	return fmt.Sprintf("%T %v", a, a)
}

func importsOf(im *gopoet.Imports) []M {
	ret := []M{}
	list := im.ImportSpecs()
	for k, s := range list {
		ret = append(ret, M{"a": s.PackageAlias, "p": s.ImportPath})
		list[k].PackageAlias = "spoilt"
	}
	return ret
}

// snapshot projects everything that can be observed through the elements,
// types and code arguments of all files, but not their import tables.
func (m *model) snapshot() string {
	fs := []interface{}{}
	for _, f := range m.files {
		els := []interface{}{}
		for i := 0; i < f.NumElements(); i++ {
			els = append(els, projElement(f.ElementAt(i)))
		}
		fs = append(fs, M{"name": f.Name, "fc": f.FileComment, "pc": f.PackageComment, "canon": f.CanonicalImportPath,
			"pkg": f.PackageName, "path": f.Package().ImportPath, "els": els})
	}
	args := []interface{}{}
	for _, a := range m.pool {
		args = append(args, projArg(a))
	}
	parts := []interface{}{}
	for _, x := range m.parts {
		parts = append(parts, projArg(x))
	}
	data := []interface{}{}
	for _, d := range m.data {
		data = append(data, dump(d))
	}
	return jsonOf(M{"files": fs, "args": args, "parts": parts, "data": data})
}

// dump shows a template data value with the values it holds.
func dump(v interface{}) interface{} {
	var rec func(rv reflect.Value) interface{}
	rec = func(rv reflect.Value) interface{} {
		if !rv.IsValid() {
			return "nil"
		}
		if rv.Kind() != reflect.Interface {
			if rv.CanInterface() {
				switch x := rv.Interface().(type) {
				case types.Type:
					return "types.Type " + x.String()
				case types.Object:
					return "types.Object " + x.String()
				case *types.Package:
					return "types.Package " + x.String()
				case reflect.Type:
					return "reflect.Type " + x.String()
				default:
					if p, ok := projArg(x).(M); ok {
						return p
					}
				}
			} else if p := strings.TrimLeft(rv.Type().String(), "*"); strings.HasPrefix(p, "types.") || strings.HasPrefix(p, "reflect.") || strings.HasPrefix(p, "gopoet.") {
				return fmt.Sprint(rv)
			}
		}
		switch rv.Kind() {
		case reflect.Interface:
			if rv.IsNil() {
				return "nil"
			}
			return rec(rv.Elem())
		case reflect.Ptr:
			if rv.IsNil() {
				return "nil"
			}
			return M{"ptr": rec(rv.Elem())}
		case reflect.Slice, reflect.Array:
			l := []interface{}{}
			for i := 0; i < rv.Len(); i++ {
				l = append(l, rec(rv.Index(i)))
			}
			return M{rv.Type().String(): l}
		case reflect.Map:
			mm := M{}
			for _, k := range rv.MapKeys() {
				mm[jsonOf(rec(k))] = rec(rv.MapIndex(k))
			}
			return M{rv.Type().String(): mm}
		case reflect.Struct:
			l := []interface{}{}
			for i := 0; i < rv.NumField(); i++ {
				l = append(l, rec(rv.Field(i)))
			}
			return M{rv.Type().String(): l}
		}
		return fmt.Sprint(rv)
	}
	return rec(reflect.ValueOf(v))
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		die(err)
	}
	return string(b)
}

func hash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:8])
}

// render writes file i to a buffer.
func (m *model) render(i int) (out string, st string) {
	var buf bytes.Buffer
	_, p := guard(func() interface{} {
		if err := gopoet.WriteGoFile(&buf, m.files[i]); err != nil {
			st = "err"
			if fe, ok := err.(*gopoet.FormatError); ok {
				out = string(fe.Unformatted)
			}
			return nil
		}
		st = "ok"
		return nil
	})
	if p != "" {
		return p, "panic"
	}
	if st == "ok" {
		out = buf.String()
	}
	return out, st
}
