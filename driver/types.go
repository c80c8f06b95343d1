package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/scanner"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"github.com/jhump/gopoet"
)

// T is an abstract type: the specification's view of a type (spec/GoTypes.tla).
// It is the common currency between generators, the code under test and TLC.
type T struct {
	K      string
	B      string
	P      string
	Q      string
	Name   string
	N      string
	Dir    string
	E, Key *T
	Sig    *Sig
	Fields []Field
	Embeds []Sym
	Meths  []Meth
}

type Sym struct {
	P    string `json:"p"`
	Q    string `json:"q"`
	Name string `json:"name"`
}

type Arg struct {
	N string `json:"n"`
	T *T     `json:"t"`
}

type Sig struct {
	Args []Arg `json:"args"`
	Res  []Arg `json:"res"`
	Var  bool  `json:"var"`
}

type Field struct {
	N   string `json:"n"`
	T   *T     `json:"t"`
	Tag string `json:"tag"`
}

type Meth struct {
	N   string `json:"n"`
	Sig *Sig   `json:"sig"`
}

func (s *Sig) MarshalJSON() ([]byte, error) {
	args, res := s.Args, s.Res
	if args == nil {
		args = []Arg{}
	}
	if res == nil {
		res = []Arg{}
	}
	return json.Marshal(struct {
		Args []Arg `json:"args"`
		Res  []Arg `json:"res"`
		Var  bool  `json:"var"`
	}{args, res, s.Var})
}

type M = map[string]interface{}

func (t *T) MarshalJSON() ([]byte, error) {
	switch t.K {
	case "basic":
		return json.Marshal(M{"k": "basic", "b": t.B})
	case "named":
		return json.Marshal(M{"k": "named", "p": t.P, "q": t.Q, "name": t.Name})
	case "alias":
		return json.Marshal(M{"k": "alias", "p": t.P, "q": t.Q, "name": t.Name, "e": t.E})
	case "ptr", "slice":
		return json.Marshal(M{"k": t.K, "e": t.E})
	case "array":
		return json.Marshal(M{"k": t.K, "n": t.N, "e": t.E})
	case "map":
		return json.Marshal(M{"k": t.K, "key": t.Key, "e": t.E})
	case "chan":
		return json.Marshal(M{"k": t.K, "dir": t.Dir, "e": t.E})
	case "func":
		return json.Marshal(M{"k": t.K, "sig": t.Sig})
	case "struct":
		fs := []M{}
		for _, f := range t.Fields {
			fs = append(fs, M{"n": f.N, "t": f.T, "tag": f.Tag, "doc": []string{}})
		}
		return json.Marshal(M{"k": t.K, "fields": fs})
	case "iface":
		els := []M{}
		for _, e := range t.Embeds {
			els = append(els, M{"k": "embed", "doc": []string{}, "sym": e})
		}
		for _, m := range t.Meths {
			els = append(els, M{"k": "method", "doc": []string{}, "n": m.N, "sig": m.Sig})
		}
		return json.Marshal(M{"k": t.K, "elems": els})
	}
	return json.Marshal(M{"k": t.K})
}

func (t *T) UnmarshalJSON(b []byte) error {
	var x struct {
		K      string  `json:"k"`
		B      string  `json:"b"`
		P      string  `json:"p"`
		Q      string  `json:"q"`
		Name   string  `json:"name"`
		N      string  `json:"n"`
		Dir    string  `json:"dir"`
		E      *T      `json:"e"`
		Key    *T      `json:"key"`
		Sig    *Sig    `json:"sig"`
		Fields []Field `json:"fields"`
		Elems  []struct {
			K   string `json:"k"`
			Sym Sym    `json:"sym"`
			N   string `json:"n"`
			Sig *Sig   `json:"sig"`
		} `json:"elems"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*t = T{K: x.K, B: x.B, P: x.P, Q: x.Q, Name: x.Name, N: x.N, Dir: x.Dir, E: x.E, Key: x.Key,
		Sig: x.Sig, Fields: x.Fields}
	for _, e := range x.Elems {
		if e.K == "embed" {
			t.Embeds = append(t.Embeds, e.Sym)
		} else {
			t.Meths = append(t.Meths, Meth{e.N, e.Sig})
		}
	}
	return nil
}

// ---------------------------------------------------------------- to gopoet

var basicKinds = map[string]reflect.Kind{
	"bool": reflect.Bool, "string": reflect.String, "int": reflect.Int, "int8": reflect.Int8,
	"int16": reflect.Int16, "int32": reflect.Int32, "int64": reflect.Int64, "uint": reflect.Uint,
	"uint8": reflect.Uint8, "uint16": reflect.Uint16, "uint32": reflect.Uint32, "uint64": reflect.Uint64,
	"uintptr": reflect.Uintptr, "float32": reflect.Float32, "float64": reflect.Float64,
	"complex64": reflect.Complex64, "complex128": reflect.Complex128,
}

func (s Sym) gp() gopoet.Symbol {
	return gopoet.Symbol{Name: s.Name, Package: gopoet.Package{ImportPath: s.P, Name: s.Q}}
}

func dirOf(s string) reflect.ChanDir {
	switch s {
	case "recv":
		return reflect.RecvDir
	case "send":
		return reflect.SendDir
	}
	return reflect.BothDir
}

func gpArgs(as []Arg) []gopoet.ArgType {
	var ret []gopoet.ArgType
	for _, a := range as {
		ret = append(ret, gopoet.ArgType{Name: a.N, Type: a.T.gp()})
	}
	return ret
}

func (s *Sig) gp() *gopoet.Signature {
	return &gopoet.Signature{Args: gpArgs(s.Args), Results: gpArgs(s.Res), IsVariadic: s.Var}
}

func (t *T) gp() gopoet.TypeName {
	switch t.K {
	case "basic":
		return gopoet.BasicType(basicKinds[t.B])
	case "named":
		return gopoet.NamedType(Sym{t.P, t.Q, t.Name}.gp())
	case "ptr":
		return gopoet.PointerType(t.E.gp())
	case "slice":
		return gopoet.SliceType(t.E.gp())
	case "array":
		n, err := strconv.ParseInt(t.N, 10, 64)
		if err != nil {
			panic(err)
		}
		return gopoet.ArrayType(t.E.gp(), n)
	case "map":
		return gopoet.MapType(t.Key.gp(), t.E.gp())
	case "chan":
		return gopoet.ChannelType(t.E.gp(), dirOf(t.Dir))
	case "func":
		if t.Sig.Var {
			return gopoet.FuncTypeVariadic(gpArgs(t.Sig.Args), gpArgs(t.Sig.Res))
		}
		return gopoet.FuncType(gpArgs(t.Sig.Args), gpArgs(t.Sig.Res))
	case "struct":
		var fs []gopoet.FieldType
		for _, f := range t.Fields {
			fs = append(fs, gopoet.FieldType{Name: f.N, Type: f.T.gp(), Tag: reflect.StructTag(f.Tag)})
		}
		return gopoet.StructType(fs...)
	case "iface":
		var es []gopoet.Symbol
		for _, e := range t.Embeds {
			es = append(es, e.gp())
		}
		var ms []gopoet.MethodType
		for _, m := range t.Meths {
			ms = append(ms, gopoet.MethodType{Name: m.N, Signature: *m.Sig.gp()})
		}
		return gopoet.InterfaceType(es, ms...)
	}
	panic("bad type kind " + t.K)
}

// ------------------------------------------------------------- from gopoet

func basicName(k reflect.Kind) string { return k.String() }

func projSym(s gopoet.Symbol) Sym {
	return Sym{P: s.Package.ImportPath, Q: s.Package.Name, Name: s.Name}
}

func projArgs(as []gopoet.ArgType) []Arg {
	ret := []Arg{}
	for _, a := range as {
		ret = append(ret, Arg{a.Name, projT(a.Type)})
	}
	return ret
}

func projSig(s *gopoet.Signature) *Sig {
	return &Sig{Args: projArgs(s.Args), Res: projArgs(s.Results), Var: s.IsVariadic}
}

func dirName(d reflect.ChanDir) string {
	switch d {
	case reflect.RecvDir:
		return "recv"
	case reflect.SendDir:
		return "send"
	case reflect.BothDir:
		return "both"
	}
	return fmt.Sprintf("%d", int(d))
}

func projFields(fs []gopoet.FieldType) []Field {
	ret := []Field{}
	for _, f := range fs {
		ret = append(ret, Field{f.Name, projT(f.Type), string(f.Tag)})
	}
	return ret
}

func projMeths(ms []gopoet.MethodType) []Meth {
	ret := []Meth{}
	for i := range ms {
		ret = append(ret, Meth{ms[i].Name, projSig(&ms[i].Signature)})
	}
	return ret
}

func projSyms(es []gopoet.Symbol) []Sym {
	ret := []Sym{}
	for _, e := range es {
		ret = append(ret, projSym(e))
	}
	return ret
}

// projT projects a TypeName through its accessors.
func projT(t gopoet.TypeName) *T {
	if t == nil {
		return &T{K: "nil"}
	}
	switch t.Kind() {
	case gopoet.KindBasic:
		return &T{K: "basic", B: basicName(t.BasicKind())}
	case gopoet.KindNamed:
		s := projSym(t.Symbol())
		return &T{K: "named", P: s.P, Q: s.Q, Name: s.Name}
	case gopoet.KindPtr:
		return &T{K: "ptr", E: projT(t.Elem())}
	case gopoet.KindSlice:
		return &T{K: "slice", E: projT(t.Elem())}
	case gopoet.KindArray:
		return &T{K: "array", N: fmt.Sprint(t.Len()), E: projT(t.Elem())}
	case gopoet.KindMap:
		return &T{K: "map", Key: projT(t.Key()), E: projT(t.Elem())}
	case gopoet.KindChan:
		return &T{K: "chan", Dir: dirName(t.Dir()), E: projT(t.Elem())}
	case gopoet.KindFunc:
		return &T{K: "func", Sig: projSig(t.Signature())}
	case gopoet.KindStruct:
		return &T{K: "struct", Fields: projFields(t.Fields())}
	case gopoet.KindInterface:
		return &T{K: "iface", Embeds: projSyms(t.Embeds()), Meths: projMeths(t.Methods())}
	}
	return &T{K: fmt.Sprintf("?%d", t.Kind())}
}

var kindNames = map[gopoet.TypeKind]string{
	gopoet.KindNamed: "named", gopoet.KindBasic: "basic", gopoet.KindPtr: "ptr", gopoet.KindSlice: "slice",
	gopoet.KindArray: "array", gopoet.KindMap: "map", gopoet.KindChan: "chan", gopoet.KindFunc: "func",
	gopoet.KindStruct: "struct", gopoet.KindInterface: "iface", gopoet.KindInvalid: "invalid",
}

// accT dumps every accessor at every node; optional parts are lists of length 0 or 1.
func accT(t gopoet.TypeName) M {
	opt := func(x gopoet.TypeName) []interface{} {
		if x == nil {
			return []interface{}{}
		}
		return []interface{}{accT(x)}
	}
	accArgs := func(as []gopoet.ArgType) []interface{} {
		ret := []interface{}{}
		for _, a := range as {
			ret = append(ret, M{"n": a.Name, "t": accT(a.Type)})
		}
		return ret
	}
	accSig := func(s *gopoet.Signature) M {
		return M{"args": accArgs(s.Args), "res": accArgs(s.Results), "var": s.IsVariadic}
	}
	sig := []interface{}{}
	if s := t.Signature(); s != nil {
		sig = append(sig, accSig(s))
	}
	fields := []interface{}{}
	for _, f := range t.Fields() {
		fields = append(fields, M{"n": f.Name, "t": accT(f.Type), "tag": string(f.Tag)})
	}
	meths := []interface{}{}
	for _, m := range t.Methods() {
		m := m
		meths = append(meths, M{"n": m.Name, "sig": accSig(&m.Signature)})
	}
	dir := "none"
	if t.Dir() != 0 {
		dir = dirName(t.Dir())
	}
	// for types without fields etc., the accessors return nil
	if k := t.Kind(); k != gopoet.KindStruct && t.Fields() != nil ||
		k != gopoet.KindInterface && (t.Methods() != nil || t.Embeds() != nil) {
		dir = "not nil"
	}
	return M{
		"kind": kindNames[t.Kind()], "sym": projSym(t.Symbol()), "elem": opt(t.Elem()), "key": opt(t.Key()),
		"len": fmt.Sprint(t.Len()), "dir": dir, "basic": t.BasicKind().String(), "sig": sig,
		"fields": fields, "methods": meths, "embeds": projSyms(t.Embeds()),
	}
}

// scribble overwrites every list that the accessors hand out, at every node.
func scribble(t gopoet.TypeName) {
	if t == nil {
		return
	}
	bad := gopoet.NamedType(gopoet.Symbol{Name: "Scribbled", Package: gopoet.Package{Name: "scribble", ImportPath: "scribble"}})
	scribble(t.Elem())
	scribble(t.Key())
	if s := t.Signature(); s != nil {
		for _, a := range s.Args {
			scribble(a.Type)
		}
		for _, a := range s.Results {
			scribble(a.Type)
		}
	}
	fs := t.Fields()
	for i := range fs {
		scribble(fs[i].Type)
		fs[i] = gopoet.FieldType{Name: "scribbled", Type: bad, Tag: "scribbled"}
	}
	ms := t.Methods()
	for i := range ms {
		for _, a := range ms[i].Signature.Args {
			scribble(a.Type)
		}
		ms[i] = gopoet.MethodType{Name: "Scribbled"}
	}
	es := t.Embeds()
	for i := range es {
		es[i] = bad.Symbol()
	}
	// appending must not be visible either
	_ = append(fs, gopoet.FieldType{Name: "more", Type: bad})
	_ = append(ms, gopoet.MethodType{Name: "More"})
	_ = append(es, bad.Symbol())
}

// --------------------------------------------------------------- go/types

// gtWorld keeps one *types.Package / *types.Named per path/name so that
// identical references are identical objects.
type gtWorld struct {
	pkgs  map[string]*types.Package
	named map[string]types.Type
}

func newGtWorld() *gtWorld {
	return &gtWorld{pkgs: map[string]*types.Package{}, named: map[string]types.Type{}}
}

func (w *gtWorld) pkg(p, q string) *types.Package {
	if p == "" && q == "" {
		return nil
	}
	k := p + "\x00" + q
	if w.pkgs[k] == nil {
		w.pkgs[k] = types.NewPackage(p, q)
	}
	return w.pkgs[k]
}

var typesBasic = map[string]types.BasicKind{
	"bool": types.Bool, "string": types.String, "int": types.Int, "int8": types.Int8,
	"int16": types.Int16, "int32": types.Int32, "int64": types.Int64, "uint": types.Uint,
	"uint8": types.Uint8, "uint16": types.Uint16, "uint32": types.Uint32, "uint64": types.Uint64,
	"uintptr": types.Uintptr, "float32": types.Float32, "float64": types.Float64,
	"complex64": types.Complex64, "complex128": types.Complex128,
}

func (w *gtWorld) tuple(as []Arg) *types.Tuple {
	var vs []*types.Var
	for _, a := range as {
		vs = append(vs, types.NewParam(token.NoPos, nil, a.N, w.typ(a.T)))
	}
	return types.NewTuple(vs...)
}

func (w *gtWorld) sig(s *Sig, recv *types.Var) *types.Signature {
	return types.NewSignatureType(recv, nil, nil, w.tuple(s.Args), w.tuple(s.Res), s.Var)
}

func (w *gtWorld) symType(s Sym) types.Type {
	if s.P == "" && s.Q == "" {
		if o := types.Universe.Lookup(s.Name); o != nil {
			return o.Type()
		}
	}
	if s.P == "unsafe" && s.Name == "Pointer" {
		return types.Typ[types.UnsafePointer]
	}
	k := s.P + "\x00" + s.Q + "\x00" + s.Name
	if w.named[k] == nil {
		// the underlying type must be irrelevant: make it a struct
		n := types.NewNamed(types.NewTypeName(token.NoPos, w.pkg(s.P, s.Q), s.Name, nil), types.NewStruct(nil, nil), nil)
		w.named[k] = n
	}
	return w.named[k]
}

func (w *gtWorld) ifaceNamed(s Sym) types.Type {
	if s.P == "" && s.Q == "" {
		if o := types.Universe.Lookup(s.Name); o != nil {
			return o.Type()
		}
	}
	k := s.P + "\x00" + s.Q + "\x00" + s.Name + "\x00iface"
	if w.named[k] == nil {
		it := types.NewNamed(types.NewTypeName(token.NoPos, w.pkg(s.P, s.Q), s.Name, nil),
			types.NewInterfaceType(nil, nil).Complete(), nil)
		w.named[k] = it
		if strings.HasPrefix(s.Name, "Al") {
			it = types.NewNamed(types.NewTypeName(token.NoPos, w.pkg("other/pkg", "pkg"), s.Name, nil),
				types.NewInterfaceType(nil, nil).Complete(), nil)
			w.named[k] = types.NewAlias(types.NewTypeName(token.NoPos, w.pkg(s.P, s.Q), s.Name, nil), it)
		}
	}
	return w.named[k]
}

func (w *gtWorld) typ(t *T) types.Type {
	switch t.K {
	case "basic":
		return types.Typ[typesBasic[t.B]]
	case "named":
		return w.symType(Sym{t.P, t.Q, t.Name})
	case "alias":
		return types.NewAlias(types.NewTypeName(token.NoPos, w.pkg(t.P, t.Q), t.Name, nil), w.typ(t.E))
	case "ptr":
		return types.NewPointer(w.typ(t.E))
	case "slice":
		return types.NewSlice(w.typ(t.E))
	case "array":
		n, _ := strconv.ParseInt(t.N, 10, 64)
		return types.NewArray(w.typ(t.E), n)
	case "map":
		return types.NewMap(w.typ(t.Key), w.typ(t.E))
	case "chan":
		d := types.SendRecv
		switch t.Dir {
		case "send":
			d = types.SendOnly
		case "recv":
			d = types.RecvOnly
		}
		return types.NewChan(d, w.typ(t.E))
	case "func":
		return w.sig(t.Sig, nil)
	case "struct":
		var fs []*types.Var
		var tags []string
		for _, f := range t.Fields {
			n, emb := f.N, false
			if n == "" {
				emb = true
				e := f.T
				if e.K == "ptr" {
					e = e.E
				}
				n = e.Name
				if e.K == "basic" {
					n = e.B
				}
				if n == "" {
					panic("bad embedded field")
				}
			}
			fs = append(fs, types.NewField(token.NoPos, nil, n, w.typ(f.T), emb))
			tags = append(tags, f.Tag)
		}
		return types.NewStruct(fs, tags)
	case "iface":
		var ms []*types.Func
		for _, m := range t.Meths {
			// as the type checker does it: the receiver is the interface
			recv := types.NewVar(token.NoPos, nil, "", types.NewInterfaceType(nil, nil))
			ms = append(ms, types.NewFunc(token.NoPos, nil, m.N, w.sig(m.Sig, recv)))
		}
		var es []types.Type
		for _, e := range t.Embeds {
			es = append(es, w.ifaceNamed(e))
		}
		return types.NewInterfaceType(ms, es).Complete()
	}
	panic("bad type kind " + t.K)
}

// ------------------------------------------------------------------ tokens

// Tok is a token of Go source: class and text (string literals are unquoted).
type Tok struct {
	C string `json:"c"`
	S string `json:"s"`
}

func tokenize(src string) []Tok {
	toks, _ := tokenizeErr(src)
	return toks
}

func tokenizeErr(src string) ([]Tok, int) {
	fset := token.NewFileSet()
	f := fset.AddFile("", fset.Base(), len(src))
	var s scanner.Scanner
	nerr := 0
	s.Init(f, []byte(src), func(token.Position, string) { nerr++ }, 0)
	toks := []Tok{}
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		switch {
		case tok == token.IDENT:
			toks = append(toks, Tok{"id", lit})
		case tok.IsKeyword():
			toks = append(toks, Tok{"kw", tok.String()})
		case tok == token.STRING:
			u, err := strconv.Unquote(lit)
			if err != nil {
				u = "!bad:" + lit
			}
			toks = append(toks, Tok{"str", u})
		case tok == token.SEMICOLON:
			toks = append(toks, Tok{"op", ";"})
		case tok.IsLiteral():
			toks = append(toks, Tok{"lit", lit})
		default:
			toks = append(toks, Tok{"op", tok.String()})
		}
	}
	// drop the semicolon automatically inserted at the end
	if n := len(toks); n > 0 && toks[n-1] == (Tok{"op", ";"}) {
		toks = toks[:n-1]
	}
	return toks, nerr
}

// ------------------------------------------------------------- AST -> "XT"

// basicAlias maps the predeclared basic type identifiers to canonical names.
func basicIdent(s string) (string, bool) {
	if s == "byte" {
		return "uint8", true
	}
	if s == "rune" {
		return "int32", true
	}
	_, ok := basicKinds[s]
	return s, ok
}

func docLines(g *ast.CommentGroup) []string {
	ret := []string{}
	if g == nil {
		return ret
	}
	for _, c := range g.List {
		txt := c.Text
		if strings.HasPrefix(txt, "//") {
			txt = strings.TrimPrefix(txt, "//")
			txt = strings.TrimPrefix(txt, " ")
		}
		txt = strings.TrimRight(txt, " \t")
		if txt == longLine {
			txt = "@long"
		}
		ret = append(ret, txt)
	}
	return ret
}

func astFieldList(fl *ast.FieldList) ([]M, bool) {
	ret := []M{}
	variadic := false
	if fl == nil {
		return ret, false
	}
	for _, f := range fl.List {
		te := f.Type
		var t M
		if el, ok := te.(*ast.Ellipsis); ok {
			variadic = true
			t = M{"k": "slice", "e": astType(el.Elt)}
		} else {
			t = astType(te)
		}
		if len(f.Names) == 0 {
			ret = append(ret, M{"n": "", "t": t})
		}
		for _, n := range f.Names {
			ret = append(ret, M{"n": n.Name, "t": t})
		}
	}
	return ret, variadic
}

func astSig(ft *ast.FuncType) M {
	args, v := astFieldList(ft.Params)
	res, _ := astFieldList(ft.Results)
	return M{"args": args, "res": res, "var": v}
}

func astNamed(e ast.Expr) (M, bool) {
	switch e := e.(type) {
	case *ast.Ident:
		return M{"p": "", "q": "", "name": e.Name}, true
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			return M{"p": "", "q": x.Name, "name": e.Sel.Name}, true
		}
	}
	return nil, false
}

// astType projects a type expression to the shape that GoTypes.tla calls XT.
func astType(e ast.Expr) M {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return astType(e.X)
	case *ast.Ident:
		if b, ok := basicIdent(e.Name); ok {
			return M{"k": "basic", "b": b}
		}
		return M{"k": "named", "p": "", "q": "", "name": e.Name}
	case *ast.SelectorExpr:
		if n, ok := astNamed(e); ok {
			n["k"] = "named"
			return n
		}
	case *ast.StarExpr:
		return M{"k": "ptr", "e": astType(e.X)}
	case *ast.ArrayType:
		if e.Len == nil {
			return M{"k": "slice", "e": astType(e.Elt)}
		}
		if l, ok := e.Len.(*ast.BasicLit); ok {
			return M{"k": "array", "n": l.Value, "e": astType(e.Elt)}
		}
	case *ast.MapType:
		return M{"k": "map", "key": astType(e.Key), "e": astType(e.Value)}
	case *ast.ChanType:
		d := "both"
		if e.Dir == ast.SEND {
			d = "send"
		} else if e.Dir == ast.RECV {
			d = "recv"
		}
		return M{"k": "chan", "dir": d, "e": astType(e.Value)}
	case *ast.FuncType:
		return M{"k": "func", "sig": astSig(e)}
	case *ast.StructType:
		fs := []M{}
		for _, f := range e.Fields.List {
			tag := ""
			if f.Tag != nil {
				u, err := strconv.Unquote(f.Tag.Value)
				if err != nil {
					u = "!bad:" + f.Tag.Value
				}
				tag = u
			}
			t := astType(f.Type)
			doc := docLines(f.Doc)
			if len(f.Names) == 0 {
				fs = append(fs, M{"n": "", "t": t, "tag": tag, "doc": doc})
			}
			for i, n := range f.Names {
				if i > 0 {
					doc = []string{}
				}
				fs = append(fs, M{"n": n.Name, "t": t, "tag": tag, "doc": doc})
			}
		}
		return M{"k": "struct", "fields": fs}
	case *ast.InterfaceType:
		els := []M{}
		for _, f := range e.Methods.List {
			doc := docLines(f.Doc)
			if len(f.Names) == 0 {
				if n, ok := astNamed(f.Type); ok {
					els = append(els, M{"k": "embed", "doc": doc, "sym": n})
				} else {
					els = append(els, M{"k": "badembed", "doc": doc})
				}
				continue
			}
			ft, ok := f.Type.(*ast.FuncType)
			if !ok {
				els = append(els, M{"k": "badmethod", "doc": doc})
				continue
			}
			for _, n := range f.Names {
				els = append(els, M{"k": "method", "doc": doc, "n": n.Name, "sig": astSig(ft)})
			}
		}
		return M{"k": "iface", "elems": els}
	}
	return M{"k": fmt.Sprintf("bad:%T", e)}
}
