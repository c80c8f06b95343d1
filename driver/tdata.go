package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"unsafe"

	"github.com/jhump/gopoet"
)

// Template data: values of arbitrary Go types that hold references, projected
// before and after they were qualified.

// TD describes a Go type.
type TD struct {
	K   string `json:"k"`
	N   int    `json:"n"`
	Key *TD    `json:"key"`
	E   *TD    `json:"e"`
	Fs  []TDF  `json:"fs"`
}

type TDF struct {
	N string `json:"n"`
	T *TD    `json:"t"`
}

// VD describes a value of a type.
type VD struct {
	S    string `json:"s"`
	D    []*TD  `json:"d"` // dynamic type
	Ks   []*VD  `json:"ks"`
	Vs   []*VD  `json:"vs"`
	P    string `json:"p"`
	Q    string `json:"q"`
	Name string `json:"name"`
	M    string `json:"m"`
	T    *T     `json:"t"`
	Sig  *Sig   `json:"sig"`
	N    int    `json:"n"`
	// Share: a pointer or slice that refers to what something before refers to,
	// or to a part of it: the n-th place of the type
	Share int `json:"share"`
}

func (t *TD) MarshalJSON() ([]byte, error) {
	m := M{"k": t.K}
	if t.E != nil {
		m["e"] = t.E
	}
	if t.Key != nil {
		m["key"] = t.Key
	}
	if t.K == "array" {
		m["n"] = t.N
	}
	if t.K == "struct" {
		fs := []M{}
		for _, f := range t.Fs {
			fs = append(fs, M{"n": f.N, "t": f.T})
		}
		m["fs"] = fs
	}
	return json.Marshal(m)
}

func (v *VD) MarshalJSON() ([]byte, error) {
	m := M{}
	if v.S != "" {
		m["s"] = v.S
	}
	if v.D != nil {
		m["d"] = v.D
	}
	if v.Ks != nil {
		m["ks"] = v.Ks
	}
	if v.Vs != nil {
		m["vs"] = v.Vs
	}
	if v.Name != "" {
		m["name"] = v.Name
	}
	if v.P != "" || v.Name != "" {
		m["p"], m["q"] = v.P, v.Q
	}
	if v.M != "" {
		m["m"] = v.M
	}
	if v.T != nil {
		m["t"] = v.T
	}
	if v.Sig != nil {
		m["sig"] = v.Sig
	}
	if v.N != 0 {
		m["n"] = v.N
	}
	if v.Share != 0 {
		m["share"] = v.Share
	}
	if len(m) == 0 {
		m["s"] = ""
	}
	return json.Marshal(m)
}

// -------------------------------------------------------------- static types

type tdInner struct {
	Deep []interface{}
	low  gopoet.Symbol
}
type tdSlice []interface{}
type tdMap map[interface{}]interface{}
type tdArr [2]gopoet.Symbol
type tdPtr *gopoet.Symbol
type tdSym gopoet.Symbol
type tdInt int
type tdIface interface{ String() string }
type tdFunc func() gopoet.Symbol
type tdRec struct {
	V    interface{}
	Next *tdRec
	kids []tdRec
}
type tdMix struct {
	gopoet.Symbol
	*gopoet.Package
	tdInner
	A   gopoet.TypeName
	b   gopoet.TypeName
	_   gopoet.Symbol
	c   map[string]gopoet.Package
	D   *interface{}
	e   *gopoet.TypeName
	F   fmt.Stringer
	g   reflect.Type
	H   types.Type
	i   []types.Object
	J   *types.Package
	k   []*types.Var
	L   chan gopoet.Symbol
	m   func(gopoet.Symbol)
	N   [2]struct{ x, Y gopoet.Symbol }
	o   **gopoet.Symbol
	P   gopoet.SymbolOrMethodRef
	Q   gopoet.TypeNameOrSpec
	R   gopoet.FieldType
	S   []gopoet.ArgType
	t   gopoet.MethodType
	U   gopoet.FieldSpec
	v   []gopoet.InterfaceElement
	W   []gopoet.FileElement
	x   gopoet.ImportSpec
	Y   interface{}
	zzz int
}
type tdPlain struct {
	a, B string
	C    []int
	D    map[string][]string
}

var tdNamed = map[string]reflect.Type{
	"tdInner": reflect.TypeOf(tdInner{}), "tdSlice": reflect.TypeOf(tdSlice{}), "tdMap": reflect.TypeOf(tdMap{}),
	"tdArr": reflect.TypeOf(tdArr{}), "tdPtr": reflect.TypeOf(tdPtr(nil)), "tdSym": reflect.TypeOf(tdSym{}),
	"tdInt": reflect.TypeOf(tdInt(0)), "tdRec": reflect.TypeOf(tdRec{}), "tdMix": reflect.TypeOf(tdMix{}), "tdPlain": reflect.TypeOf(tdPlain{}),
	"tdFunc": reflect.TypeOf(tdFunc(nil)), "tdIface": ptrTo((*tdIface)(nil)),
	"FieldType": reflect.TypeOf(gopoet.FieldType{}), "ArgType": reflect.TypeOf(gopoet.ArgType{}), "MethodType": reflect.TypeOf(gopoet.MethodType{}),
	"FieldSpec": reflect.TypeOf(gopoet.FieldSpec{}), "ImportSpec": reflect.TypeOf(gopoet.ImportSpec{}),
	"int": reflect.TypeOf(0), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(false), "float": reflect.TypeOf(0.0),
	"func": reflect.TypeOf(func() {}), "chan": reflect.TypeOf(make(chan int)), "uintptr": reflect.TypeOf(uintptr(0)),
	"any": ptrTo((*interface{})(nil)), "TypeName": ptrTo((*gopoet.TypeName)(nil)), "Stringer": ptrTo((*fmt.Stringer)(nil)),
	"error": ptrTo((*error)(nil)), "rtype": ptrTo((*reflect.Type)(nil)), "gtype": ptrTo((*types.Type)(nil)), "gobject": ptrTo((*types.Object)(nil)),
	"SymOrMeth": ptrTo((*gopoet.SymbolOrMethodRef)(nil)), "TypeOrSpec": ptrTo((*gopoet.TypeNameOrSpec)(nil)),
	"FileElem": ptrTo((*gopoet.FileElement)(nil)), "IfaceElem": ptrTo((*gopoet.InterfaceElement)(nil)),
	"Package": reflect.TypeOf(gopoet.Package{}), "Symbol": reflect.TypeOf(gopoet.Symbol{}), "MethodRef": reflect.TypeOf(gopoet.MethodReference{}),
	"Signature": reflect.TypeOf(gopoet.Signature{}), "ConstSpec": reflect.TypeOf(gopoet.ConstSpec{}), "VarSpec": reflect.TypeOf(gopoet.VarSpec{}),
	"TypeSpec": reflect.TypeOf(gopoet.TypeSpec{}), "FuncSpec": reflect.TypeOf(gopoet.FuncSpec{}), "Embed": reflect.TypeOf(gopoet.InterfaceEmbed{}),
	"Method": reflect.TypeOf(gopoet.InterfaceMethod{}), "Imports": reflect.TypeOf(gopoet.Imports{}),
	"gpkg": reflect.TypeOf((*types.Package)(nil)), "gvar": reflect.TypeOf((*types.Var)(nil)), "gnamed": reflect.TypeOf((*types.Named)(nil)),
}

func (t *TD) rt() reflect.Type {
	switch t.K {
	case "ptr":
		return reflect.PtrTo(t.E.rt())
	case "slice":
		return reflect.SliceOf(t.E.rt())
	case "array":
		return reflect.ArrayOf(t.N, t.E.rt())
	case "map":
		return reflect.MapOf(t.Key.rt(), t.E.rt())
	case "struct":
		var fs []reflect.StructField
		for _, f := range t.Fs {
			sf := reflect.StructField{Name: f.N, Type: f.T.rt()}
			if !token.IsExported(f.N) {
				sf.PkgPath = "main"
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	if rt := tdNamed[t.K]; rt != nil {
		return rt
	}
	panic("no type " + t.K)
}

// ------------------------------------------------------------------ building

type tdWorld struct {
	gt   *gtWorld
	from map[interface{}]M // what foreign values stand for
	ids  map[uintptr]int
	imps gopoet.Imports
	// what pointers refer to so far, and the parts of it
	places map[reflect.Type][]reflect.Value
}

func (w *tdWorld) place(v reflect.Value) {
	if w.places == nil {
		w.places = map[reflect.Type][]reflect.Value{}
	}
	w.places[v.Type()] = append(w.places[v.Type()], v)
	switch v.Kind() {
	case reflect.Struct:
		if v.Type().PkgPath() == reflect.TypeOf(gopoet.Symbol{}).PkgPath() {
			return // (what is in there is up to gopoet)
		}
		for i := 0; i < v.NumField(); i++ {
			w.place(settable(v, i))
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			w.place(v.Index(i))
		}
	}
}

// sharing gives the place that a value shares, if there is any
func (w *tdWorld) sharing(t reflect.Type, n int) (v reflect.Value, ok bool) {
	if ps := w.places[t]; n > 0 && len(ps) > 0 {
		return ps[n%len(ps)], true
	}
	return
}

// foreign makes a value of reflect or go/types; k: rt, gt, gobj, gpkg, tn
func (w *tdWorld) foreign(k string, v *VD) interface{} {
	switch k {
	case "tn":
		return v.T.gp()
	case "rt":
		rt := rtOf(v.T)
		w.from[rt] = M{"k": "rt", "t": v.T}
		return rt
	case "gt":
		t := w.gt.typ(v.T)
		w.from[t] = M{"k": "gt", "t": v.T}
		return t
	case "gpkg":
		return w.gt.pkg(v.P, v.Q)
	case "gobj", "gvar":
		ref := M{"k": "gobj", "p": v.P, "q": v.Q, "name": v.Name, "m": v.M}
		pkg := w.gt.pkg(v.P, v.Q)
		var o types.Object
		switch {
		case v.M != "":
			n := types.NewNamed(types.NewTypeName(token.NoPos, pkg, v.Name, nil), types.NewStruct(nil, nil), nil)
			var rt types.Type = n
			if v.N%2 == 1 {
				rt = types.NewPointer(n)
			}
			o = types.NewFunc(token.NoPos, pkg, v.M, types.NewSignatureType(types.NewParam(token.NoPos, pkg, "", rt), nil, nil, nil, nil, false))
		case pkg == nil:
			o = types.Universe.Lookup(v.Name)
		case v.N == 0 || k == "gvar":
			o = types.NewVar(token.NoPos, pkg, v.Name, types.Typ[types.Int])
		case v.N == 1:
			o = types.NewTypeName(token.NoPos, pkg, v.Name, nil)
			types.NewNamed(o.(*types.TypeName), types.Typ[types.Int], nil)
		case v.N == 2:
			o = types.NewFunc(token.NoPos, pkg, v.Name, types.NewSignatureType(nil, nil, nil, nil, nil, false))
		default:
			o = types.NewConst(token.NoPos, pkg, v.Name, types.Typ[types.Int], nil)
		}
		w.from[o] = ref
		return o
	case "gnamed":
		t := w.gt.symType(Sym{v.P, v.Q, v.Name}).(*types.Named)
		w.from[t] = M{"k": "gt", "t": &T{K: "named", P: v.P, Q: v.Q, Name: v.Name}}
		return t
	}
	return nil
}

// settable gives access to a field, exported or not
func settable(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

var errorType = ptrTo((*error)(nil))

// fill sets dst, which is addressable, to the value that v describes
func (w *tdWorld) fill(dst reflect.Value, v *VD) {
	if v == nil {
		return
	}
	att := func(e gopoet.FileElement) {
		if v.P != "" {
			gopoet.NewGoFile("f.go", v.P, v.Q).AddElement(e)
		}
	}
	switch x := dst.Addr().Interface().(type) {
	case *gopoet.Package:
		*x = gopoet.Package{ImportPath: v.P, Name: v.Q}
		return
	case *gopoet.Symbol:
		*x = Sym{v.P, v.Q, v.Name}.gp()
		return
	case *gopoet.MethodReference:
		*x = gopoet.MethodReference{Type: Sym{v.P, v.Q, v.Name}.gp(), Method: v.M}
		return
	case *gopoet.Signature:
		if v.Sig != nil {
			*x = *v.Sig.gp()
		}
		return
	case *gopoet.ConstSpec:
		if v.Name != "" {
			s := gopoet.NewConst(v.Name, "Other").SetComment(v.S).SetType(gopoet.IntType)
			att(gopoet.NewConstDecl(s))
			*x = *s
		}
		return
	case *gopoet.VarSpec:
		if v.Name != "" {
			s := gopoet.NewVar(v.Name).SetComment(v.S).Initialize("%d", v.N)
			att(gopoet.NewVarDecl(s))
			*x = *s
		}
		return
	case *gopoet.TypeSpec:
		switch {
		case v.Name != "":
			s := gopoet.NewTypeSpec(v.Name, gopoet.SliceType(gopoet.IntType)).SetComment(v.S)
			if v.N%2 == 1 {
				s = gopoet.NewTypeAlias(v.Name, gopoet.NamedType(gopoet.NewSymbol("x/y", "Z"))).SetComment(v.S)
			}
			att(gopoet.NewTypeDecl(s))
			*x = *s
		case v.T != nil:
			*x = *gopoet.NewTypeSpec("", v.T.gp())
		}
		return
	case *gopoet.FuncSpec:
		if v.Name != "" {
			s := gopoet.NewFunc(v.Name).SetComment(v.S).AddArg("a", gopoet.IntType).Printlnf("_ = %d", v.N)
			if v.P != "" {
				gopoet.NewGoFile("f.go", v.P, v.Q).AddElement(s)
			}
			*x = *s
		}
		return
	case *gopoet.InterfaceEmbed:
		*x = gopoet.InterfaceEmbed{Comment: v.S, Type: Sym{v.P, v.Q, v.Name}.gp()}
		return
	case *gopoet.InterfaceMethod:
		*x = gopoet.InterfaceMethod{Comment: v.S, Name: v.M}
		if v.Sig != nil {
			x.Signature = *v.Sig.gp()
		}
		return
	case *gopoet.Imports:
		if v.P != "" {
			x.RegisterImport(v.P, v.Q)
		}
		return
	case **types.Package, **types.Var, **types.Named:
		if v.Name == "" && v.P == "" {
			return
		}
		k := map[string]string{"*types.Package": "gpkg", "*types.Var": "gvar", "*types.Named": "gnamed"}[dst.Type().String()]
		dst.Set(reflect.ValueOf(w.foreign(k, v)))
		return
	}
	switch dst.Kind() {
	case reflect.Int, reflect.Int64:
		n, _ := strconv.Atoi(v.S)
		dst.SetInt(int64(n))
	case reflect.Uintptr:
		n, _ := strconv.Atoi(v.S)
		dst.SetUint(uint64(n))
	case reflect.Bool:
		dst.SetBool(v.S == "true")
	case reflect.Float64:
		f, _ := strconv.ParseFloat(v.S, 64)
		dst.SetFloat(f)
	case reflect.String:
		dst.SetString(v.S)
	case reflect.Func:
		if v.S != "" {
			dst.Set(reflect.MakeFunc(dst.Type(), func([]reflect.Value) []reflect.Value { panic("called") }))
		}
	case reflect.Chan:
		if v.S != "" {
			dst.Set(reflect.MakeChan(dst.Type(), 1))
		}
	case reflect.Interface:
		if len(v.D) == 0 {
			return
		}
		switch k := v.D[0].K; k {
		case "tn", "rt", "gt", "gobj":
			dst.Set(reflect.ValueOf(w.foreign(k, v.Vs[0])))
		default:
			nv := reflect.New(v.D[0].rt()).Elem()
			w.fill(nv, v.Vs[0])
			dst.Set(nv)
		}
	case reflect.Ptr:
		if old, ok := w.sharing(dst.Type().Elem(), v.Share); ok {
			dst.Set(old.Addr().Convert(dst.Type()))
		} else if len(v.Vs) > 0 {
			nv := reflect.New(dst.Type().Elem())
			w.fill(nv.Elem(), v.Vs[0])
			dst.Set(nv.Convert(dst.Type()))
			w.place(nv.Elem())
		}
	case reflect.Slice:
		if old, ok := w.sharing(dst.Type(), v.Share); ok {
			if n := old.Len(); v.N == 1 && n > 0 {
				old = old.Slice(0, n-1)
			}
			dst.Set(old)
			return
		}
		if v.S == "empty" || len(v.Vs) > 0 {
			dst.Set(reflect.MakeSlice(dst.Type(), len(v.Vs), len(v.Vs)+v.N))
		}
		fallthrough
	case reflect.Array:
		for i := range v.Vs {
			w.fill(dst.Index(i), v.Vs[i])
		}
	case reflect.Map:
		if v.S == "empty" || len(v.Vs) > 0 {
			dst.Set(reflect.MakeMap(dst.Type()))
		}
		for i := range v.Vs {
			k, e := reflect.New(dst.Type().Key()).Elem(), reflect.New(dst.Type().Elem()).Elem()
			w.fill(k, v.Ks[i])
			w.fill(e, v.Vs[i])
			dst.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := range v.Vs {
			w.fill(settable(dst, i), v.Vs[i])
		}
	}
}

// ----------------------------------------------------------------- projecting

func (w *tdWorld) id(p uintptr) string {
	if p == 0 {
		return "nil"
	}
	if w.ids[p] == 0 {
		w.ids[p] = len(w.ids) + 1
	}
	return fmt.Sprintf("#%d", w.ids[p])
}

var (
	tnType   = ptrTo((*gopoet.TypeName)(nil))
	goTypeT  = ptrTo((*types.Type)(nil))
	goObjT   = ptrTo((*types.Object)(nil))
	goPkgT   = reflect.TypeOf((*types.Package)(nil))
	admitted = []struct {
		k string
		t reflect.Type
	}{{"tn", tnType}, {"sym", reflect.TypeOf(gopoet.Symbol{})}, {"mref", reflect.TypeOf(&gopoet.MethodReference{})}, {"pkg", reflect.TypeOf(gopoet.Package{})}}
)

func tdElem(sort string, att bool, names []string, at func() gopoet.Symbol, str func() string, rest ...interface{}) M {
	m := M{"k": "elem", "sort": sort, "att": false, "p": "", "q": "", "name": "", "str": "", "rest": fmt.Sprintf("%q %s", names, fmt.Sprint(rest...))}
	if s, p := guard(func() interface{} { return at() }); p == "" && len(names) > 0 {
		s := s.(gopoet.Symbol)
		m["att"], m["p"], m["q"], m["name"] = true, s.Package.ImportPath, s.Package.Name, s.Name
		if s, p := guard(func() interface{} { return str() }); p == "" {
			m["str"] = s
		} else {
			m["str"] = "!panic"
		}
	}
	return m
}

func (w *tdWorld) proj(v reflect.Value) M {
	m := w.proj1(v)
	m["ty"] = v.Type().String()
	return m
}

func (w *tdWorld) proj1(v reflect.Value) M {
	// (all values are reached in ways that allow this)
	switch x := v.Interface().(type) {
	case gopoet.Package:
		if v.Kind() == reflect.Struct {
			return M{"k": "pkg", "p": x.ImportPath, "q": x.Name, "str": x.String()}
		}
	case gopoet.Symbol:
		if v.Kind() == reflect.Struct {
			return M{"k": "sym", "sym": projSym(x), "toks": tokenize(x.String())}
		}
	case gopoet.MethodReference:
		if v.Kind() == reflect.Struct {
			return M{"k": "mref", "sym": projSym(x.Type), "m": x.Method, "str": x.String()}
		}
	case gopoet.Signature:
		if v.Kind() == reflect.Struct {
			return M{"k": "sig", "sig": projSig(&x), "nil": fmt.Sprint(x.Args == nil, x.Results == nil)}
		}
	case gopoet.ConstSpec:
		if v.Kind() == reflect.Struct {
			return tdElem("const", true, x.Names, func() gopoet.Symbol { return x.SymbolAt(0) }, func() string { return x.SymbolAt(0).String() }, x.Comment, x.Type, x.Initializer)
		}
	case gopoet.VarSpec:
		if v.Kind() == reflect.Struct {
			return tdElem("var", true, x.Names, x.ToSymbol, x.String, x.Comment, x.Type, x.Initializer)
		}
	case gopoet.FuncSpec:
		if v.Kind() == reflect.Struct {
			return tdElem("func", true, []string{x.Name}, func() gopoet.Symbol { return x.ToSymbol().(gopoet.Symbol) }, x.String, x.Comment, jsonOf(projSig(&x.Signature)), x.Receiver == nil, x.CodeBlock)
		}
	case gopoet.TypeSpec:
		if v.Kind() == reflect.Struct {
			und, p := guard(func() interface{} { return projT(x.Underlying()) })
			if x.Name == "" && p == "" {
				return M{"k": "anon", "t": und, "rest": fmt.Sprint(x.Comment, x.IsAlias())}
			}
			return tdElem("type", true, []string{x.Name}, x.ToSymbol, x.String, x.Comment, jsonOf(und), x.IsAlias())
		}
	case gopoet.InterfaceEmbed:
		if v.Kind() == reflect.Struct {
			return M{"k": "emb", "sym": projSym(x.Type), "rest": x.Comment}
		}
	case gopoet.InterfaceMethod:
		if v.Kind() == reflect.Struct {
			return M{"k": "imeth", "sig": projSig(&x.Signature), "rest": x.Name + " " + x.Comment}
		}
	case gopoet.Imports:
		if v.Kind() == reflect.Struct {
			return M{"k": "leaf", "s": jsonOf(importSpecs(&x))}
		}
	}
	if v.Kind() == reflect.Ptr && (v.Type().Implements(goTypeT) || v.Type().Implements(goObjT) || v.Type() == goPkgT) {
		return M{"k": "leaf", "s": w.id(v.Pointer())}
	}
	switch v.Kind() {
	case reflect.Interface:
		adm := []string{}
		for _, a := range admitted {
			if a.t.Implements(v.Type()) {
				adm = append(adm, a.k)
			}
		}
		if v.IsNil() {
			return M{"k": "iface", "adm": adm, "v": []M{}}
		}
		var d M
		e := v.Elem()
		nilPtr := e.Kind() == reflect.Ptr && e.IsNil()
		if f, ok := w.from[hashable(e)]; ok && !nilPtr {
			d = M{"ty": "foreign", "s": w.id(pointerOf(e))}
			for k, x := range f {
				d[k] = x
			}
		} else if p, ok := e.Interface().(*types.Package); ok && p != nil {
			d = M{"k": "gpkg", "ty": "foreign", "p": p.Path(), "q": p.Name(), "s": w.id(e.Pointer())}
		} else if tn, ok := e.Interface().(gopoet.TypeName); ok && !nilPtr {
			d = M{"k": "tn", "ty": "TypeName", "t": projT(tn)}
		} else {
			d = w.proj(e)
		}
		return M{"k": "iface", "adm": adm, "v": []M{d}}
	case reflect.Ptr:
		if v.IsNil() {
			return M{"k": "ptr", "v": []M{}}
		}
		return M{"k": "ptr", "v": []M{w.proj(v.Elem())}}
	case reflect.Slice, reflect.Array:
		vs := []M{}
		for i := 0; i < v.Len(); i++ {
			vs = append(vs, w.proj(v.Index(i)))
		}
		return M{"k": "list", "nil": v.Kind() == reflect.Slice && v.IsNil(), "vs": vs}
	case reflect.Map:
		es := []M{}
		for it := v.MapRange(); it.Next(); {
			es = append(es, M{"key": w.proj(it.Key()), "e": w.proj(it.Value())})
		}
		sort.SliceStable(es, func(i, j int) bool { return jsonOf(es[i]) < jsonOf(es[j]) })
		return M{"k": "map", "nil": v.IsNil(), "es": es}
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		fs := []M{}
		for i := 0; i < c.NumField(); i++ {
			sf := c.Type().Field(i)
			fs = append(fs, M{"n": sf.Name, "exp": sf.PkgPath == "", "v": w.proj(settable(c, i))})
		}
		return M{"k": "struct", "fs": fs}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return M{"k": "leaf", "s": w.id(v.Pointer())}
	}
	return M{"k": "leaf", "s": fmt.Sprint(v.Interface())}
}

// hashable gives the value as a key of w.from, or nil
func hashable(e reflect.Value) (k interface{}) {
	if e.Kind() == reflect.Ptr {
		return e.Interface()
	}
	return nil
}

func pointerOf(e reflect.Value) uintptr {
	if e.Kind() == reflect.Ptr {
		return e.Pointer()
	}
	return 0
}

func init() {
	kinds["tdata"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Own   string `json:"own"`
			Regs  []Pk   `json:"regs"`
			Steps []struct {
				D *TD `json:"d"`
				V *VD `json:"v"`
				// Again: the pointer of the step before, and what it refers to changed
				Again bool `json:"again"`
			} `json:"steps"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		imps := gopoet.NewImportsFor(c.Own)
		for _, p := range c.Regs {
			imps.RegisterImport(p.P, p.N)
		}
		w := &tdWorld{gt: newGtWorld(), from: map[interface{}]M{}, ids: map[uintptr]int{}}
		specs0 := importSpecs(imps)
		steps := []M{}
		// the value in an interface, like the parameter of the function
		top := reflect.New(tdNamed["any"]).Elem()
		for _, s := range c.Steps {
			if s.Again && top.Elem().Kind() == reflect.Ptr && !top.Elem().IsNil() {
				e := top.Elem().Elem()
				e.Set(reflect.Zero(e.Type()))
				w.places = nil
				if len(s.V.Vs) > 0 {
					w.fill(e, s.V.Vs[0])
				}
			} else {
				top = reflect.New(tdNamed["any"]).Elem()
				w.fill(top, &VD{D: []*TD{s.D}, Vs: []*VD{s.V}})
			}
			before := w.proj(top)
			var out interface{}
			_, p := guard(func() interface{} { out = imps.QualifyTemplateData(top.Interface()); return nil })
			if p != "" {
				steps = append(steps, M{"st": "panic", "msg": p, "before": before, "after": before, "orig": before, "specs": importSpecs(imps)})
				continue
			}
			res := reflect.New(tdNamed["any"]).Elem()
			if out != nil {
				res.Set(reflect.ValueOf(out))
			}
			steps = append(steps, M{"st": "ok", "before": before, "after": w.proj(res), "orig": w.proj(top), "specs": importSpecs(imps)})
		}
		return M{"specs0": specs0, "steps": steps, "purego": purego}
	}
	gens["tdata"] = genTData
}

// ----------------------------------------------------------------- generating

type tdGen struct {
	R
	o    *typeOpts
	mini bool
}

var tdLeafKinds = []string{"Package", "Symbol", "MethodRef", "Signature", "ConstSpec", "VarSpec", "TypeSpec", "FuncSpec", "Embed", "Method", "Imports"}
var tdNamedKinds = []string{"tdInner", "tdSlice", "tdMap", "tdArr", "tdPtr", "tdSym", "tdInt", "tdRec", "tdMix", "tdPlain", "tdFunc", "FieldType", "ArgType", "MethodType", "FieldSpec", "ImportSpec"}
var tdIfaceKinds = []string{"any", "any", "any", "TypeName", "TypeName", "Stringer", "error", "rtype", "gtype", "gobject", "SymOrMeth", "TypeOrSpec", "FileElem", "IfaceElem", "tdIface"}
var tdPlainKinds = []string{"int", "string", "bool", "float", "func", "chan", "uintptr"}

func (g *tdGen) typ(depth int) *TD {
	k := g.Intn(100)
	if depth <= 0 && k >= 60 {
		k = g.Intn(60)
	}
	switch {
	case k < 28:
		return &TD{K: tdLeafKinds[g.Intn(len(tdLeafKinds))]}
	case k < 48:
		return &TD{K: tdIfaceKinds[g.Intn(len(tdIfaceKinds))]}
	case k < 54:
		return &TD{K: tdPlainKinds[g.Intn(len(tdPlainKinds))]}
	case k < 57:
		return &TD{K: g.pick("gpkg", "gvar", "gnamed")}
	case k < 60:
		return &TD{K: tdNamedKinds[g.Intn(len(tdNamedKinds))]}
	case k < 68:
		return &TD{K: tdNamedKinds[g.Intn(len(tdNamedKinds))]}
	case k < 76:
		return &TD{K: "ptr", E: g.typ(depth - 1)}
	case k < 82:
		return &TD{K: "slice", E: g.typ(depth - 1)}
	case k < 87:
		return &TD{K: "array", N: g.Intn(4), E: g.typ(depth - 1)}
	case k < 93:
		for {
			t := &TD{K: "map", Key: g.typ(depth - 1), E: g.typ(depth - 1)}
			if t.Key.rt().Comparable() {
				return t
			}
		}
	default:
		t := &TD{K: "struct"}
		for i := g.few(5); i > 0; i-- {
			t.Fs = append(t.Fs, TDF{g.pick("F", "f") + strconv.Itoa(i), g.typ(depth - 1)})
		}
		return t
	}
}

func (g *tdGen) ref() *VD {
	s := g.sym(g.o)
	return &VD{P: s.P, Q: s.Q, Name: s.Name}
}

func (g *tdGen) share() int {
	if g.chance(25) {
		return 1 + g.Intn(6)
	}
	return 0
}

var tdFresh int

// val makes a value for the type; key: it must be usable as a key of a map
func (g *tdGen) val(rt reflect.Type, depth int, key bool) *VD {
	if g.chance(4) {
		return &VD{}
	}
	switch rt {
	case tdNamed["Package"]:
		r := g.ref()
		r.Name = ""
		return r
	case tdNamed["Symbol"], tdNamed["Embed"]:
		return g.ref()
	case tdNamed["MethodRef"]:
		r := g.ref()
		r.M = g.pick("Do", "String")
		return r
	case tdNamed["Signature"]:
		return &VD{Sig: g.sig(2, g.o)}
	case tdNamed["ConstSpec"], tdNamed["VarSpec"], tdNamed["FuncSpec"], tdNamed["TypeSpec"]:
		if rt == tdNamed["TypeSpec"] && g.chance(40) {
			return &VD{T: g.typT(2)}
		}
		r := g.ref()
		if r.P == "" || r.P == "unsafe" {
			r.P, r.Q = "", ""
		} else if r.Q == "" {
			for _, p := range g.o.world {
				if p.P == r.P {
					r.Q = p.N
				}
			}
		}
		r.N, r.S = g.Intn(4), g.pick("", "a comment")
		return r
	case tdNamed["Method"]:
		return &VD{M: "M", S: g.pick("", "doc"), Sig: g.sig(2, g.o)}
	case tdNamed["Imports"]:
		return &VD{P: "im/ports", Q: "ports"}
	case goPkgT, tdNamed["gvar"], tdNamed["gnamed"]:
		for {
			if r := g.ref(); r.P != "" && r.P != "unsafe" {
				return &VD{P: r.P, Q: g.name(r.P), Name: r.Name}
			}
		}
	}
	list := func(n int, f func(i int) *VD) []*VD {
		vs := []*VD{}
		for i := 0; i < n; i++ {
			vs = append(vs, f(i))
		}
		return vs
	}
	size := func() int {
		if depth <= 0 {
			return g.Intn(2)
		}
		return g.few(4)
	}
	switch rt.Kind() {
	case reflect.Int, reflect.Int64, reflect.Uintptr:
		return &VD{S: strconv.Itoa(g.Intn(5))}
	case reflect.Bool:
		return &VD{S: "true"}
	case reflect.Float64:
		return &VD{S: g.pick("1.5", "2", "NaN", "NaN", "-0", "Inf")}
	case reflect.String:
		return &VD{S: g.pick("x", "foo.Bar", "empty", "é")}
	case reflect.Func, reflect.Chan:
		return &VD{S: "x"}
	case reflect.Ptr:
		if depth < -3 || g.chance(8) {
			return &VD{}
		}
		return &VD{Share: g.share(), Vs: []*VD{g.val(rt.Elem(), depth-1, false)}}
	case reflect.Array:
		return &VD{Vs: list(rt.Len(), func(int) *VD { return g.val(rt.Elem(), depth-1, key) })}
	case reflect.Slice:
		if depth < -2 || g.chance(8) {
			return &VD{S: g.pick("", "empty")}
		}
		return &VD{Share: g.share(), N: g.Intn(2), Vs: list(size(), func(int) *VD { return g.val(rt.Elem(), depth-1, false) })}
	case reflect.Map:
		if depth < -2 || g.chance(8) {
			return &VD{S: g.pick("", "empty")}
		}
		n := size()
		return &VD{Ks: list(n, func(int) *VD { return g.val(rt.Key(), depth-1, true) }), Vs: list(n, func(int) *VD { return g.val(rt.Elem(), depth-1, false) })}
	case reflect.Struct:
		if depth < -2 {
			return &VD{}
		}
		sparse := rt == tdNamed["tdMix"]
		return &VD{Vs: list(rt.NumField(), func(i int) *VD {
			if sparse && g.chance(65) {
				return &VD{}
			}
			return g.val(rt.Field(i).Type, depth-1, key)
		})}
	case reflect.Interface:
		if depth < -2 {
			return &VD{}
		}
		for try := 0; try < 40; try++ {
			k := g.Intn(100)
			d, vd := &TD{}, &VD{}
			switch {
			case k < 12 && tnType.Implements(rt):
				d.K, vd.T = "tn", g.typT(2)
			case k < 20 && ptrTo((*reflect.Type)(nil)).Implements(rt):
				t := g.rtyp(2)
				if _, p := guard(func() interface{} { return rtOf(t) }); p != "" {
					continue
				}
				d.K, vd.T = "rt", t
			case k < 28 && goTypeT.Implements(rt):
				o := *g.o
				o.gotypes, o.q = true, trueName
				d.K, vd.T = "gt", g.R.typ(g.Intn(3), &o)
			case k < 36 && goObjT.Implements(rt):
				r := g.ref()
				if r.P == "" || r.P == "unsafe" {
					r = &VD{Name: "error"}
				} else {
					r.Q = g.name(r.P)
					if g.chance(30) {
						r.M = g.pick("Do", "String")
					}
				}
				r.N = g.Intn(4)
				d.K, vd = "gobj", r
			default:
				d = g.typ(depth - 1)
				t := d.rt()
				if t.Kind() == reflect.Interface || !t.Implements(rt) || key && !t.Comparable() {
					if try > 20 {
						// one of the pointer types that have the methods
						d = &TD{K: "ptr", E: &TD{K: g.pick("TypeSpec", "ConstSpec", "VarSpec", "FuncSpec", "Embed", "Method", "Symbol", "MethodRef", "Package")}}
						if t = d.rt(); !t.Implements(rt) {
							continue
						}
					} else {
						continue
					}
				}
				vd = g.val(t, depth-1, key)
			}
			if key && (d.K == "struct" || d.K == "tdMix") {
				continue // it could hold something in an interface that is not comparable
			}
			return &VD{D: []*TD{d}, Vs: []*VD{vd}}
		}
	}
	return &VD{}
}

// the package's own name
func (g *tdGen) name(path string) string {
	for _, p := range g.o.world {
		if p.P == path {
			return p.N
		}
	}
	return "own"
}

func (g *tdGen) typT(depth int) *T { return g.R.typ(g.Intn(depth+1), g.o) }

func genTData(r R, prof string) M {
	g := &tdGen{R: r}
	world := r.world(2 + r.Intn(5))
	own := r.pick("own", world[0].P)
	g.o = &typeOpts{world: world, own: own, q: func(r R, p Pk) string {
		if r.chance(20) {
			return ""
		}
		return p.N
	}}
	regs := []Pk{}
	for _, p := range world {
		if r.chance(25) {
			regs = append(regs, p)
		}
	}
	steps := []M{}
	for n := 1 + r.Intn(2); n > 0; n-- {
		for {
			d := g.typ(3)
			again := false
			if r.chance(12) {
				// parts of the same data, referred to from elsewhere in it
				one, two := g.typ(1), g.typ(1)
				both := &TD{K: "struct", Fs: []TDF{{"A", one}, {"b", two}}}
				d = &TD{K: "struct", Fs: []TDF{{"P", &TD{K: "ptr", E: both}}, {"Q", &TD{K: "ptr", E: one}}, {"r", &TD{K: "ptr", E: two}}, {"S", &TD{K: "ptr", E: both}}}}
				if r.chance(40) {
					d = &TD{K: "ptr", E: d}
				}
			}
			if n := len(steps); n > 0 && r.chance(60) && steps[n-1]["d"].(*TD).K == "ptr" {
				d, again = steps[n-1]["d"].(*TD), true
			}
			if d.rt().Kind() == reflect.Interface {
				continue
			}
			v := g.val(d.rt(), 3, false)
			steps = append(steps, M{"d": d, "v": v})
			if again {
				steps[len(steps)-1]["again"] = true
			}
			break
		}
	}
	return M{"own": own, "regs": regs, "steps": steps}
}
