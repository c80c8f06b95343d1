package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"io"
	"math/big"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strconv"
	"time"
	"unsafe"

	htmpl "html/template"
	"text/template"

	"github.com/jhump/gopoet"
	rtypes "verifdriver/rt"
	rtypes2 "verifdriver/rt2"
)

// Static reflect types with their abstract description.

var rtNamed = map[[2]string]reflect.Type{}
var rtNames = map[string]string{"verifdriver/rt": "rtypes", "verifdriver/rt2": "rtypes"} // path -> package name
var rtKeys []Sym                                                                         // in a fixed order, q: true package name

var rtStatic []rtEntry // unnamed types that cannot be constructed at run time

type rtEntry struct {
	t  *T
	rt reflect.Type
}

func addNamed(q string, ts ...reflect.Type) {
	for _, t := range ts {
		rtNamed[[2]string{t.PkgPath(), t.Name()}] = t
		rtNames[t.PkgPath()] = q
		rtKeys = append(rtKeys, Sym{t.PkgPath(), q, t.Name()})
	}
}

func ptrTo(v interface{}) reflect.Type { return reflect.TypeOf(v).Elem() }

func init() {
	addNamed("", ptrTo((*error)(nil)))
	addNamed("unsafe", reflect.TypeOf(unsafe.Pointer(nil)))
	addNamed("time", reflect.TypeOf(time.Time{}), reflect.TypeOf(time.Second))
	addNamed("io", ptrTo((*io.Reader)(nil)), ptrTo((*io.WriteCloser)(nil)), reflect.TypeOf(io.LimitedReader{}))
	addNamed("bytes", reflect.TypeOf(bytes.Buffer{}))
	addNamed("template", reflect.TypeOf(template.Template{}), reflect.TypeOf(htmpl.HTML("")), reflect.TypeOf(htmpl.Template{}), reflect.TypeOf(template.FuncMap{}))
	addNamed("token", reflect.TypeOf(token.Pos(0)))
	addNamed("big", reflect.TypeOf(big.Int{}))
	addNamed("url", reflect.TypeOf(url.Values{}), reflect.TypeOf(url.URL{}))
	addNamed("os", reflect.TypeOf(os.File{}))
	addNamed("sort", ptrTo((*sort.Interface)(nil)), reflect.TypeOf(sort.IntSlice{}))
	addNamed("json", reflect.TypeOf(json.RawMessage{}))
	addNamed("reflect", ptrTo((*reflect.Type)(nil)), reflect.TypeOf(reflect.Int))
	addNamed("rtypes", reflect.TypeOf(rtypes.Str("")), reflect.TypeOf(rtypes.Slice{}), reflect.TypeOf(rtypes.Arr{}),
		reflect.TypeOf(rtypes.Map{}), reflect.TypeOf(rtypes.Ch(nil)), reflect.TypeOf(rtypes.Fn(nil)), reflect.TypeOf(rtypes.St{}),
		ptrTo((*rtypes.If)(nil)), reflect.TypeOf(rtypes.Ptr(nil)), reflect.TypeOf(rtypes.Gint8(0)), reflect.TypeOf(rtypes.Cplx(0)))
	addNamed("rtypes", reflect.TypeOf(rtypes2.Str(nil)), reflect.TypeOf(rtypes2.Slice(nil)), reflect.TypeOf(rtypes2.Arr{}),
		reflect.TypeOf(rtypes2.Map{}), ptrTo((*rtypes2.St)(nil)), reflect.TypeOf(rtypes2.If{}), reflect.TypeOf(rtypes2.Ptr(nil)), reflect.TypeOf(rtypes2.Gint8(0)))

	b := func(s string) *T { return &T{K: "basic", B: s} }
	n := func(p, name string) *T { return &T{K: "named", P: p, Q: rtNames[p], Name: name} }
	sl := func(t *T) *T { return &T{K: "slice", E: t} }
	pt := func(t *T) *T { return &T{K: "ptr", E: t} }
	a := func(ts ...*T) []Arg {
		var ret []Arg
		for _, t := range ts {
			ret = append(ret, Arg{T: t})
		}
		return ret
	}
	add := func(rt reflect.Type, t *T) { rtStatic = append(rtStatic, rtEntry{t, rt}) }
	errT := n("", "error")
	add(ptrTo((*interface{})(nil)), &T{K: "iface"})
	add(ptrTo((*interface {
		M0(int, ...string) (rtypes.Str, error)
		A()
	})(nil)), &T{K: "iface", Meths: []Meth{{"M0", &Sig{Args: a(b("int"), sl(b("string"))), Res: a(n("verifdriver/rt", "Str"), errT), Var: true}}, {"A", &Sig{}}}})
	add(ptrTo((*interface {
		io.Reader
		Close() error
		F(func(time.Time) (int, bool)) map[string][]io.Reader
	})(nil)), &T{K: "iface", Meths: []Meth{
		{"Read", &Sig{Args: a(sl(b("uint8"))), Res: a(b("int"), errT)}},
		{"Close", &Sig{Res: a(errT)}},
		{"F", &Sig{Args: a(&T{K: "func", Sig: &Sig{Args: a(n("time", "Time")), Res: a(b("int"), b("bool"))}}),
			Res: a(&T{K: "map", Key: b("string"), E: sl(n("io", "Reader"))})}}}})
	add(ptrTo((*interface {
		Z(interface{ Y(chan<- int) }) struct {
			X int `x:"y"`
		}
	})(nil)), &T{K: "iface", Meths: []Meth{{"Z", &Sig{
		Args: a(&T{K: "iface", Meths: []Meth{{"Y", &Sig{Args: a(&T{K: "chan", Dir: "send", E: b("int")})}}}}),
		Res:  a(&T{K: "struct", Fields: []Field{{N: "X", T: b("int"), Tag: `x:"y"`}}})}}}})
	add(reflect.TypeOf(struct {
		a int
		*bytes.Buffer
		rtypes.Str `json:"-"`
		io.Reader
		B, C []time.Time `k:"v"`
		error
		int8
		_ [2]rtypes.St
	}{}), &T{K: "struct", Fields: []Field{
		{N: "a", T: b("int")}, {T: pt(n("bytes", "Buffer"))}, {T: n("verifdriver/rt", "Str"), Tag: `json:"-"`}, {T: n("io", "Reader")},
		{N: "B", T: sl(n("time", "Time")), Tag: `k:"v"`}, {N: "C", T: sl(n("time", "Time")), Tag: `k:"v"`},
		{T: errT}, {T: b("int8")}, {N: "_", T: &T{K: "array", N: "2", E: n("verifdriver/rt", "St")}}}})
	add(reflect.TypeOf(struct {
		f func(int, ...[]string) (err error)
		*rtypes.St
	}{}), &T{K: "struct", Fields: []Field{
		{N: "f", T: &T{K: "func", Sig: &Sig{Args: a(b("int"), sl(sl(b("string")))), Res: a(errT), Var: true}}}, {T: pt(n("verifdriver/rt", "St"))}}})
	add(reflect.TypeOf((func(x ...interface{}))(nil)), &T{K: "func", Sig: &Sig{Args: a(sl(&T{K: "iface"})), Var: true}})

	kinds["rtype"] = func(raw json.RawMessage) interface{} {
		var c struct {
			T *T `json:"t"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		return M{"t": projT(gopoet.TypeNameForReflectType(rtOf(c.T)))}
	}
	gens["rtype"] = func(r R, prof string) M {
		for {
			t := r.rtyp(r.Intn(5))
			if _, p := guard(func() interface{} { return rtOf(t) }); p == "" {
				return M{"t": t}
			}
		}
	}
}

var rtBasics = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""), "int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)),
	"int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)),
	"uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(0.0),
	"complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
}

func rtArgs(as []Arg) []reflect.Type {
	var ret []reflect.Type
	for _, a := range as {
		ret = append(ret, rtOf(a.T))
	}
	return ret
}

func rtStaticFor(t *T) reflect.Type {
	b, _ := json.Marshal(t)
	for _, e := range rtStatic {
		if eb, _ := json.Marshal(e.t); string(eb) == string(b) {
			return e.rt
		}
	}
	return nil
}

// rtOf constructs the reflect type that t describes.
func rtOf(t *T) reflect.Type {
	if rt := rtStaticFor(t); rt != nil {
		return rt
	}
	switch t.K {
	case "basic":
		return rtBasics[t.B]
	case "named":
		rt := rtNamed[[2]string{t.P, t.Name}]
		if rt == nil {
			panic("no such type")
		}
		return rt
	case "ptr":
		return reflect.PtrTo(rtOf(t.E))
	case "slice":
		return reflect.SliceOf(rtOf(t.E))
	case "array":
		n, _ := strconv.Atoi(t.N)
		return reflect.ArrayOf(n, rtOf(t.E))
	case "map":
		return reflect.MapOf(rtOf(t.Key), rtOf(t.E))
	case "chan":
		return reflect.ChanOf(dirOf(t.Dir), rtOf(t.E))
	case "func":
		return reflect.FuncOf(rtArgs(t.Sig.Args), rtArgs(t.Sig.Res), t.Sig.Var)
	case "struct":
		var fs []reflect.StructField
		for _, f := range t.Fields {
			sf := reflect.StructField{Name: f.N, Type: rtOf(f.T), Tag: reflect.StructTag(f.Tag)}
			if f.N == "" {
				sf.Anonymous = true
				e := f.T
				if e.K == "ptr" {
					e = e.E
				}
				sf.Name = e.Name
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	panic("cannot be constructed: " + t.K)
}

func (r R) rtyp(depth int) *T {
	if depth <= 0 || r.chance(8) {
		switch k := r.Intn(10); {
		case k < 3:
			return &T{K: "basic", B: basicNames[r.Intn(len(basicNames))]}
		case k < 8:
			s := rtKeys[r.Intn(len(rtKeys))]
			return &T{K: "named", P: s.P, Q: s.Q, Name: s.Name}
		default:
			return rtStatic[r.Intn(len(rtStatic))].t
		}
	}
	args := func(max int) []Arg {
		var ret []Arg
		for i := r.few(max + 1); i > 0; i-- {
			ret = append(ret, Arg{T: r.rtyp(depth - 1)})
		}
		return ret
	}
	switch k := r.Intn(100); {
	case k < 15:
		return &T{K: "ptr", E: r.rtyp(depth - 1)}
	case k < 28:
		return &T{K: "slice", E: r.rtyp(depth - 1)}
	case k < 38:
		return &T{K: "array", N: r.pick("0", "1", "2", "7"), E: r.rtyp(depth - 1)}
	case k < 52:
		return &T{K: "map", Key: r.rtyp(depth - 1), E: r.rtyp(depth - 1)}
	case k < 66:
		return &T{K: "chan", Dir: r.pick("both", "send", "recv"), E: r.rtyp(depth - 1)}
	case k < 84:
		s := &Sig{Args: args(3), Res: args(3)}
		if n := len(s.Args); n > 0 && r.chance(40) {
			s.Var = true
			s.Args[n-1].T = &T{K: "slice", E: s.Args[n-1].T}
		}
		return &T{K: "func", Sig: s}
	default:
		t := &T{K: "struct"}
		for i := 0; i < r.Intn(5); i++ {
			f := Field{N: fmt.Sprintf("F%d", i), T: r.rtyp(depth - 1), Tag: r.tag()}
			if r.chance(20) {
				s := rtKeys[r.Intn(len(rtKeys))]
				f.N, f.T = "", &T{K: "named", P: s.P, Q: s.Q, Name: s.Name}
				if r.chance(30) {
					f.T = &T{K: "ptr", E: f.T}
				}
			}
			t.Fields = append(t.Fields, f)
		}
		return t
	}
}
