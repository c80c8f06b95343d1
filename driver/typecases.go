package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"reflect"

	"github.com/jhump/gopoet"
)

func init() {
	// Kind "type": build a type, read it back through every accessor, render it.
	kinds["type"] = func(raw json.RawMessage) interface{} {
		var c struct {
			T *T `json:"t"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		tn := c.T.gp()
		str := tn.String()
		toks, nerr := tokenizeErr(str)
		acc := accT(tn)
		scribble(tn)
		acc2 := accT(tn)
		str2 := tn.String()
		// fmt verbs use String, too
		same := fmt.Sprintf("%v", tn) == str && fmt.Sprintf("%s", tn) == str && tn.String() == str
		return M{"toks": toks, "lexok": nerr == 0, "acc": acc, "acc2": acc2, "same": same && str == str2, "str": str}
	}
	// Kind "ctor": constructors on arbitrary (possibly invalid) arguments.
	kinds["ctor"] = func(raw json.RawMessage) interface{} {
		var c struct {
			F    string `json:"f"`
			Kind string `json:"rk"`
			N    string `json:"n"`
			D    int    `json:"d"`
			Args []int  `json:"args"` // 0: nil, 1: int, 2: []string, 3: named
			Res  []int  `json:"res"`
			Var  bool   `json:"var"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		named := gopoet.NamedType(gopoet.NewSymbol("x/y", "Z"))
		pick := func(i int) gopoet.TypeName {
			switch i {
			case 0:
				return nil
			case 1:
				return gopoet.IntType
			case 2:
				return gopoet.SliceType(gopoet.StringType)
			}
			return named
		}
		list := func(is []int) []gopoet.ArgType {
			var ret []gopoet.ArgType
			for _, i := range is {
				ret = append(ret, gopoet.ArgType{Type: pick(i)})
			}
			return ret
		}
		a := func(i int) gopoet.TypeName {
			if i < len(c.Args) {
				return pick(c.Args[i])
			}
			return nil
		}
		res, p := guard(func() interface{} {
			switch c.F {
			case "basic":
				for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
					if k.String() == c.Kind {
						return projT(gopoet.BasicType(k))
					}
				}
				die("no kind", c.Kind)
			case "ptr":
				return projT(gopoet.PointerType(a(0)))
			case "slice":
				return projT(gopoet.SliceType(a(0)))
			case "array":
				var n int64
				fmt.Sscan(c.N, &n)
				return projT(gopoet.ArrayType(a(0), n))
			case "map":
				return projT(gopoet.MapType(a(0), a(1)))
			case "chan":
				return projT(gopoet.ChannelType(a(0), reflect.ChanDir(c.D)))
			case "func":
				if c.Var {
					return projT(gopoet.FuncTypeVariadic(list(c.Args), list(c.Res)))
				}
				return projT(gopoet.FuncType(list(c.Args), list(c.Res)))
			case "funcsig":
				s := &gopoet.Signature{}
				for _, i := range c.Args {
					chain(s, s.AddArg("", pick(i)))
				}
				for _, i := range c.Res {
					chain(s, s.AddResult("", pick(i)))
				}
				chain(s, s.SetVariadic(c.Var))
				return projT(gopoet.FuncTypeFromSig(s))
			}
			die("bad ctor", c.F)
			return nil
		})
		if p != "" {
			return M{"st": "panic"}
		}
		return M{"st": "ok", "t": res}
	}
	// Kind "vars": the exported types.
	kinds["vars"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Names []string `json:"names"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		ret := []M{}
		for _, n := range c.Names {
			ret = append(ret, M{"name": n, "t": projT(typeVars[n])})
		}
		return M{"vars": ret}
	}
	// Kind "gotype": conversion of a go/types type.
	kinds["gotype"] = func(raw json.RawMessage) interface{} {
		var c struct {
			T    *T     `json:"t"`
			Recv []T    `json:"recv"` // for functions: the receiver
			RN   string `json:"rn"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		w := newGtWorld()
		if len(c.Recv) > 0 {
			v := types.NewParam(token.NoPos, nil, c.RN, w.typ(&c.Recv[0]))
			return M{"t": projT(gopoet.TypeNameForGoType(w.sig(c.T.Sig, v)))}
		}
		return M{"t": projT(gopoet.TypeNameForGoType(w.typ(c.T)))}
	}
}

var typeVars = map[string]gopoet.TypeName{
	"bool": gopoet.BoolType, "string": gopoet.StringType, "int": gopoet.IntType, "int8": gopoet.Int8Type,
	"int16": gopoet.Int16Type, "int32": gopoet.Int32Type, "int64": gopoet.Int64Type, "uint": gopoet.UintType,
	"uint8": gopoet.Uint8Type, "uint16": gopoet.Uint16Type, "uint32": gopoet.Uint32Type, "uint64": gopoet.Uint64Type,
	"uintptr": gopoet.UintptrType, "float32": gopoet.Float32Type, "float64": gopoet.Float64Type,
	"complex64": gopoet.Complex64Type, "complex128": gopoet.Complex128Type, "byte": gopoet.ByteType, "rune": gopoet.RuneType,
	"error": gopoet.ErrorType, "unsafe.Pointer": gopoet.UnsafePointerType,
}

func genCtor(r R, prof string) M {
	list := func(n int) []int {
		ret := []int{}
		for i := 0; i < n; i++ {
			ret = append(ret, 1+r.Intn(3))
			if r.chance(15) {
				ret[i] = 0
			}
		}
		return ret
	}
	c := M{"f": r.pick("basic", "ptr", "slice", "array", "map", "chan", "func", "funcsig", "func", "funcsig"),
		"rk": reflect.Kind(r.Intn(27)).String(), "n": r.pick("-1", "0", "1", "5", "-9223372036854775808", "9223372036854775807"),
		"d": r.Intn(8) - 1, "args": []int{}, "res": []int{}, "var": false}
	switch c["f"] {
	case "ptr", "slice", "array", "chan":
		c["args"] = list(1)
	case "map":
		c["args"] = list(2)
	case "func", "funcsig":
		c["args"], c["res"], c["var"] = list(r.Intn(4)), list(r.Intn(3)), r.chance(50)
	}
	return c
}
