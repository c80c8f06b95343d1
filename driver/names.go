package main

import (
	"encoding/json"
	"go/token"
	"unicode"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

// cps are the characters of s; -b stands for a byte b that is part of none.
func cps(s string) []int {
	ret := []int{}
	for s != "" {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n <= 1 {
			ret = append(ret, -int(s[0]))
		} else {
			ret = append(ret, int(r))
		}
		s = s[n:]
	}
	return ret
}

func uncps(c []int) string {
	b := []byte{}
	for _, x := range c {
		if x < 0 {
			b = append(b, byte(-x))
		} else {
			b = utf8.AppendRune(b, rune(x))
		}
	}
	return string(b)
}

// oneName records what happens to a name, and what Unicode and Go say about it.
func oneName(n string) M {
	ret := M{"n": cps(n), "st": "ok", "ex": []int{}, "ex2": []int{}, "un": []int{}, "un2": []int{}, "ident": false, "isexp": false, "up": 0, "lo": 0, "cap": false, "upcap": false}
	var ex, ex2, un, un2 string
	_, pe := guard(func() interface{} {
		ex = gopoet.Export(n)
		return nil
	})
	_, pu := guard(func() interface{} {
		un = gopoet.Unexport(n)
		return nil
	})
	if pe != "" && pu != "" {
		ret["st"] = "panic"
		return ret
	}
	_, p := guard(func() interface{} {
		ex2, un2 = gopoet.Export(ex), gopoet.Unexport(un)
		return nil
	})
	if pe != "" || pu != "" || p != "" {
		ret["st"] = "panics"
		return ret
	}
	ret["ex"], ret["ex2"], ret["un"], ret["un2"] = cps(ex), cps(ex2), cps(un), cps(un2)
	ret["ident"], ret["isexp"] = token.IsIdentifier(n) || token.IsKeyword(n), token.IsExported(ex) && token.IsIdentifier(ex)
	if n != "" {
		r, _ := utf8.DecodeRuneInString(n)
		up := unicode.ToUpper(r)
		ret["up"], ret["lo"], ret["cap"], ret["upcap"] = int(up), int(unicode.ToLower(r)), unicode.IsUpper(r), unicode.IsUpper(up)
	}
	return ret
}

func init() {
	kinds["names"] = func(raw json.RawMessage) interface{} {
		var c struct {
			From, To int
			Only     string
			Tails    [][]int
			Names    [][]int
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		names := []M{}
		for _, n := range c.Names {
			names = append(names, oneName(uncps(n)))
		}
		for i := c.From; i <= c.To; i++ {
			r := rune(i)
			if !utf8.ValidRune(r) {
				continue
			}
			cased := unicode.ToUpper(r) != r || unicode.ToLower(r) != r || unicode.IsUpper(r) || unicode.IsTitle(r)
			if c.Only == "cased" && !cased || c.Only == "letters" && !cased && !unicode.IsLetter(r) {
				continue
			}
			for _, t := range c.Tails {
				names = append(names, oneName(string(r)+uncps(t)))
			}
		}
		return M{"names": names}
	}
	gens["names"] = func(r R, prof string) M {
		names := [][]int{}
		for i := 0; i < 40; i++ {
			n := []int{}
			for k := r.Intn(5); k > 0; k-- {
				var c int
				switch r.Intn(6) {
				case 0:
					c = r.Intn(128)
				case 1:
					c = r.Intn(0x250)
				case 2:
					c = r.Intn(0x3000)
				case 3:
					c = 0x1c80 + r.Intn(0x400)
				case 4:
					c = r.Intn(0x20000)
				default:
					c = int(r.pick("_", "x", "X", "1", "Z", "é")[0])
				}
				if !utf8.ValidRune(rune(c)) {
					c = '_'
				}
				if r.chance(7) {
					c = -128 - r.Intn(128)
				}
				n = append(n, c)
			}
			names = append(names, n)
		}
		return M{"names": names, "from": 1, "to": 0, "only": "", "tails": [][]int{}}
	}
}
