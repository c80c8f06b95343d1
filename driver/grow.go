package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/jhump/gopoet"
)

// Histories of building a program and writing its files along the way. The
// steps are those of spec/Grow.tla.

type growCase struct {
	World  []Pk      `json:"world"`
	Pool   []ArgD    `json:"pool"`
	Blocks int       `json:"blocks"` // how many there are, all empty at first
	Files  []FileD   `json:"files"`  // without declarations
	Steps  []growStp `json:"steps"`
}

type growStp struct {
	A     string   `json:"a"`
	F     int      `json:"f"`
	D     int      `json:"d"`
	S     int      `json:"s"`
	B     int      `json:"b"`
	W     string   `json:"w"`
	Decl  *DeclD   `json:"decl"`
	Spec  *SpecD   `json:"spec"`
	Piece *Piece   `json:"piece"`
	Init  *InitD   `json:"init"`
	Arg   *Arg     `json:"arg"`
	Var   bool     `json:"var"`
	Doc   []string `json:"doc"`
	Canon string   `json:"canon"`
	Reg   *Pk      `json:"reg"`
	Ty    *Ty      `json:"ty"`
	I     int      `json:"i"`
	Name  string   `json:"name"`
	Field *FldD    `json:"field"`
	Elem  *ElemD   `json:"elem"`
}

func (m *model) grow(st *growStp) {
	key := [3]int{st.F, st.D, st.S}
	var f *gopoet.GoFile
	var fd *FileD
	if st.F < len(m.files) {
		f, fd = m.files[st.F], &m.prog.Files[st.F]
	}
	switch st.A {
	case "decl":
		fd.Decls = append(fd.Decls, *st.Decl)
		m.decl(st.F, len(fd.Decls)-1)
		m.code(st.F, len(fd.Decls)-1)
	case "spec":
		ss := &fd.Decls[st.D].Specs
		*ss = append(*ss, *st.Spec)
		key[2] = len(*ss) - 1
		s := &(*ss)[key[2]]
		switch d := m.decls[[2]int{st.F, st.D}].(type) {
		case *gopoet.ConstDecl:
			c := gopoet.NewConst(s.Names...).SetComment(lines(s.Doc))
			if len(s.Ty) > 0 {
				chain(c, c.SetType(m.ty(&s.Ty[0])))
			}
			m.specs[key] = c
			chain(d, d.AddConst(c))
		case *gopoet.VarDecl:
			v := gopoet.NewVar(s.Names...).SetComment(lines(s.Doc))
			if len(s.Ty) > 0 {
				chain(v, v.SetType(m.ty(&s.Ty[0])))
			}
			m.specs[key] = v
			chain(d, d.AddVar(v))
		case *gopoet.TypeDecl:
			t := m.typeSpec(s)
			m.specs[key] = t
			chain(d, d.AddType(t))
		default:
			panic("no decl to add to")
		}
		if len(s.Init) > 0 {
			m.init(st.F, st.D, key[2], &s.Init[0])
		}
	case "init":
		m.init(st.F, st.D, st.S, st.Init)
	case "type":
		switch x := m.specs[key].(type) {
		case *gopoet.ConstSpec:
			chain(x, x.SetType(m.ty(st.Ty)))
		case *gopoet.VarSpec:
			chain(x, x.SetType(m.ty(st.Ty)))
		}
	case "piece":
		m.fillTo(fnPrinter{m.specs[key].(*gopoet.FuncSpec)}, []Piece{*st.Piece})
	case "bpiece":
		m.fill(m.blocks[st.B], []Piece{*st.Piece})
	case "arg":
		fn := m.specs[key].(*gopoet.FuncSpec).AddArg(st.Arg.N, st.Arg.T.gp())
		if st.Var {
			chain(fn, fn.SetVariadic(true))
		}
	case "res":
		m.specs[key].(*gopoet.FuncSpec).AddResult(st.Arg.N, st.Arg.T.gp())
	case "doc":
		switch st.W {
		case "fc":
			f.FileComment = lines(st.Doc)
		case "pc":
			f.PackageComment = lines(st.Doc)
		case "decl":
			switch d := m.decls[[2]int{st.F, st.D}].(type) {
			case *gopoet.ConstDecl:
				chain(d, d.SetComment(lines(st.Doc)))
			case *gopoet.VarDecl:
				chain(d, d.SetComment(lines(st.Doc)))
			case *gopoet.TypeDecl:
				chain(d, d.SetComment(lines(st.Doc)))
			default:
				panic("no decl to comment")
			}
		case "spec":
			switch x := m.specs[key].(type) {
			case *gopoet.ConstSpec:
				chain(x, x.SetComment(lines(st.Doc)))
			case *gopoet.VarSpec:
				chain(x, x.SetComment(lines(st.Doc)))
			case *gopoet.TypeSpec:
				chain(x, x.SetComment(lines(st.Doc)))
			case *gopoet.FuncSpec:
				chain(x, x.SetComment(lines(st.Doc)))
			}
		}
	case "rename":
		switch x := m.specs[key].(type) {
		case *gopoet.ConstSpec:
			x.Names[0] = st.Name
		case *gopoet.VarSpec:
			x.Names[0] = st.Name
		case *gopoet.TypeSpec:
			x.Name = st.Name
		case *gopoet.FuncSpec:
			x.Name = st.Name
		}
	case "setarg":
		m.specs[key].(*gopoet.FuncSpec).Args[st.I] = gopoet.ArgType{Name: st.Arg.N, Type: st.Arg.T.gp()}
	case "setres":
		m.specs[key].(*gopoet.FuncSpec).Results[st.I] = gopoet.ArgType{Name: st.Arg.N, Type: st.Arg.T.gp()}
	case "field":
		x := m.fields[m.specs[key].(*gopoet.TypeSpec)][st.I]
		x.Name, x.Type = st.Field.N, m.ty(&st.Field.Ty)
		chain(x, x.SetComment(lines(st.Field.Doc)).SetTag(st.Field.Tag))
	case "elem":
		switch x := m.elems[m.specs[key].(*gopoet.TypeSpec)][st.I].(type) {
		case *gopoet.InterfaceEmbed:
			x.Type = st.Elem.Sym.gp()
			chain(x, x.SetComment(lines(st.Elem.Doc)))
		case *gopoet.InterfaceMethod:
			x.Name, x.Signature = st.Elem.N, *st.Elem.Sig.gp()
			chain(x, x.SetComment(lines(st.Elem.Doc)))
		}
	case "drop":
		switch d := m.decls[[2]int{st.F, st.D}].(type) {
		case *gopoet.ConstDecl:
			d.Consts = d.Consts[:len(d.Consts)-1]
		case *gopoet.VarDecl:
			d.Vars = d.Vars[:len(d.Vars)-1]
		case *gopoet.TypeDecl:
			d.Types = d.Types[:len(d.Types)-1]
		default:
			panic("no decl to drop from")
		}
		ss := &fd.Decls[st.D].Specs
		*ss = (*ss)[:len(*ss)-1]
	case "canon":
		f.CanonicalImportPath = st.Canon
	case "reg":
		m.register(f, len(fd.Regs), *st.Reg)
		fd.Regs = append(fd.Regs, *st.Reg)
	default:
		die("bad step", st.A)
	}
}

func init() {
	kinds["grow"] = func(raw json.RawMessage) interface{} {
		var c growCase
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		p := &Prog{World: c.World, Pool: c.Pool, Files: c.Files}
		args := p.Pool
		p.Pool = nil
		m := build(p)
		p.Pool = args
		for i := 0; i < c.Blocks; i++ {
			m.blocks = append(m.blocks, &gopoet.CodeBlock{})
		}
		tables := func() [][]M {
			ret := [][]M{}
			for _, f := range m.files {
				ret = append(ret, importsOf(&f.Imports))
			}
			return ret
		}
		ret := []M{}
		for i := range c.Steps {
			st := &c.Steps[i]
			if st.A != "write" {
				_, p := guard(func() interface{} { m.grow(st); return nil })
				r := M{"st": "ok", "tabs": tables()}
				if p != "" {
					if os.Getenv("DRIVER_SHOW") != "" {
						os.Stderr.WriteString(fmt.Sprintln("step", i, p))
					}
					r["st"] = "panic"
				}
				ret = append(ret, r)
				continue
			}
			before := m.snapshot()
			out, s := m.render(st.F)
			if os.Getenv("DRIVER_SHOW") != "" {
				os.Stderr.WriteString(fmt.Sprintln("step", i, s) + out + "\n")
			}
			h := s
			if s != "panic" {
				h += hash(out)
			}
			w := M{"st": s, "h": h, "same": m.snapshot() == before, "tabs": tables(), "doc": []M{}}
			if s == "ok" {
				w["doc"] = []M{docOf(out)}
			}
			ret = append(ret, w)
		}
		return M{"steps": ret}
	}
	gens["grow"] = genGrow
}

// elemsIn collects the elements that a description refers to.
func elemsIn(x interface{}, to map[[3]int]bool) {
	switch x := x.(type) {
	case M:
		if x["k"] == "elem" {
			to[key3(x["e"].([]int))] = true
			return
		}
		for _, y := range x {
			elemsIn(y, to)
		}
	case []M:
		for _, y := range x {
			elemsIn(y, to)
		}
	}
}

// genGrow takes a random program apart into steps, and puts them in a random
// order in which everything that is referred to is there.
func genGrow(r R, prof string) M {
	p := genProg(r, prof)
	pool, blocks := p["pool"].([]M), p["blocks"].([][]M)
	files := p["files"].([]M)
	// a spec that is added to a declaration that is in a file already is
	// there, but cannot be referred to (see ToSymbol)
	there, exists := map[[3]int]bool{}, map[[3]int]bool{}
	bdone := make([]int, len(blocks))
	var refs func(to map[[3]int]bool, pieces []M)
	refs = func(to map[[3]int]bool, pieces []M) {
		for _, pc := range pieces {
			if pc["k"] == "add" {
				continue
			}
			for _, part := range pc["parts"].([]M) {
				if part["k"] == "arg" {
					elemsIn(pool[part["a"].(int)], to)
				}
			}
		}
	}
	initRefs := func(to map[[3]int]bool, in M) (ok bool) {
		if in["via"] == "block" {
			b := in["block"].(int)
			return bdone[b] == len(blocks[b])
		}
		refs(to, in["pieces"].([]M))
		return true
	}
	have := func(to map[[3]int]bool) bool {
		for e := range to {
			if !there[e] {
				return false
			}
		}
		return true
	}
	bare := func(d M) M {
		c := M{}
		for k, v := range d {
			c[k] = v
		}
		return c
	}
	// the parts of the program that are not there yet
	type todo struct {
		at   func() []int // where it belongs now
		need func() bool
		do   func() []M
	}
	var todos []*todo
	later := func(t *todo) { todos = append(todos, t) }
	seq := map[string]int{} // position in ordered lists
	inSeq := func(key string, i int, need func() bool, do func() []M) {
		later(&todo{need: func() bool { return seq[key] == i && need() }, do: func() []M { seq[key]++; return do() }})
	}
	yes := func() bool { return true }
	world := p["world"].([]Pk)
	opts := &typeOpts{world: world, q: func(r R, p Pk) string { return p.N }}
	// elements whose name is remembered by what refers to them
	fixed := map[[3]int]bool{}
	var names func(x interface{}, in bool)
	names = func(x interface{}, in bool) {
		switch x := x.(type) {
		case M:
			if in {
				elemsIn(x, fixed)
				return
			}
			in = x["form"] == "of" || x["k"] == "atspec"
			for _, y := range x {
				names(y, in)
			}
		case []M:
			for _, y := range x {
				names(y, in)
			}
		}
	}
	names(files, false)
	names(pool, false)
	detours := r.Intn(3) * 15 // percent: things are something else at first
	base := []M{}
	for fi, f := range files {
		fi := fi
		b := bare(f)
		b["decls"], b["regs"] = []M{}, []Pk{}
		for _, w := range []string{"fc", "pc"} {
			if doc := f[w].([]string); len(doc) > 0 && r.chance(60) {
				b[w] = []string{}
				w := w
				later(&todo{need: yes, do: func() []M { return []M{{"a": "doc", "f": fi, "w": w, "doc": doc}} }})
			}
		}
		if c := f["canon"].(string); c != "" {
			b["canon"] = ""
			later(&todo{need: yes, do: func() []M { return []M{{"a": "canon", "f": fi, "canon": c}} }})
		}
		for i, reg := range f["regs"].([]Pk) {
			reg := reg
			inSeq(fmt.Sprint("reg", fi), i, yes, func() []M { return []M{{"a": "reg", "f": fi, "reg": reg}} })
		}
		base = append(base, b)
		for di, d := range f["decls"].([]M) {
			di, d := di, d
			nd := bare(d)
			if doc := d["doc"].([]string); len(doc) > 0 && r.chance(50) {
				nd["doc"] = []string{}
				w := "decl"
				if d["k"] == "func" {
					w = "spec"
				}
				later(&todo{need: func() bool { return there[[3]int{fi, di, 0}] }, do: func() []M {
					return []M{{"a": "doc", "f": fi, "d": di, "s": 0, "w": w, "doc": doc}}
				}})
			}
			if d["k"] == "func" {
				sig := d["sig"].(*Sig)
				s := &Sig{Args: sig.Args[:r.Intn(len(sig.Args)+1)], Res: sig.Res[:r.Intn(len(sig.Res)+1)]}
				s.Var = sig.Var && len(s.Args) == len(sig.Args)
				nd["sig"] = s
				if r.chance(detours) && !fixed[[3]int{fi, di, 0}] {
					nd["name"] = d["name"].(string) + "Tmp"
					later(&todo{need: func() bool { return there[[3]int{fi, di, 0}] }, do: func() []M {
						return []M{{"a": "rename", "f": fi, "d": di, "s": 0, "name": d["name"]}}
					}})
				}
				s.Args, s.Res = append([]Arg{}, s.Args...), append([]Arg{}, s.Res...)
				for _, l := range []struct {
					a  string
					to []Arg
				}{{"setarg", s.Args}, {"setres", s.Res}} {
					l := l
					for i := range l.to {
						if i, last := i, l.to[i]; r.chance(detours) {
							l.to[i] = Arg{last.N, r.typ(2, opts)}
							if l.a == "setarg" && s.Var && i == len(l.to)-1 {
								l.to[i].T = &T{K: "slice", E: l.to[i].T}
							}
							later(&todo{need: func() bool { return there[[3]int{fi, di, 0}] }, do: func() []M {
								return []M{{"a": l.a, "f": fi, "d": di, "s": 0, "i": i, "arg": last}}
							}})
						}
					}
				}
				here := func() bool { return there[[3]int{fi, di, 0}] }
				for i := len(s.Args); i < len(sig.Args); i++ {
					a, last := sig.Args[i], i == len(sig.Args)-1
					inSeq(fmt.Sprint("arg", fi, di), i-len(s.Args), here, func() []M {
						return []M{{"a": "arg", "f": fi, "d": di, "s": 0, "arg": a, "var": sig.Var && last}}
					})
				}
				for i := len(s.Res); i < len(sig.Res); i++ {
					a := sig.Res[i]
					inSeq(fmt.Sprint("res", fi, di), i-len(s.Res), here, func() []M {
						return []M{{"a": "res", "f": fi, "d": di, "s": 0, "arg": a}}
					})
				}
				nd["body"] = []M{}
				for i, pc := range d["body"].([]M) {
					pc := pc
					inSeq(fmt.Sprint("piece", fi, di), i, func() bool {
						to := map[[3]int]bool{}
						refs(to, []M{pc})
						return here() && have(to)
					}, func() []M { return []M{{"a": "piece", "f": fi, "d": di, "s": 0, "piece": pc}} })
				}
				inSeq(fmt.Sprint("decl", fi), di, yes, func() []M {
					there[[3]int{fi, di, 0}] = true
					return []M{{"a": "decl", "f": fi, "decl": nd}}
				})
				continue
			}
			specs := d["specs"].([]M)
			n0 := len(specs)
			if d["via"] != "add" && r.chance(35) {
				n0 = 1 + r.Intn(len(specs))
			}
			var first []M
			firstNeed := map[[3]int]bool{}
			var firstInits []M
			for si, s := range specs {
				si := si
				ns := bare(s)
				if doc := s["doc"].([]string); len(doc) > 0 && r.chance(50) {
					ns["doc"] = []string{}
					later(&todo{need: func() bool { return exists[[3]int{fi, di, si}] }, do: func() []M {
						return []M{{"a": "doc", "f": fi, "d": di, "s": si, "w": "spec", "doc": doc}}
					}})
				}
				at := [3]int{fi, di, si}
				if r.chance(detours) && len(ns["doc"].([]string)) > 0 {
					doc := ns["doc"]
					ns["doc"] = []string{"something else"}
					later(&todo{need: func() bool { return exists[at] }, do: func() []M {
						return []M{{"a": "doc", "f": fi, "d": di, "s": si, "w": "spec", "doc": doc}}
					}})
				}
				if r.chance(detours) && !fixed[at] {
					var nm interface{}
					if d["k"] == "type" {
						nm = s["name"]
						ns["name"] = s["name"].(string) + "Tmp"
					} else {
						nn := append([]string{}, s["names"].([]string)...)
						nm = nn[0]
						nn[0] += "Tmp"
						ns["names"] = nn
					}
					later(&todo{need: func() bool { return exists[at] }, do: func() []M {
						return []M{{"a": "rename", "f": fi, "d": di, "s": si, "name": nm}}
					}})
				}
				if fs, ok := s["fields"].([]M); ok && d["k"] == "type" {
					nfs := append([]M{}, fs...)
					for i, last := range fs {
						if i, last := i, last; r.chance(detours) {
							nfs[i] = M{"n": fmt.Sprint("Tmp", i), "tag": r.tag(), "doc": last["doc"], "ty": M{"k": "t", "t": r.typ(2, opts)}}
							later(&todo{need: func() bool {
								to := map[[3]int]bool{}
								elemsIn(last, to)
								return exists[at] && have(to)
							}, do: func() []M { return []M{{"a": "field", "f": fi, "d": di, "s": si, "i": i, "field": last}} }})
						}
					}
					ns["fields"] = nfs
				}
				if es, ok := s["elems"].([]M); ok && d["k"] == "type" {
					nes := append([]M{}, es...)
					for i, last := range es {
						if i, last := i, last; r.chance(detours) {
							if last["k"] == "embed" {
								y := r.sym(opts)
								if y.P == "unsafe" {
									continue
								}
								nes[i] = M{"k": "embed", "doc": []string{}, "sym": y}
							} else {
								nes[i] = M{"k": "method", "doc": []string{"not yet"}, "n": fmt.Sprint("Tmp", i), "sig": r.sig(2, opts)}
							}
							later(&todo{need: func() bool { return exists[at] }, do: func() []M {
								return []M{{"a": "elem", "f": fi, "d": di, "s": si, "i": i, "elem": last}}
							}})
						}
					}
					ns["elems"] = nes
				}
				ty, hasTy := s["ty"].([]M)
				hasTy = hasTy && len(ty) > 0
				in := s["init"].([]M)
				if len(blocks) > 0 && len(in) > 0 && r.chance(2*detours) {
					// a block that others have too, first
					in1 := in[0]
					in = []M{{"via": "block", "pieces": []M{}, "block": 0}} // block 0 is an expression
					ns["init"] = in
					later(&todo{need: func() bool {
						to := map[[3]int]bool{}
						ok := initRefs(to, in1)
						return ok && have(to) && exists[at]
					}, do: func() []M { return []M{{"a": "init", "f": fi, "d": di, "s": si, "init": in1}} }})
				} else if d["k"] == "var" && hasTy && len(in) > 0 && r.chance(60) {
					in1 := in[0]
					ns["init"] = []M{}
					later(&todo{need: func() bool {
						to := map[[3]int]bool{}
						ok := initRefs(to, in1)
						return ok && have(to) && exists[[3]int{fi, di, si}]
					}, do: func() []M { return []M{{"a": "init", "f": fi, "d": di, "s": si, "init": in1}} }})
					in = nil
				}
				if d["k"] == "var" && hasTy && len(in) > 0 && r.chance(40) {
					ns["ty"] = []M{}
					later(&todo{need: func() bool {
						to := map[[3]int]bool{}
						elemsIn(ty, to)
						return exists[[3]int{fi, di, si}] && have(to)
					}, do: func() []M { return []M{{"a": "type", "f": fi, "d": di, "s": si, "ty": ty[0]}} }})
				} else if d["k"] != "type" && hasTy && r.chance(detours) {
					ns["ty"] = []M{{"k": "t", "t": r.typ(0, opts)}}
					later(&todo{need: func() bool {
						to := map[[3]int]bool{}
						elemsIn(ty, to)
						return exists[[3]int{fi, di, si}] && have(to)
					}, do: func() []M { return []M{{"a": "type", "f": fi, "d": di, "s": si, "ty": ty[0]}} }})
				}
				if si < n0 {
					first = append(first, ns)
					elemsIn(ns, firstNeed)
					firstInits = append(firstInits, in...)
					continue
				}
				in0 := in
				inSeq(fmt.Sprint("spec", fi, di), si-n0, func() bool {
					to := map[[3]int]bool{}
					elemsIn(ns, to)
					for _, in := range in0 {
						if !initRefs(to, in) {
							return false
						}
					}
					return there[[3]int{fi, di, 0}] && have(to)
				}, func() []M {
					exists[[3]int{fi, di, si}] = true
					return []M{{"a": "spec", "f": fi, "d": di, "spec": ns}}
				})
			}
			if d["via"] != "add" && n0 == len(specs) && r.chance(detours) {
				x := M{"doc": []string{}, "names": []string{"zzTmp"}, "name": "", "alias": false, "form": "", "ty": []M{{"k": "t", "t": r.typ(2, opts)}},
					"fields": []M{}, "elems": []M{}, "init": []M{}}
				switch d["k"] {
				case "type":
					x["names"], x["name"], x["form"] = []string{}, "ZzTmp", "of"
				case "const":
					x["ty"] = []M{}
				}
				first = append(first, x)
				later(&todo{need: func() bool { return there[[3]int{fi, di, 0}] }, do: func() []M {
					return []M{{"a": "drop", "f": fi, "d": di}}
				}})
			}
			nd["specs"] = first
			inSeq(fmt.Sprint("decl", fi), di, func() bool {
				to := map[[3]int]bool{}
				for e := range firstNeed {
					if e[0] != fi || e[1] != di { // (members of a group may refer to each other)
						to[e] = true
					} else if e[2] >= n0 {
						return false
					}
				}
				for _, in := range firstInits {
					if !initRefs(to, in) {
						return false
					}
				}
				return have(to)
			}, func() []M {
				for si := 0; si < n0; si++ {
					there[[3]int{fi, di, si}] = true
					exists[[3]int{fi, di, si}] = true
				}
				return []M{{"a": "decl", "f": fi, "decl": nd}}
			})
		}
	}
	for bi, b := range blocks {
		bi := bi
		for i, pc := range b {
			pc := pc
			inSeq(fmt.Sprint("block", bi), i, func() bool {
				to := map[[3]int]bool{}
				refs(to, []M{pc})
				return have(to)
			}, func() []M {
				bdone[bi]++
				return []M{{"a": "bpiece", "b": bi, "piece": pc}}
			})
		}
	}
	steps := []M{}
	write := func() { steps = append(steps, M{"a": "write", "f": r.Intn(len(files))}) }
	pct := []int{4, 15, 40}[r.Intn(3)]
	for len(todos) > 0 {
		var ok []int
		for i, t := range todos {
			if t.need() {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 {
			break // what is left waits for itself
		}
		i := ok[r.Intn(len(ok))]
		steps = append(steps, todos[i].do()...)
		todos = append(todos[:i], todos[i+1:]...)
		if r.chance(pct) {
			write()
		}
	}
	for i := range files {
		steps = append(steps, M{"a": "write", "f": i})
	}
	write()
	return M{"world": p["world"], "pool": pool, "blocks": len(blocks), "files": base, "steps": steps}
}
