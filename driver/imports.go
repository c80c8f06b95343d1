package main

import (
	"encoding/json"

	"github.com/jhump/gopoet"
)

// Kind "imports": a history of operations on one Imports.

type impOp struct {
	Op  string `json:"op"`
	P   string `json:"p"`
	Q   string `json:"q"`
	Sym *Sym   `json:"sym"`
	T   *T     `json:"t"`
	Sig *Sig   `json:"sig"`
}

// MarshalJSON emits exactly the fields that the operation has.
func (o impOp) MarshalJSON() ([]byte, error) {
	m := M{"op": o.Op}
	switch o.Op {
	case "reg", "regpkg", "datapkg":
		m["p"], m["q"] = o.P, o.Q
	case "prefix":
		m["p"] = o.P
	case "ensureSym", "qualSym", "dataSym":
		m["sym"] = o.Sym
	case "ensureT", "qualT", "dataT":
		m["t"] = o.T
	case "ensureSig", "qualSig", "dataSig":
		m["sig"] = o.Sig
	}
	return json.Marshal(m)
}

func importSpecs(i *gopoet.Imports) []M {
	ret := []M{}
	list := i.ImportSpecs()
	for _, s := range list {
		ret = append(ret, M{"a": s.PackageAlias, "p": s.ImportPath, "toks": tokenize(s.String())})
	}
	// the list is the caller's: what is done to it must not matter
	for k := range list {
		list[k] = gopoet.ImportSpec{PackageAlias: "spoilt", ImportPath: "spoilt/by/caller"}
	}
	return ret
}

func init() {
	kinds["imports"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Own string  `json:"own"`
			Ops []impOp `json:"ops"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		imps := gopoet.NewImportsFor(c.Own)
		steps := []M{}
		for _, op := range c.Ops {
			res, p := guard(func() interface{} { return runImpOp(imps, op) })
			st := M{"st": "ok"}
			if p != "" {
				st["st"] = "panic"
			} else {
				for k, v := range res.(M) {
					st[k] = v
				}
			}
			st["specs"] = importSpecs(imps)
			steps = append(steps, st)
		}
		return M{"steps": steps}
	}
}

func runImpOp(imps *gopoet.Imports, op impOp) M {
	switch op.Op {
	case "reg":
		return M{"s": imps.RegisterImport(op.P, op.Q)}
	case "regpkg":
		return M{"s": imps.RegisterImportForPackage(gopoet.Package{ImportPath: op.P, Name: op.Q})}
	case "datapkg":
		r := imps.QualifyTemplateData(gopoet.Package{ImportPath: op.P, Name: op.Q})
		p := r.(gopoet.Package)
		return M{"p": p.ImportPath, "q": p.Name, "str": p.String()}
	case "prefix":
		return M{"s": imps.PrefixForPackage(op.P)}
	case "ensureSym", "qualSym", "dataSym":
		in := op.Sym.gp()
		var out gopoet.Symbol
		switch op.Op {
		case "ensureSym":
			out = imps.EnsureImported(in)
		case "qualSym":
			out = imps.Qualify(in)
		default:
			out = imps.QualifyTemplateData(in).(gopoet.Symbol)
		}
		return M{"sym": projSym(out), "toks": tokenize(out.String())}
	case "ensureT", "qualT", "dataT":
		in := op.T.gp()
		var out gopoet.TypeName
		switch op.Op {
		case "ensureT":
			out = imps.EnsureTypeImported(in)
		case "qualT":
			out = imps.QualifyType(in)
		default:
			out = imps.QualifyTemplateData(in).(gopoet.TypeName)
		}
		return M{"t": projT(out), "after": projT(in)}
	case "ensureSig", "qualSig", "dataSig":
		in := op.Sig.gp()
		var out *gopoet.Signature
		switch op.Op {
		case "ensureSig":
			out = imps.EnsureAllTypesImported(in)
		case "qualSig":
			out = imps.QualifySignature(in)
		default:
			out = imps.QualifyTemplateData(in).(*gopoet.Signature)
		}
		return M{"sig": projSig(out), "after": projSig(in)}
	}
	panic("bad op " + op.Op)
}
