package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"os"
	"strings"
	"text/template"

	"github.com/jhump/gopoet"
)

// An ioFile is a file of a random program (by seed), perhaps with something
// added that makes rendering fail.
type ioFile struct {
	Seed int64  `json:"seed"`
	Path string `json:"path"`
	Pkg  string `json:"pkg"`
	Name string `json:"name"`
	Big  int    `json:"big"`
	Bad  string `json:"bad"` // "", body, init, name, pkg, raw: not Go; panic: a template that fails
}

type ioFault struct {
	Open  string `json:"open"`
	Write string `json:"write"`
	At    string `json:"at"` // start, half, last, end
	Close string `json:"close"`
}

// errors the environment may produce, by name
type sliceErr []string

func (e sliceErr) Error() string { return "slice " + e[0] }

func namedErr(s string) error {
	switch {
	case s == "":
		return nil
	case strings.HasPrefix(s, "EOF"):
		return io.EOF
	case strings.HasPrefix(s, "short"):
		return io.ErrShortWrite
	case strings.HasPrefix(s, "closed"):
		return os.ErrClosed
	case strings.HasPrefix(s, "noent"):
		return &os.PathError{Op: "open", Path: s, Err: os.ErrNotExist}
	case strings.HasPrefix(s, "exist"):
		return os.ErrExist
	case strings.HasPrefix(s, "slice"):
		return sliceErr{s}
	case strings.HasPrefix(s, "fmt"):
		return &gopoet.FormatError{Err: errors.New(s)}
	}
	return errors.New(s)
}

func sameErr(a, b error) (ok bool) {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if s, isS := b.(sliceErr); isS {
		var t sliceErr
		return errors.As(a, &t) && len(t) > 0 && &t[0] == &s[0]
	}
	return errors.Is(a, b)
}

// the text that makes it not Go, and what takes its place in the twin
const (
	badText  = "QQ)(QQ"
	goodText = "QQgoodQQ"
	// a literal that is not closed, so that what is left of the file belongs to it
	badRaw  = "`QQopen \n\t\n \r \n\n"
	goodRaw = "`QQopen`"
)

func (f *ioFile) texts() (bad, good string) {
	if f.Bad == "raw" {
		return badRaw, goodRaw
	}
	return badText, goodText
}

func (f *ioFile) build(bad bool) *gopoet.GoFile {
	badText, text := f.texts()
	if bad {
		text = badText
	}
	r := R{rand.New(rand.NewSource(f.Seed))}
	b, err := json.Marshal(genProg(r, ""))
	if err != nil {
		die(err)
	}
	var p Prog
	if err := json.Unmarshal(b, &p); err != nil {
		die(err)
	}
	// only the first file; it may use elements of the others
	p.Files[0].Name = f.Name
	own := p.Files[0].Path
	if f.Path != "*" {
		for i := range p.Files {
			if p.Files[i].Path == own {
				p.Files[i].Path, p.Files[i].Pkg = f.Path, f.Pkg
			}
		}
	}
	g := build(&p).files[0]
	switch f.Bad {
	case "body":
		chain(g, g.AddElement(gopoet.NewFunc("Extra").Printlnf("_ = %s + 1", text)))
	case "init", "raw":
		chain(g, g.AddVar(gopoet.NewVar("extra").Initialize("%s", text)))
	case "name":
		chain(g, g.AddType(gopoet.NewTypeSpec(text, gopoet.IntType)))
	case "pkg":
		g.PackageName = text
	case "panic":
		if bad {
			chain(g, g.AddElement(gopoet.NewFunc("Extra").RenderCode(template.Must(template.New("t").Parse("x {{.Nope.Never}}")), struct{}{})))
		}
	}
	if f.Big > 0 {
		fn := gopoet.NewFunc("big")
		for i := 0; i < f.Big; i++ {
			chain(fn, fn.Printlnf("_ = %s(%d)", gopoet.NewSymbol("some/pkg", "Thing"), i))
		}
		chain(g, g.AddElement(fn))
	}
	return g
}

type ioRun struct {
	files  []*ioFile
	faults []ioFault
	order  []int
	good   []string // formatted content of each position ("" when it cannot be rendered)
	events []M
	errs   map[string]error
}

func (x *ioRun) err(s string) error {
	if s == "" {
		return nil
	}
	if e, ok := x.errs[s]; ok {
		return e
	}
	e := namedErr(s)
	x.errs[s] = e
	return e
}

func (x *ioRun) nameOf(err error) string {
	if err == nil {
		return ""
	}
	for n, e := range x.errs {
		if sameErr(err, e) {
			return n
		}
	}
	var fe *gopoet.FormatError
	if errors.As(err, &fe) {
		return "format"
	}
	return "!other"
}

type ioWriter struct {
	x      *ioRun
	pos    int // in the order
	at     int
	failed bool
}

func (w *ioWriter) Write(p []byte) (int, error) {
	fault := w.x.faults[w.pos]
	want := w.x.good[w.pos]
	k, e := len(p), ""
	if fault.Write != "" && !w.failed {
		limit := 0
		switch fault.At {
		case "half":
			limit = len(want) / 2
		case "last":
			limit = len(want) - 1
		case "end":
			limit = len(want)
		}
		if w.at+len(p) >= limit {
			if k = limit - w.at; k < 0 {
				k = 0
			}
			e = fault.Write
			w.failed = true
		}
	}
	same := w.at+len(p) <= len(want) && want[w.at:w.at+len(p)] == string(p)
	w.x.events = append(w.x.events, M{"ev": "write", "f": w.pos + 1, "n": len(p), "k": k, "same": same, "e": e})
	w.at += k
	return k, w.x.err(e)
}

type ioWriteCloser struct{ ioWriter }

func (w *ioWriteCloser) Close() error {
	e := w.x.faults[w.pos].Close
	w.x.events = append(w.x.events, M{"ev": "close", "f": w.pos + 1, "e": e})
	return w.x.err(e)
}

func newIORun(raw json.RawMessage) *ioRun {
	var c struct {
		Files  []*ioFile
		Order  []int
		Faults []ioFault
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		die(err)
	}
	return &ioRun{files: c.Files, order: c.Order, faults: c.Faults, errs: map[string]error{}}
}

// prepare builds the files, and finds out what their content should be from
// files built in the same way.
func (x *ioRun) prepare() (fs []*gopoet.GoFile, facts []M) {
	built := map[int]*gopoet.GoFile{}
	x.good = make([]string, len(x.order))
	facts = []M{}
	for pos, o := range x.order {
		f := x.files[o]
		if built[o] == nil {
			built[o] = f.build(true)
		}
		fs = append(fs, built[o])
		rec := M{"p": built[o].Package().ImportPath, "n": f.Name, "len": 0, "canonical": true, "parses": true, "render": "ok"}
		if f.Path != "*" {
			rec["p"] = f.Path
		}
		switch f.Bad {
		case "":
			var buf bytes.Buffer
			if err := gopoet.WriteGoFile(&buf, f.build(true)); err != nil {
				rec["canonical"] = false
			} else {
				x.good[pos] = buf.String()
				src, err := format.Source(buf.Bytes())
				rec["canonical"] = err == nil && bytes.Equal(src, buf.Bytes())
				_, err = parser.ParseFile(token.NewFileSet(), "x.go", buf.Bytes(), parser.ParseComments)
				rec["parses"] = err == nil
				rec["len"] = buf.Len()
			}
		case "panic":
			rec["render"] = "panic"
		default:
			rec["render"] = "format"
		}
		facts = append(facts, rec)
	}
	return fs, facts
}

// ferr looks at a format error: with the bad text replaced it must be the
// source of the twin.
func (x *ioRun) ferr(err error) M {
	ret := M{"is": false, "complete": false, "cause": false}
	var fe *gopoet.FormatError
	if !errors.As(err, &fe) || fe == nil {
		return ret
	}
	ret["is"] = true
	_, e := format.Source(fe.Unformatted)
	ret["cause"] = e != nil && fe.Err != nil && e.Error() == fe.Err.Error() && fe.Error() == fe.Err.Error()
	for _, f := range x.files {
		if f.Bad == "" || f.Bad == "panic" {
			continue
		}
		var buf bytes.Buffer
		badText, goodText := f.texts()
		if gopoet.WriteGoFile(&buf, f.build(false)) != nil {
			continue
		}
		if bytes.Count(fe.Unformatted, []byte(badText)) == 0 {
			continue
		}
		src, err := format.Source(bytes.Replace(fe.Unformatted, []byte(badText), []byte(goodText), -1))
		if err == nil && bytes.Equal(src, buf.Bytes()) {
			ret["complete"] = true
		}
	}
	return ret
}

func (x *ioRun) finish(facts []M, run func() error) M {
	var err error
	_, p := guard(func() interface{} { err = run(); return nil })
	name := "panic"
	if p == "" {
		name = x.nameOf(err)
		if name == "!other" && len(facts) > 0 {
			// (an error for what is a panic now would be fine)
			for _, f := range x.files {
				if f.Bad == "panic" {
					name = "panic"
				}
			}
		}
	}
	x.events = append(x.events, M{"ev": "return", "e": name})
	ret := M{"files": facts, "events": x.events, "ferr": M{"is": false, "complete": false, "cause": false}}
	if name == "format" {
		ret["ferr"] = x.ferr(err)
	}
	return ret
}

func init() {
	kinds["io"] = func(raw json.RawMessage) interface{} {
		x := newIORun(raw)
		fs, facts := x.prepare()
		pos := -1
		return x.finish(facts, func() error {
			return gopoet.WriteGoFiles(func(path string) (io.WriteCloser, error) {
				pos++
				if pos >= len(x.faults) {
					x.events = append(x.events, M{"ev": "open", "path": path, "e": "", "f": pos + 1})
					return nil, fmt.Errorf("too many files")
				}
				e := x.faults[pos].Open
				x.events = append(x.events, M{"ev": "open", "path": path, "e": e, "f": pos + 1})
				if e != "" {
					return nil, x.err(e)
				}
				return &ioWriteCloser{ioWriter{x: x, pos: pos}}, nil
			}, fs...)
		})
	}
	kinds["render"] = func(raw json.RawMessage) interface{} {
		x := newIORun(raw)
		fs, facts := x.prepare()
		return x.finish(facts, func() error { return gopoet.WriteGoFile(&ioWriter{x: x, pos: 0}, fs[0]) })
	}
	kinds["newfile"] = func(raw json.RawMessage) interface{} {
		var c struct{ Name, P, N string }
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		ret := M{"st": "ok", "name": "", "p": "", "n": "", "elems": 0}
		_, p := guard(func() interface{} {
			f := gopoet.NewGoFile(c.Name, c.P, c.N)
			ret["name"], ret["p"], ret["n"], ret["elems"] = f.Name, f.Package().ImportPath, f.Package().Name, f.NumElements()
			return nil
		})
		if p != "" {
			ret["st"] = "panic"
		}
		return ret
	}
	errNames := []string{"e1", "e2", "EOF", "short", "closed", "noent", "exist", "slice", "fmt"}
	oneFile := func(r R, i int) M {
		f := M{"seed": r.Int63n(1 << 40), "path": "*", "pkg": "", "name": fmt.Sprintf("f%d.go", i), "big": 0, "bad": ""}
		if r.chance(40) {
			f["path"], f["pkg"] = r.pick("", "x", "a/own", "a/b/c/d-e", "gopkg.in/y.v2", "p.q/é"), r.pick("own", "main", "y")
		}
		if r.chance(15) {
			f["big"] = 1 + r.Intn(60)
			if r.chance(20) {
				f["big"] = 3000
			}
		}
		return f
	}
	spoil := func(r R, f M, pct int) {
		if r.chance(pct) {
			f["bad"] = r.pick("body", "init", "name", "pkg", "panic", "body", "init", "raw", "raw")
		}
	}
	fault := func(r R, pct int) M {
		ret := M{"open": "", "write": "", "at": "start", "close": ""}
		if r.chance(pct) {
			ret["open"] = errNames[r.Intn(len(errNames))]
		}
		if r.chance(pct) {
			ret["write"] = errNames[r.Intn(len(errNames))]
			ret["at"] = r.pick("start", "half", "last", "end")
		}
		if r.chance(pct) {
			ret["close"] = errNames[r.Intn(len(errNames))]
		}
		return ret
	}
	gens["io"] = func(r R, prof string) M {
		files, order, faults := []M{}, []int{}, []M{}
		n := r.few(5)
		pct := []int{0, 8, 25}[r.Intn(3)]
		for i := 0; i < n; i++ {
			f := oneFile(r, i)
			spoil(r, f, pct)
			files = append(files, f)
			order = append(order, i)
			faults = append(faults, fault(r, pct))
			if r.chance(10) {
				order = append(order, r.Intn(i+1))
				faults = append(faults, fault(r, pct))
			}
		}
		return M{"files": files, "order": order, "faults": faults}
	}
	gens["render"] = func(r R, prof string) M {
		f := oneFile(r, 0)
		spoil(r, f, 50)
		return M{"files": []M{f}, "order": []int{0}, "faults": []M{fault(r, 40)}}
	}
	gens["newfile"] = func(r R, prof string) M {
		name := ""
		for k := r.Intn(7); k > 0; k-- {
			name += r.pick("a", ".", "/", "go", ".go", "é", "_test", "x")
		}
		if r.chance(50) {
			name += ".go"
		}
		return M{"name": name, "p": r.pick("", "a/b", "x"), "n": r.pick("b", "main", "x")}
	}
}
