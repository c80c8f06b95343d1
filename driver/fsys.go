package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/jhump/gopoet"
)

// Writing files below a scratch directory. This must not run as root: paths
// that get away could do harm, and permissions would not matter.

type fsNode struct {
	Path []string `json:"path"`
	T    string   `json:"t"` // dir, file, link, full
	C    string   `json:"c"`
	To   []string `json:"to"`
	W    bool     `json:"w"`
}

type fsFile struct {
	Dir  []string `json:"dir"`
	Name string   `json:"name"`
	Pkg  string   `json:"pkg"`
	V    int      `json:"v"`
	Size int      `json:"size"`
	Bad  string   `json:"bad"`
}

type fsCall struct {
	Fn    string   `json:"fn"` // fs, gopath
	Root  []string `json:"root"`
	Form  string   `json:"form"`
	More  string   `json:"more"` // after the first entry of GOPATH
	Files []fsFile `json:"files"`
}

type fsCase struct {
	Nodes []fsNode `json:"nodes"`
	Calls []fsCall `json:"calls"`
}

func (f *fsFile) build() *gopoet.GoFile {
	g := gopoet.NewGoFile(f.Name, strings.Join(f.Dir, "/"), f.Pkg)
	chain(g, g.AddConst(gopoet.NewConst("Version").Initialize("%d", f.V)))
	fn := gopoet.NewFunc("body").Printlnf("_ = %s", gopoet.NewSymbol("time", "Second"))
	for i := 0; i < f.Size; i++ {
		chain(fn, fn.Printlnf("_ = %d", i))
	}
	if f.Bad == "body" {
		chain(fn, fn.Println("= ) ("))
	}
	chain(g, g.AddElement(fn))
	return g
}

// content as the specification knows it
func fsHash(s string) string { return hash(s) }

func (f *fsFile) hash() string {
	out, st := (&model{files: []*gopoet.GoFile{f.build()}}).render(0)
	if st != "ok" {
		return st
	}
	return fsHash(out)
}

func fsSnapshot(base string) []M {
	ret := []M{}
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			die("snapshot: ", err)
		}
		rel, _ := filepath.Rel(base, p)
		path := strings.Split(rel, "/")
		if rel == "." {
			path = []string{}
		}
		n := M{"path": path, "t": "dir", "c": "", "to": []string{}, "w": fi.Mode()&0200 != 0}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			to, err := os.Readlink(p)
			if err != nil {
				die(err)
			}
			n["w"] = true
			if to == "/dev/full" {
				n["t"] = "full"
				break
			}
			rel, err := filepath.Rel(base, to)
			if err != nil {
				die(err)
			}
			n["t"], n["to"] = "link", strings.Split(rel, "/")
		case fi.IsDir():
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				n["t"] = "unreadable"
				break
			}
			n["t"], n["c"] = "file", fsHash(string(b))
		default:
			n["t"] = "other"
		}
		ret = append(ret, n)
		return nil
	})
	sort.Slice(ret, func(i, j int) bool { return jsonOf(ret[i]["path"]) < jsonOf(ret[j]["path"]) })
	return ret
}

// the root directory of a call, as it is passed
func (c *fsCall) rootArg(base string) string {
	abs := filepath.Join(append([]string{base}, c.Root...)...)
	switch c.Form {
	case "slash":
		return abs + "/"
	case "dot":
		return base + "/./" + strings.Join(c.Root, "/")
	case "double":
		return base + "//" + strings.Join(c.Root, "//") + "//"
	case "up":
		return base + "/cwd/../" + strings.Join(c.Root, "/")
	case "rel":
		// (the working directory is base/cwd, and the root is below it)
		r := strings.Join(c.Root[1:], "/")
		if r == "" {
			r = "."
		}
		return r
	case "none":
		return strings.Join(c.Root[1:], "/")
	}
	return abs
}

func init() {
	kinds["fs"] = func(raw json.RawMessage) interface{} {
		if os.Getuid() == 0 {
			die("writing files must not be tried as root")
		}
		var c fsCase
		if err := json.Unmarshal(raw, &c); err != nil {
			die(err)
		}
		scratch := os.Getenv("DRIVER_SCRATCH")
		if scratch == "" {
			die("no scratch directory")
		}
		base, err := os.MkdirTemp(scratch, "fs")
		if err != nil {
			die(err)
		}
		cwd := filepath.Join(base, "cwd")
		if err := os.Mkdir(cwd, 0777); err != nil {
			die(err)
		}
		defer func() {
			os.Chdir(scratch)
			filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.IsDir() {
					os.Chmod(p, 0777)
				}
				return nil
			})
			os.RemoveAll(base)
		}()
		if err := os.Chdir(cwd); err != nil {
			die(err)
		}
		at := func(p []string) string { return filepath.Join(append([]string{base}, p...)...) }
		for i := range c.Nodes {
			n := &c.Nodes[i]
			switch n.T {
			case "dir":
				err = os.MkdirAll(at(n.Path), 0777)
			case "file":
				os.MkdirAll(filepath.Dir(at(n.Path)), 0777)
				err = os.WriteFile(at(n.Path), []byte(n.C), 0666)
			case "link":
				os.MkdirAll(filepath.Dir(at(n.Path)), 0777)
				err = os.Symlink(at(n.To), at(n.Path))
			case "full":
				os.MkdirAll(filepath.Dir(at(n.Path)), 0777)
				err = os.Symlink("/dev/full", at(n.Path))
			}
			if err != nil {
				die("making the tree: ", err)
			}
		}
		for i := range c.Nodes {
			if n := &c.Nodes[i]; !n.W && (n.T == "dir" || n.T == "file") {
				mode := os.FileMode(0555)
				if n.T == "file" {
					mode = 0444
				}
				if err := os.Chmod(at(n.Path), mode); err != nil {
					die(err)
				}
			}
		}
		tree0 := fsSnapshot(base)
		steps := []M{}
		for i := range c.Calls {
			k := &c.Calls[i]
			hashes := []string{}
			var files []*gopoet.GoFile
			for j := range k.Files {
				hashes = append(hashes, k.Files[j].hash())
				files = append(files, k.Files[j].build())
			}
			root := k.rootArg(base)
			var err error
			_, p := guard(func() interface{} {
				if k.Fn == "fs" {
					err = gopoet.WriteGoFilesToFileSystem(root, files...)
					return nil
				}
				switch k.Form {
				case "unset":
					os.Unsetenv("GOPATH")
				case "empty":
					os.Setenv("GOPATH", "")
				default:
					os.Setenv("GOPATH", root+strings.Replace(k.More, "@", base, -1))
				}
				err = gopoet.WriteGoFilesToGoPath(files...)
				return nil
			})
			e := ""
			switch err := err.(type) {
			case nil:
			case *gopoet.FormatError:
				e = "format"
			default:
				_ = err
				e = "other"
			}
			if p != "" {
				e = "panic"
			}
			steps = append(steps, M{"e": e, "hashes": hashes, "tree": fsSnapshot(base)})
		}
		return M{"tree0": tree0, "steps": steps}
	}
	gens["fs"] = genFS
}

func genFS(r R, prof string) M {
	comps := []string{"a", "b", "c d", "gen.go", "x", "é", "..d"}
	if r.chance(15) {
		// nothing that would mean anything to a shell or a format
		comps = append(comps, "e ", " e", "$HOME", "~", "%d", "a;b", "-x", "*", "...", "v2", ".git", "A")
	}
	dir := func() []string {
		p := []string{}
		for n := r.Intn(4); n > 0; n-- {
			p = append(p, comps[r.Intn(len(comps))])
		}
		return p
	}
	names := []string{"f.go", "g.go", "gen.go", "f_test.go", ".go"}
	if r.chance(15) {
		names = append(names, "f .go", " f.go", "%s.go", "$f.go", "-f.go", "F.go", "f.pb.go", "é.go", "f_windows.go")
	}
	roots := [][]string{{"r"}, {"r", "a"}, {"cwd"}, {"cwd", "r"}, {"other", "r"}, {"l"}, {"r", "gen.go"}}
	if r.chance(30) {
		roots = append(roots, [][]string{{"r "}, {"cwd", " r"}, {"cwd", "r\t"}, {"$HOME"}, {"cwd", "~"}, {"cwd", "$R"}, {"%d"}, {"r;s"}, {"r,s"}, {"R"}, {"'r'"}}...)
	}
	root := func() []string { return roots[r.Intn(len(roots))] }
	mkfile := func() fsFile {
		f := fsFile{Dir: dir(), Name: names[r.Intn(len(names))], Pkg: "p", V: r.Intn(3), Size: r.Intn(4)}
		if r.chance(10) {
			f.Size = 400
		}
		if r.chance(8) {
			f.Bad = "body"
		}
		if r.chance(2) {
			f.Name = strings.Repeat("n", 300) + ".go"
		}
		return f
	}
	// files first: what is there before is about them
	var calls []fsCall
	for n := 1 + r.few(3); n > 0; n-- {
		c := fsCall{Fn: r.pick("fs", "fs", "gopath"), Root: root(), Form: r.pick("abs", "abs", "slash", "dot", "double", "up"), Files: []fsFile{}}
		if c.Root[0] == "cwd" && r.chance(70) {
			c.Form = "rel"
			if c.Fn == "fs" && r.chance(30) {
				c.Form = "none"
			}
		}
		if c.Fn == "gopath" {
			c.More = r.pick("", "", ":@/other", ":@/cwd:@/r", ":")
			if r.chance(15) {
				c.Form = r.pick("unset", "empty")
			}
		}
		for i := r.few(5); i > 0; i-- {
			if len(c.Files) > 0 && r.chance(25) {
				f := c.Files[r.Intn(len(c.Files))]
				f.V, f.Bad = r.Intn(3), ""
				c.Files = append(c.Files, f)
				continue
			}
			if len(calls) > 0 && r.chance(40) {
				if fs := calls[r.Intn(len(calls))].Files; len(fs) > 0 {
					f := fs[r.Intn(len(fs))]
					f.V, f.Bad, f.Size = r.Intn(3), "", r.Intn(4)
					c.Files = append(c.Files, f)
					continue
				}
			}
			c.Files = append(c.Files, mkfile())
		}
		calls = append(calls, c)
	}
	nodes := []fsNode{}
	taken := map[string]string{"": "dir", "cwd": "dir"}
	key := func(p []string) string { return strings.Join(p, "/") }
	add := func(n fsNode) {
		// all ancestors must be directories that can be written to now
		for i := 0; i <= len(n.Path); i++ {
			t := taken[key(n.Path[:i])]
			if i < len(n.Path) && t != "" && t != "dir" || i == len(n.Path) && t != "" {
				return
			}
		}
		for i := 0; i < len(n.Path); i++ {
			taken[key(n.Path[:i])] = "dir"
		}
		taken[key(n.Path)] = n.T
		if n.To == nil {
			n.To = []string{}
		}
		nodes = append(nodes, n)
	}
	add(fsNode{Path: []string{"l"}, T: "link", To: []string{"other", "t"}, W: true})
	add(fsNode{Path: []string{"other", "t"}, T: "dir", W: true})
	for i := r.Intn(7); i > 0; i-- {
		// something about one of the files
		c := calls[r.Intn(len(calls))]
		p := append(append([]string{}, c.Root...), dir()...)
		p = append(p, names[r.Intn(len(names))])
		if len(c.Files) > 0 && r.chance(85) {
			f := c.Files[r.Intn(len(c.Files))]
			p = append(append(append([]string{}, c.Root...), f.Dir...), f.Name)
		}
		if p[0] == "l" {
			p = append([]string{"other", "t"}, p[1:]...)
		}
		if len(p[len(p)-1]) > 255 {
			continue
		}
		content := fsContent(r)
		n := fsNode{Path: p, T: "file", C: content, W: !r.chance(12)}
		switch k := r.Intn(100); {
		case k < 45:
		case k < 55:
			n = fsNode{Path: p, T: "dir", W: true}
		case k < 63:
			n.Path = p[:1+r.Intn(len(p))] // a file where there should be a directory
		case k < 75:
			n = fsNode{Path: p[:1+r.Intn(len(p))], T: "dir", W: false}
		case k < 80:
			n = fsNode{Path: p, T: "full", W: true}
		case k < 86:
			to := []string{"other", fmt.Sprint("t", i)}
			n = fsNode{Path: p[:1+r.Intn(len(p))], T: "link", To: to, W: true}
			if n.Path[0] == "cwd" && len(n.Path) == 1 {
				continue
			}
			add(n)
			n = fsNode{Path: to, T: "dir", W: true}
		default:
			n.Path = append(append([]string{}, p[:len(p)-1]...), r.pick("other.go", "README", ".hidden", "f.go~", "f.go.tmp"))
		}
		if len(n.Path) == 1 && n.Path[0] == "cwd" {
			continue
		}
		add(n)
	}
	return M{"nodes": nodes, "calls": calls}
}

func fsContent(r R) string {
	if r.chance(20) {
		return ""
	}
	return strings.Repeat(r.pick("x", "old content\n", "\x00"), 1+r.Intn(400))
}
