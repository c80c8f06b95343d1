import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed as _seed
only = set(sys.argv[1:])
def seed(*a): _seed(*a, only=only)

seed("s01", "C03", [("imports.go", "if nelem != elem || nkey != key {", "if nelem != elem {")], ["reflect"], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("x/foo", "foo")
    k := gopoet.NamedType(gopoet.NewSymbol("y/foo", "K"))
    m := gopoet.MapType(k, gopoet.StringType)
    if s := im.EnsureTypeImported(m).String(); s != "map[foo1.K]string" {
        t.Errorf("got %s", s)
    }
    if im.EnsureTypeImported(gopoet.StringType) != gopoet.BasicType(reflect.String) {
        t.Error("string")
    }
}''', "a map whose key's package got another qualifier while its element is unchanged",
 "the key of the qualified map keeps the qualifier that it came with, which denotes another package")

seed("s02", "C12", [("imports.go", "ret = make([]ArgType, len(args))\n\t\t\t\tcopy(ret, args)", "ret = args")], ["bytes"], '''
func TestPlanted(t *testing.T) {
    u := gopoet.NamedType(gopoet.Package{ImportPath: "y/foo", Name: "foo"}.Symbol("U"))
    sig := gopoet.Signature{Args: []gopoet.ArgType{{Name: "a", Type: u}}}
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.RegisterImport("x/foo", "foo")
    fn := gopoet.NewFunc("F")
    fn.Signature = sig
    f.AddElement(fn)
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    if s := sig.Args[0].Type.String(); s != "foo.U" {
        t.Errorf("writing the file changed the caller's signature: %s", s)
    }
}''', "a signature with a type of a package that gets an alias in the file that is written, looked at (or written elsewhere) afterwards",
 "writing a file overwrites the argument types of the elements' signatures")

seed("s03", "C14", [("model.go", 'if filepath.Ext(fileName) != ".go" {', 'if !strings.EqualFold(filepath.Ext(fileName), ".go") {')], [], '''
func TestPlanted(t *testing.T) {
    defer func() {
        if recover() == nil {
            t.Error("no panic")
        }
    }()
    gopoet.NewGoFile("a.GO", "x/a", "a")
}''', "a file name whose extension is .go but for its case", "files can be created with names that the go tool ignores")

seed("s04", "C06", [("types.go", '''		methods := make([]MethodType, t.NumExplicitMethods())
		for i := 0; i < t.NumExplicitMethods(); i++ {
			method := t.ExplicitMethod(i)
''', '''		methods := make([]MethodType, t.NumMethods())
		for i := 0; i < t.NumMethods(); i++ {
			method := t.Method(i)
''')], ["go/types"], '''
func TestPlanted(t *testing.T) {
    err := types.Universe.Lookup("error").Type()
    it := types.NewInterfaceType(nil, []types.Type{err})
    it.Complete()
    if s := gopoet.TypeNameForGoType(it).String(); s != "interface{error}" {
        t.Errorf("got %s", s)
    }
}''', "an unnamed interface that embeds a named one which has methods", "methods of the embedded interface are duplicated in the type")

seed("s05", "C10", [("model.go", '''		tag := string(f.Tag)
		if strconv.CanBackquote(tag) {''', '''		tag := string(f.Tag)
		if strconv.CanBackquote(strings.Replace(tag, "\\r", "", -1)) {''')], ["bytes", "go/parser", "go/token", "go/ast", "strconv"], '''
func TestPlanted(t *testing.T) {
    tag := "a:\\"x\\ry\\""
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddType(gopoet.NewStructTypeSpec("T", gopoet.NewField("F", gopoet.IntType).SetTag(tag)))
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    file, err := parser.ParseFile(token.NewFileSet(), "f.go", b.Bytes(), 0)
    if err != nil {
        t.Fatal(err)
    }
    ast.Inspect(file, func(n ast.Node) bool {
        if fld, ok := n.(*ast.Field); ok && fld.Tag != nil {
            if s, _ := strconv.Unquote(fld.Tag.Value); s != tag {
                t.Errorf("got %q", s)
            }
        }
        return true
    })
}''', "a struct tag with a character that raw strings cannot hold, other than a backquote", "the tag of the declared struct field loses characters")

seed("s06", "C01", [("imports.go", "\t\t\ti.pathsByName[p] = importPath\n", "\t\t\tif packageName != \"\" {\n\t\t\t\ti.pathsByName[p] = importPath\n\t\t\t}\n")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    a := im.RegisterImport("x/foo", "")
    b := im.RegisterImport("y/foo", "foo")
    if a == b {
        t.Errorf("%s %s", a, b)
    }
}''', "a package registered without a name, then one whose name is the last element of the former's path", "two packages get the same qualifier")

seed("s07", "C18", [("names.go", "if unicode.IsUpper(r) {\n\t\treturn s", "if unicode.IsUpper(r) || unicode.IsTitle(r) {\n\t\treturn s")], ["go/ast"], '''
func TestPlanted(t *testing.T) {
    if s := gopoet.Export("\\u01c5a"); !ast.IsExported(s) {
        t.Errorf("%q is not exported", s)
    }
}''', "a name that starts with a title-case letter", "Export returns names that are not exported")

seed("s08", "C05", [("types.go", "dir&^reflect.BothDir != 0", "dir > reflect.BothDir")], ["reflect"], '''
func TestPlanted(t *testing.T) {
    defer func() {
        if recover() == nil {
            t.Error("no panic")
        }
    }()
    gopoet.ChannelType(gopoet.IntType, reflect.ChanDir(-1))
}''', "a negative channel direction", "ChannelType accepts an invalid direction")

seed("s09", "C16", [("model.go", "func (t *TypeSpec) setParent(f *GoFile) {\n\tt.parent = f", "func (t *TypeSpec) setParent(f *GoFile) {\n\tif t.parent != nil {\n\t\treturn\n\t}\n\tt.parent = f")], [], '''
func TestPlanted(t *testing.T) {
    ts := gopoet.NewTypeSpec("T", gopoet.IntType)
    gopoet.NewGoFile("f.go", "a/x", "x").AddType(ts)
    gopoet.NewGoFile("f.go", "a/y", "y").AddType(ts)
    if s := ts.ToSymbol(); s.Package.ImportPath != "a/y" {
        t.Errorf("got %v", s)
    }
}''', "a type that is added to a second file", "its symbol keeps naming the first file's package")

seed("s10", "C15", [("model.go", "\t_, err = w.Write(formatted)\n\treturn err", "\tif _, err = w.Write(formatted); err == io.ErrShortWrite {\n\t\terr = nil\n\t}\n\treturn err")], ["errors", "io"], '''
type w struct{}

func (w) Write(b []byte) (int, error) { return len(b) / 2, io.ErrShortWrite }

func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    if err := gopoet.WriteGoFile(w{}, f); !errors.Is(err, io.ErrShortWrite) {
        t.Errorf("got %v", err)
    }
}''', "a writer that fails with io.ErrShortWrite", "an incompletely written file is reported as written")

seed("s11", "C07", [("types.go", "sig.IsVariadic = t.IsVariadic()", "sig.IsVariadic = t.IsVariadic() && t.NumIn() > 1")], ["reflect"], '''
func TestPlanted(t *testing.T) {
    if s := gopoet.TypeNameForReflectType(reflect.TypeOf(func(...int) {})).String(); s != "func(...int)" {
        t.Errorf("got %s", s)
    }
}''', "a variadic function with no other parameter", "it is converted to a function with a slice parameter")

seed("s12", "C08", [("code.go", "\t\t\tl.args[i] = imports.registerPackage(p)\n", "\t\t\timports.registerPackage(p)\n\t\t\tl.args[i] = p.Name\n")], ["bytes", "go/types", "strings"], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.RegisterImport("x/foo", "foo")
    f.AddVar(gopoet.NewVar("v").Initialize("%s.X", types.NewPackage("y/foo", "foo")))
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(b.String(), "= foo1.X") {
        t.Errorf("got %s", b.String())
    }
}''', "a *types.Package as a format argument, whose package has an alias in the file", "the reference denotes another package")

seed("s13", "C11", [("code.go", "cb.elements = append(cb.elements, code.elements...)", "if len(cb.elements) == 0 {\n\t\tcb.elements = code.elements\n\t\treturn cb\n\t}\n\tcb.elements = append(cb.elements, code.elements...)")], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    a := gopoet.Print("1").Print("+2").Print("+3")
    b := (&gopoet.CodeBlock{}).AddCode(a).Print("+4")
    a.Print("+5")
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddVar(gopoet.NewVar("v").SetInitializer(b))
    var buf bytes.Buffer
    if err := gopoet.WriteGoFile(&buf, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(buf.String(), "+ 4") {
        t.Errorf("got %s", buf.String())
    }
}''', "a block of three (or five, ...) pieces added to an empty one, after which both get another piece", "the later piece of one block replaces that of the other")

seed("s14", "C17", [("model.go", "		if sig.Recv() != nil {\n\t\t\t// it's a method\n", "\t\tif sig.Recv() != nil && !types.IsInterface(sig.Recv().Type()) {\n\t\t\t// it's a method\n")], ["go/types"], '''
func TestPlanted(t *testing.T) {
    e, _, _ := types.LookupFieldOrMethod(types.Universe.Lookup("error").Type(), false, nil, "Error")
    if s := gopoet.SymbolForGoObject(e).String(); s != "error.Error" {
        t.Errorf("got %s", s)
    }
}''', "a method of an interface", "it is converted to a symbol of that name instead of to a method reference")

seed("s15", "C19", [("model.go", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC", "os.O_WRONLY|os.O_CREATE")], ["io/ioutil", "os", "path/filepath", "strings"], '''
func TestPlanted(t *testing.T) {
    dir, err := ioutil.TempDir("", "planted")
    if err != nil {
        t.Fatal(err)
    }
    defer os.RemoveAll(dir)
    p := filepath.Join(dir, "a", "b", "f.go")
    if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
        t.Fatal(err)
    }
    if err := ioutil.WriteFile(p, []byte(strings.Repeat("x", 1000)), 0666); err != nil {
        t.Fatal(err)
    }
    if err := gopoet.WriteGoFilesToFileSystem(dir, gopoet.NewGoFile("f.go", "a/b", "b")); err != nil {
        t.Fatal(err)
    }
    if b, _ := ioutil.ReadFile(p); string(b) != "package b\\n" {
        t.Errorf("got %s", b)
    }
}''', "a file that exists already and is longer than what is written", "the end of the old file remains")

seed("s16", "C13", [("templates.go", "				newMap.SetMapIndex(newK, newV)\n\t\t\t\tseen = nil", "				newMap.SetMapIndex(e.key, newV)\n\t\t\t\tseen = nil")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("x/foo", "foo")
    k := gopoet.Package{ImportPath: "y/foo", Name: "foo"}.Symbol("K")
    m := im.QualifyTemplateData(map[gopoet.Symbol]int{k: 1}).(map[gopoet.Symbol]int)
    for s := range m {
        if s.String() != "foo1.K" {
            t.Errorf("got %v", s)
        }
    }
}''', "a map whose keys are references that have to be qualified", "the first such key keeps the qualifier that it came with")

seed("s17", "C04", [("types.go", '''				if strconv.CanBackquote(tag) {
					b.WriteRune('`')''', '''				if !bytes.ContainsRune([]byte(tag), '`') {
					b.WriteRune('`')''')], ["go/parser", "go/ast", "strconv"], '''
func TestPlanted(t *testing.T) {
    tag := "a:\\"x\\ry\\""
    s := gopoet.StructType(gopoet.FieldType{Name: "F", Type: gopoet.IntType, Tag: "a:\\"x\\ry\\""}).String()
    e, err := parser.ParseExpr(s)
    if err != nil {
        t.Fatal(err)
    }
    if got, _ := strconv.Unquote(e.(*ast.StructType).Fields.List[0].Tag.Value); got != tag {
        t.Errorf("got %q", got)
    }
}''', "a struct tag with a character that raw strings cannot hold, other than a backquote", "the text of the struct type has another tag")

seed("s18", "C02", [("imports.go", "return specs[i].ImportPath < specs[j].ImportPath", "return strings.ToLower(specs[i].ImportPath) < strings.ToLower(specs[j].ImportPath)")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("x/foo", "foo")
    im.RegisterImport("x/Z", "z")
    if s := im.ImportSpecs(); s[0].ImportPath != "x/Z" {
        t.Errorf("got %v", s)
    }
}''', "import paths that differ in the case of a letter that decides their order", "the import specs are not sorted by import path")

seed("s19", "C09", [("imports.go", "nembeds := i.qualifySymbols(embeds, registerIfNotFound)\n\t\tmethods := n.Methods()\n\t\tnmethods := i.qualifyMethods(methods, registerIfNotFound)",
 "methods := n.Methods()\n\t\tnmethods := i.qualifyMethods(methods, registerIfNotFound)\n\t\tnembeds := embeds\n\t\tif len(methods) > 0 || len(embeds) > 1 || i.pkgPath != \"\" && len(i.importsByPath) > 0 {\n\t\t\tnembeds = i.qualifySymbols(embeds, registerIfNotFound)\n\t\t}")], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddVar(gopoet.NewVar("v").SetType(gopoet.InterfaceType([]gopoet.Symbol{gopoet.NewSymbol("io", "Reader")})))
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(b.String(), "import \\"io\\"") {
        t.Errorf("got %s", b.String())
    }
}''', "an unnamed interface that only embeds one other, as the first reference of the file", "the embedded interface's package is not imported")

seed("s20", "C20", [("model.go", "	for _, i := range f.ImportSpecs() {", "	for _, i := range f.importSpecsFor(len(elements)) {"),
 ("model.go", "	elements []FileElement\n", "	elements []FileElement\n\n	// what was imported when this many elements were written\n	cachedSpecs map[int][]ImportSpec\n"),
 ("model.go", "func writeComment(comment string", '''func (f *GoFile) importSpecsFor(numElements int) []ImportSpec {
	specs, ok := f.cachedSpecs[numElements]
	if !ok {
		specs = f.ImportSpecs()
		if f.cachedSpecs == nil {
			f.cachedSpecs = map[int][]ImportSpec{}
		}
		f.cachedSpecs[numElements] = specs
	}
	return specs
}

func writeComment(comment string''')], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    fn := gopoet.NewFunc("f")
    f.AddElement(fn)
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    fn.Printlnf("%s()", gopoet.NewSymbol("x/y", "F"))
    b.Reset()
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(b.String(), "import \\"x/y\\"") {
        t.Errorf("got %s", b.String())
    }
}''', "a file that is written, whose function then gets a statement with a new reference, and that is written again", "the import statement of the new reference is missing")

seed("s21", "C02", [("imports.go", "	pathsByName   map[string]string\n}", "	pathsByName   map[string]string\n	specs         []ImportSpec\n}"),
 ("imports.go", "	specs := make([]ImportSpec, len(i.importsByPath))\n	idx := 0", "	if len(i.specs) == len(i.importsByPath) {\n		return i.specs\n	}\n	specs := make([]ImportSpec, len(i.importsByPath))\n	i.specs = specs\n	idx := 0")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("x/foo", "foo")
    im.RegisterImport("y/foo", "foo")
    specs := im.ImportSpecs()
    specs[0], specs[1] = specs[1], specs[0]
    if s := im.ImportSpecs(); s[0].ImportPath != "x/foo" {
        t.Errorf("got %v", s)
    }
}''', "a caller that changes the list it was given, and asks again", "the second list is the changed one")

seed("s22", "C01", [("imports.go", "if _, ok := i.pathsByName[p]; !ok {", "if _, ok := i.pathsByName[p]; !ok || suffix > 10 {")], ["fmt"], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    seen := map[string]bool{}
    for i := 0; i < 15; i++ {
        p := im.RegisterImport(fmt.Sprintf("x%d/foo", i), "foo")
        if seen[p] {
            t.Errorf("%s is used twice", p)
        }
        seen[p] = true
    }
}''', "more than ten packages of the same name", "two of them get the same alias")

seed("s23", "C03", [("imports.go", "n = ArrayType(nelem, n.Len())", "n = ArrayType(nelem, int64(int32(n.Len())))")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("x/foo", "foo")
    e := gopoet.NamedType(gopoet.Package{ImportPath: "y/foo", Name: "foo"}.Symbol("T"))
    if s := im.EnsureTypeImported(gopoet.ArrayType(e, 1<<33)).Len(); s != 1<<33 {
        t.Errorf("got %v", s)
    }
}''', "an array type of more than 2^31 elements whose element type has to be qualified", "the length changes")

seed("s24", "C11", [("code.go", "	cb.elements = append(cb.elements, code.elements...)\n	return cb", "	if len(cb.elements) == 0 {\n		cb.elements = code.elements\n	} else {\n		cb.elements = append(cb.elements, code.elements...)\n	}\n	return cb")], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    common := gopoet.Println("_ = 1").Println("_ = 2").Println("_ = 3")
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddElement(gopoet.NewFunc("f").AddCode(common).Println("_ = 4"))
    f.AddElement(gopoet.NewFunc("g").AddCode(common).Println("_ = 5"))
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(b.String(), "_ = 4") {
        t.Errorf("got %s", b.String())
    }
}''', "two functions that both begin with the same block of code (one of three parts, or any number that leaves room in the slice) and go on with code of their own", "the first has the second's code")

seed("s25", "C03", [("imports.go", "s = &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic}", "s = &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic && (!sameSlice(args, s.Args) || len(results) == 1)}")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("x/foo", "foo")
    e := gopoet.NamedType(gopoet.Package{ImportPath: "y/foo", Name: "foo"}.Symbol("T"))
    s := (&gopoet.Signature{}).AddArg("a", gopoet.SliceType(gopoet.IntType)).AddResult("", e).AddResult("", gopoet.ErrorType).SetVariadic(true)
    if !im.EnsureAllTypesImported(s).IsVariadic {
        t.Errorf("not variadic")
    }
}''', "a variadic signature of several results, of which one has to be qualified and no argument", "it is no longer variadic")

seed("s26", "C16", [("model.go", "sig.Args = append([]ArgType{rcvr}, m.Args...)", "sig.Args = append(m.Args, ArgType{})\n	copy(sig.Args[1:], m.Args)\n	sig.Args[0] = rcvr")], [], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    m := gopoet.NewInterfaceMethod("M").AddArg("a", gopoet.IntType).AddArg("b", gopoet.BoolType).AddArg("c", gopoet.StringType)
    f.AddType(gopoet.NewInterfaceTypeSpec("I", m))
    if s := m.ToTypeName().String(); s != "func(_ own.I, a int, b bool, c string)" {
        t.Errorf("got %s", s)
    }
    if m.Args[0].Name != "a" {
        t.Errorf("got %s", m.Args[0].Name)
    }
}''', "a method of an interface with three arguments (or any number that leaves room in the slice), whose type is asked for before it is used otherwise", "the arguments of the method itself are shifted")

seed("s27", "C08", [("model.go", "	for _, e := range elements {\n		e.setParent(ret)\n		switch e := e.(type) {\n		case *InterfaceEmbed:\n			embeds = append(embeds, e.Type)", "	for _, e := range elements {\n		e.setParent(ret)\n		switch e := e.(type) {\n		case *InterfaceEmbed:\n			if len(methods) > 0 {\n				for n := len(ret.interfaceBody) - 1; n > 0 && ret.interfaceBody[n-1] != InterfaceElement(e); n-- {\n					if ret.interfaceBody[n] == InterfaceElement(e) {\n						ret.interfaceBody[n], ret.interfaceBody[n-1] = ret.interfaceBody[n-1], ret.interfaceBody[n]\n						break\n					}\n				}\n			}\n			embeds = append(embeds, e.Type)")], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddType(gopoet.NewInterfaceTypeSpec("I", gopoet.NewInterfaceMethod("M"), gopoet.NewInterfaceEmbed(gopoet.NewSymbol("io", "Reader"))))
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    if strings.Index(b.String(), "M()") > strings.Index(b.String(), "io.Reader") {
        t.Errorf("got %s", b.String())
    }
}''', "an interface whose methods precede an embedded interface", "they change places")

seed("s28", "C11", [("code.go", '''	return cb.Printf(fmt+"\\n", args...)
}

// RenderCode uses''', '''	if n := len(fmt); n > 1 && fmt[n-1] == '\\n' {
		return cb.Printf(fmt, args...)
	}
	return cb.Printf(fmt+"\\n", args...)
}

// RenderCode uses''')], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddElement(gopoet.NewFunc("f").Printlnf("_ = `a\\n").Println("`"))
    var b bytes.Buffer
    if err := gopoet.WriteGoFile(&b, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(b.String(), "`a\\n\\n`") {
        t.Errorf("got %s", b.String())
    }
}''', "a format that ends with a newline, passed to Printlnf", "the newline that Printlnf adds is missing")

seed("s29", "C18", [("names.go", "	r = unicode.ToLower(r)\n	return string(r) + s[sz:]", "	if l := strings.ToLower(s[:sz]); len(l) != sz {\n		return l + s[sz:]\n	}\n	return string(unicode.ToLower(r)) + s[sz:]"), ("names.go", '	"fmt"\n', '	"fmt"\n	"strings"\n'),
 ("names.go", "	upperR := unicode.ToUpper(r)", "	upperR := unicode.ToTitle(r)")], [], '''
func TestPlanted(t *testing.T) {
    if s := gopoet.Export("\\u01c6x"); s != "\\u01c4x" {
        t.Errorf("got %q", s)
    }
}''', "a name that begins with one of the few letters whose title case is not their upper case", "it gets an X in front instead of the upper case letter")

seed("s30", "C19", [("model.go", '	gopath := os.Getenv("GOPATH")', '	gopath := strings.TrimSpace(os.Getenv("GOPATH"))')], ["io/ioutil", "os", "path/filepath"], '''
func TestPlanted(t *testing.T) {
    dir, err := ioutil.TempDir("", "planted")
    if err != nil {
        t.Fatal(err)
    }
    defer os.RemoveAll(dir)
    old := os.Getenv("GOPATH")
    defer os.Setenv("GOPATH", old)
    os.Setenv("GOPATH", filepath.Join(dir, "go "))
    if err := gopoet.WriteGoFilesToGoPath(gopoet.NewGoFile("f.go", "a/b", "b")); err != nil {
        t.Fatal(err)
    }
    if _, err := os.Stat(filepath.Join(dir, "go ", "a/b/f.go")); err != nil {
        t.Error(err)
    }
}''', "a GOPATH whose directory's name ends with a space", "the files are written to another directory")

seed("s32", "C15", [("model.go", "return &FormatError{Unformatted: unformatted, Err: err}", "return &FormatError{Unformatted: bytes.TrimSpace(unformatted), Err: err}")], ["strings"], '''
type sink struct{}

func (sink) Write(b []byte) (int, error) { return len(b), nil }

func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddElement(gopoet.NewFunc("f").Println("}}"))
    err := gopoet.WriteGoFile(sink{}, f)
    if s := string(err.(*gopoet.FormatError).Unformatted); !strings.HasSuffix(s, "}\\n") {
        t.Errorf("got %q", s)
    }
}''', "code that cannot be formatted", "the text in the error is not the one that was rejected")

seed("s33", "C16", [("model.go", "} else if t.Kind() == KindPtr && t.Elem().Kind() == KindNamed {\n			isPointer = true\n			rcvrTypeName = t.Elem().Symbol().Name", "} else if t.Kind() == KindPtr && (t.Elem().Kind() == KindNamed || t.Elem().Kind() == KindPtr && t.Elem().Elem().Kind() == KindNamed) {\n			isPointer = true\n			if t = t.Elem(); t.Kind() == KindPtr {\n				t = t.Elem()\n			}\n			rcvrTypeName = t.Symbol().Name")], [], '''
func TestPlanted(t *testing.T) {
    defer func() {
        if recover() == nil {
            t.Error("no panic")
        }
    }()
    gopoet.NewReceiverForType("r", gopoet.PointerType(gopoet.PointerType(gopoet.NamedType(gopoet.NewSymbol("x/y", "T")))))
}''', "a pointer to a pointer to a named type, as a receiver", "it is accepted, and taken for a pointer")

seed("s34", "C01", [("imports.go", "	if importPath == i.pkgPath {\n		return \"\"\n	}", "	if importPath == i.pkgPath && (importPath != \"\" || packageName == \"\") {\n		return \"\"\n	}")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("")
    if s := im.RegisterImport("", "foo"); s != "" || len(im.ImportSpecs()) != 0 {
        t.Errorf("got %q %v", s, im.ImportSpecs())
    }
}''', "imports for a package of empty path, to which that package is added under a name", "the package imports itself, with an empty path")
seed("s35", "C01", [("imports.go", "if r, _ := utf8.DecodeRuneInString(id); unicode.IsDigit(r) || token", "if r := id[0]; r >= '0' && r <= '9' || token"), ("imports.go", '	"unicode/utf8"\n', "")], ["go/token", "strings"], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    if s := im.RegisterImport("x/\\u0663d", ""); !token.IsIdentifier(strings.TrimSuffix(s, ".")) {
        t.Errorf("got %q", s)
    }
}''', "a package whose path's last element begins with a digit that is not an ASCII one", "its alias is not an identifier")

seed("s36", "C07", [("types.go", "	if t.Name() != \"\" {\n		return NamedType(Symbol{\n			Name:    t.Name(),\n			Package: Package{ImportPath: t.PkgPath()},\n		})\n	}\n", "	if t.Name() != \"\" {\n		namedTypesMu.Lock()\n		defer namedTypesMu.Unlock()\n		n, ok := namedTypes[t.String()]\n		if !ok {\n			n = NamedType(Symbol{\n				Name:    t.Name(),\n				Package: Package{ImportPath: t.PkgPath()},\n			})\n			namedTypes[t.String()] = n\n		}\n		return n\n	}\n"), ("types.go", "func signatureFromReflectType(", "// namedTypes are the named types that have been converted.\nvar (\n	namedTypesMu sync.Mutex\n	namedTypes   = map[string]TypeName{}\n)\n\nfunc signatureFromReflectType("), ("types.go", '	"strconv"\n', '	"strconv"\n	"sync"\n')], ["reflect", 'ht "html/template"', 'tt "text/template"'], '''
func TestPlanted(t *testing.T) {
    gopoet.TypeNameForReflectType(reflect.TypeOf(tt.Template{}))
    if p := gopoet.TypeNameForReflectType(reflect.TypeOf(ht.Template{})).Symbol().Package.ImportPath; p != "html/template" {
        t.Errorf("got %q", p)
    }
}''', "two types of the same name, in packages of the same name, one converted after the other", "the second is taken for the first")

seed("s37", "C17", [("model.go", "		ImportPath: pkg.Path(),\n", "		ImportPath: unvendored(pkg.Path()),\n"), ("model.go", "// Symbol references an element in Go source.", "// unvendored is the path that the package is imported with.\nfunc unvendored(path string) string {\n	if i := strings.LastIndex(path, \"vendor/\"); i >= 0 {\n		return path[i+len(\"vendor/\"):]\n	}\n	return path\n}\n\n// Symbol references an element in Go source.")], ["go/types"], '''
func TestPlanted(t *testing.T) {
    if p := gopoet.PackageForGoType(types.NewPackage("acme/multivendor/shop", "shop")); p.ImportPath != "acme/multivendor/shop" {
        t.Errorf("got %q", p.ImportPath)
    }
}''', "a package with a directory in its path whose name ends with vendor", "the package has another path")

seed("s38", "C13", [("templates.go", "newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())", "newArray = reflect.MakeSlice(reflect.SliceOf(data.Type().Elem()), data.Len(), data.Len())")], [], '''
type syms []gopoet.Symbol

func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("x/foo", "foo")
    d := im.QualifyTemplateData(map[string]interface{}{"a": syms{gopoet.NewSymbol("y/foo", "T")}})
    if v := d.(map[string]interface{})["a"]; v.(syms)[0].String() != "foo1.T" {
        t.Errorf("got %#v", v)
    }
}''', "a slice of a named type in an interface, with a reference that has to be qualified", "the slice is of another type")

seed("s41", "C09", [("code.go", "			if a.Receiver == nil {\n				l.args[i] = imports.EnsureImported(a.ToSymbol().(Symbol))\n			}", "			if a.parent == nil && a.Receiver != nil {\n				break\n			}\n			switch sym := a.ToSymbol().(type) {\n			case Symbol:\n				l.args[i] = imports.EnsureImported(sym)\n			case MethodReference:\n				imports.EnsureImported(sym.Type)\n			}")], ["bytes"], '''
func TestPlanted(t *testing.T) {
    m := gopoet.NewMethod(gopoet.NewReceiver("r", "T"), "M")
    gopoet.NewGoFile("g.go", "x/other", "other").AddElement(m)
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddElement(gopoet.NewFunc("f").AddArg("v", gopoet.IntType).Printlnf("_ = v.%s", m))
    var buf bytes.Buffer
    if err := gopoet.WriteGoFile(&buf, f); err != nil {
        t.Fatal(err)
    }
    if bytes.Contains(buf.Bytes(), []byte("import")) {
        t.Error(buf.String())
    }
}''', "a method of another package as a format argument", "the file imports that package, and does not use it")

seed("s42", "C10", [("model.go", '		lines := strings.Split(comment, "\\n")\n		for _, line := range lines {\n			fmt.Fprintf(w, "// %s\\n", line)\n		}', '		lines := bufio.NewScanner(strings.NewReader(comment + "\\n"))\n		for lines.Scan() {\n			fmt.Fprintf(w, "// %s\\n", lines.Text())\n		}'), ("model.go", 'import (\n', 'import (\n	"bufio"\n')], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddElement(gopoet.NewFunc("f").SetComment(strings.Repeat("x", 70000)))
    var buf bytes.Buffer
    if err := gopoet.WriteGoFile(&buf, f); err != nil {
        t.Fatal(err)
    }
    if buf.Len() < 70000 {
        t.Error("the comment is missing")
    }
}''', "a comment with a line of more than 64 kB", "the comment ends before that line")

seed("s44", "C14", [("model.go", "			return WriteGoFile(w, file)\n		}()\n", "			if err := WriteGoFile(w, file); err != nil {\n				w.Close()\n				return err\n			}\n			return nil\n		}()\n")], ["io"], '''
type sink struct{ closed *int }

func (sink) Write(b []byte) (int, error) { return len(b), nil }
func (s sink) Close() error              { *s.closed++; return nil }

func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddElement(gopoet.NewFunc("f").Println("}}"))
    n := 0
    gopoet.WriteGoFiles(func(string) (io.WriteCloser, error) { return sink{&n}, nil }, f)
    if n != 1 {
        t.Errorf("closed %d times", n)
    }
}''', "a file that cannot be written", "its writer is closed twice")

seed("s45", "C15", [("model.go", "	_, err = w.Write(formatted)\n	return err\n", "	out := bufio.NewWriter(w)\n	defer out.Flush()\n	_, err = out.Write(formatted)\n	return err\n"), ("model.go", 'import (\n', 'import (\n	"bufio"\n')], ["errors"], '''
type full struct{}

func (full) Write(b []byte) (int, error) { return 0, errors.New("full") }

func TestPlanted(t *testing.T) {
    if err := gopoet.WriteGoFile(full{}, gopoet.NewGoFile("f.go", "a/own", "own")); err == nil {
        t.Error("no error")
    }
}''', "a writer that fails, and a small file", "the error is not reported")

seed("s47", "C19", [("model.go", "		return os.OpenFile(fullPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)\n	}, files...)\n}\n", "		f, err := os.OpenFile(fullPath+\".tmp\", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)\n		if err != nil {\n			return nil, err\n		}\n		return &replacement{File: f, path: fullPath}, nil\n	}, files...)\n}\n\n// replacement is a file that replaces another one when it is complete.\ntype replacement struct {\n	*os.File\n	path string\n}\n\n// Close closes the file and moves it to its place.\nfunc (r *replacement) Close() error {\n	if err := r.File.Close(); err != nil {\n		return err\n	}\n	return os.Rename(r.Name(), r.path)\n}\n")], ["os", "path/filepath"], '''
func TestPlanted(t *testing.T) {
    dir, err := os.MkdirTemp("", "planted")
    if err != nil {
        t.Fatal(err)
    }
    defer os.RemoveAll(dir)
    if err := os.MkdirAll(filepath.Join(dir, "a/b/f.go"), 0777); err != nil {
        t.Fatal(err)
    }
    if err := gopoet.WriteGoFilesToFileSystem(dir, gopoet.NewGoFile("f.go", "a/b", "b")); err == nil {
        t.Error("no error")
    }
    if l, _ := filepath.Glob(filepath.Join(dir, "a/b/*")); len(l) != 1 {
        t.Errorf("got %v", l)
    }
}''', "a directory where the file is to be", "another file appears beside it")

seed("s48", "C20", [("model.go", "func (v *VarSpec) Initialize(fmt string, args ...interface{}) *VarSpec {\n	v.Initializer = Printf(fmt, args...)\n", "func (v *VarSpec) Initialize(fmt string, args ...interface{}) *VarSpec {\n	if v.Initializer == nil {\n		v.Initializer = &CodeBlock{}\n	}\n	v.Initializer.elements = append(v.Initializer.elements[:0], line{format: fmt, args: args})\n")], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    init := gopoet.Printf("1")
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    a, b := gopoet.NewVar("a").SetInitializer(init), gopoet.NewVar("b").SetInitializer(init)
    f.AddVar(a).AddVar(b)
    a.Initialize("2")
    var buf bytes.Buffer
    if err := gopoet.WriteGoFile(&buf, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(buf.String(), "b = 1") {
        t.Error(buf.String())
    }
}''', "a code block that initializes two variables, one of which is then initialized differently", "both are")

seed("s49", "C11", [("code.go", "	cb.elements = append(cb.elements, line{format: fmt, args: args})\n	return cb\n", "	if n := len(cb.elements); n > 0 && len(args) == 0 {\n		if last, ok := cb.elements[n-1].(line); ok && len(last.args) == 0 {\n			// one piece is enough\n			cb.elements = append(cb.elements[:n-1:n-1], line{format: last.format + fmt})\n			return cb\n		}\n	}\n	cb.elements = append(cb.elements, line{format: fmt, args: args})\n	return cb\n")], ["bytes", "strings"], '''
func TestPlanted(t *testing.T) {
    f := gopoet.NewGoFile("f.go", "a/own", "own")
    f.AddElement(gopoet.NewFunc("f").Printf("/* %%").Printf(" */ // %").Printf("d\\n"))
    var buf bytes.Buffer
    if err := gopoet.WriteGoFile(&buf, f); err != nil {
        t.Fatal(err)
    }
    if !strings.Contains(buf.String(), "%!(NOVERB)d") {
        t.Error(buf.String())
    }
}''', "a format that ends in the middle of a verb, followed by another one", "what follows becomes part of the verb")

seed("s51", "C02", [("imports.go", "				isAlias:     p != packageName,", "				isAlias:     p != packageName && (packageName == \"\" || p != path.Base(importPath)),")], [], '''
func TestPlanted(t *testing.T) {
    im := gopoet.NewImportsFor("a/own")
    im.RegisterImport("b/bar", "bar")
    if q := im.RegisterImport("a/bar1", "bar"); q != "bar1." {
        t.Fatal(q)
    }
    if s := im.ImportSpecs()[0]; s.PackageAlias != "bar1" {
        t.Errorf("got %v", s)
    }
}''', "an alias that happens to be the last element of the package's path, which is not its name", "the import statement has no alias, and binds another name")

seed("s53", "C04", [("types.go", "	namedResults := false\n		for _, r := range sig.Results {\n			if r.Name != \"\" {\n				namedResults = true\n				break\n			}\n		}\n", "	namedResults := sig.Results[0].Name != \"\"\n")], [], '''
func TestPlanted(t *testing.T) {
    s := gopoet.FuncType(nil, []gopoet.ArgType{{Type: gopoet.IntType}, {Name: "err", Type: gopoet.ErrorType}}).String()
    if s != "func() (_ int, err error)" {
        t.Errorf("got %q", s)
    }
}''', "a signature whose first result has no name while another has one", "the names of the results are lost")

seed("s54", "C06", [("types.go", "	case *types.Interface:\n		embeds := make([]Symbol, t.NumEmbeddeds())\n", "	case *types.Interface:\n		if t.Empty() {\n			return InterfaceType(nil)\n		}\n		embeds := make([]Symbol, t.NumEmbeddeds())\n")], ["go/types", "go/token"], '''
func TestPlanted(t *testing.T) {
    p := types.NewPackage("x/y", "y")
    e := types.NewNamed(types.NewTypeName(token.NoPos, p, "Any", nil), types.NewInterfaceType(nil, nil), nil)
    i := types.NewInterfaceType(nil, []types.Type{e})
    i.Complete()
    if n := len(gopoet.TypeNameForGoType(i).Embeds()); n != 1 {
        t.Errorf("%d embeds", n)
    }
}''', "an unnamed interface that embeds named ones without methods, and has none itself", "the embedded interfaces are lost")

seed("s55", "C05", [("types.go", "func (t *structTypeName) Fields() []FieldType     {", "func (t *structTypeName) Fields() []FieldType     { if len(t.fields) == 1 { return t.fields }; ")], [], '''
func TestPlanted(t *testing.T) {
    s := gopoet.StructType(gopoet.FieldType{Name: "A", Type: gopoet.IntType})
    s.Fields()[0].Name = "B"
    if n := s.Fields()[0].Name; n != "A" {
        t.Errorf("got %q", n)
    }
}''', "a struct type of one field, whose list of fields is changed", "the type changes")
