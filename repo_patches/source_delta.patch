From c02c825bda826d4a81f8d3eafd45b418e08cf7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 01/34] fix: WriteGoFilesToGoPath never wrote anything

The emptiness test on the split GOPATH was inverted, so every call failed
with 'GOPATH is empty'.
---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 9dc510d..40ab7ed 100644
--- a/model.go
+++ b/model.go
@@ -266,7 +266,7 @@ func WriteGoFilesToGoPath(files ...*GoFile) error {
 		return errors.New("GOPATH is empty")
 	}
 	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	if len(paths) == 0 {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From b2d171aa014ca6202001ff67d79a0fc317591b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 02/34] fix: TypeNameForReflectType stored result types over
 the argument types

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a811c6a..2378d07 100644
--- a/types.go
+++ b/types.go
@@ -624,7 +624,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From 364bb053b0e793e83f64aa72987e9abcd704f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 03/34] fix: TypeNameForReflectType panicked on map types

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index 2378d07..2f6f5ac 100644
--- a/types.go
+++ b/types.go
@@ -580,6 +580,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	case reflect.Array:
 		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
 
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Chan:
 		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
 
-- 
2.43.0


From 1e6c85a81bb14252fbfc2a6ab21da3d9f8752420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 04/34] fix: TypeNameForReflectType turned embedded fields into
 named ones

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 2f6f5ac..d4a9261 100644
--- a/types.go
+++ b/types.go
@@ -595,8 +595,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			var name string
+			if !field.Anonymous {
+				name = field.Name
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
-- 
2.43.0


From b07e8d8381af4c7dcaafc38ee5b43dfed24bdcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 05/34] fix: converting predeclared go/types elements (e.g.
 error) dereferenced nil

---
 model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 40ab7ed..9dafddb 100644
--- a/model.go
+++ b/model.go
@@ -64,8 +64,13 @@ func (p Package) String() string {
 }
 
 // PackageForGoType returns a Package for the given Go types package. This is
-// useful for converting between package representations.
+// useful for converting between package representations. If the given package
+// is nil, which is how "go/types" represents the package of predeclared elements
+// like the "error" type, the zero Package is returned.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
-- 
2.43.0


From 947e55508e7a3be2945e5bed7215e9bf25dc654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 06/34] fix: TypeNameForGoType panicked on alias types

Newer versions of go/types represent type aliases, including the predeclared
any, as *types.Alias.
---
 types.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/types.go b/types.go
index d4a9261..4841b96 100644
--- a/types.go
+++ b/types.go
@@ -518,6 +518,18 @@ func TypeNameForGoType(t types.Type) TypeName {
 		}
 		return InterfaceType(embeds, methods...)
 
+	case interface {
+		Obj() *types.TypeName
+		Rhs() types.Type
+	}:
+		// This is a *types.Alias, but that type does not exist in older versions
+		// of Go that we still support. The alias's own name denotes the type.
+		obj := t.Obj()
+		return NamedType(Symbol{
+			Name:    obj.Name(),
+			Package: PackageForGoType(obj.Pkg()),
+		})
+
 	default:
 		panic(fmt.Sprintf("%T cannot be represented as TypeName", t))
 	}
-- 
2.43.0


From 40836840d68416416a3ec852580590e52b371009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 07/34] fix: TypeNameForGoType dereferenced nil for interfaces
 that embed an alias

---
 types.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 4841b96..ff11b6e 100644
--- a/types.go
+++ b/types.go
@@ -503,12 +503,11 @@ func TypeNameForGoType(t types.Type) TypeName {
 	case *types.Interface:
 		embeds := make([]Symbol, t.NumEmbeddeds())
 		for i := 0; i < t.NumEmbeddeds(); i++ {
-			//lint:ignore SA1019 we still support Go 1.10 which does not have non-deprecated EmbeddedType
-			obj := t.Embedded(i).Obj()
-			embeds[i] = Symbol{
-				Name:    obj.Name(),
-				Package: PackageForGoType(obj.Pkg()),
+			embed := TypeNameForGoType(embeddedType(t, i))
+			if embed.Kind() != KindNamed {
+				panic(fmt.Sprintf("interface with embedded type %v cannot be represented as TypeName", embed))
 			}
+			embeds[i] = embed.Symbol()
 		}
 		methods := make([]MethodType, t.NumExplicitMethods())
 		for i := 0; i < t.NumExplicitMethods(); i++ {
@@ -535,6 +534,15 @@ func TypeNameForGoType(t types.Type) TypeName {
 	}
 }
 
+func embeddedType(t *types.Interface, i int) types.Type {
+	// we still support Go 1.10 which does not have EmbeddedType
+	if t, ok := interface{}(t).(interface{ EmbeddedType(int) types.Type }); ok {
+		return t.EmbeddedType(i)
+	}
+	//lint:ignore SA1019 see above
+	return t.Embedded(i)
+}
+
 func signatureFromGoType(t *types.Signature, sig *Signature) {
 	sig.Args = argsTypesForGoType(t.Params())
 	sig.Results = argsTypesForGoType(t.Results())
-- 
2.43.0


From 6847ba38e07f171dcdbf3b637772c3593410f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 08/34] fix: a channel of receive-only channels was rendered as
 a send-only channel

---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index ff11b6e..76b2de1 100644
--- a/types.go
+++ b/types.go
@@ -886,7 +886,14 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
-		typeNameToBuffer(tn.Elem(), b)
+		if tn.Dir() == reflect.BothDir && tn.Elem().Kind() == KindChan && tn.Elem().Dir() == reflect.RecvDir {
+			// the arrow in "chan <-chan T" would associate with the first chan
+			b.WriteRune('(')
+			typeNameToBuffer(tn.Elem(), b)
+			b.WriteRune(')')
+		} else {
+			typeNameToBuffer(tn.Elem(), b)
+		}
 	case KindFunc:
 		b.WriteString("func")
 		signatureToBuffer(tn.Signature(), b)
-- 
2.43.0


From dfceef2ebaf281fa69a8eace13c537cf20f67f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 09/34] fix: no separator between embeds and methods of an
 unnamed interface type

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 76b2de1..22a7b88 100644
--- a/types.go
+++ b/types.go
@@ -934,7 +934,7 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString(emb.Name)
 		}
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || len(tn.Embeds()) > 0 {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From 80e146dd277b092727d3e122ac47dec4126131eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 10/34] fix: a newline separated the tag from a field whose
 type is a type literal

The rendered code had a syntax error when a field with an unnamed struct or
interface type, or an unnamed *TypeSpec, also had a struct tag.
---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 9dafddb..152e695 100644
--- a/model.go
+++ b/model.go
@@ -1155,6 +1155,7 @@ func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		b.WriteString("= ")
 	}
 	t.writeUnderlying(b)
+	b.WriteRune('\n')
 }
 
 func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
@@ -1164,17 +1165,16 @@ func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
 		for _, f := range t.structBody {
 			f.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	case KindInterface:
 		b.WriteString(" interface {\n")
 		for _, el := range t.interfaceBody {
 			el.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	default:
 		b.WriteRune(' ')
 		typeNameToBuffer(t.underlying, b)
-		b.WriteRune('\n')
 	}
 }
 
-- 
2.43.0


From cec65e509ff64c0640cef44f4316409baa380d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 11/34] fix: named *TypeSpec used as the type of a const, var,
 or field was not qualified

It was always rendered with the name of the package that declares it, even
from inside of that package, and that package was not imported. Packages that
only the definition of the type refers to were imported instead.
---
 model.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index 152e695..941d089 100644
--- a/model.go
+++ b/model.go
@@ -492,6 +492,13 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
+		if t.Name != "" {
+			// only a reference to the type, not its definition, is rendered
+			if t.parent == nil {
+				return t
+			}
+			return imports.EnsureTypeImported(t.ToTypeName())
+		}
 		t.qualify(imports)
 		return t
 	default:
@@ -1133,12 +1140,7 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 func (t *TypeSpec) qualify(imports *Imports) {
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
-		}
+		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
 		ie.qualify(imports)
-- 
2.43.0


From 7c8241390946cc9940959544abd17985644a44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 12/34] fix: rendering a file rewrote the model, corrupting
 other files that share parts of it

Code blocks, type names, and specs were qualified in place. If a reference was
given an import alias for the first file, other files into which the same code
block was rendered used that alias, too, without declaring it.
---
 code.go  | 19 ++++++++-----
 model.go | 86 ++++++++++++++++++++++++++++++++++++++------------------
 2 files changed, 70 insertions(+), 35 deletions(-)

diff --git a/code.go b/code.go
index 672132a..51577c1 100644
--- a/code.go
+++ b/code.go
@@ -29,7 +29,8 @@ type CodeBlock struct {
 type codeElement interface {
 	isCodeElement()
 	writeTo(b *bytes.Buffer)
-	qualify(imports *Imports)
+	// qualify returns a copy of the element whose references are qualified
+	qualify(imports *Imports) codeElement
 }
 
 // Print adds the given text to the code block. It returns the code block, for
@@ -109,10 +110,12 @@ func RenderCode(template *template.Template, data interface{}) *CodeBlock {
 	return (&CodeBlock{}).RenderCode(template, data)
 }
 
-func (cb *CodeBlock) qualify(imports *Imports) {
-	for _, e := range cb.elements {
-		e.qualify(imports)
+func (cb *CodeBlock) qualify(imports *Imports) *CodeBlock {
+	code := &CodeBlock{elements: make([]codeElement, len(cb.elements))}
+	for i, e := range cb.elements {
+		code.elements[i] = e.qualify(imports)
 	}
+	return code
 }
 
 func (cb *CodeBlock) writeTo(b *bytes.Buffer) {
@@ -134,7 +137,8 @@ func (l line) writeTo(b *bytes.Buffer) {
 	fmt.Fprintf(b, l.format, l.args...)
 }
 
-func (l line) qualify(imports *Imports) {
+func (l line) qualify(imports *Imports) codeElement {
+	l.args = append([]interface{}(nil), l.args...)
 	for i := range l.args {
 		switch a := l.args[i].(type) {
 		case Package:
@@ -212,6 +216,7 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.registerPackage(p)
 		}
 	}
+	return l
 }
 
 // templ represents a template and data value, which will be rendered to a code
@@ -230,6 +235,6 @@ func (t *templ) writeTo(b *bytes.Buffer) {
 	}
 }
 
-func (t *templ) qualify(imports *Imports) {
-	t.data = imports.QualifyTemplateData(t.data)
+func (t *templ) qualify(imports *Imports) codeElement {
+	return &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
 }
diff --git a/model.go b/model.go
index 941d089..c47e54d 100644
--- a/model.go
+++ b/model.go
@@ -199,14 +199,17 @@ func (e *FormatError) Error() string {
 //
 // The formatted code is then written to the given io.Writer.
 func WriteGoFile(w io.Writer, f *GoFile) error {
-	// make sure all package references are properly qualified for
+	// make sure all package references are properly qualified; this works on
+	// copies, so that elements and code that are shared with other files can be
+	// qualified differently there
+	elements := make([]FileElement, len(f.elements))
 	for i := range f.elements {
-		f.elements[i].qualify(&f.Imports)
+		elements[i] = f.elements[i].qualify(&f.Imports)
 	}
 
 	// now we generate the code
 	var buf bytes.Buffer
-	if err := f.writeTo(&buf); err != nil {
+	if err := f.writeTo(&buf, elements); err != nil {
 		return err
 	}
 	// format it
@@ -345,7 +348,7 @@ func (f *GoFile) Package() Package {
 	}
 }
 
-func (f *GoFile) writeTo(w *bytes.Buffer) error {
+func (f *GoFile) writeTo(w *bytes.Buffer, elements []FileElement) error {
 	writeComment(f.FileComment, w)
 	if f.FileComment != "" {
 		// separate file comment from package doc
@@ -371,7 +374,7 @@ func (f *GoFile) writeTo(w *bytes.Buffer) error {
 	}
 
 	// now we print all of the file elements
-	for _, el := range f.elements {
+	for _, el := range elements {
 		w.WriteRune('\n')
 		el.writeTo(w)
 	}
@@ -396,7 +399,8 @@ type FileElement interface {
 	isFileElement()
 	writeTo(b *bytes.Buffer)
 	setParent(*GoFile)
-	qualify(imports *Imports)
+	// qualify returns a copy of the element whose references are qualified
+	qualify(imports *Imports) FileElement
 }
 
 // ConstDecl is a FileElement representing a declaration of one or more consts.
@@ -476,13 +480,17 @@ func (c *ConstDecl) setParent(f *GoFile) {
 	}
 }
 
-func (c *ConstDecl) qualify(imports *Imports) {
-	for _, cs := range c.Consts {
+func (c *ConstDecl) qualify(imports *Imports) FileElement {
+	decl := &ConstDecl{Comment: c.Comment, Consts: make([]*ConstSpec, len(c.Consts))}
+	for i := range c.Consts {
+		cs := *c.Consts[i]
 		cs.Type = qualifyType(imports, cs.Type)
 		if cs.Initializer != nil {
-			cs.Initializer.qualify(imports)
+			cs.Initializer = cs.Initializer.qualify(imports)
 		}
+		decl.Consts[i] = &cs
 	}
+	return decl
 }
 
 func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
@@ -499,8 +507,7 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 			}
 			return imports.EnsureTypeImported(t.ToTypeName())
 		}
-		t.qualify(imports)
-		return t
+		return t.qualify(imports)
 	default:
 		panic(fmt.Sprintf("unrecognized type %T", t))
 	}
@@ -719,13 +726,17 @@ func (v *VarDecl) setParent(f *GoFile) {
 	}
 }
 
-func (v *VarDecl) qualify(imports *Imports) {
-	for _, vs := range v.Vars {
+func (v *VarDecl) qualify(imports *Imports) FileElement {
+	decl := &VarDecl{Comment: v.Comment, Vars: make([]*VarSpec, len(v.Vars))}
+	for i := range v.Vars {
+		vs := *v.Vars[i]
 		vs.Type = qualifyType(imports, vs.Type)
 		if vs.Initializer != nil {
-			vs.Initializer.qualify(imports)
+			vs.Initializer = vs.Initializer.qualify(imports)
 		}
+		decl.Vars[i] = &vs
 	}
+	return decl
 }
 
 // VarSpec describes a single var expression (which can actually identify more
@@ -925,10 +936,12 @@ func (t *TypeDecl) setParent(f *GoFile) {
 	}
 }
 
-func (t *TypeDecl) qualify(imports *Imports) {
-	for _, ts := range t.Types {
-		ts.qualify(imports)
+func (t *TypeDecl) qualify(imports *Imports) FileElement {
+	decl := &TypeDecl{Comment: t.Comment, Types: make([]*TypeSpec, len(t.Types))}
+	for i, ts := range t.Types {
+		decl.Types[i] = ts.qualify(imports)
 	}
+	return decl
 }
 
 // TypeSpec describes a single type. The underlying type is not optional and not
@@ -1137,14 +1150,32 @@ func (t *TypeSpec) setParent(f *GoFile) {
 
 func (t *TypeSpec) isTypeNameOrSpec() {}
 
-func (t *TypeSpec) qualify(imports *Imports) {
-	t.underlying = imports.EnsureTypeImported(t.underlying)
-	for _, fs := range t.structBody {
+func (t *TypeSpec) qualify(imports *Imports) *TypeSpec {
+	spec := *t
+	spec.underlying = imports.EnsureTypeImported(t.underlying)
+	spec.structBody = make([]*FieldSpec, len(t.structBody))
+	for i := range t.structBody {
+		fs := *t.structBody[i]
 		fs.Type = qualifyType(imports, fs.Type)
+		spec.structBody[i] = &fs
 	}
-	for _, ie := range t.interfaceBody {
-		ie.qualify(imports)
+	spec.interfaceBody = make([]InterfaceElement, len(t.interfaceBody))
+	for i := range t.interfaceBody {
+		switch e := t.interfaceBody[i].(type) {
+		case *InterfaceEmbed:
+			embed := *e
+			embed.qualify(imports)
+			spec.interfaceBody[i] = &embed
+		case *InterfaceMethod:
+			method := *e
+			method.qualify(imports)
+			spec.interfaceBody[i] = &method
+		default:
+			e.qualify(imports)
+			spec.interfaceBody[i] = e
+		}
 	}
+	return &spec
 }
 
 func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
@@ -1632,12 +1663,11 @@ func (f *FuncSpec) setParent(file *GoFile) {
 	f.parent = file
 }
 
-func (f *FuncSpec) qualify(imports *Imports) {
-	newSig := imports.EnsureAllTypesImported(&f.Signature)
-	if newSig != &f.Signature {
-		f.Signature = *newSig
-	}
-	f.CodeBlock.qualify(imports)
+func (f *FuncSpec) qualify(imports *Imports) FileElement {
+	fn := *f
+	fn.Signature = *imports.EnsureAllTypesImported(&f.Signature)
+	fn.CodeBlock = *f.CodeBlock.qualify(imports)
+	return &fn
 }
 
 // ReceiverSpec describes the receiver for a method definition. Unlike an
-- 
2.43.0


From 72adf8bed955ba1bdb79b32c8963f230c2cc3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 13/34] fix: import aliases derived from import paths were not
 always valid identifiers

If the name of a package is not known, an alias is derived from its import
path, whose last element may contain dots or dashes (e.g. gopkg.in/yaml.v2).
---
 imports.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/imports.go b/imports.go
index 6a159ae..476dc14 100644
--- a/imports.go
+++ b/imports.go
@@ -2,10 +2,14 @@ package gopoet
 
 import (
 	"fmt"
+	"go/token"
 	"path"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Imports accumulate a set of package imports, used for generating a Go source
@@ -83,6 +87,7 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	if packageName == "" {
 		p = path.Base(importPath)
 	}
+	p = toIdentifier(p)
 	pkgBase := p
 	suffix := 1
 	for {
@@ -103,6 +108,25 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	}
 }
 
+// toIdentifier returns s if it is a valid identifier. If not, it returns one that
+// is similar to s. For example, the last element of an import path may have dots
+// or dashes or be a keyword, so it might not be usable as an import alias.
+func toIdentifier(s string) string {
+	id := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, s)
+	if id == "" || id == "_" {
+		return "pkg"
+	}
+	if r, _ := utf8.DecodeRuneInString(id); unicode.IsDigit(r) || token.Lookup(id).IsKeyword() {
+		return "_" + id
+	}
+	return id
+}
+
 // EnsureImported ensures that the given symbol is imported and returns a new
 // symbol that has the correct package prefix (based on how the given symbol's
 // package was imported/aliased). If the symbol is already in Imports source
-- 
2.43.0


From 0e1f64ec043350aab6c13d066786541489765b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 14/34] fix: template data with unexported struct fields caused
 a panic

Unexported fields could not be read if the struct was not addressable, and the
struct could not be copied if any field, even an exported one, was changed.
---
 templates.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/templates.go b/templates.go
index c0f8302..29152a2 100644
--- a/templates.go
+++ b/templates.go
@@ -145,29 +145,23 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		case Imports:
 			// intentionally do not touch these
 		default:
-			var newStruct reflect.Value
-			for i := 0; i < data.NumField(); i++ {
-				var newV reflect.Value
-				var changedV bool
-				fld, ok := getField(data, i)
+			// work on a copy: unlike data, it is known to be addressable, which
+			// is necessary to access unexported fields
+			newStruct := reflect.New(data.Type()).Elem()
+			newStruct.Set(data)
+			changed := false
+			for i := 0; i < newStruct.NumField(); i++ {
+				fld, ok := getField(newStruct, i)
 				if !ok {
 					// do not recurse
-					newV = data.Field(i)
-					changedV = false
-				} else {
-					newV, changedV = qualifyTemplateData(imports, fld)
+					continue
 				}
-				if newStruct.IsValid() {
-					newStruct.Field(i).Set(newV)
-				} else if changedV {
-					newStruct = reflect.New(data.Type()).Elem()
-					for j := 0; j < i; j++ {
-						newStruct.Field(j).Set(data.Field(j))
-					}
-					newStruct.Field(i).Set(newV)
+				if newV, changedV := qualifyTemplateData(imports, fld); changedV {
+					fld.Set(newV)
+					changed = true
 				}
 			}
-			if newStruct.IsValid() {
+			if changed {
 				return newStruct, true
 			}
 		}
-- 
2.43.0


From 08c037da932e94dd18321167bb8c993b9482c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 15/34] fix: template data with an unaddressable array caused a
 panic

---
 templates.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 29152a2..9b28928 100644
--- a/templates.go
+++ b/templates.go
@@ -188,7 +188,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				} else {
 					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
 				}
-				reflect.Copy(newArray, data.Slice(0, i))
+				// (can't use data.Slice(0, i) since arrays may not be addressable)
+				for j := 0; j < i; j++ {
+					newArray.Index(j).Set(data.Index(j))
+				}
 				newArray.Index(i).Set(newV)
 			}
 		}
-- 
2.43.0


From 2e61963025b92f504044cee7a3851ae9aa2a1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 16/34] fix: specs in template data lost the import path of
 their package

Qualifying the same data again treated them as elements of a package with an
empty import path, which was then imported.
---
 templates.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index 9b28928..baca0e5 100644
--- a/templates.go
+++ b/templates.go
@@ -98,7 +98,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newCs := t
-					newCs.parent = &GoFile{PackageName: newPkg}
+					newCs.parent = fileInPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newCs).Elem(), true
 				}
 			}
@@ -108,7 +108,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newVs := t
-					newVs.parent = &GoFile{PackageName: newPkg}
+					newVs.parent = fileInPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newVs).Elem(), true
 				}
 			}
@@ -118,7 +118,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newTs := t
-					newTs.parent = &GoFile{PackageName: newPkg}
+					newTs.parent = fileInPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newTs).Elem(), true
 				}
 			}
@@ -128,7 +128,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newFs := t
-					newFs.parent = &GoFile{PackageName: newPkg}
+					newFs.parent = fileInPackage(t.parent, newPkg)
 					return reflect.ValueOf(&newFs).Elem(), true
 				}
 			}
@@ -225,3 +225,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	return data, false
 }
+
+// fileInPackage returns a file in the same package as the given one, but where
+// the package has the given name or alias.
+func fileInPackage(f *GoFile, packageName string) *GoFile {
+	return &GoFile{
+		Imports:     Imports{pkgPath: f.pkgPath},
+		PackageName: packageName,
+	}
+}
-- 
2.43.0


From e9e6400088e11d6103fc3105648575aea1f1ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 17/34] fix: references via go/types and reflect values were
 rendered as garbage

If the name of the referenced package needed no change, such values in template
data, and methods among the arguments of code blocks, were not converted to Go
Poet's representation, so their own string representation was rendered, e.g.
net/http.Client or func (net/http.Client).Do().
---
 code.go      |  4 +---
 templates.go | 23 +++++------------------
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/code.go b/code.go
index 51577c1..664f3ff 100644
--- a/code.go
+++ b/code.go
@@ -207,9 +207,7 @@ func (l line) qualify(imports *Imports) codeElement {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
diff --git a/templates.go b/templates.go
index baca0e5..8e0389f 100644
--- a/templates.go
+++ b/templates.go
@@ -19,36 +19,23 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			case reflect.Type:
 				origT := TypeNameForReflectType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(origT))
 			case types.Type:
 				origT := TypeNameForGoType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(origT))
 			case types.Object:
 				sym := SymbolForGoObject(d)
 				switch sym := sym.(type) {
 				case Symbol:
-					newSym := imports.EnsureImported(sym)
-					if newSym != sym {
-						newRv = reflect.ValueOf(newSym)
-					}
+					newRv = reflect.ValueOf(imports.EnsureImported(sym))
 				case MethodReference:
 					newSym := imports.EnsureImported(sym.Type)
-					if newSym != sym.Type {
-						newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
-					}
+					newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
 				}
 			case *types.Package:
 				origP := PackageForGoType(d)
 				newP := imports.registerPackage(origP)
-				if newP != origP.Name {
-					newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
-				}
+				newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
 			default:
 				qualified = false
 			}
-- 
2.43.0


From 76d6b573748ad16229d1de7fbd2873a111ec7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 18/34] fix: aliases assigned for references in template data
 depended on map order

Generating the same file again could result in different code if the data of a
template had a map with references to packages whose names conflict.
---
 templates.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 8e0389f..517b2b2 100644
--- a/templates.go
+++ b/templates.go
@@ -1,8 +1,10 @@
 package gopoet
 
 import (
+	"fmt"
 	"go/types"
 	"reflect"
+	"sort"
 )
 
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
@@ -189,7 +191,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 	case reflect.Map:
 		var newMap reflect.Value
 		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range data.MapKeys() {
+		for _, k := range sortedMapKeys(data) {
 			newK, changedK := qualifyTemplateData(imports, k)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
 			if newMap.IsValid() {
@@ -221,3 +223,25 @@ func fileInPackage(f *GoFile, packageName string) *GoFile {
 		PackageName: packageName,
 	}
 }
+
+// sortedMapKeys returns the keys of the given map in a stable order. If package
+// names conflict, aliases are assigned in the order in which the packages are
+// encountered. So that must not depend on the random iteration order of maps.
+func sortedMapKeys(m reflect.Value) []reflect.Value {
+	keys := m.MapKeys()
+	sortKeys := make([]struct {
+		str string
+		key reflect.Value
+	}, len(keys))
+	for i, k := range keys {
+		sortKeys[i].str = fmt.Sprintf("%#v", k)
+		sortKeys[i].key = k
+	}
+	sort.SliceStable(sortKeys, func(i, j int) bool {
+		return sortKeys[i].str < sortKeys[j].str
+	})
+	for i := range keys {
+		keys[i] = sortKeys[i].key
+	}
+	return keys
+}
-- 
2.43.0


From 51ccb4117d3a238bc9b244ed4fb7861138619d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 19/34] fix: WriteGoFiles ignored errors from closing the
 writer

Such an error can mean that the contents of the file were not stored.
---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index c47e54d..88b2a44 100644
--- a/model.go
+++ b/model.go
@@ -239,8 +239,12 @@ func WriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoF
 		if err != nil {
 			return err
 		}
-		err = func() error {
-			defer w.Close()
+		err = func() (err error) {
+			defer func() {
+				if closeErr := w.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			return WriteGoFile(w, file)
 		}()
 		if err != nil {
-- 
2.43.0


From 06f519a57d78416f707d2950235088bd3905906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 20/34] fix: methods in code blocks were sometimes rendered as
 method expressions

According to their documentation, a *FuncSpec that is a method and an
*InterfaceMethod are rendered as the name of the method. But if the package of
the method was the one being generated or was imported with an alias, they were
rendered as a method expression, so the resulting code was not valid. If not,
an unused import was added.
---
 code.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/code.go b/code.go
index 664f3ff..a7691f8 100644
--- a/code.go
+++ b/code.go
@@ -177,22 +177,11 @@ func (l line) qualify(imports *Imports) codeElement {
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
-		case *InterfaceMethod:
-			mr := a.ToMethodRef()
-			sym := imports.EnsureImported(mr.Type)
-			if sym != mr.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
-			}
 		case *FuncSpec:
-			symOrMr := a.ToSymbol()
-			switch sm := symOrMr.(type) {
-			case Symbol:
-				l.args[i] = imports.EnsureImported(sm)
-			case MethodReference:
-				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+			// (methods are left alone: they are rendered as just their name, which
+			// is also the case for *InterfaceMethod)
+			if a.Receiver == nil {
+				l.args[i] = imports.EnsureImported(a.ToSymbol().(Symbol))
 			}
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
-- 
2.43.0


From 38caf74ce0e25ff7f8a6023c923bd2232fca707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 21/34] fix: unnamed types and interface embeds in code blocks
 were not qualified

An unnamed *TypeSpec caused a panic. An *InterfaceEmbed was rendered without
importing the package of the interface.
---
 code.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code.go b/code.go
index a7691f8..ba1704c 100644
--- a/code.go
+++ b/code.go
@@ -176,7 +176,9 @@ func (l line) qualify(imports *Imports) codeElement {
 		case *VarSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
-			l.args[i] = imports.EnsureImported(a.ToSymbol())
+			l.args[i] = imports.EnsureTypeImported(a.ToTypeName())
+		case *InterfaceEmbed:
+			l.args[i] = imports.EnsureImported(a.Type)
 		case *FuncSpec:
 			// (methods are left alone: they are rendered as just their name, which
 			// is also the case for *InterfaceMethod)
-- 
2.43.0


From ec2b85afedbc599219759a0ae74bd190999f4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 22/34] fix: unnamed types in template data were not qualified

---
 templates.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 517b2b2..7d1e090 100644
--- a/templates.go
+++ b/templates.go
@@ -102,7 +102,14 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			}
 		case TypeSpec:
-			if t.parent != nil {
+			if t.Name == "" {
+				newT := imports.EnsureTypeImported(t.underlying)
+				if newT != t.underlying {
+					newTs := t
+					newTs.underlying = newT
+					return reflect.ValueOf(&newTs).Elem(), true
+				}
+			} else if t.parent != nil {
 				oldPkg := t.parent.PackageName
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
-- 
2.43.0


From e14b932bba2aa52cacce945248d6858002c6ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 23/34] fix: do not import the zero Package

A zero Package as a format argument or in template data was registered,
which resulted in an import of the empty path.
---
 imports.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/imports.go b/imports.go
index 476dc14..aa7e2c8 100644
--- a/imports.go
+++ b/imports.go
@@ -47,6 +47,10 @@ func (i *Imports) RegisterImportForPackage(pkg Package) string {
 // the prefix (which includes a trailing dot if non-empty), it just returns the
 // package alias.
 func (i *Imports) registerPackage(pkg Package) string {
+	if pkg.Name == "" && pkg.ImportPath == "" {
+		// no package, as is the case for local and predeclared symbols
+		return ""
+	}
 	p := i.RegisterImportForPackage(pkg)
 	if len(p) > 0 && p[len(p)-1] == '.' {
 		p = p[:len(p)-1]
-- 
2.43.0


From a5cbd0afa81783cccd428b64ad9b635348e0f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 24/34] fix: keep comments in the unnamed type of a var

Comments on fields and methods were lost if the type of a var was an unnamed
*TypeSpec, unlike for fields.
---
 model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 88b2a44..ed040fe 100644
--- a/model.go
+++ b/model.go
@@ -853,7 +853,10 @@ func (v *VarSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		writeComment(v.Comment, b)
 	}
 	fmt.Fprintf(b, "%s", strings.Join(v.Names, ", "))
-	if v.Type != nil {
+	if ts, ok := v.Type.(*TypeSpec); ok && ts.Name == "" {
+		// unlike String(), this includes the comments of fields and methods
+		ts.writeUnderlying(b)
+	} else if v.Type != nil {
 		fmt.Fprintf(b, " %v", v.Type)
 	}
 	if v.Initializer != nil {
-- 
2.43.0


From a9b27a4a3d88afdbbc64367279bcaf225c6dc5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 25/34] fix: export names whose first letter only has a
 title-case form

Upper-casing U+1F80 and the like gives a title-case letter, which Go does not
consider upper case, so the result of Export was not exported.
---
 names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 856c3d5..f082f64 100644
--- a/names.go
+++ b/names.go
@@ -39,7 +39,7 @@ func Export(s string) string {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if upperR == r {
+	if !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-- 
2.43.0


From ace7b49c7b9934b896ebc96e6a3b3e6ccd28ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 26/34] fix: Export and Unexport panicked on names starting
 with U+FFFD

The replacement character decodes to utf8.RuneError, too, but is valid UTF-8.
---
 names.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/names.go b/names.go
index f082f64..7cc2314 100644
--- a/names.go
+++ b/names.go
@@ -14,7 +14,7 @@ func Unexport(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
@@ -32,7 +32,7 @@ func Export(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	if unicode.IsUpper(r) {
-- 
2.43.0


From 626303ba8f21f30c82689de774995d46c059fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 27/34] fix: pointers to interfaces in template data caused a
 panic

---
 templates.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/templates.go b/templates.go
index 7d1e090..e5ee705 100644
--- a/templates.go
+++ b/templates.go
@@ -164,12 +164,11 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Ptr:
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() {
-				return newElem.Addr(), true
-			}
-			dest := reflect.New(newElem.Type())
+			// NB: the new element can have a different type if the pointer refers
+			// to an interface. But the type of the pointer must not change.
+			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
-			return dest, true
+			return dest.Convert(data.Type()), true
 		}
 
 	case reflect.Array, reflect.Slice:
-- 
2.43.0


From beda56aaaaf41eeb6a6a9abd245f1cb6d8f0c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 28/34] fix: nil pointers to elements of go/types in template
 data caused a panic

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index e5ee705..af19da4 100644
--- a/templates.go
+++ b/templates.go
@@ -10,7 +10,7 @@ import (
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
 	switch data.Kind() {
 	case reflect.Interface:
-		if data.Elem().IsValid() {
+		if elem := data.Elem(); elem.IsValid() && !(elem.Kind() == reflect.Ptr && elem.IsNil()) {
 			qualified := true
 			var newRv reflect.Value
 			switch d := data.Interface().(type) {
-- 
2.43.0


From dca14a2ae281387eb41c9fbe118438f2174c5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 29/34] fix: template data lost map entries whose keys do not
 equal themselves

---
 templates.go | 53 ++++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/templates.go b/templates.go
index af19da4..163747b 100644
--- a/templates.go
+++ b/templates.go
@@ -196,21 +196,21 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Map:
 		var newMap reflect.Value
-		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range sortedMapKeys(data) {
-			newK, changedK := qualifyTemplateData(imports, k)
-			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
+		seen := make([]mapEntry, 0, data.Len())
+		for _, e := range sortedMapEntries(data) {
+			newK, changedK := qualifyTemplateData(imports, e.key)
+			newV, changedV := qualifyTemplateData(imports, e.value)
 			if newMap.IsValid() {
 				newMap.SetMapIndex(newK, newV)
 			} else if changedK || changedV {
 				newMap = reflect.MakeMap(data.Type())
-				for _, sk := range seenKeys {
-					newMap.SetMapIndex(sk, data.MapIndex(sk))
+				for _, se := range seen {
+					newMap.SetMapIndex(se.key, se.value)
 				}
 				newMap.SetMapIndex(newK, newV)
-				seenKeys = nil
+				seen = nil
 			} else {
-				seenKeys = append(seenKeys, k)
+				seen = append(seen, e)
 			}
 		}
 		if newMap.IsValid() {
@@ -230,24 +230,25 @@ func fileInPackage(f *GoFile, packageName string) *GoFile {
 	}
 }
 
-// sortedMapKeys returns the keys of the given map in a stable order. If package
-// names conflict, aliases are assigned in the order in which the packages are
-// encountered. So that must not depend on the random iteration order of maps.
-func sortedMapKeys(m reflect.Value) []reflect.Value {
-	keys := m.MapKeys()
-	sortKeys := make([]struct {
-		str string
-		key reflect.Value
-	}, len(keys))
-	for i, k := range keys {
-		sortKeys[i].str = fmt.Sprintf("%#v", k)
-		sortKeys[i].key = k
+type mapEntry struct {
+	str        string
+	key, value reflect.Value
+}
+
+// sortedMapEntries returns the entries of the given map in a stable order. If
+// package names conflict, aliases are assigned in the order in which the
+// packages are encountered. So that must not depend on the random iteration
+// order of maps.
+func sortedMapEntries(m reflect.Value) []mapEntry {
+	entries := make([]mapEntry, 0, m.Len())
+	// NB: values can't be looked up by key, since keys need not equal
+	// themselves (e.g. NaN)
+	for iter := m.MapRange(); iter.Next(); {
+		k := iter.Key()
+		entries = append(entries, mapEntry{str: fmt.Sprintf("%#v", k), key: k, value: iter.Value()})
 	}
-	sort.SliceStable(sortKeys, func(i, j int) bool {
-		return sortKeys[i].str < sortKeys[j].str
+	sort.SliceStable(entries, func(i, j int) bool {
+		return entries[i].str < entries[j].str
 	})
-	for i := range keys {
-		keys[i] = sortKeys[i].key
-	}
-	return keys
+	return entries
 }
-- 
2.43.0


From ae99d2b48dca6628bb8a66269442892a8c3bbe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 30/34] fix: pointers to elements of go/types in template data
 caused a stack overflow

---
 templates.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates.go b/templates.go
index 163747b..8fd3552 100644
--- a/templates.go
+++ b/templates.go
@@ -163,6 +163,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 
 	case reflect.Ptr:
+		switch data.Interface().(type) {
+		case types.Type, types.Object, *types.Package:
+			// these can't be re-written where their own type is required; and
+			// they hold no references but can be cyclic
+			return data, false
+		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
 			// NB: the new element can have a different type if the pointer refers
 			// to an interface. But the type of the pointer must not change.
-- 
2.43.0


From ecde127809ecb2b26d28a542cc7d11e8eba00a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 31/34] fix: zero TypeSpecs in template data caused a panic

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 8fd3552..bad84f1 100644
--- a/templates.go
+++ b/templates.go
@@ -102,7 +102,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				}
 			}
 		case TypeSpec:
-			if t.Name == "" {
+			if t.Name == "" && t.underlying != nil {
 				newT := imports.EnsureTypeImported(t.underlying)
 				if newT != t.underlying {
 					newTs := t
-- 
2.43.0


From 06142a8d4dc7fca3f616c7539831428124effcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 32/34] fix: files imported packages of former types of fields
 and methods

---
 model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index ed040fe..8828887 100644
--- a/model.go
+++ b/model.go
@@ -1159,7 +1159,13 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 
 func (t *TypeSpec) qualify(imports *Imports) *TypeSpec {
 	spec := *t
-	spec.underlying = imports.EnsureTypeImported(t.underlying)
+	switch t.underlying.Kind() {
+	case KindStruct, KindInterface:
+		// these are rendered from the fields and elements below, which may have
+		// been changed since t was created
+	default:
+		spec.underlying = imports.EnsureTypeImported(t.underlying)
+	}
 	spec.structBody = make([]*FieldSpec, len(t.structBody))
 	for i := range t.structBody {
 		fs := *t.structBody[i]
-- 
2.43.0


From 6a5aa6e6135e9887e044493e37b047d3adf29502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:43 +0000
Subject: [PATCH 33/34] fix: types of functions changed when the functions were
 changed afterwards

---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 8828887..77b3849 100644
--- a/model.go
+++ b/model.go
@@ -1639,12 +1639,16 @@ func (f *FuncSpec) ToTypeName() TypeName {
 		args[0] = rcvr
 		copy(args[1:], sig.Args)
 		sig.Args = args
-		sig.Results = f.Results
+		sig.Results = append([]ArgType(nil), f.Results...)
 		sig.IsVariadic = f.IsVariadic
 		return FuncTypeFromSig(&sig)
 	}
 
-	return FuncTypeFromSig(&f.Signature)
+	// the returned type must not change when this function does
+	sig := f.Signature
+	sig.Args = append([]ArgType(nil), f.Args...)
+	sig.Results = append([]ArgType(nil), f.Results...)
+	return FuncTypeFromSig(&sig)
 }
 
 func (f *FuncSpec) isFileElement() {}
-- 
2.43.0


From b83de5e5000d3f6cacea3fc5646e0fcd59497d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 34/34] fix: aliases assigned for references in template data
 depended on addresses

If the keys of a map in the data of a template were, or had, pointers (as all
named types have), then the order in which packages of the same name got their
aliases was that of the pointers' addresses. Generating the same file again
could result in different code.
---
 templates.go | 93 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index bad84f1..ab211ca 100644
--- a/templates.go
+++ b/templates.go
@@ -5,6 +5,8 @@ import (
 	"go/types"
 	"reflect"
 	"sort"
+	"strconv"
+	"strings"
 )
 
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
@@ -251,10 +253,99 @@ func sortedMapEntries(m reflect.Value) []mapEntry {
 	// themselves (e.g. NaN)
 	for iter := m.MapRange(); iter.Next(); {
 		k := iter.Key()
-		entries = append(entries, mapEntry{str: fmt.Sprintf("%#v", k), key: k, value: iter.Value()})
+		entries = append(entries, mapEntry{str: describe(k), key: k, value: iter.Value()})
 	}
 	sort.SliceStable(entries, func(i, j int) bool {
+		if entries[i].str == entries[j].str {
+			// e.g. pointers to equal values
+			return describe(entries[i].value) < describe(entries[j].value)
+		}
 		return entries[i].str < entries[j].str
 	})
 	return entries
 }
+
+// describe returns a string that represents the given value. Unlike what the
+// fmt package would return, it does not include addresses (they can be different
+// the next time), but what is there.
+func describe(v reflect.Value) string {
+	var b strings.Builder
+	writeDescription(&b, v, map[interface{}]int{})
+	return b.String()
+}
+
+func writeDescription(b *strings.Builder, v reflect.Value, seen map[interface{}]int) {
+	for v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	if !v.IsValid() {
+		b.WriteString("nil")
+		return
+	}
+	fmt.Fprintf(b, "%s %s{", v.Type().PkgPath(), v.Type())
+	defer b.WriteByte('}')
+
+	switch v.Kind() {
+	case reflect.Ptr:
+		if v.IsNil() {
+			return
+		}
+		if v.CanInterface() {
+			switch p := v.Interface().(type) {
+			case reflect.Type:
+				writeDescription(b, reflect.ValueOf(TypeNameForReflectType(p)), seen)
+				return
+			case types.Type:
+				b.WriteString(types.TypeString(p, nil))
+				return
+			case types.Object:
+				if p.Pkg() != nil {
+					b.WriteString(p.Pkg().Path())
+				}
+				b.WriteString(types.ObjectString(p, nil))
+				return
+			case *types.Package:
+				b.WriteString(p.Path())
+				return
+			}
+		}
+		type pointer struct {
+			addr uintptr
+			typ  reflect.Type
+		}
+		p := pointer{addr: v.Pointer(), typ: v.Type()}
+		if n, ok := seen[p]; ok {
+			b.WriteString(strconv.Itoa(n))
+			return
+		}
+		seen[p] = len(seen)
+		writeDescription(b, v.Elem(), seen)
+
+	case reflect.Struct:
+		switch v.Type() {
+		case reflect.TypeOf(GoFile{}):
+			// of the file that an element is in, only the package matters
+			fmt.Fprintf(b, "%q", v.FieldByName("Imports").FieldByName("pkgPath").String())
+			return
+		case reflect.TypeOf(CodeBlock{}):
+			return
+		}
+		for i := 0; i < v.NumField(); i++ {
+			writeDescription(b, v.Field(i), seen)
+		}
+
+	case reflect.Array, reflect.Slice:
+		for i := 0; i < v.Len(); i++ {
+			writeDescription(b, v.Index(i), seen)
+		}
+
+	case reflect.Map:
+		b.WriteString(strconv.Itoa(v.Len()))
+
+	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		// just addresses
+
+	default:
+		fmt.Fprintf(b, "%#v", v)
+	}
+}
-- 
2.43.0

