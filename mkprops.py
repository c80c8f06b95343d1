import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p("C01","Import qualifiers are unique, stable and valid",
 "For every history of import registrations and look-ups, the qualifier handed out for a package is a valid Go identifier (not a keyword, not blank), no two packages of one file share a qualifier, and every later registration or look-up of that package returns the same one. The file's own package always gets the empty qualifier and is never imported; a package's declared name is used as its qualifier whenever it is a valid identifier that is still free. Looking up a package that was never registered panics and changes nothing.",
 ["histories","inputs"],"All sequences of registrations/look-ups (by path, package, symbol, type, signature, template data) over any set of import paths and package names, including clashing, empty, keyword-like and non-identifier names.",
 "The tests register a handful of packages in one fixed order with two-way clashes only; uniqueness and stability are invariants over every history, and need clashes between declared names and generated aliases.",
 ["imports.go"],[("import table","path -> qualifier, and the inverse index of taken qualifiers","imports.go Imports")],
 [("qualifier assignment with de-duplication","imports.go prefixForPackage"),("identifier sanitising","imports.go toIdentifier")],
 ["RegisterImport / RegisterImportForPackage / PrefixForPackage / EnsureImported / Qualify return values","ImportSpecs after every call"])
p("C02","The import list binds exactly the qualifiers handed out",
 "After any history, the list of import specs contains each registered package exactly once, sorted by import path, and never the file's own package. Each spec binds precisely the qualifier that was handed out for its package: it carries an alias equal to that qualifier unless the qualifier is the package's declared name, in which case it carries none. A spec's textual form is a legal import spec for that alias and path.",
 ["histories","inputs"],"All registration histories over any import paths and names.",
 "The tests compare the list for two hand-written sets of imports; ordering, the alias/no-alias decision and consistency with handed-out prefixes have to hold after every history.",
 ["imports.go"],[("import table","path -> (qualifier, is alias)","imports.go Imports")],
 [("ImportSpecs","imports.go ImportSpecs"),("ImportSpec.String","imports.go ImportSpec.String")],
 ["ImportSpecs after every operation of a history"])
p("C03","Qualifying a type or signature changes qualifiers and nothing else",
 "Qualifying a symbol, type or signature against an import table yields the same symbol, type or signature at every nesting depth (names, tags, directions, lengths, variadicity, order), except that each package reference carries the qualifier that the import table binds to its import path (empty for the file's own package, untouched for references without a package). The value given is never modified. The ensuring variants register exactly the referenced packages and no others; the non-registering variants register nothing and panic exactly when a referenced package is not registered.",
 ["inputs","histories"],"All type trees (any depth, all kinds, references anywhere), all import tables reachable by any history.",
 "The tests never call the qualification functions on nested types; a rewrite that loses a tag, a variadic flag or a deep reference, or writes into its input, shows only for particular shapes.",
 ["imports.go"],[("import table","path -> qualifier","imports.go Imports")],
 [("structural rewrite of types","imports.go qualifyType, qualifySignature, qualifyArgs, qualifyFields, qualifyMethods, qualifySymbols")],
 ["EnsureTypeImported, QualifyType, EnsureAllTypesImported, QualifySignature results projected through the accessors","the argument projected before and after","ImportSpecs"])
p("C04","The text of a type denotes that type",
 "For every type that can be built, its string form is a Go type expression that, parsed by Go's grammar, is that same type: same kinds, element and key types, array length, channel directions, parameter and result names and types, variadicity, fields with names and tags, embedded interfaces and methods, and the given package qualifiers. When only some parameters (or results) of a list are named, the others are rendered as named '_'.",
 ["inputs"],"All types built from any composition of the constructors (any nesting depth and width), any tag text, any names.",
 "The tests render a couple of dozen hand-picked types and compare text; ambiguity (channels of channels, tags, mixed names, interfaces with both embeds and methods, nested function results) depends on combinations.",
 ["types.go"],[],[("type rendering","types.go typeNameToBuffer, signatureToBuffer")],["String() of the type, as tokens"])
p("C05","Types report exactly what they were built from, and stay that way",
 "The accessors of a type (kind, element, key, length, direction, basic kind, signature, fields, methods, embeds, symbol) report exactly what it was built from, and the documented 'not applicable' value otherwise. Constructors panic exactly on invalid input: missing component types, negative lengths, invalid directions, kinds that are not basic, and variadic signatures whose last parameter is not a slice. Changing a list of fields, methods or embeds obtained from a type does not change the type, and a type obtained from a type spec, function, method or interface method stays what it was when the function or the name it was obtained from is changed afterwards.",
 ["inputs"],"All constructor arguments (valid and invalid) and all type trees.",
 "The tests check selected accessors of one value per kind and few invalid inputs.",
 ["types.go"],[],[("constructors and accessors","types.go BasicType ... InterfaceType, TypeName implementations")],
 ["all accessors at every node, before and after changing the lists they return","panics of constructors"])
p("C06","go/types types convert faithfully",
 "Converting any non-generic go/types type (including aliases, predeclared types, method signatures, interfaces with embedded named types, and unsafe.Pointer) yields the type with the same structure: same kinds, lengths, directions, names, tags, embedding and variadicity. Every named type or alias becomes a reference with the same name, import path and package name; predeclared names carry no package; a method's receiver becomes the first parameter.",
 ["inputs"],"All go/types type graphs without type parameters.",
 "The tests convert the types of one small source file; most kinds in most positions are never reached.",
 ["types.go"],[],[("conversion","types.go TypeNameForGoType, signatureFromGoType, argsTypesForGoType")],["TypeNameForGoType result, projected through the accessors"])
p("C07","reflect types convert faithfully",
 "Converting any non-generic reflect type yields the type with the same structure: same kinds, element, key, argument and result types in order, lengths, directions, variadicity, field names, embedding and tags, and all methods of unnamed interfaces. Every defined type becomes a reference with the same name and import path (and no made-up package name); predeclared types carry no package.",
 ["inputs"],"All reflect types, static or constructed at run time, excluding generic instances and function-local types.",
 "The tests convert very few reflect types: several kinds used to panic or to be converted wrongly without any test noticing.",
 ["types.go"],[],[("conversion","types.go TypeNameForReflectType, signatureFromReflectType")],["TypeNameForReflectType result, projected through the accessors"])
p("C08","Every reference in a generated file resolves to the intended package",
 "In every generated file, each reference the caller supplied (as the type of a const, var, field, parameter, result, embedded interface or type definition, or as an argument or template value of a code block, in any supported representation) appears as an identifier that, under that file's own import declarations, denotes exactly the intended element of the intended package. Elements of the file's own package, and predeclared ones, appear unqualified.",
 ["programs","configurations"],"All sets of files, all placements and representations of references, all package-name clashes, any prior explicit registrations.",
 "The tests generate one file whose references never clash in interesting ways; correct resolution is a relation between every reference and the import list of the whole file.",
 ["model.go","code.go","imports.go","templates.go"],[("import table of the file","path -> qualifier","model.go GoFile.Imports")],
 [("qualification pass over elements","model.go qualify methods, WriteGoFile"),("qualification of code arguments","code.go line.qualify, templ.qualify")],
 ["parsed output of WriteGoFile: import declarations, type expressions, code tokens"])
p("C09","A generated file imports exactly what it references",
 "The import declarations of a generated file are exactly the packages that its elements and code refer to through supplied references, plus those registered explicitly: none missing, none extra, none twice, and never the file's own package.",
 ["programs","histories"],"All files, all placements of references, all explicit registrations, any order and repetition of writing several files that share elements or code.",
 "An unused import is a compile error in the generated code and a missing one an unresolved name; the tests look at one file's import list.",
 ["model.go","imports.go","code.go"],[("import table of the file","registered packages","model.go GoFile.Imports")],
 [("qualification pass","model.go WriteGoFile, code.go qualify")],["import declarations in the output of WriteGoFile"])
p("C10","Declarations survive rendering",
 "Parsing a generated file gives back exactly the declarations that were added, in the order they were added: package clause, file and package comments, canonical import comment, const/var/type groups with their names, types, initializers and comments, type definitions versus aliases, struct fields with names, embedding, tags and comments, interface elements in order with comments, and functions and methods with receiver, parameters, results and body. Nothing is added, dropped, merged or reordered.",
 ["programs"],"All files built from any mix of elements, specs, comments, tags, receivers and signatures.",
 "The single golden-file test covers one arrangement of elements.",
 ["model.go"],[("list of elements","what was added, in order","model.go GoFile.elements")],
 [("rendering of elements","model.go writeTo methods, NewTypeSpec, NewStructTypeSpec, NewInterfaceTypeSpec")],["parsed output of WriteGoFile"])
p("C11","Code blocks render the concatenation of their pieces",
 "The text of a code block is exactly the concatenation, in order, of its pieces: printed text verbatim (whatever characters it contains), formatted text as the fmt package formats it with each reference replaced by its qualified form, executed templates likewise, and the pieces of blocks that were added, with a newline after a piece exactly when a line-printing method was used.",
 ["programs","inputs"],"All sequences of print, println, printf, printlnf, template and add-code operations, with any text (percent signs included) and arguments.",
 "The tests use a few printf calls in one function.",
 ["code.go"],[("list of code elements","pieces in order","code.go CodeBlock.elements")],
 [("assembly","code.go Print ... AddCode, line.writeTo, templ.writeTo")],["text inside raw string literals of generated files, which formatting preserves verbatim"])
p("C12","Writing files does not disturb the model: repeatable, deterministic, independent",
 "Writing a file any number of times, in any order relative to other files, gives the same bytes as writing it once from a freshly built identical model, even when files share types, code blocks, signatures, template data or refer to each other's elements. Apart from the written file's own import table, writing changes nothing that can be observed through the elements, types and code of any file, nor the caller's argument values.",
 ["histories","programs"],"All models (including ones that share parts between files) and all sequences of writes.",
 "The tests write one file once.",
 ["model.go","code.go","imports.go"],[("elements, types and code of all files","shared between files","model.go")],
 [("qualification works on copies","model.go qualify methods; code.go qualify")],["bytes of every write in a history","projection of the whole model before and after each write"])
p("C13","Template data is re-created faithfully with qualified references",
 "Qualifying template data returns data of the same shape and Go types in which every supported reference, wherever it sits (nested structs with exported or unexported fields, pointers, slices, arrays, map keys and values, interfaces), carries the qualifier bound in the import table, and everything else is equal to the original. The original data is not modified, all referenced packages end up registered, and no finite, acyclic data of supported references (see the documentation of AddCode and Imports.QualifyTemplateData) makes it panic.",
 ["inputs"],"All acyclic data graphs over structs, pointers, slices, arrays, maps and interfaces holding any supported references, with and without unsafe access.",
 "The tests qualify no nested template data; correctness depends on shape, addressability, exportedness and position.",
 ["templates.go","templates_unsafe.go","templates_no_unsafe.go","imports.go"],[("import table","path -> qualifier","imports.go Imports")],
 [("reflective copy-on-write rewrite","templates.go qualifyTemplateData"),("access to unexported fields","templates_unsafe.go getField")],["projection of the result and of the original (before and after) of QualifyTemplateData"])
p("C14","Multi-file output follows the open/write/close protocol under any fault",
 "Writing several files opens, for each file in order, the path formed by its import path and file name, writes that file's formatted content to the opened writer and closes it exactly once, before the next file is opened. The first error (from opening, rendering, writing or closing) is returned, no later file is opened, and every writer that was opened is closed; if there was no error, every file was written completely. A file can be created exactly with names that have no path and end in .go.",
 ["fault_sequences","configurations"],"All numbers of files, and every placement of open, format, write and close faults.",
 "The existing tests never write several files and inject no fault.",
 ["model.go"],[("position in the list of files and state of the current writer","open/closed","model.go WriteGoFiles")],
 [("loop with deferred close","model.go WriteGoFiles")],["calls received by the output function and the writers; returned error"])
p("C15","Writing a file is all-or-nothing and canonical",
 "Rendering a file either writes to the given writer exactly its complete source in canonical gofmt form and returns nil, or returns an error; when the rendered code is not syntactically valid, nothing at all is written and the error carries the complete unformatted source and the underlying formatting error. An error of the writer is returned.",
 ["programs","fault_sequences"],"All files, with syntactically valid and invalid code, and all writer faults.",
 "The tests do not render invalid code and use writers that never fail.",
 ["model.go"],[],[("format before writing","model.go WriteGoFile, FormatError")],["writer calls, returned error, FormatError.Unformatted"])
p("C16","Elements know their symbols exactly once they belong to a file",
 "For every history of adding elements to declarations and files, the symbols, type names and method references of a const, var, type, function, method or interface method name the element together with the package (import path and name) of the file it was last added to; before that, requesting them panics and the string form is the bare name, and elements of a file are listed in the order added. Types of functions and methods have the declared signature, with the receiver as first parameter for methods. Receivers built from types name that type, and constructing one from an unsuitable type panics.",
 ["histories","inputs"],"All histories of building declarations and adding them to files, all element kinds and receiver types.",
 "The tests use elements only after they were attached to one file.",
 ["model.go"],[("file an element belongs to","none or a file","model.go parent fields")],
 [("attachment","model.go AddElement, setParent"),("symbols","model.go ToSymbol, SymbolAt, String, ToTypeName, ToMethodRef"),("receivers","model.go NewReceiver...")],["results and panics of all queries on all elements after each step"])
p("C17","go/types objects and packages convert to the right references",
 "A go/types const, var, type or function converts to a symbol with its name and the import path and name of its package; predeclared objects have no package. A method (declared on a value or pointer receiver, or in a named interface) converts to a method reference naming its receiver's type, in that type's package, and the method. Packages convert to the same import path and name.",
 ["inputs"],"All objects of any type-checked, non-generic package.",
 "The tests convert a few objects; pointer-receiver methods, predeclared objects and interface methods are not covered.",
 ["model.go"],[],[("conversion","model.go SymbolForGoObject, PackageForGoType")],["returned symbols and method references"])
p("C18","Exporting and unexporting names",
 "Unexporting a name lower-cases its first character and exporting it upper-cases it, leaving the rest untouched, for every Unicode name. Exporting a name always gives a name Go considers exported when the input is an identifier (a leading underscore is replaced by X, and a first character without upper case gets the prefix X), already exported names and empty names are returned as they are, and both operations are idempotent.",
 ["inputs"],"All valid UTF-8 strings.",
 "The tests try nine names.",
 ["names.go"],[],[("Export / Unexport","names.go")],["returned names, as code points"])
p("C19","Writing to the file system or GOPATH creates exactly the right files",
 "Writing files under a root directory leaves, for every file written without error, exactly its content at root/import-path/file-name, creating missing directories, replacing whatever the file held before, and touching nothing else; on an error the files before the failing one are complete and the error is returned. The GOPATH variant uses the first entry of GOPATH as the root and fails, writing nothing, when GOPATH is empty or unset.",
 ["histories","configurations","fault_sequences"],"All sequences of writes of any files over any prior directory contents, including obstructed paths, and all GOPATH values.",
 "No test writes to the file system.",
 ["model.go"],[("directory tree","path -> content","file system")],
 [("WriteGoFilesToFileSystem / WriteGoFilesToGoPath","model.go")],["directory tree before and after each call, returned error"])
p("C20","Files show the model as it is when they are written",
 "For every history of building a program - adding declarations, specs, parameters, results and code, setting types, initializers and comments, importing packages explicitly - interleaved with writing its files, every writing shows exactly the model as it is at that moment: everything that was added or set before it and nothing else. It imports what is referred to then (and at most, besides, what earlier writings of that file needed), building never fails because something was written before, and writing a file again with nothing changed in between gives the same bytes.",
 ["histories","programs"],"All interleavings of building steps and writes, of any number of files that share code and refer to each other's elements.",
 "The tests build a file completely and write it once.",
 ["model.go","code.go","imports.go"],[("model of all files","what was added and set so far","model.go"),("import table of each file","path -> qualifier, kept from earlier writes","imports.go Imports")],
 [("rendering and qualification at the time of writing","model.go WriteGoFile, qualify methods; code.go qualify, writeTo")],["parsed output of every WriteGoFile in a history, import tables after each step"])
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
