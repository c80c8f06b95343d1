------------------------------- MODULE GenFile ------------------------------
(* Small programs, generated exhaustively from the shapes that File knows:  *)
(*   progargs    every kind of argument, of every package position, in      *)
(*               every kind of code piece and template data shape           *)
(*               (and two at once, of packages of the same name)            *)
(*   progdecls   every form of declaration                                  *)
EXTENDS SmallTypes, Json, IOUtils

What == IOEnv.WHAT
Size == IOEnv.SIZE

World == << [p |-> "a/own", n |-> "own"], [p |-> "b/foo", n |-> "foo"], [p |-> "c/foo", n |-> "foo"],
            [p |-> "d/go-bar", n |-> "bar"], [p |-> "io", n |-> "io"],
            [p |-> "a/foo", n |-> "foo"], [p |-> "e/foo", n |-> "foo"] >>
NameOf(p) == CASE p = "a/own" -> "own" [] p = "d/go-bar" -> "bar" [] p = "io" -> "io" [] OTHER -> "foo"

Lit(ts)   == [k |-> "lit", toks |-> ts]
TId(s)    == [c |-> "id", s |-> s]
TOp(s)    == [c |-> "op", s |-> s]
Arg(a, v) == [k |-> "arg", a |-> a, verb |-> v]

NoDoc == <<>>
Spec0 == [doc |-> NoDoc, names |-> <<>>, ty |-> <<>>, init |-> <<>>, name |-> "", alias |-> FALSE, form |-> "",
          fields |-> <<>>, elems |-> <<>>]
Sig0  == [args |-> <<>>, res |-> <<>>, var |-> FALSE]
Fn(n, recv, sig, body, doc) == [k |-> "func", doc |-> doc, name |-> n, recv |-> recv, sig |-> sig, body |-> body]
Decl(k, doc, via, specs)    == [k |-> k, doc |-> doc, via |-> via, specs |-> specs]
FileRec(name, p, regs, decls) ==
    [name |-> name, path |-> p, pkg |-> NameOf(p), fc |-> NoDoc, pc |-> NoDoc, canon |-> "", regs |-> regs, decls |-> decls]

----------------------------------------------------------------------------
(* One argument in one piece.  File 0 declares one element of each kind in  *)
(* package a/own; file 1 is in a/own, too, or in c/foo, and has the code.   *)
OneConst == Decl("const", NoDoc, "add", << [Spec0 EXCEPT !.names = <<"C0">>, !.init = <<[via |-> "pieces", block |-> 0,
              pieces |-> <<[k |-> "print", parts |-> <<Lit(<<TId("x")>>)>>]>>]>>] >>)
OneVar   == Decl("var", NoDoc, "add", << [Spec0 EXCEPT !.names = <<"V0">>, !.ty = <<[k |-> "t", t |-> Basic("int")]>>] >>)
OneType  == Decl("type", NoDoc, "add", << [Spec0 EXCEPT !.name = "T0", !.form = "of", !.ty = <<[k |-> "t", t |-> Named("b/foo", "foo", "U")]>>] >>)
OneFunc  == Fn("F0", <<>>, Sig0, <<>>, NoDoc)
OneMeth  == Fn("M0", <<[n |-> "r", t |-> "T0", ptr |-> TRUE, via |-> "name"]>>, Sig0, <<>>, NoDoc)
Provider == FileRec("p.go", "a/own", <<>>, <<OneConst, OneVar, OneType, OneFunc, OneMeth>>)

\* (the package of file 1, packages with a clashing name, with a name unlike the path, and none)
ArgPkgs == { "c/foo", "b/foo", "a/own", "d/go-bar" }
SymOf(p, n) == Sym(p, NameOf(p), n)
TypesOf(p) == { Named(p, NameOf(p), "U"), [k |-> "ptr", e |-> Named(p, NameOf(p), "U")],
                [k |-> "map", key |-> Named("b/foo", "foo", "K"), e |-> SliceOf(Named(p, NameOf(p), "U"))],
                FuncOf(SigOf(<<ArgN("x", Named(p, NameOf(p), "U")), ArgN("", SliceOf(Named("", "", "error")))>>, <<>>, TRUE)),
                [k |-> "struct", fields |-> <<Field("F", Named(p, NameOf(p), "U"), "k:\"v\""), Field("", Named(p, NameOf(p), "E"), "")>>],
                [k |-> "iface", elems |-> <<Embed(Named(p, NameOf(p), "I")), Method("M", SigOf(<<Arg1(Named(p, NameOf(p), "U"))>>, <<>>, FALSE))>>] }
AnonOf(p) == { [Spec0 EXCEPT !.form = "of", !.ty = <<[k |-> "t", t |-> Named(p, NameOf(p), "U")]>>],
               [Spec0 EXCEPT !.form = "struct", !.fields = <<[n |-> "F", ty |-> [k |-> "t", t |-> Named(p, NameOf(p), "U")], tag |-> "", doc |-> NoDoc]>>] }
ArgsAt(p) ==
      { [k |-> k, sym |-> SymOf(p, "X")] : k \in {"sym", "psym", "embed"} }
 \cup { [k |-> k, sym |-> SymOf(p, "X"), m |-> "Meth"] : k \in {"mref", "pmref"} }
 \cup { [k |-> "gobj", obj |-> o, sym |-> SymOf(p, "X"), m |-> "Meth"] :
          o \in {"const", "var", "func", "type", "alias", "method", "pmethod", "imethod"} }
 \cup { [k |-> "tn", t |-> t] : t \in TypesOf(p) }
 \cup { [k |-> "gtype", t |-> t] : t \in TypesOf(p) }
 \cup { [k |-> "atspec", spec |-> s] : s \in AnonOf(p) }
 \cup { [k |-> k, sig |-> SigOf(<<ArgN("x", t)>>, <<Arg1(t)>>, FALSE)] : k \in {"sig", "psig"}, t \in TypesOf(p) }
 \cup (IF p \in {"a/own", "c/foo"} THEN {} ELSE { [k |-> k, p |-> p, q |-> NameOf(p)] : k \in {"pkg", "ppkg", "gpkg"} })
OtherArgs ==
      { [k |-> "elem", e |-> <<0, i, 0>>] : i \in 0..4 }
 \cup { [k |-> "gobj", obj |-> "universe", sym |-> Sym("", "", n), m |-> ""] : n \in {"error", "len", "nil", "true"} }
 \cup { [k |-> "tn", t |-> t] : t \in Leaf }
 \cup { [k |-> "imethod", m |-> "Bare", sig |-> Sig0], [k |-> "field", m |-> "Bare"], [k |-> "str", s |-> "word"] }
AllArgs == OtherArgs \cup UNION { ArgsAt(p) : p \in ArgPkgs }

IsType(a)  == a.k \in {"tn", "gtype", "atspec", "sig", "psig"} \/ (a.k = "elem" /\ a.e[2] = 2)
IsBare(a)  == a.k \in {"imethod", "field", "str"} \/ (a.k = "elem" /\ a.e[2] = 4)
\* an expression that contains the argument, which is the i-th of the pool
ExprAt(i, a, v) ==
    IF a.k \in {"pkg", "ppkg", "gpkg"} THEN <<Arg(i, v), Lit(<<TOp("."), TId("Member")>>)>>
    ELSE IF IsType(a) THEN <<Lit(<<TOp("(")>>), Arg(i, v), Lit(<<TOp(")"), TOp("("), TId("nil"), TOp(")")>>)>>
    ELSE IF IsBare(a) THEN <<Lit(<<TId("x"), TOp(".")>>), Arg(i, v)>>
    ELSE <<Arg(i, v)>>
StmtAt(i, a, v) == <<Lit(<<TId("_"), TOp("=")>>)>> \o ExprAt(i, a, v) \o <<Lit(<<TOp(";")>>)>>
ExprOf(a, v) == ExprAt(0, a, v)
StmtOf(a, v) == StmtAt(0, a, v)

Shapes == {"slice", "array", "parray", "map", "struct", "pstruct", "embed", "hidden", "phidden", "nest", "typed", "typedmap",
           "bare", "key", "keyed", "tnlist"}
PiecesFor(a) ==
      (IF a.k \in {"sig", "psig"} THEN {} ELSE { <<[k |-> k, parts |-> StmtOf(a, v)]>> : k \in {"printf", "printlnf"}, v \in {"v", "s"} })
 \cup (IF a.k = "elem" /\ a.e[2] = 4 THEN {} ELSE
       { <<[k |-> "tmpl", parts |-> StmtOf(a, "v"), shape |-> sh]>> :
           sh \in IF Size = "small" THEN {"hidden", "pstruct", "typedmap"} ELSE Shapes })

ArgProg(a, ps, p, regs, ws) ==
    [world |-> World, pool |-> <<a>>, blocks |-> << <<>> >>,
     files |-> << Provider, FileRec("c.go", p, regs, <<Fn("G", <<>>, Sig0, ps, NoDoc)>>) >>, writes |-> ws]
ArgProgs ==
    UNION { { ArgProg(a, ps, p, regs, IF p = "c/foo" THEN <<1, 0, 1>> ELSE <<0, 1, 1>>) : ps \in PiecesFor(a), p \in {"a/own", "c/foo"},
                regs \in { <<>>, << [p |-> "e/foo", n |-> "foo"] >> } } : a \in AllArgs }
 \cup \* by way of an added block and of an initializer
    UNION { { [world |-> World, pool |-> <<a>>, blocks |-> << <<[k |-> "printf", parts |-> ExprOf(a, "v")]>> >>,
               files |-> << Provider,
                  FileRec("c.go", "c/foo", <<>>, << Fn("G", <<>>, Sig0, <<[k |-> "print", parts |-> <<Lit(<<TId("_"), TOp("=")>>)>>], [k |-> "add", block |-> 0]>>, NoDoc),
                     Decl("var", NoDoc, "add", << [Spec0 EXCEPT !.names = <<"V">>, !.init = <<i>>] >>) >>) >>,
               writes |-> <<1, 0, 1>>] :
               i \in { [via |-> "block", block |-> 0, pieces |-> <<>>],
                       [via |-> "fmt", block |-> 0, pieces |-> <<[k |-> "printf", parts |-> ExprOf(a, "s")]>>] } } :
            a \in { x \in AllArgs : x.k \notin {"sig", "psig"} } }

----------------------------------------------------------------------------
(* Two arguments of packages of one name, in one piece of template data.    *)
PairProgs ==
    { [world |-> World, pool |-> <<x[1], x[2]>>, blocks |-> << <<>> >>,
       files |-> << FileRec("c.go", "a/own", <<>>, <<Fn("G", <<>>, Sig0,
                      << [k |-> "tmpl", parts |-> StmtAt(0, x[1], "v") \o StmtAt(1, x[2], "v"), shape |-> sh] >>, NoDoc)>>) >>,
       writes |-> <<0, 0>>] :
      x \in { y \in ArgsAt("b/foo") \X ArgsAt("e/foo") : Size # "small" \/ y[1].k = y[2].k },
      sh \in IF Size = "small" THEN {"keyed"} ELSE {"keyed", "hidden", "map", "nest"} }

----------------------------------------------------------------------------
(* Declarations                                                             *)
Docs    == { NoDoc, <<"one">>, <<"first", "", "second">> }
D1set   == IF Size = "small" THEN { NoDoc, <<"one">> } ELSE Docs
FooT    == Named("b/foo", "foo", "U")
TyForms == { [k |-> "t", t |-> t] : t \in { Basic("int"), FooT, Named("c/foo", "foo", "U"), Named("a/own", "own", "U"), Named("", "", "error"),
                [k |-> "chan", dir |-> "both", e |-> [k |-> "chan", dir |-> "recv", e |-> FooT]],
                FuncOf(SigOf(<<ArgN("x", FooT), ArgN("", SliceOf(IntT))>>, <<ArgN("r", FooT), Arg1(IntT)>>, TRUE)),
                [k |-> "struct", fields |-> <<Field("F", FooT, "a`b"), Field("", FooT, "")>>],
                [k |-> "iface", elems |-> <<Embed(FooT), Method("M", SigOf(<<>>, <<Arg1(FooT)>>, FALSE))>>] } }
           \cup { [k |-> "elem", e |-> <<0, 0, 0>>] }
FieldOf(n, y, g, d) == [n |-> n, ty |-> y, tag |-> g, doc |-> d]
Bodies ==
      { [Spec0 EXCEPT !.form = "of", !.ty = <<y>>] : y \in TyForms }
 \cup { [Spec0 EXCEPT !.form = "struct", !.fields = fs] :
          fs \in { <<>> }
            \cup { <<FieldOf("F", y, g, d)>> : y \in TyForms, g \in {"", "k:\"v\"", "a`b"}, d \in D1set }
            \cup { <<FieldOf("F", [k |-> "t", t |-> IntT], "", d), FieldOf("", [k |-> "t", t |-> t], g, e)>> :
                     d \in D1set, e \in D1set, g \in {"", "t"}, t \in { FooT, [k |-> "ptr", e |-> FooT], Named("", "", "error") } } }
 \cup { [Spec0 EXCEPT !.form = "iface", !.elems = es] :
          es \in { <<>> }
            \cup { <<[Method("M", s) EXCEPT !.doc = d]>> : s \in Sigs({FooT}), d \in D1set }
            \cup { <<[Method("M", s) EXCEPT !.doc = d], [Embed(FooT) EXCEPT !.doc = e], [Method("N", s) EXCEPT !.doc = <<>>]>> :
                     s \in { Sig0, SigOf(<<Arg1(FooT)>>, <<>>, FALSE) }, d \in D1set, e \in D1set } }
Anon(b) == [k |-> "anon", spec |-> b]
Bodies2 == Bodies
      \cup { [Spec0 EXCEPT !.form = "struct", !.fields = <<FieldOf("F", Anon(b), "t", d)>>] : b \in Bodies, d \in { NoDoc, <<"one">> } }
      \cup { [Spec0 EXCEPT !.form = "of", !.ty = <<Anon(b)>>] : b \in Bodies }

TypeSpecs(n) == { [b EXCEPT !.name = n, !.alias = a, !.doc = d] : b \in Bodies2, a \in BOOLEAN, d \in { NoDoc, <<"one">> } }
Init1 == [via |-> "pieces", block |-> 0, pieces |-> <<[k |-> "printf", parts |-> <<Arg(0, "v"), Lit(<<TOp("+"), [c |-> "lit", s |-> "1"]>>)>>]>>]
VarTys == { <<>> } \cup { <<y>> : y \in TyForms } \cup { <<Anon(b)>> : b \in Bodies }
ValSpecs(k, n) ==
    { [Spec0 EXCEPT !.names = ns, !.ty = y, !.init = i, !.doc = d] :
        ns \in { <<n>>, <<n, n \o "b">> }, y \in IF k = "const" THEN { <<>>, <<[k |-> "t", t |-> FooT]>> } ELSE VarTys,
        i \in { <<>>, <<Init1>> }, d \in { NoDoc, <<"one">> } }
ValOK(k, s) == IF k = "const" THEN s.init # <<>> ELSE s.init # <<>> \/ s.ty # <<>>

Second(k) == IF k = "type" THEN [Spec0 EXCEPT !.name = "Z", !.form = "of", !.ty = <<[k |-> "t", t |-> IntT]>>, !.doc = <<"zed">>]
             ELSE [Spec0 EXCEPT !.names = <<"Z">>, !.init = <<Init1>>, !.doc = <<"zed">>]
SpecsOfKind(k) == IF k = "type" THEN TypeSpecs("Y") ELSE { s \in ValSpecs(k, "Y") : ValOK(k, s) }
Recvs == { <<>> } \cup { <<[n |-> n, t |-> "Rcv", ptr |-> p, via |-> v]>> : n \in {"", "r"}, p \in BOOLEAN, v \in {"name", "named", "elem"} }
FuncDecls == { Fn("Fn", r, s, b, d) : r \in Recvs, s \in Sigs({FooT}), d \in D1set,
                 b \in { <<>>, <<[k |-> "printf", parts |-> <<Lit(<<TId("_"), TOp("=")>>), Arg(0, "v"), Lit(<<TOp(";")>>)>>]>> } }
DeclForms ==
      UNION { { Decl(k, NoDoc, "add", <<s>>) : s \in SpecsOfKind(k) } : k \in {"const", "var", "type"} }
 \cup UNION { { Decl(k, d, "decl", ss) : d \in { NoDoc, <<"grp">> }, ss \in { <<s>>, <<s, Second(k)>>, <<Second(k), s>> } } :
                k \in {"const"}, s \in SpecsOfKind("const") }
 \cup UNION { { Decl(k, d, "decl", <<s, Second(k)>>) : d \in { NoDoc, <<"grp">> }, s \in SpecsOfKind(k) } : k \in {"var", "type"} }
 \cup FuncDecls
\* (an alias or a comment differs little from none: only in the larger sets)
Thinned == IF Size = "small" THEN { d \in DeclForms : d.k = "func" \/ \A i \in DOMAIN d.specs : d.specs[i].doc = <<>> \/ d.specs[i].fields = <<>> } ELSE DeclForms
First == Decl("type", NoDoc, "add", << [Spec0 EXCEPT !.name = "A", !.form = "of", !.ty = <<[k |-> "t", t |-> IntT]>>] >>)

DeclProgs ==
    { [world |-> World, pool |-> << [k |-> "sym", sym |-> Sym("c/foo", "foo", "K")] >>, blocks |-> << <<>> >>,
       files |-> << [FileRec("a.go", "a/own", <<>>, <<First, d>>) EXCEPT !.pc = IF d.k = "func" THEN <<"pkg doc">> ELSE <<>>] >>,
       writes |-> <<0>>] : d \in Thinned }
 \cup \* file headers
    { [world |-> World, pool |-> <<>>, blocks |-> <<>>,
       files |-> << [name |-> "h.go", path |-> p, pkg |-> NameOf(p), fc |-> fc, pc |-> pc, canon |-> c, regs |-> regs, decls |-> ds] >>,
       writes |-> <<0, 0>>] :
         p \in {"a/own", "d/go-bar"}, fc \in Docs, pc \in Docs, c \in {"", "x/y"},
         regs \in { <<>>, << [p |-> "b/foo", n |-> "foo"], [p |-> "c/foo", n |-> "foo"], [p |-> "d/go-bar", n |-> "bar"] >> },
         ds \in { <<>>, <<First>>, <<OneFunc>> } }

Number(name, S) == LET s == SetToSeq(S) IN [i \in DOMAIN s |-> s[i] @@ [id |-> name \o "-g" \o ToString(i), kind |-> "prog"]]
Cases == CASE What = "progargs"  -> Number("parg", ArgProgs) \o Number("ppair", PairProgs)
           [] What = "progdecls" -> Number("pdecl", DeclProgs)

ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
=============================================================================
