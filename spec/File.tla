-------------------------------- MODULE File --------------------------------
(* What a generated file must say.                                          *)
(*                                                                          *)
(* A program (prog) is what a user of the library builds: several files,    *)
(* whose elements and code may share values and refer to each other:        *)
(*   prog.world   the packages there are, with their true names             *)
(*   prog.pool    values used as arguments of code, see RefKind             *)
(*   prog.blocks  code blocks that others may add                           *)
(*   prog.files   [name, path, pkg, fc, pc, canon, regs, decls]             *)
(* Elements are addressed as <<file, decl, spec>>, from 0.                  *)
(*                                                                          *)
(* Intended(prog, f) is the document that file f of prog must denote.  The  *)
(* document that a generated file does denote is its syntax tree, with each *)
(* qualifier resolved through the file's own import declarations.           *)
EXTENDS ImportTable




FileOf(prog, f) == prog.files[f + 1]
DeclOf2(prog, e) == FileOf(prog, e[1]).decls[e[2] + 1]

\* the name a reference to element e refers to
ElemSym(prog, e) ==
    LET fl == FileOf(prog, e[1])
        d  == DeclOf2(prog, e)
    IN Sym(fl.path, fl.pkg,
           CASE d.k = "func" -> d.name
             [] d.k = "type" -> d.specs[e[3] + 1].name
             [] OTHER        -> d.specs[e[3] + 1].names[1])

IsMethod(prog, e) == LET d == DeclOf2(prog, e) IN d.k = "func" /\ d.recv # <<>>

----------------------------------------------------------------------------
(* Types, as supplied                                                       *)
RECURSIVE TyOf(_, _), BodyOf(_, _)
TyOf(prog, y) ==
    CASE y.k = "t"    -> y.t
      [] y.k = "elem" -> LET s == ElemSym(prog, y.e) IN Named(s.p, s.q, s.name)
      [] y.k = "anon" -> BodyOf(prog, y.spec)

\* the part of a type spec after its name
BodyOf(prog, s) ==
    CASE s.form = "of"     -> TyOf(prog, s.ty[1])
      [] s.form = "struct" -> [k |-> "struct", fields |-> [i \in DOMAIN s.fields |->
                                 [n |-> s.fields[i].n, t |-> TyOf(prog, s.fields[i].ty),
                                  tag |-> s.fields[i].tag, doc |-> s.fields[i].doc]]]
      [] s.form = "iface"  -> [k |-> "iface", elems |-> s.elems]

----------------------------------------------------------------------------
(* Arguments of code: what appears in the text.                             *)
(*   ref    a reference to an element                                       *)
(*   mref   the same, then "." and a method name                            *)
(*   pkg    a package's qualifier                                           *)
(*   type   a type                                                          *)
(*   sig    a signature (whose types a template prints as func (..) (..))   *)
(*   word   an identifier that is not a reference                           *)
(*   num    a number                                                        *)
Meaning(prog, a) ==
    CASE a.k \in {"sym", "psym", "embed"}  -> [m |-> "ref", sym |-> a.sym]
      [] a.k \in {"mref", "pmref"}         -> [m |-> "mref", sym |-> a.sym, meth |-> a.m]
      [] a.k \in {"pkg", "ppkg", "gpkg"}   -> [m |-> "pkg", sym |-> Sym(a.p, a.q, "")]
      [] a.k = "tn"                        -> [m |-> "type", t |-> a.t, unord |-> FALSE]
      \* (reflect and go/types list methods in an order of their own)
      [] a.k = "rtype"                     -> [m |-> "type", t |-> a.t, unord |-> TRUE]
      [] a.k = "gtype"                     -> [m |-> "type", t |-> NameT(a.t), unord |-> TRUE]
      [] a.k \in {"sig", "psig"}           -> [m |-> "sig", sig |-> a.sig]
      [] a.k = "gobj" /\ a.obj \in {"method", "pmethod", "imethod"}
                                           -> [m |-> "mref", sym |-> a.sym, meth |-> a.m]
      [] a.k = "gobj"                      -> [m |-> "ref", sym |-> a.sym]
      [] a.k = "elem" /\ IsMethod(prog, a.e) -> [m |-> "word", s |-> ElemSym(prog, a.e).name]
      [] a.k = "elem"                      -> [m |-> "ref", sym |-> ElemSym(prog, a.e)]
      [] a.k = "atspec"                    -> [m |-> "type", t |-> BodyOf(prog, a.spec), unord |-> FALSE]
      [] a.k \in {"imethod", "field"}      -> [m |-> "word", s |-> a.m]
      [] a.k = "str"                       -> [m |-> "word", s |-> a.s]
      [] a.k = "int"                       -> [m |-> "num", s |-> ToString(a.n)]

RefsMeaning(x) ==
    CASE x.m \in {"ref", "mref", "pkg"} -> <<x.sym>>
      [] x.m = "type" -> RefsT(x.t)
      [] x.m = "sig"  -> RefsSig(x.sig)
      [] OTHER        -> <<>>

----------------------------------------------------------------------------
(* Code: a sequence of items, tokens [i |-> "tok", tok] and arguments       *)
(* [i |-> "arg", x].  (Statement separators are not compared here: C11      *)
(* is about the exact text.)                                                *)
RECURSIVE Items(_, _, _), TokItems(_, _), PartItems(_, _, _)
TokItems(ts, n) == IF n > Len(ts) THEN <<>>
                   ELSE (IF ts[n] = [c |-> "op", s |-> ";"] THEN <<>> ELSE <<[i |-> "tok", tok |-> ts[n]]>>)
                        \o TokItems(ts, n + 1)
PartItems(prog, ps, n) ==
    IF n > Len(ps) THEN <<>>
    ELSE (IF ps[n].k = "lit" THEN TokItems(ps[n].toks, 1)
          ELSE <<[i |-> "arg", x |-> Meaning(prog, prog.pool[ps[n].a + 1])]>>)
         \o PartItems(prog, ps, n + 1)
\* of pieces ps, from the n-th on
Items(prog, ps, n) ==
    IF n > Len(ps) THEN <<>>
    ELSE (IF ps[n].k = "add" THEN Items(prog, prog.blocks[ps[n].block + 1], 1)
          ELSE PartItems(prog, ps[n].parts, 1))
         \o Items(prog, ps, n + 1)

InitItems(prog, in) == IF in.via = "block" THEN Items(prog, prog.blocks[in.block + 1], 1)
                       ELSE Items(prog, in.pieces, 1)

RECURSIVE RefsItems(_, _)
RefsItems(is, n) == IF n > Len(is) THEN <<>>
                    ELSE (IF is[n].i = "arg" THEN RefsMeaning(is[n].x) ELSE <<>>) \o RefsItems(is, n + 1)

----------------------------------------------------------------------------
(* The intended document                                                    *)
IntendT(own, t)     == NormT(MapT([op |-> "intend", own |-> own], t))
IntendSig(own, s)   == NormSig(MapSig([op |-> "intend", own |-> own], s))

IntendSpec(prog, own, k, s) ==
    IF k = "type"
    THEN [doc |-> s.doc, name |-> s.name, alias |-> s.alias, ty |-> IntendT(own, BodyOf(prog, s))]
    ELSE [doc |-> s.doc, names |-> s.names,
          ty |-> IF s.ty = <<>> THEN <<>> ELSE <<IntendT(own, TyOf(prog, s.ty[1]))>>]

IntendDecl(prog, own, d) ==
    IF d.k = "func"
    THEN [k |-> "func", doc |-> d.doc, name |-> d.name,
          recv |-> IF d.recv = <<>> THEN <<>> ELSE <<[n |-> d.recv[1].n, t |-> d.recv[1].t, ptr |-> d.recv[1].ptr]>>,
          sig |-> IntendSig(own, d.sig)]
    ELSE [k |-> d.k, doc |-> d.doc,
          specs |-> [i \in DOMAIN d.specs |-> IntendSpec(prog, own, d.k, d.specs[i])]]

Intended(prog, f) ==
    LET fl == FileOf(prog, f)
    IN [i \in DOMAIN fl.decls |-> IntendDecl(prog, fl.path, fl.decls[i])]

\* the items of all code in a declaration, a sequence of sequences
CodeOf(prog, d) ==
    IF d.k = "func" THEN <<Items(prog, d.body, 1)>>
    ELSE [i \in DOMAIN d.specs |-> IF d.k = "type" \/ d.specs[i].init = <<>> THEN <<>>
                                   ELSE InitItems(prog, d.specs[i].init[1])]

RECURSIVE FlatRefs(_, _)
FlatRefs(cs, n) == IF n > Len(cs) THEN <<>> ELSE RefsItems(cs[n], 1) \o FlatRefs(cs, n + 1)

SpecRefs(prog, k, s) ==
    IF k = "type" THEN RefsT(BodyOf(prog, s))
    ELSE IF s.ty = <<>> THEN <<>> ELSE RefsT(TyOf(prog, s.ty[1]))
RECURSIVE SpecsRefs(_, _, _, _)
SpecsRefs(prog, k, ss, n) == IF n > Len(ss) THEN <<>> ELSE SpecRefs(prog, k, ss[n]) \o SpecsRefs(prog, k, ss, n + 1)

\* all references of a declaration
DeclRefs(prog, d) ==
    (IF d.k = "func" THEN RefsSig(d.sig) ELSE SpecsRefs(prog, d.k, d.specs, 1))
    \o FlatRefs(CodeOf(prog, d), 1)

RECURSIVE AllRefs(_, _, _)
AllRefs(prog, ds, n) == IF n > Len(ds) THEN <<>> ELSE DeclRefs(prog, ds[n]) \o AllRefs(prog, ds, n + 1)

\* the import paths that file f must import
NeededBy(prog, f) ==
    LET fl == FileOf(prog, f)
    IN PathsOf(fl.path, AllRefs(prog, fl.decls, 1))
       \cup ({ fl.regs[i].p : i \in DOMAIN fl.regs } \ {fl.path})

----------------------------------------------------------------------------
(* What a generated file denotes.  o is its syntax tree.                    *)
TrueName(prog, p) == LET i == CHOOSE j \in DOMAIN prog.world : prog.world[j].p = p IN prog.world[i].n
Known(prog, p)    == \E j \in DOMAIN prog.world : prog.world[j].p = p

\* qualifier -> path, by import declaration
BoundName(prog, im) == IF im.a # "" THEN im.a ELSE IF Known(prog, im.p) THEN TrueName(prog, im.p) ELSE "!unknown " \o im.p
Bindings(prog, o) ==
    LET S == { <<BoundName(prog, o.imports[i]), o.imports[i].p>> : i \in DOMAIN o.imports }
    IN [q \in { b[1] : b \in S } |-> (CHOOSE b \in S : b[1] = q)[2]]

ResolveT(imps, t)   == MapT([op |-> "resolve", own |-> "", imps |-> imps], t)
ResolveSig(imps, s) == MapSig([op |-> "resolve", own |-> "", imps |-> imps], s)

\* the comment of a declaration without parentheses belongs to its only spec
DenotedSpec(imps, k, s, doc) ==
    IF k = "type"
    THEN [doc |-> doc, name |-> s.name, alias |-> s.alias, ty |-> ResolveT(imps, s.ty)]
    ELSE [doc |-> doc, names |-> s.names, ty |-> IF s.ty = <<>> THEN <<>> ELSE <<ResolveT(imps, s.ty[1])>>]

DenotedDecl(imps, d) ==
    IF d.k = "func"
    THEN [k |-> "func", doc |-> d.doc, name |-> d.name,
          recv |-> [i \in DOMAIN d.recv |-> [n |-> d.recv[i].n, ptr |-> d.recv[i].ptr,
                      t |-> IF d.recv[i].t.k = "named" /\ d.recv[i].t.q = "" THEN d.recv[i].t.name ELSE "!not a local name"]],
          sig |-> ResolveSig(imps, d.sig)]
    ELSE [k |-> d.k, doc |-> IF d.paren THEN d.doc ELSE <<>>,
          specs |-> [i \in DOMAIN d.specs |-> DenotedSpec(imps, d.k, d.specs[i], IF d.paren THEN d.specs[i].doc ELSE d.doc)]]

Denoted(imps, o) == [i \in DOMAIN o.decls |-> DenotedDecl(imps, o.decls[i])]

\* without packages

BlindDecl(d) ==
    LET B(t) == MapT([op |-> "nopkg"], t)
    IN IF d.k = "func" THEN [d EXCEPT !.sig = MapSig([op |-> "nopkg"], @)]
       ELSE IF d.k = "type" THEN [d EXCEPT !.specs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ty = B(@)]]]
       ELSE [d EXCEPT !.specs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ty = [j \in DOMAIN @ |-> B(@[j])]]]]

DenotedRefs(ds) ==
    LET One(d) == IF d.k = "func" THEN SeqRange(RefsSig(d.sig))
                  ELSE UNION { IF d.k = "type" THEN SeqRange(RefsT(d.specs[i].ty))
                               ELSE UNION { SeqRange(RefsT(t)) : t \in SeqRange(d.specs[i].ty) } : i \in DOMAIN d.specs }
    IN UNION { One(ds[i]) : i \in DOMAIN ds }

----------------------------------------------------------------------------
(* Does a token list say what the items say?  With loose, packages are not  *)
(* looked at.                                                               *)
Semi(ts, j) == j <= Len(ts) /\ ts[j] = [c |-> "op", s |-> ";"]
RECURSIVE SkipSemi(_, _)
SkipSemi(ts, j) == IF Semi(ts, j) THEN SkipSemi(ts, j + 1) ELSE j

\* position after the reference, or 0
RefAt(own, imps, loose, sym, ts, j) ==
    LET local == sym.p = "" \/ sym.p = own
        long  == Id(ts, j) /\ Op(ts, j + 1, ".") /\ Is(ts, j + 2, "id", sym.name)
        short == Is(ts, j, "id", sym.name)
    IN IF loose THEN (IF long THEN j + 3 ELSE IF short THEN j + 1 ELSE 0)
       ELSE IF local THEN (IF short THEN j + 1 ELSE 0)
       ELSE IF long /\ ts[j].s \in DOMAIN imps THEN (IF imps[ts[j].s] = sym.p THEN j + 3 ELSE 0)
       ELSE 0

TypeAt(own, imps, loose, unord, t, ts, j) ==
    LET r == PType(ts, j)
        G(x) == IF unord THEN UnordT(x) ELSE x
        F(x) == G(IF loose THEN MapT([op |-> "nopkg"], x) ELSE x)
    IN IF r.ok THEN (IF F(ResolveT(imps, r.t)) = F(IntendT(own, UndocT(t))) THEN r.i ELSE 0) ELSE 0

\* the signature as a template shows it: types only, variadic ones as slices
Shown(s) == [args |-> [i \in DOMAIN s.args |-> [s.args[i] EXCEPT !.n = ""]],
             res  |-> [i \in DOMAIN s.res |-> [s.res[i] EXCEPT !.n = ""]], var |-> FALSE]

ArgAt(own, imps, loose, x, ts, j) ==
    CASE x.m = "ref"  -> RefAt(own, imps, loose, x.sym, ts, j)
      [] x.m = "mref" -> LET k == RefAt(own, imps, loose, x.sym, ts, j)
                         IN IF k # 0 /\ Op(ts, k, ".") /\ Is(ts, k + 1, "id", x.meth) THEN k + 2 ELSE 0
      [] x.m = "pkg"  -> IF ~Id(ts, j) THEN 0 ELSE IF loose THEN j + 1
                         ELSE IF ts[j].s \in DOMAIN imps THEN (IF imps[ts[j].s] = x.sym.p THEN j + 1 ELSE 0) ELSE 0
      [] x.m = "type" -> TypeAt(own, imps, loose, x.unord, x.t, ts, j)
      [] x.m = "sig"  -> TypeAt(own, imps, loose, FALSE, [k |-> "func", sig |-> Shown(x.sig)], ts, j)
      [] x.m = "word" -> IF Is(ts, j, "id", x.s) THEN j + 1 ELSE 0
      [] x.m = "num"  -> IF Is(ts, j, "lit", x.s) THEN j + 1 ELSE 0

RECURSIVE Says(_, _, _, _, _, _, _)
Says(own, imps, loose, is, n, ts, j0) ==
    LET j == SkipSemi(ts, j0)
    IN IF n > Len(is) THEN j = Len(ts) + 1
       ELSE IF is[n].i = "tok" THEN At(ts, j) = is[n].tok /\ Says(own, imps, loose, is, n + 1, ts, j + 1)
       ELSE LET k == ArgAt(own, imps, loose, is[n].x, ts, j)
            IN k # 0 /\ Says(own, imps, loose, is, n + 1, ts, k)

\* the code texts of a declaration, aligned with CodeOf
TextsOf(d) == IF d.k = "func" THEN <<d.body>>
              ELSE [i \in DOMAIN d.specs |-> IF d.k = "type" \/ d.specs[i].init = <<>> THEN <<>> ELSE d.specs[i].init[1]]
=============================================================================
