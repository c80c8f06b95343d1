------------------------------ MODULE GoTypes -------------------------------
(* Abstract Go types, their grammar, and the operations on them.            *)
(*                                                                          *)
(* A type is a record:                                                      *)
(*   [k |-> "basic", b]            predeclared basic type                   *)
(*   [k |-> "named", p, q, name]   import path, qualifier, name             *)
(*   [k |-> "alias", p, q, name, e]    (go/types only) alias of e           *)
(*   [k |-> "ptr" | "slice", e]                                             *)
(*   [k |-> "array", n, e]         n: length, as text (may exceed TLC ints) *)
(*   [k |-> "map", key, e]                                                  *)
(*   [k |-> "chan", dir, e]        dir: "both", "send", "recv"              *)
(*   [k |-> "func", sig]           sig: [args, res : Seq([n, t]), var]      *)
(*   [k |-> "struct", fields]      fields: Seq([n, t, tag, doc])            *)
(*   [k |-> "iface", elems]        elems: Seq of                            *)
(*                                   [k |-> "embed", doc, sym]              *)
(*                                   [k |-> "method", doc, n, sig]          *)
(* A symbol (sym) is [p, q, name].                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Text

Basics == {"bool", "string", "int", "int8", "int16", "int32", "int64", "uint",
           "uint8", "uint16", "uint32", "uint64", "uintptr", "float32",
           "float64", "complex64", "complex128"}

Basic(b)       == [k |-> "basic", b |-> b]
Named(p, q, n) == [k |-> "named", p |-> p, q |-> q, name |-> n]
Sym(p, q, n)   == [p |-> p, q |-> q, name |-> n]

----------------------------------------------------------------------------
(* Generic rewriting of the references inside a type.  A mapping m is a     *)
(* record whose field op says what happens to a reference:                  *)
(*   "qual"    give it the qualifier bound by the import table m.tab in a   *)
(*             file of package m.own                                        *)
(*   "resolve" what a reference in a file of package m.own whose import     *)
(*             declarations bind m.imps (qualifier -> path) denotes         *)
(*   "intend"  what a reference supplied by path is meant to denote there   *)
(*   "text"    what is left of a reference in the text of a type            *)
(*   "noqual"  forget the qualifier                                         *)
(*   "nopkg"   forget the package                                           *)
(* Denotations have q = "", and p = "" for own and predeclared elements.    *)
Local(s) == s.p = "" /\ s.q = ""

QualOf(m, s) == IF Local(s) THEN s.q
                ELSE IF s.p = m.own THEN ""
                ELSE IF s.p \in DOMAIN m.tab THEN m.tab[s.p]
                ELSE "!unregistered"

MapRef(m, s) ==
    CASE m.op = "qual"    -> [s EXCEPT !.q = QualOf(m, s)]
      [] m.op = "resolve" -> [s EXCEPT !.q = "",
                                       !.p = IF s.q = "" THEN ""
                                             ELSE IF s.q \in DOMAIN m.imps THEN m.imps[s.q]
                                             ELSE "!unresolved " \o s.q]
      [] m.op = "intend"  -> [s EXCEPT !.q = "", !.p = IF s.p = m.own THEN "" ELSE s.p]
      [] m.op = "text"    -> [s EXCEPT !.p = ""]
      [] m.op = "noqual"  -> [s EXCEPT !.q = ""]
      [] m.op = "nopkg"   -> [s EXCEPT !.p = "", !.q = ""]
      [] OTHER            -> s

RECURSIVE MapT(_, _), MapSig(_, _), MapArgs(_, _)
MapT(m, t) ==
    CASE t.k = "named"            -> MapRef(m, t)
      [] t.k \in {"ptr", "slice", "array", "chan"} -> [t EXCEPT !.e = MapT(m, @)]
      [] t.k = "map"              -> [t EXCEPT !.key = MapT(m, @), !.e = MapT(m, @)]
      [] t.k = "func"             -> [t EXCEPT !.sig = MapSig(m, @)]
      [] t.k = "struct"           -> [t EXCEPT !.fields =
                                        [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = MapT(m, @)]]]
      [] t.k = "iface"            -> [t EXCEPT !.elems =
                                        [i \in DOMAIN @ |->
                                           IF @[i].k = "embed" THEN [@[i] EXCEPT !.sym = MapRef(m, @)]
                                           ELSE [@[i] EXCEPT !.sig = MapSig(m, @)]]]
      [] OTHER                    -> t
MapArgs(m, as) == [i \in DOMAIN as |-> [as[i] EXCEPT !.t = MapT(m, @)]]
MapSig(m, s)   == [s EXCEPT !.args = MapArgs(m, @), !.res = MapArgs(m, @)]

----------------------------------------------------------------------------
(* The references inside a type, in order of occurrence.                    *)
RECURSIVE RefsT(_), RefsSig(_), RefsArgs(_, _), RefsFields(_, _), RefsElems(_, _)
RefsArgs(as, i)   == IF i > Len(as) THEN <<>> ELSE RefsT(as[i].t) \o RefsArgs(as, i + 1)
RefsSig(s)        == RefsArgs(s.args, 1) \o RefsArgs(s.res, 1)
RefsFields(fs, i) == IF i > Len(fs) THEN <<>> ELSE RefsT(fs[i].t) \o RefsFields(fs, i + 1)
RefsElems(es, i)  == IF i > Len(es) THEN <<>>
                     ELSE (IF es[i].k = "embed" THEN <<es[i].sym>> ELSE RefsSig(es[i].sig))
                          \o RefsElems(es, i + 1)
RefsT(t) ==
    CASE t.k = "named"  -> <<Sym(t.p, t.q, t.name)>>
      [] t.k \in {"ptr", "slice", "array", "chan"} -> RefsT(t.e)
      [] t.k = "map"    -> RefsT(t.key) \o RefsT(t.e)
      [] t.k = "func"   -> RefsSig(t.sig)
      [] t.k = "struct" -> RefsFields(t.fields, 1)
      [] t.k = "iface"  -> RefsElems(t.elems, 1)
      [] OTHER          -> <<>>

SeqRange(s) == { s[i] : i \in DOMAIN s }

\* import paths that an import table of package own needs for these references
PathsOf(own, refs) == { r.p : r \in { x \in SeqRange(refs) : ~Local(x) /\ x.p # own } }

----------------------------------------------------------------------------
(* When only some parameters (or results) of a list are named, Go syntax    *)
(* requires the others to be named, too: they become "_".                   *)
RECURSIVE NormT(_), NormSig(_)
NormArgs(as) == LET some == \E i \in DOMAIN as : as[i].n # ""
                IN [i \in DOMAIN as |->
                      [n |-> IF some /\ as[i].n = "" THEN "_" ELSE as[i].n,
                       t |-> NormT(as[i].t)]]
NormSig(s)   == [s EXCEPT !.args = NormArgs(@), !.res = NormArgs(@)]
NormT(t) ==
    CASE t.k \in {"ptr", "slice", "array", "chan"} -> [t EXCEPT !.e = NormT(@)]
      [] t.k = "map"    -> [t EXCEPT !.key = NormT(@), !.e = NormT(@)]
      [] t.k = "func"   -> [t EXCEPT !.sig = NormSig(@)]
      [] t.k = "struct" -> [t EXCEPT !.fields = [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = NormT(@)]]]
      [] t.k = "iface"  -> [t EXCEPT !.elems = [i \in DOMAIN @ |->
                              IF @[i].k = "embed" THEN @[i] ELSE [@[i] EXCEPT !.sig = NormSig(@)]]]
      [] OTHER          -> t

(* Without comments                                                         *)
RECURSIVE UndocT(_), UndocSig(_)
UndocArgs(as) == [i \in DOMAIN as |-> [as[i] EXCEPT !.t = UndocT(@)]]
UndocSig(s)   == [s EXCEPT !.args = UndocArgs(@), !.res = UndocArgs(@)]
UndocT(t) ==
    CASE t.k \in {"ptr", "slice", "array", "chan"} -> [t EXCEPT !.e = UndocT(@)]
      [] t.k = "map"    -> [t EXCEPT !.key = UndocT(@), !.e = UndocT(@)]
      [] t.k = "func"   -> [t EXCEPT !.sig = UndocSig(@)]
      [] t.k = "struct" -> [t EXCEPT !.fields = [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = UndocT(@), !.doc = <<>>]]]
      [] t.k = "iface"  -> [t EXCEPT !.elems = [i \in DOMAIN @ |->
                              IF @[i].k = "embed" THEN [@[i] EXCEPT !.doc = <<>>]
                              ELSE [@[i] EXCEPT !.doc = <<>>, !.sig = UndocSig(@)]]]
      [] OTHER          -> t

(* The method sets of interfaces are unordered.                             *)
RECURSIVE UnordT(_), UnordSig(_)
UnordArgs(as) == [i \in DOMAIN as |-> [as[i] EXCEPT !.t = UnordT(@)]]
UnordSig(s)   == [s EXCEPT !.args = UnordArgs(@), !.res = UnordArgs(@)]
UnordT(t) ==
    CASE t.k \in {"ptr", "slice", "array", "chan"} -> [t EXCEPT !.e = UnordT(@)]
      [] t.k = "map"    -> [t EXCEPT !.key = UnordT(@), !.e = UnordT(@)]
      [] t.k = "func"   -> [t EXCEPT !.sig = UnordSig(@)]
      [] t.k = "struct" -> [t EXCEPT !.fields = [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = UnordT(@)]]]
      [] t.k = "iface"  -> [k |-> "iface", n |-> Len(t.elems), elems |->
                              { IF t.elems[i].k = "embed" THEN <<"embed", t.elems[i].sym>>
                                ELSE <<"method", t.elems[i].n, UnordSig(t.elems[i].sig)>> : i \in DOMAIN t.elems }]
      [] OTHER          -> t

----------------------------------------------------------------------------
(* Aliases (of go/types) denote themselves: references by their own name.   *)
RECURSIVE NameT(_), NameSig(_)
NameArgs(as) == [i \in DOMAIN as |-> [as[i] EXCEPT !.t = NameT(@)]]
NameSig(s)   == [s EXCEPT !.args = NameArgs(@), !.res = NameArgs(@)]
NameT(t) ==
    CASE t.k = "alias"  -> Named(t.p, t.q, t.name)
      [] t.k \in {"ptr", "slice", "array", "chan"} -> [t EXCEPT !.e = NameT(@)]
      [] t.k = "map"    -> [t EXCEPT !.key = NameT(@), !.e = NameT(@)]
      [] t.k = "func"   -> [t EXCEPT !.sig = NameSig(@)]
      [] t.k = "struct" -> [t EXCEPT !.fields = [i \in DOMAIN @ |-> [@[i] EXCEPT !.t = NameT(@)]]]
      [] t.k = "iface"  -> [t EXCEPT !.elems = [i \in DOMAIN @ |->
                              IF @[i].k = "embed" THEN @[i] ELSE [@[i] EXCEPT !.sig = NameSig(@)]]]
      [] OTHER          -> t

----------------------------------------------------------------------------
(* Well-formedness of constructor input.                                    *)
VariadicOK(s) == s.var => /\ Len(s.args) > 0
                          /\ s.args[Len(s.args)].t.k = "slice"

(* What the accessors of a type report.  Optional parts are sequences of    *)
(* length 0 or 1.                                                           *)
NoSym == Sym("", "", "")
RECURSIVE Acc(_), AccSig(_)
AccArgs(as) == [i \in DOMAIN as |-> [n |-> as[i].n, t |-> Acc(as[i].t)]]
AccSig(s)   == [args |-> AccArgs(s.args), res |-> AccArgs(s.res), var |-> s.var]
RECURSIVE SelectK(_, _, _)
SelectK(es, k, i) == IF i > Len(es) THEN <<>>
                     ELSE (IF es[i].k = k THEN <<es[i]>> ELSE <<>>) \o SelectK(es, k, i + 1)
Acc(t) ==
    [kind    |-> t.k,
     sym     |-> IF t.k = "named" THEN Sym(t.p, t.q, t.name) ELSE NoSym,
     elem    |-> IF t.k \in {"ptr", "slice", "array", "map", "chan"} THEN <<Acc(t.e)>> ELSE <<>>,
     key     |-> IF t.k = "map" THEN <<Acc(t.key)>> ELSE <<>>,
     len     |-> IF t.k = "array" THEN t.n ELSE "-1",
     dir     |-> IF t.k = "chan" THEN t.dir ELSE "none",
     basic   |-> IF t.k = "basic" THEN t.b ELSE "invalid",
     sig     |-> IF t.k = "func" THEN <<AccSig(t.sig)>> ELSE <<>>,
     fields  |-> IF t.k = "struct"
                 THEN [i \in DOMAIN t.fields |-> [n |-> t.fields[i].n, t |-> Acc(t.fields[i].t), tag |-> t.fields[i].tag]]
                 ELSE <<>>,
     methods |-> IF t.k = "iface"
                 THEN LET ms == SelectK(t.elems, "method", 1)
                      IN [i \in DOMAIN ms |-> [n |-> ms[i].n, sig |-> AccSig(ms[i].sig)]]
                 ELSE <<>>,
     embeds  |-> IF t.k = "iface"
                 THEN LET es == SelectK(t.elems, "embed", 1) IN [i \in DOMAIN es |-> es[i].sym]
                 ELSE <<>>]

----------------------------------------------------------------------------
(* Go's grammar for types, as a recursive descent parser over tokens        *)
(* [c, s]: class "id", "kw", "op", "str" (unquoted), "lit".  Each operator  *)
(* yields [ok, i] plus what was parsed; i is the next position.             *)
(* Parsed references have p = "" (unknown) and the qualifier in q.          *)
NoTok      == [c |-> "eof", s |-> ""]
At(ts, i)  == IF i <= Len(ts) THEN ts[i] ELSE NoTok
Is(ts, i, c, s) == At(ts, i).c = c /\ At(ts, i).s = s
Op(ts, i, s)    == Is(ts, i, "op", s)
Kw(ts, i, s)    == Is(ts, i, "kw", s)
Id(ts, i)       == At(ts, i).c = "id"
Fail            == [ok |-> FALSE, i |-> 0]

StartsType(ts, i) ==
    \/ Id(ts, i)
    \/ At(ts, i).c = "kw" /\ At(ts, i).s \in {"map", "chan", "func", "struct", "interface"}
    \/ At(ts, i).c = "op" /\ At(ts, i).s \in {"*", "[", "<-", "("}

\* a possibly qualified name
PName(ts, i) ==
    IF ~Id(ts, i) THEN Fail
    ELSE IF Op(ts, i + 1, ".") /\ Id(ts, i + 2)
         THEN [ok |-> TRUE, i |-> i + 3, sym |-> Sym("", ts[i].s, ts[i + 2].s)]
         ELSE [ok |-> TRUE, i |-> i + 1, sym |-> Sym("", "", ts[i].s)]

RECURSIVE PType(_, _), PParams(_, _, _), PSig(_, _), PFields(_, _, _), PElems(_, _, _)

PType(ts, i) ==
    LET Wrap(j, F(_)) == LET r == PType(ts, j)
                         IN IF r.ok THEN [ok |-> TRUE, i |-> r.i, t |-> F(r.t)] ELSE Fail
    IN
    CASE Id(ts, i) ->
           LET r == PName(ts, i)
           IN [ok |-> TRUE, i |-> r.i,
               t  |-> IF r.sym.q = "" /\ r.sym.name \in Basics THEN Basic(r.sym.name)
                      ELSE IF r.sym.q = "" /\ r.sym.name = "byte" THEN Basic("uint8")
                      ELSE IF r.sym.q = "" /\ r.sym.name = "rune" THEN Basic("int32")
                      ELSE Named("", r.sym.q, r.sym.name)]
      [] Op(ts, i, "(") ->
           LET r == PType(ts, i + 1)
           IN IF r.ok /\ Op(ts, r.i, ")") THEN [r EXCEPT !.i = @ + 1] ELSE Fail
      [] Op(ts, i, "*") -> Wrap(i + 1, LAMBDA e : [k |-> "ptr", e |-> e])
      [] Op(ts, i, "[") /\ Op(ts, i + 1, "]") -> Wrap(i + 2, LAMBDA e : [k |-> "slice", e |-> e])
      [] Op(ts, i, "[") /\ At(ts, i + 1).c = "lit" /\ Op(ts, i + 2, "]") ->
           Wrap(i + 3, LAMBDA e : [k |-> "array", n |-> ts[i + 1].s, e |-> e])
      [] Kw(ts, i, "map") /\ Op(ts, i + 1, "[") ->
           LET key == PType(ts, i + 2)
           IN IF key.ok /\ Op(ts, key.i, "]")
              THEN Wrap(key.i + 1, LAMBDA e : [k |-> "map", key |-> key.t, e |-> e])
              ELSE Fail
      [] Op(ts, i, "<-") /\ Kw(ts, i + 1, "chan") ->
           Wrap(i + 2, LAMBDA e : [k |-> "chan", dir |-> "recv", e |-> e])
      \* the leftmost chan binds the arrow
      [] Kw(ts, i, "chan") /\ Op(ts, i + 1, "<-") ->
           Wrap(i + 2, LAMBDA e : [k |-> "chan", dir |-> "send", e |-> e])
      [] Kw(ts, i, "chan") -> Wrap(i + 1, LAMBDA e : [k |-> "chan", dir |-> "both", e |-> e])
      [] Kw(ts, i, "func") /\ Op(ts, i + 1, "(") ->
           LET s == PSig(ts, i + 1)
           IN IF s.ok THEN [ok |-> TRUE, i |-> s.i, t |-> [k |-> "func", sig |-> s.sig]] ELSE Fail
      [] Kw(ts, i, "struct") /\ Op(ts, i + 1, "{") ->
           LET r == PFields(ts, i + 2, <<>>)
           IN IF r.ok THEN [ok |-> TRUE, i |-> r.i, t |-> [k |-> "struct", fields |-> r.fields]] ELSE Fail
      [] Kw(ts, i, "interface") /\ Op(ts, i + 1, "{") ->
           LET r == PElems(ts, i + 2, <<>>)
           IN IF r.ok THEN [ok |-> TRUE, i |-> r.i, t |-> [k |-> "iface", elems |-> r.elems]] ELSE Fail
      [] OTHER -> Fail

\* the entries of a parameter list, up to and including ")"; acc: Seq([n, t, dots])
PParams(ts, i, acc) ==
    IF Op(ts, i, ")") THEN [ok |-> TRUE, i |-> i + 1, es |-> acc]
    ELSE LET named == /\ Id(ts, i)
                      /\ ~(At(ts, i + 1).c = "op" /\ At(ts, i + 1).s \in {",", ")", "."})
             j     == IF named THEN i + 1 ELSE i
             dots  == Op(ts, j, "...")
             r     == PType(ts, IF dots THEN j + 1 ELSE j)
             e     == [n |-> IF named THEN ts[i].s ELSE "", t |-> r.t, dots |-> dots]
         IN IF ~r.ok THEN Fail
            ELSE IF Op(ts, r.i, ",") THEN PParams(ts, r.i + 1, Append(acc, e))
            ELSE IF Op(ts, r.i, ")") THEN [ok |-> TRUE, i |-> r.i + 1, es |-> Append(acc, e)]
            ELSE Fail

\* a signature, from "("
PSig(ts, i) ==
    LET ps == PParams(ts, i + 1, <<>>)
        AllOrNone(es) == \/ \A j \in DOMAIN es : es[j].n = ""
                         \/ \A j \in DOMAIN es : es[j].n # ""
        DotsLast(es)  == \A j \in DOMAIN es : es[j].dots => j = Len(es)
        Strip(es)     == [j \in DOMAIN es |-> [n |-> es[j].n,
                            t |-> IF es[j].dots THEN [k |-> "slice", e |-> es[j].t] ELSE es[j].t]]
    IN IF ~ps.ok THEN Fail
       ELSE LET none == [ok |-> TRUE, i |-> ps.i, es |-> <<>>]
                rs == IF Op(ts, ps.i, "(") THEN PParams(ts, ps.i + 1, <<>>)
                      ELSE IF StartsType(ts, ps.i)
                      THEN LET r == PType(ts, ps.i)
                           IN IF r.ok THEN [ok |-> TRUE, i |-> r.i, es |-> <<[n |-> "", t |-> r.t, dots |-> FALSE]>>]
                              ELSE Fail
                      ELSE none
            IN IF ~rs.ok THEN Fail
               ELSE IF ~(AllOrNone(ps.es) /\ AllOrNone(rs.es) /\ DotsLast(ps.es)
                         /\ \A j \in DOMAIN rs.es : ~rs.es[j].dots) THEN Fail
               ELSE [ok |-> TRUE, i |-> rs.i,
                     sig |-> [args |-> Strip(ps.es), res |-> Strip(rs.es),
                              var |-> \E j \in DOMAIN ps.es : ps.es[j].dots]]

\* after a field or interface element: separator or the closing brace
SepOK(ts, i) == Op(ts, i, ";") \/ Op(ts, i, "}")

PFields(ts, i, acc) ==
    IF Op(ts, i, "}") THEN [ok |-> TRUE, i |-> i + 1, fields |-> acc]
    ELSE LET embedded == \/ Op(ts, i, "*")
                         \/ Id(ts, i) /\ \/ At(ts, i + 1).c = "str"
                                         \/ At(ts, i + 1).c = "op" /\ At(ts, i + 1).s \in {";", "}", "."}
             r        == PType(ts, IF embedded THEN i ELSE i + 1)
         IN IF ~(embedded \/ Id(ts, i)) \/ ~r.ok THEN Fail
            ELSE LET tagged == At(ts, r.i).c = "str"
                     j      == IF tagged THEN r.i + 1 ELSE r.i
                     f      == [n |-> IF embedded THEN "" ELSE ts[i].s, t |-> r.t,
                                tag |-> IF tagged THEN ts[r.i].s ELSE "", doc |-> <<>>]
                 IN IF ~SepOK(ts, j) THEN Fail
                    ELSE PFields(ts, IF Op(ts, j, ";") THEN j + 1 ELSE j, Append(acc, f))

PElems(ts, i, acc) ==
    IF Op(ts, i, "}") THEN [ok |-> TRUE, i |-> i + 1, elems |-> acc]
    ELSE IF ~Id(ts, i) THEN Fail
    ELSE IF Op(ts, i + 1, "(")
    THEN LET s == PSig(ts, i + 1)
         IN IF ~s.ok THEN Fail
            ELSE IF ~SepOK(ts, s.i) THEN Fail
            ELSE PElems(ts, IF Op(ts, s.i, ";") THEN s.i + 1 ELSE s.i,
                        Append(acc, [k |-> "method", doc |-> <<>>, n |-> ts[i].s, sig |-> s.sig]))
    ELSE LET n == PName(ts, i)
         IN IF ~SepOK(ts, n.i) THEN Fail
            ELSE PElems(ts, IF Op(ts, n.i, ";") THEN n.i + 1 ELSE n.i,
                        Append(acc, [k |-> "embed", doc |-> <<>>, sym |-> n.sym]))

\* the whole token list is a type
ParseType(ts) == LET r == PType(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE Fail

----------------------------------------------------------------------------
(* Rendering: the tokens of a type's text.  (The conformance checks only    *)
(* need the grammar; rendering is the design that the round-trip theorem    *)
(* ParseType(Render(t)) = NormT(t) is checked of, see MCTypes.)             *)
CONSTANT ParenRecvElem   \* TRUE: "chan (<-chan T)"; FALSE is the mutant

T_id(s) == [c |-> "id", s |-> s]
T_kw(s) == [c |-> "kw", s |-> s]
T_op(s) == [c |-> "op", s |-> s]

RECURSIVE Render(_), RenderSig(_), RenderArgs(_, _, _, _), RenderFields(_, _), RenderElems(_, _)

RenderRef(s) == IF s.q = "" THEN <<T_id(s.name)>> ELSE <<T_id(s.q), T_op("."), T_id(s.name)>>

RenderArgs(as, i, var, some) ==
    IF i > Len(as) THEN <<>>
    ELSE (IF i > 1 THEN <<T_op(",")>> ELSE <<>>)
         \o (IF some THEN <<T_id(IF as[i].n = "" THEN "_" ELSE as[i].n)>> ELSE <<>>)
         \o (IF var /\ i = Len(as) THEN <<T_op("...")>> \o Render(as[i].t.e) ELSE Render(as[i].t))
         \o RenderArgs(as, i + 1, var, some)

RenderSig(s) ==
    LET some(as) == \E i \in DOMAIN as : as[i].n # ""
        paren    == Len(s.res) > 1 \/ some(s.res)
    IN <<T_op("(")>> \o RenderArgs(s.args, 1, s.var, some(s.args)) \o <<T_op(")")>>
       \o (IF paren THEN <<T_op("(")>> ELSE <<>>)
       \o RenderArgs(s.res, 1, FALSE, some(s.res))
       \o (IF paren THEN <<T_op(")")>> ELSE <<>>)

RenderFields(fs, i) ==
    IF i > Len(fs) THEN <<>>
    ELSE (IF i > 1 THEN <<T_op(";")>> ELSE <<>>)
         \o (IF fs[i].n # "" THEN <<T_id(fs[i].n)>> ELSE <<>>)
         \o Render(fs[i].t)
         \o (IF fs[i].tag # "" THEN <<[c |-> "str", s |-> fs[i].tag]>> ELSE <<>>)
         \o RenderFields(fs, i + 1)

RenderElems(es, i) ==
    IF i > Len(es) THEN <<>>
    ELSE (IF i > 1 THEN <<T_op(";")>> ELSE <<>>)
         \o (IF es[i].k = "embed" THEN RenderRef(es[i].sym)
             ELSE <<T_id(es[i].n)>> \o RenderSig(es[i].sig))
         \o RenderElems(es, i + 1)

Render(t) ==
    CASE t.k = "basic"  -> <<T_id(t.b)>>
      [] t.k = "named"  -> RenderRef(t)
      [] t.k = "ptr"    -> <<T_op("*")>> \o Render(t.e)
      [] t.k = "slice"  -> <<T_op("["), T_op("]")>> \o Render(t.e)
      [] t.k = "array"  -> <<T_op("["), [c |-> "lit", s |-> t.n], T_op("]")>> \o Render(t.e)
      [] t.k = "map"    -> <<T_kw("map"), T_op("[")>> \o Render(t.key) \o <<T_op("]")>> \o Render(t.e)
      [] t.k = "chan"   ->
           LET elem == IF ParenRecvElem /\ t.dir = "both" /\ t.e.k = "chan" /\ t.e.dir = "recv"
                       THEN <<T_op("(")>> \o Render(t.e) \o <<T_op(")")>> ELSE Render(t.e)
           IN (IF t.dir = "recv" THEN <<T_op("<-")>> ELSE <<>>) \o <<T_kw("chan")>>
              \o (IF t.dir = "send" THEN <<T_op("<-")>> ELSE <<>>) \o elem
      [] t.k = "func"   -> <<T_kw("func")>> \o RenderSig(t.sig)
      [] t.k = "struct" -> <<T_kw("struct"), T_op("{")>> \o RenderFields(t.fields, 1) \o <<T_op("}")>>
      [] t.k = "iface"  -> <<T_kw("interface"), T_op("{")>> \o RenderElems(t.elems, 1) \o <<T_op("}")>>
=============================================================================
