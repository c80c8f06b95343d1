----------------------------- MODULE SmallTData -----------------------------
(* Types and values of template data, by what they are composed of.  An     *)
(* item: d, the type; v, the value; cmp: usable as a key.                   *)
EXTENDS GoTypes, Integers

TN(p, q, n) == [k |-> "named", p |-> p, q |-> q, name |-> n]
X == [p |-> "a/foo", q |-> "foo", name |-> "T"]
Y == [p |-> "b/foo", q |-> "foo", name |-> "U"]
O == [p |-> "own", q |-> "own", name |-> "T"]
K(k) == [k |-> k]
I(d, v, cmp) == [d |-> d, v |-> v, cmp |-> cmp]
SigOf(t) == [args |-> <<[n |-> "a", t |-> t]>>, res |-> <<[n |-> "", t |-> t]>>, var |-> FALSE]
T(s) == TN(s.p, s.q, s.name)
InIface(i, d, v, cmp) == I(K(i), [d |-> <<d>>, vs |-> <<v>>], cmp)

Refs(s) == <<
    I(K("Symbol"), s, TRUE), I(K("MethodRef"), s @@ [m |-> "Do"], TRUE), I(K("Package"), [p |-> s.p, q |-> s.q], TRUE),
    I(K("Signature"), [sig |-> SigOf([k |-> "slice", e |-> T(s)])], FALSE),
    I(K("ConstSpec"), s @@ [n |-> 1], FALSE), I(K("VarSpec"), s @@ [n |-> 1], FALSE), I(K("TypeSpec"), s @@ [n |-> 1], FALSE),
    I(K("FuncSpec"), s @@ [n |-> 1], FALSE), I(K("TypeSpec"), [t |-> [k |-> "ptr", e |-> T(s)]], FALSE),
    I(K("Embed"), s, TRUE), I(K("Method"), [m |-> "M", sig |-> SigOf(T(s))], FALSE),
    InIface("TypeName", K("tn"), [t |-> [k |-> "map", key |-> [k |-> "basic", b |-> "int"], e |-> T(s)]], TRUE),
    InIface("any", K("tn"), [t |-> T(s)], TRUE),
    InIface("any", K("gt"), [t |-> [k |-> "slice", e |-> T(s)]], TRUE),
    InIface("any", K("gobj"), s @@ [n |-> 0], TRUE), InIface("any", K("gobj"), s @@ [m |-> "Do", n |-> 1], TRUE),
    InIface("Stringer", K("gobj"), s @@ [n |-> 1], TRUE), InIface("gtype", K("gt"), [t |-> T(s)], TRUE),
    InIface("any", K("gpkg"), s, TRUE), I(K("gpkg"), s, TRUE), I(K("gnamed"), s, TRUE), I(K("tdSym"), [vs |-> << [p |-> s.p, q |-> s.q], [s |-> s.name] >>], TRUE) >>
Plain == << I(K("int"), [s |-> "3"], TRUE), I(K("Imports"), [p |-> "im/ports", q |-> "ports"], FALSE), I(K("any"), [s |-> ""], TRUE),
            InIface("any", K("rt"), [t |-> TN("time", "time", "Duration")], TRUE), InIface("rtype", K("rt"), [t |-> TN("time", "time", "Duration")], TRUE),
            I(K("Symbol"), [s |-> ""], TRUE), I(K("TypeSpec"), [s |-> ""], FALSE) >>
Leaves == Refs(X) \o Refs(O) \o Plain

Field(n, t) == [n |-> n, t |-> t]
Str(fs, vs, cmp) == I([k |-> "struct", fs |-> fs], [vs |-> vs], cmp)
IntT == K("int")
IntV == [s |-> "7"]
\* the ways of putting an item in something
Ways == {"ptr", "slice", "array", "mapval", "mapkey", "exported", "unexported", "any", "nilptr", "both"}
Can(w, i) == w = "mapkey" => i.cmp
Put(w, i) ==
    CASE w = "ptr"    -> I([k |-> "ptr", e |-> i.d], [vs |-> <<i.v>>], TRUE)
      [] w = "nilptr" -> I([k |-> "ptr", e |-> i.d], [vs |-> <<>>], TRUE)
      [] w = "slice"  -> I([k |-> "slice", e |-> i.d], [vs |-> <<[s |-> ""], i.v, i.v>>], FALSE)
      [] w = "array"  -> I([k |-> "array", n |-> 2, e |-> i.d], [vs |-> <<i.v, [s |-> ""]>>], i.cmp)
      [] w = "mapval" -> I([k |-> "map", key |-> IntT, e |-> i.d], [ks |-> <<[s |-> "1"], [s |-> "2"]>>, vs |-> <<[s |-> ""], i.v>>], FALSE)
      [] w = "mapkey" -> I([k |-> "map", key |-> i.d, e |-> IntT], [ks |-> <<i.v>>, vs |-> <<IntV>>], FALSE)
      [] w = "exported"   -> Str(<<Field("A", IntT), Field("B", i.d)>>, <<IntV, i.v>>, i.cmp)
      [] w = "unexported" -> Str(<<Field("a", i.d), Field("B", IntT)>>, <<i.v, IntV>>, i.cmp)
      [] w = "any"    -> InIface("any", i.d, i.v, i.cmp)
      [] w = "both"   -> Str(<<Field("A", i.d), Field("b", K("Symbol"))>>, <<i.v, Y>>, i.cmp)
\* interfaces do not hold interfaces
IsIface(d) == d.k \in {"any", "TypeName", "Stringer", "gtype", "rtype"}
Fit(w, i) == Can(w, i) /\ (w = "any" => ~IsIface(i.d))
=============================================================================
