-------------------------------- MODULE TData -------------------------------
(* Template data: values of Go types that hold references, and what         *)
(* qualifying the references in them means.  A value is a record with its   *)
(* type's name, ty, and kind, k:                                            *)
(*   leaf   [s]           anything that holds no reference                  *)
(*   pkg    [p, q, str]   sym [sym, toks]   mref [sym, m, str]              *)
(*   sig    [sig, nil]    emb [sym, rest]   imeth [sig, rest]               *)
(*   anon   [t, rest]     an unnamed type spec                              *)
(*   elem   [sort, att, p, q, name, str, rest]  a const, var, type or func, *)
(*                        attached to a file of package p, or not           *)
(*   ptr    [v]           v: <<>> or <<value>>                              *)
(*   list   [nil, vs]     slices and arrays                                 *)
(*   map    [nil, es]     es: Seq of [key, e]                               *)
(*   struct [fs]          fs: Seq of [n, exp, v]; exp: exported             *)
(*   iface  [adm, v]      v: <<>> or <<dynamic value>>; adm: which of tn,   *)
(*                        sym, mref, pkg have the methods required          *)
(* Only in interfaces:                                                      *)
(*   tn     [t]           a type name                                       *)
(*   rt, gt [t, s]        a type of reflect or go/types                     *)
(*   gobj   [p, q, name, m, s], gpkg [p, q, s]   of go/types                *)
EXTENDS ImportTable

\* the zero symbol is the empty string
SymToks(s)     == IF s.q = "" /\ s.name = "" THEN <<>> ELSE RenderRef(s)
VTn(t)         == [k |-> "tn", ty |-> "TypeName", t |-> t]
VPkg(p, q)     == [k |-> "pkg", ty |-> "gopoet.Package", p |-> p, q |-> q, str |-> q]
VSym(s)        == [k |-> "sym", ty |-> "gopoet.Symbol", sym |-> s, toks |-> SymToks(s)]
VMref(s, m)    == [k |-> "mref", ty |-> "gopoet.MethodReference", sym |-> s, m |-> m,
                   str |-> (IF s.q = "" THEN s.name ELSE s.q \o "." \o s.name) \o "." \o m]
VPtr(ty, v)    == [k |-> "ptr", ty |-> ty, v |-> <<v>>]

\* as what a value of a foreign kind is rendered
Stands(d) == CASE d.k \in {"rt", "gt"} -> "tn"
               [] d.k = "gpkg"         -> "pkg"
               [] d.k = "gobj"         -> IF d.m = "" THEN "sym" ELSE "mref"
               [] OTHER                -> ""
Foreign(d) == Stands(d) # ""
Replaced(v, d) == \E n \in DOMAIN v.adm : v.adm[n] = Stands(d)
RefSym(d) == Sym(d.p, d.q, d.name)
QName(s)  == IF s.q = "" THEN s.name ELSE s.q \o "." \o s.name

\* m: the mapping of references; deep: unexported fields can be changed, too
RECURSIVE MapD(_, _, _)
Convert(m, d) ==
    CASE d.k \in {"rt", "gt"} -> VTn(MapT(m, NameT(d.t)))
      [] d.k = "gpkg"         -> VPkg(d.p, QualOf(m, Sym(d.p, d.q, "")))
      [] d.k = "gobj"         -> IF d.m = "" THEN VSym(MapRef(m, RefSym(d)))
                                 ELSE VPtr("*gopoet.MethodReference", VMref(MapRef(m, RefSym(d)), d.m))
MapD(m, deep, v) ==
    CASE v.k = "pkg"   -> LET q == QualOf(m, Sym(v.p, v.q, "")) IN [v EXCEPT !.q = q, !.str = q]
      [] v.k = "sym"   -> LET s == MapRef(m, v.sym) IN [v EXCEPT !.sym = s, !.toks = SymToks(s)]
      [] v.k = "mref"  -> LET s == MapRef(m, v.sym) IN [v EXCEPT !.sym = s, !.str = QName(s) \o "." \o v.m]
      [] v.k = "sig"   -> [v EXCEPT !.sig = MapSig(m, @)]
      [] v.k = "emb"   -> [v EXCEPT !.sym = MapRef(m, @)]
      [] v.k = "imeth" -> [v EXCEPT !.sig = MapSig(m, @)]
      [] v.k = "anon"  -> [v EXCEPT !.t = MapT(m, @)]
      [] v.k = "elem"  -> IF ~v.att THEN v ELSE LET s == MapRef(m, RefSym(v)) IN [v EXCEPT !.q = s.q, !.str = QName(s)]
      [] v.k = "tn"    -> [v EXCEPT !.t = MapT(m, @)]
      [] v.k = "ptr"   -> [v EXCEPT !.v = [n \in DOMAIN @ |-> MapD(m, deep, @[n])]]
      [] v.k = "list"  -> [v EXCEPT !.vs = [n \in DOMAIN @ |-> MapD(m, deep, @[n])]]
      [] v.k = "map"   -> [v EXCEPT !.es = [n \in DOMAIN @ |-> [key |-> MapD(m, deep, @[n].key), e |-> MapD(m, deep, @[n].e)]]]
      [] v.k = "struct" -> [v EXCEPT !.fs = [n \in DOMAIN @ |-> IF deep \/ @[n].exp THEN [@[n] EXCEPT !.v = MapD(m, deep, @)] ELSE @[n]]]
      [] v.k = "iface" -> IF v.v = <<>> THEN v
                          ELSE LET d == v.v[1]
                               IN IF ~Foreign(d) THEN [v EXCEPT !.v = <<MapD(m, deep, d)>>]
                                  ELSE IF Replaced(v, d) THEN [v EXCEPT !.v = <<Convert(m, d)>>]
                                  ELSE v
      [] OTHER         -> v

\* the references in a value; those of foreign values that stay as they are, if all
RECURSIVE RefsD(_, _, _), RefsDs(_, _, _, _)
RefsF(d) == CASE d.k \in {"rt", "gt"} -> RefsT(NameT(d.t))
              [] d.k = "gpkg"         -> <<Sym(d.p, d.q, "")>>
              [] d.k = "gobj"         -> <<RefSym(d)>>
RefsDs(deep, all, vs, n) == IF n > Len(vs) THEN <<>> ELSE RefsD(deep, all, vs[n]) \o RefsDs(deep, all, vs, n + 1)
RefsD(deep, all, v) ==
    CASE v.k = "pkg"   -> <<Sym(v.p, v.q, "")>>
      [] v.k \in {"sym", "mref", "emb"}   -> <<v.sym>>
      [] v.k \in {"sig", "imeth"}  -> RefsSig(v.sig)
      [] v.k \in {"anon", "tn"}    -> RefsT(v.t)
      [] v.k = "elem"  -> IF v.att THEN <<RefSym(v)>> ELSE <<>>
      [] v.k = "ptr"   -> RefsDs(deep, all, v.v, 1)
      [] v.k = "list"  -> RefsDs(deep, all, v.vs, 1)
      [] v.k = "map"   -> RefsDs(deep, all, [n \in DOMAIN v.es |-> v.es[n].key] \o [n \in DOMAIN v.es |-> v.es[n].e], 1)
      [] v.k = "struct" -> LET fs == SelectSeq(v.fs, LAMBDA f : deep \/ f.exp)
                           IN RefsDs(deep, all, [n \in DOMAIN fs |-> fs[n].v], 1)
      [] v.k = "iface" -> IF v.v = <<>> THEN <<>>
                          ELSE LET d == v.v[1]
                               IN IF ~Foreign(d) THEN RefsD(deep, all, d)
                                  ELSE IF Replaced(v, d) \/ all THEN RefsF(d)
                                  ELSE <<>>
      [] OTHER         -> <<>>

\* the import paths whose package names the data does not say
RECURSIVE Nameless(_, _)
Nameless(deep, v) ==
    CASE v.k = "ptr"   -> UNION { Nameless(deep, v.v[n]) : n \in DOMAIN v.v }
      [] v.k = "list"  -> UNION { Nameless(deep, v.vs[n]) : n \in DOMAIN v.vs }
      [] v.k = "map"   -> UNION { Nameless(deep, v.es[n].key) \cup Nameless(deep, v.es[n].e) : n \in DOMAIN v.es }
      [] v.k = "struct" -> UNION { Nameless(deep, v.fs[n].v) : n \in DOMAIN v.fs }
      [] v.k = "iface" -> UNION { IF v.v[n].k = "rt" THEN { r.p : r \in SeqRange(RefsF(v.v[n])) } ELSE Nameless(deep, v.v[n]) : n \in DOMAIN v.v }
      [] OTHER         -> {}

----------------------------------------------------------------------------
(* Equality.  Maps are unordered; keys that become equal may be merged.     *)
RECURSIVE EqD(_, _)
EqAll(as, bs) == Len(as) = Len(bs) /\ \A n \in DOMAIN as : EqD(as[n], bs[n])
EqD(a, b) ==
    /\ a.k = b.k /\ a.ty = b.ty
    /\ CASE a.k = "tn"   -> UnordT(a.t) = UnordT(b.t)
         [] a.k = "ptr"  -> EqAll(a.v, b.v)
         [] a.k = "list" -> a.nil = b.nil /\ EqAll(a.vs, b.vs)
         [] a.k = "map"  -> /\ a.nil = b.nil
                            /\ \A n \in DOMAIN a.es : \E x \in DOMAIN b.es : EqD(a.es[n].key, b.es[x].key)
                            /\ \A x \in DOMAIN b.es : \E n \in DOMAIN a.es : EqD(a.es[n].key, b.es[x].key) /\ EqD(a.es[n].e, b.es[x].e)
                            /\ \/ Len(a.es) = Len(b.es)
                               \/ \E n, x \in DOMAIN a.es : n # x /\ EqD(a.es[n].key, a.es[x].key)
         [] a.k = "struct" -> Len(a.fs) = Len(b.fs) /\ \A n \in DOMAIN a.fs : a.fs[n].n = b.fs[n].n /\ EqD(a.fs[n].v, b.fs[n].v)
         [] a.k = "iface" -> a.adm = b.adm /\ EqAll(a.v, b.v)
         [] OTHER        -> a = b
=============================================================================
