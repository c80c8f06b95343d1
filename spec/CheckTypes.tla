----------------------------- MODULE CheckTypes -----------------------------
(* Observations of single types, judged against GoTypes: rendering (C04),   *)
(* accessors and constructors (C05), conversions (C06, C07).                *)
EXTENDS GoTypes, Judge

VARIABLES cas, fin

Textual == [op |-> "text"]

WrongType(t, o) ==
    LET parsed == ParseType(o.toks)
    IN If(o.lexok /\ parsed.ok, {"C04/syntax"})
       \cup (IF parsed.ok THEN If(parsed.t = NormT(MapT(Textual, t)), {"C04/denotes"}) ELSE {})
       \cup If(o.same, {"C04/unstable"})
       \cup If(o.acc = Acc(t), {"C05/accessors"})
       \cup If(o.acc2 = o.acc, {"C05/modified-through-accessor"})

----------------------------------------------------------------------------
(* Constructors.  Argument code 0: nil, 1: int, 2: []string, 3: x/y.Z       *)
CtorArg(i) == CASE i = 1 -> Basic("int")
                [] i = 2 -> [k |-> "slice", e |-> Basic("string")]
                [] i = 3 -> Named("x/y", "y", "Z")
CtorArgs(is) == [j \in DOMAIN is |-> [n |-> "", t |-> CtorArg(is[j])]]

NoNil(is) == \A j \in DOMAIN is : is[j] # 0

CtorSig(x) == [args |-> CtorArgs(x.args), res |-> CtorArgs(x.res), var |-> x.var]

Negative(n) == Char(n, 1) = "-"

Valid(x) ==
    CASE x.f = "basic"           -> x.rk \in Basics \cup {"unsafe.Pointer"}
      [] x.f \in {"ptr", "slice", "map"} -> NoNil(x.args)
      [] x.f = "array"           -> NoNil(x.args) /\ ~Negative(x.n)
      [] x.f = "chan"            -> NoNil(x.args) /\ x.d \in 0..3
      [] x.f \in {"func", "funcsig"} -> NoNil(x.args) /\ NoNil(x.res) /\ VariadicOK(CtorSig(x))

Built(x) ==
    CASE x.f = "basic" /\ x.rk = "unsafe.Pointer" -> Named("unsafe", "unsafe", "Pointer")
      [] x.f = "basic"           -> Basic(x.rk)
      [] x.f \in {"ptr", "slice"} -> [k |-> x.f, e |-> CtorArg(x.args[1])]
      [] x.f = "array"           -> [k |-> "array", n |-> x.n, e |-> CtorArg(x.args[1])]
      [] x.f = "map"             -> [k |-> "map", key |-> CtorArg(x.args[1]), e |-> CtorArg(x.args[2])]
      [] x.f = "chan"            -> [k |-> "chan", e |-> CtorArg(x.args[1]),
                                     dir |-> CASE x.d = 1 -> "recv" [] x.d = 2 -> "send" [] OTHER -> "both"]
      [] x.f \in {"func", "funcsig"} -> [k |-> "func", sig |-> CtorSig(x)]

WrongCtor(x, o) ==
    IF Valid(x) # (o.st = "ok") THEN {"C05/constructor-panics-iff-invalid"}
    ELSE IF Valid(x) THEN If(o.t = Built(x), {"C05/constructed"})
    ELSE {}

\* the exported type variables
VarType(n) == CASE n = "byte"           -> Basic("uint8")
                [] n = "rune"           -> Basic("int32")
                [] n = "error"          -> Named("", "", "error")
                [] n = "unsafe.Pointer" -> Named("unsafe", "unsafe", "Pointer")
                [] OTHER                -> Basic(n)
WrongVars(o) == If(\A i \in DOMAIN o.vars : o.vars[i].t = VarType(o.vars[i].name), {"C05/predefined"})

----------------------------------------------------------------------------
(* Conversions                                                              *)
WrongGo(x, o) ==
    LET t  == NameT(x.t)
        t2 == IF x.recv = <<>> THEN t
              ELSE [t EXCEPT !.sig.args = <<[n |-> x.rn, t |-> x.recv[1]]>> \o @]
    IN If(UnordT(o.t) = UnordT(t2), {"C06/structure"})

\* reflect knows import paths but not package names
WrongReflect(x, o) ==
    LET strip == [op |-> "noqual"]
        want  == RefsT(x.t)
    IN If(UnordT(MapT(strip, o.t)) = UnordT(MapT(strip, x.t)), {"C07/structure"})
       \cup If(\A s \in SeqRange(RefsT(o.t)) :
                 s.q = "" \/ \E i \in DOMAIN want : want[i].p = s.p /\ want[i].q = s.q,
               {"C07/package-name"})

Wrong(o) ==
    IF o.st # "ok"
    THEN CASE o.kind = "type"   -> {"C04/" \o o.st, "C05/" \o o.st}
           [] o.kind = "gotype" -> {"C06/" \o o.st}
           [] o.kind = "rtype"  -> {"C07/" \o o.st}
           [] OTHER             -> {"C05/" \o o.st}
    ELSE CASE o.kind = "type"   -> WrongType(o.case.t, o.obs)
           [] o.kind = "ctor"   -> WrongCtor(o.case, o.obs)
           [] o.kind = "vars"   -> WrongVars(o.obs)
           [] o.kind = "gotype" -> WrongGo(o.case, o.obs)
           [] o.kind = "rtype"  -> WrongReflect(o.case, o.obs)

Init == cas \in 1..N /\ fin = FALSE
Next == ~fin /\ fin' = TRUE /\ UNCHANGED cas
        /\ LET w == Wrong(Obs[cas]) IN (IF w = {} THEN TRUE ELSE Report(Obs[cas].id, w))
Spec == Init /\ [][Next]_<<cas, fin>>
=============================================================================
