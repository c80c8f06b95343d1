----------------------------- MODULE SmallTypes -----------------------------
(* All small types, layer by layer: the universe over which the design of   *)
(* GoTypes is model checked, and from which cases for the implementation    *)
(* are generated.                                                           *)
EXTENDS GoTypes, SequencesExt

Leaf == {Basic("int"), Named("a/foo", "foo", "T"), Named("", "", "error")}

Arg1(t)      == [n |-> "", t |-> t]
ArgN(n, t)   == [n |-> n, t |-> t]
SigOf(a, r, v) == [args |-> a, res |-> r, var |-> v]
FuncOf(s)    == [k |-> "func", sig |-> s]
SliceOf(t)   == [k |-> "slice", e |-> t]

\* unary constructors
Unary(S) ==
      { [k |-> k, e |-> t] : k \in {"ptr", "slice"}, t \in S }
 \cup { [k |-> "array", n |-> n, e |-> t] : n \in {"0", "3"}, t \in S }
 \cup { [k |-> "chan", dir |-> d, e |-> t] : d \in {"both", "send", "recv"}, t \in S }

Maps(S, R) == { [k |-> "map", key |-> a, e |-> b] : a \in S, b \in R }

\* signatures over S: every arity up to 2 by 2 in which S occurs once, every naming
Names2 == { <<"", "">>, <<"x", "y">>, <<"x", "">>, <<"", "y">>, <<"_", "y">> }
IntT    == Basic("int")
Sigs(S) ==
      { SigOf(<<>>, <<>>, FALSE) }
 \cup { SigOf(<<ArgN(n, t)>>, <<>>, FALSE) : n \in {"", "x"}, t \in S }
 \cup { SigOf(<<ArgN(n, SliceOf(t))>>, <<>>, TRUE) : n \in {"", "x"}, t \in S }
 \cup { SigOf(<<>>, <<ArgN(n, t)>>, FALSE) : n \in {"", "x"}, t \in S }
 \cup { SigOf(<<ArgN(n[1], IntT), ArgN(n[2], SliceOf(t))>>, <<>>, v) : n \in Names2, t \in S, v \in BOOLEAN }
 \cup { SigOf(<<ArgN(n[1], t), ArgN(n[2], IntT)>>, <<Arg1(t)>>, FALSE) : n \in Names2, t \in S }
 \cup { SigOf(<<Arg1(IntT)>>, <<ArgN(n[1], t), ArgN(n[2], IntT)>>, FALSE) : n \in Names2, t \in S }
 \cup { SigOf(<<>>, <<ArgN(n[1], IntT), ArgN(n[2], t)>>, FALSE) : n \in Names2, t \in S }
Funcs(S) == { FuncOf(s) : s \in Sigs(S) }

Field(n, t, g) == [n |-> n, t |-> t, tag |-> g, doc |-> <<>>]
Embeddable == { t \in Leaf : t.k = "named" }
Structs(S) ==
      { [k |-> "struct", fields |-> <<>>] }
 \cup { [k |-> "struct", fields |-> <<Field("F", t, g)>>] : t \in S, g \in {"", "a`b"} }
 \cup { [k |-> "struct", fields |-> <<Field("", t, g)>>] :
          t \in Embeddable \cup { [k |-> "ptr", e |-> e] : e \in Embeddable }, g \in {"", "q\"x"} }
 \cup { [k |-> "struct", fields |-> <<Field("F", t, g), Field("", e, h), Field("G", IntT, g)>>] :
          t \in S, e \in Embeddable, g \in {"", "k:v"}, h \in {"", "z"} }

Method(n, s)  == [k |-> "method", doc |-> <<>>, n |-> n, sig |-> s]
Embed(t)      == [k |-> "embed", doc |-> <<>>, sym |-> Sym(t.p, t.q, t.name)]
Ifaces(S) ==
      { [k |-> "iface", elems |-> es] :
          es \in { <<>>, <<Embed(Named("a/foo", "foo", "I"))>>, <<Embed(Named("", "", "error"))>>,
                   <<Embed(Named("", "", "error")), Embed(Named("a/foo", "foo", "I"))>> } }
 \cup { [k |-> "iface", elems |-> <<Method("M", s)>>] : s \in Sigs(S) }
 \cup { [k |-> "iface", elems |-> <<Embed(Named("a/foo", "foo", "I")), Method("M", s),
                                    Method("N", SigOf(<<Arg1(IntT)>>, <<Arg1(IntT)>>, FALSE))>>] : s \in Sigs(S) }

Over(S) == Unary(S) \cup Maps(S, {IntT}) \cup Maps({IntT}, S) \cup Funcs(S) \cup Structs(S) \cup Ifaces(S)

D0 == Leaf
D1 == Over(D0)
\* one more layer, over a representative of each kind of type (channels in full)
Reps == Unary(Leaf) \cup { [k |-> "map", key |-> IntT, e |-> Named("a/foo", "foo", "T")] }
        \cup { FuncOf(SigOf(<<Arg1(IntT)>>, <<Arg1(Named("a/foo", "foo", "T"))>>, FALSE)),
               FuncOf(SigOf(<<ArgN("x", IntT), ArgN("", SliceOf(IntT))>>, <<ArgN("r", IntT), Arg1(IntT)>>, TRUE)),
               FuncOf(SigOf(<<>>, <<>>, FALSE)),
               [k |-> "struct", fields |-> <<Field("F", Named("a/foo", "foo", "T"), "t"), Field("", Named("", "", "error"), "")>>],
               [k |-> "struct", fields |-> <<>>],
               [k |-> "iface", elems |-> <<>>],
               [k |-> "iface", elems |-> <<Embed(Named("a/foo", "foo", "I")), Method("M", SigOf(<<>>, <<Arg1(IntT)>>, FALSE))>>] }
D2 == Over(Reps)
\* and channels, functions and pointers over all of those
Thin(S) == { [k |-> "chan", dir |-> d, e |-> t] : d \in {"both", "send", "recv"}, t \in S }
           \cup { FuncOf(SigOf(<<>>, <<Arg1(t)>>, FALSE)) : t \in S }
           \cup { FuncOf(SigOf(<<Arg1(t)>>, <<ArgN("r", t)>>, FALSE)) : t \in S }
           \cup { [k |-> "ptr", e |-> t] : t \in S } \cup Maps(S, {IntT})
D3 == Thin(D2)

Universe(size) == CASE size = "small"  -> D0 \cup D1
                    [] size = "medium" -> D0 \cup D1 \cup D2
                    [] size = "large"  -> D0 \cup D1 \cup D2 \cup D3
=============================================================================
