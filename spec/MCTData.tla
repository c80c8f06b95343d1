------------------------------ MODULE MCTData -------------------------------
(* How qualifying template data can leave the data as it is: values live in *)
(* a heap of cells (what pointers, slices and maps refer to), and only      *)
(* values that change are made anew, with the cells on the way to them.     *)
(* All heaps of three cells, cyclic ones excepted.                          *)
EXTENDS TData
CONSTANTS InPlace, SkipKeys, ForgetSeen,    \* wrong ways of doing it
          Deep,                             \* unexported fields can be changed
          Size                              \* of the heaps: tiny, small, full

VARIABLES heap, tab, root, res, before
mvars == <<heap, tab, root, res, before>>

Own    == "a/own"
S(p)   == Sym(p, "", "T")
Ref(k, a) == [k |-> k, a |-> a]             \* a: 0 is nil
Leaves == { VSym(S("x/foo")), VSym(S(Own)), [k |-> "leaf", ty |-> "int", s |-> "1"] }
Fields(v, w) == [k |-> "struct", ty |-> "", fs |-> <<[n |-> "A", exp |-> TRUE, v |-> v], [n |-> "b", exp |-> FALSE, v |-> w]>>]
Structs == { Fields(v, w) : v, w \in (IF Size = "full" THEN Leaves ELSE {VSym(S("x/foo"))}) }
RefKinds == {"ptr", "list", "map"}
Below(n) == Leaves \cup Structs \cup { Ref(k, a) : k \in RefKinds, a \in (n + 1)..3 } \cup {Ref("ptr", 0)}
\* cells: the number of values in them fits all references to them
Contents(n) == [1..1 -> Below(n)] \cup [1..2 -> Below(n)]
Fits(h, v) == v.k \in RefKinds /\ v.a # 0 => (v.k = "ptr" => Len(h[v.a]) = 1) /\ (v.k = "map" => Len(h[v.a]) = 2)

\* the value in the heap as a tree
RECURSIVE Tree(_, _)
Tree(h, v) ==
    CASE v.k = "ptr"  -> [k |-> "ptr", ty |-> "", v |-> IF v.a = 0 THEN <<>> ELSE <<Tree(h, h[v.a][1])>>]
      [] v.k = "list" -> [k |-> "list", ty |-> "", nil |-> FALSE, vs |-> [n \in DOMAIN h[v.a] |-> Tree(h, h[v.a][n])]]
      [] v.k = "map"  -> [k |-> "map", ty |-> "", nil |-> FALSE, es |-> <<[key |-> Tree(h, h[v.a][1]), e |-> Tree(h, h[v.a][2])]>>]
      [] v.k = "struct" -> [v EXCEPT !.fs = [n \in DOMAIN @ |-> [@[n] EXCEPT !.v = Tree(h, @)]]]
      [] OTHER -> v

\* qualifying, as it is done: the heap after, the new value, and whether it is new
RECURSIVE Cow(_, _, _), CowSeq(_, _, _, _)
Same(h, v) == [h |-> h, v |-> v, ch |-> FALSE]
CowSeq(m, h, vs, skip) ==
    IF vs = <<>> THEN [h |-> h, vs |-> <<>>, ch |-> FALSE]
    ELSE LET first == IF 1 \in skip THEN Same(h, vs[1]) ELSE Cow(m, h, vs[1])
             rest  == CowSeq(m, first.h, Tail(vs), { n - 1 : n \in skip })
             head  == IF ForgetSeen /\ ~first.ch /\ rest.ch THEN [k |-> "leaf", ty |-> "int", s |-> "0"] ELSE first.v
         IN [h |-> rest.h, vs |-> <<head>> \o rest.vs, ch |-> first.ch \/ rest.ch]
Cow(m, h, v) ==
    CASE v.k \in RefKinds ->
           IF v.a = 0 THEN Same(h, v)
           ELSE LET r == CowSeq(m, h, h[v.a], IF v.k = "map" /\ SkipKeys THEN {1} ELSE {})
                IN IF ~r.ch THEN Same(r.h, v)
                   ELSE IF InPlace THEN [h |-> [r.h EXCEPT ![v.a] = r.vs], v |-> v, ch |-> TRUE]
                   ELSE [h |-> Append(r.h, r.vs), v |-> [v EXCEPT !.a = Len(r.h) + 1], ch |-> TRUE]
      [] v.k = "struct" ->
           LET r == CowSeq(m, h, [n \in DOMAIN v.fs |-> v.fs[n].v], IF Deep THEN {} ELSE { n \in DOMAIN v.fs : ~v.fs[n].exp })
           IN IF ~r.ch THEN Same(r.h, v)
              ELSE [h |-> r.h, v |-> [v EXCEPT !.fs = [n \in DOMAIN @ |-> [@[n] EXCEPT !.v = r.vs[n]]]], ch |-> TRUE]
      [] OTHER -> LET w == MapD(m, Deep, v) IN [h |-> h, v |-> w, ch |-> w # v]

----------------------------------------------------------------------------
MInit ==
    /\ root \in {Ref("ptr", 1), Ref("list", 1), Ref("map", 1)}
    /\ \E c3 \in Contents(3), c2 \in Contents(2), c1 \in Contents(1) :
         /\ heap = <<c1, c2, c3>>
         /\ Size # "full" => Len(c2) = 1 \/ Len(c3) = 1
         /\ Size = "tiny" => c2 \in [1..Len(c2) -> Leaves] /\ c3 = <<VSym(S("x/foo"))>>
    /\ Fits(heap, root) /\ \A n \in 1..3 : \A x \in DOMAIN heap[n] : Fits(heap, heap[n][x])
    /\ before = Tree(heap, root) /\ tab = Empty /\ res = <<>>

DataOp(v) == [op |-> "data", refs |-> RefsD(Deep, TRUE, v)]
Tables(v) == { tab2 \in { tab } \cup { tab @@ ("x/foo" :> [q |-> q, decl |-> ""]) : q \in {"foo", "foo1"} } : Successor(Own, tab, DataOp(v), tab2) }
\* qualify the root, and then what came out of it
MNext ==
    /\ Len(res) < 2
    /\ LET v == IF res = <<>> THEN root ELSE res[1].v
       IN \E tab2 \in Tables(Tree(heap, v)) :
            LET r == Cow(Mapping(Own, tab2), heap, v)
            IN /\ heap' = r.h /\ tab' = tab2
               /\ res' = Append(res, [v |-> r.v, ch |-> r.ch])
               /\ UNCHANGED <<root, before>>
MSpec == MInit /\ [][MNext]_mvars

Kept       == Tree(heap, root) = before
Qualified  == \A n \in DOMAIN res : EqD(Tree(heap, res[n].v), MapD(Mapping(Own, tab), Deep, before))
Idempotent == Len(res) = 2 => ~res[2].ch
Enabled    == Len(res) < 2 => ENABLED MNext
=============================================================================
