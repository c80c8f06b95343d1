------------------------------ MODULE MCAttach ------------------------------
(* All histories of up to Steps moves of SmallAttach: the owner that Attach *)
(* tracks is the file of the last addition that an element was part of.     *)
EXTENDS Attach, SmallAttach
CONSTANTS Steps, FirstWins      \* FirstWins: a wrong way of attaching

VARIABLE hist
mvars == <<items, owner, decls, files, hist>>

MInit == AInit /\ hist = <<>>
Apply(o) == IF Panics(o) THEN UNCHANGED avars ELSE Do(o)
Wrong(o) == /\ FirstWins /\ o.op = "additem" /\ owner[o.s] # {0}
            /\ files' = [files EXCEPT ![o.f].elems = Append(@, [e |-> "item", i |-> o.s])]
            /\ UNCHANGED <<items, owner, decls>>
MNext == /\ Len(hist) < Len(Setup) + Steps
         /\ IF Len(hist) < Len(Setup)
            THEN Do(Setup[Len(hist) + 1]) /\ hist' = Append(hist, Setup[Len(hist) + 1])
            ELSE \E o \in Moves : Defined(o) /\ (IF ENABLED Wrong(o) THEN Wrong(o) ELSE Apply(o)) /\ hist' = Append(hist, o)
MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
\* the specs of declaration d after the first n operations
SpecsAt(d, n) ==
    LET made == CHOOSE x \in 1..n : hist[x].op = "decl" /\ Cardinality({ y \in 1..x : hist[y].op = "decl" }) = d
        apps == SelectSeq(SubSeq(hist, 1, n), LAMBDA o : o.op = "append" /\ o.d = d)
    IN SeqRange(hist[made].specs) \cup { apps[x].s : x \in DOMAIN apps }

Adds(j) == { x \in DOMAIN hist : \/ hist[x].op = "additem" /\ hist[x].s = j
                                 \/ hist[x].op = "add" /\ j \in SpecsAt(hist[x].d, x) }
LastOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Doubtful(j) == \E x \in DOMAIN hist : hist[x].op = "append" /\ hist[x].s = j
                 /\ (\E y \in 1..x : hist[y].op = "add" /\ hist[y].d = hist[x].d)
                 /\ \A y \in Adds(j) : y < x

Owners == \A j \in DOMAIN items :
             items[j].k # "imethod" /\ ~Doubtful(j) =>
               owner[j] = (IF Adds(j) = {} THEN {0} ELSE {hist[LastOf(Adds(j))].f})
Listed == \A f \in DOMAIN files :
             files[f].elems =
               LET a == SelectSeq(hist, LAMBDA o : o.op \in {"add", "additem"} /\ o.f = f)
               IN [x \in DOMAIN a |-> IF a[x].op = "add" THEN [e |-> "decl", i |-> a[x].d] ELSE [e |-> "item", i |-> a[x].s]]
\* what belongs to a file is named by the file's package
Names == \A j \in DOMAIN items : items[j].k \in {"type", "func"} /\ items[j].name # "" =>
            LET a == Answer(j) IN (a.one # <<>>) = Known(j) /\ (a.one # <<>> => a.one[1].p = files[FileOfI(j)].p)
=============================================================================
