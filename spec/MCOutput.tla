------------------------------ MODULE MCOutput ------------------------------
(* All histories of writing up to MaxFiles files of up to MaxLen bytes, in  *)
(* an environment that may fail at every call.  LoseClose and KeepGoing are *)
(* two ways of getting it wrong.                                            *)
EXTENDS Output, TLC, FiniteSets
CONSTANTS MaxFiles, MaxLen, LoseClose, KeepGoing

VARIABLE opened   \* history: the files opened, and the outcome of every call
mvars == <<files, i, ph, w, err, closed, opened>>

FilesS == UNION { [1..n -> [path : {"p"}, render : {"ok", "format", "panic"}, len : 0..MaxLen]] : n \in 0..MaxFiles }
MInit  == \E fs \in FilesS : Start(fs) /\ opened = <<>>

\* forgetting about an error of closing, or going on after it
BadClose(e) ==
    /\ LoseClose /\ ph = "open" /\ err = "" /\ w = Cur.len /\ Cur.render = "ok" /\ e # ""
    /\ ph' = "ready" /\ i' = i + 1 /\ closed' = [closed EXCEPT ![i] = @ + 1] /\ UNCHANGED <<files, w, err>>
BadOpen ==
    /\ KeepGoing /\ ph = "open" /\ err # ""
    /\ i' = i + 1 /\ i < Len(files) /\ w' = 0 /\ ph' = "open" /\ UNCHANGED <<files, err, closed>>

Log(o) == opened' = Append(opened, o)
MNext ==
    \/ \E e \in {"", "open"} : More /\ Open(Cur.path, e) /\ Log([f |-> i, ev |-> "open", e |-> e, w |-> 0])
    \/ \E n \in 1..MaxLen, k \in 0..MaxLen, e \in {"", "write"} : Write(n, k, e) /\ Log([f |-> i, ev |-> "write", e |-> e, w |-> k])
    \/ Fail /\ Log([f |-> i, ev |-> "fail", e |-> Cur.render, w |-> 0])
    \/ \E e \in {"", "close"} : (Close(e) \/ BadClose(e)) /\ Log([f |-> i, ev |-> "close", e |-> e, w |-> 0])
    \/ BadOpen /\ Log([f |-> i + 1, ev |-> "open", e |-> "", w |-> 0])
    \/ \E e \in {"", "open", "write", "close", "format", "panic"} : Return(e) /\ Log([f |-> i, ev |-> "return", e |-> e, w |-> 0])
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

----------------------------------------------------------------------------
Events(f, ev) == { k \in DOMAIN opened : opened[k].f = f /\ opened[k].ev = ev }
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN opened[k].w + Sum(S \ {k})
OKOpen(f) == { k \in Events(f, "open") : opened[k].e = "" }
Errors    == { k \in DOMAIN opened : opened[k].e # "" /\ opened[k].ev # "return" }

ClosedOnce == ph = "ended" => \A f \in DOMAIN files : Cardinality(Events(f, "close")) = Cardinality(OKOpen(f))
                                                     /\ Cardinality(OKOpen(f)) <= 1
OneAtATime == \A f \in DOMAIN files, k \in DOMAIN opened :
                 k \in OKOpen(f) => \A g \in 1..(f - 1) : \E c \in Events(g, "close") : c < k
FirstError == ph = "ended" =>
                 LET r == opened[Len(opened)]
                 IN IF Errors = {} THEN r.e = "" ELSE r.e = opened[CHOOSE k \in Errors : \A l \in Errors : k <= l].e
NoneLater  == \A k \in Errors, l \in DOMAIN opened : opened[l].ev = "open" => l <= k
Complete   == ph = "ended" /\ err = "" => \A f \in DOMAIN files : Sum(Events(f, "write")) = files[f].len /\ OKOpen(f) # {}
Nothing    == \A f \in DOMAIN files : files[f].render # "ok" => Events(f, "write") = {}
Ends       == <>(ph = "ended")
=============================================================================
