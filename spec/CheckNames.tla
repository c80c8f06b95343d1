----------------------------- MODULE CheckNames -----------------------------
(* Recorded results of Export and Unexport, judged against Names.  The      *)
(* tables of Unicode are recorded for the characters that occur first.      *)
EXTENDS Names, Judge

VARIABLES cas, pos, fin

Names0 == Obs[cas].obs.names

Wrong(o) ==
    LET UpOf    == [c \in {o.n[1]} |-> o.up]
        LoOf    == [c \in {o.n[1]} |-> o.lo]
        Cap     == [c \in {o.n[1], o.up} |-> IF c = o.up /\ c # o.n[1] THEN o.upcap ELSE o.cap]
    IN IF Refused(o.n) THEN If(o.st = "panic", {"C18/utf8"})
       ELSE IF o.st # "ok" THEN {"C18/panic"}
       ELSE IF o.n = <<>> THEN If(o.ex = <<>> /\ o.un = <<>>, {"C18/empty"})
       ELSE If(o.ex = Export(UpOf, Cap, o.n), {"C18/export"})
       \cup If(o.un = Unexport(LoOf, o.n), {"C18/unexport"})
       \cup If(o.ident => o.isexp, {"C18/exported"})
       \cup If(o.ex2 = o.ex, {"C18/export-idempotent"})
       \cup If(o.un2 = o.un, {"C18/unexport-idempotent"})

Init == cas \in 1..N /\ pos = 0 /\ fin = FALSE
Next == /\ ~fin
        /\ IF Obs[cas].st # "ok"
           THEN fin' = TRUE /\ UNCHANGED pos /\ Report(Obs[cas].id, {"C18/" \o Obs[cas].st})
           ELSE /\ pos < Len(Names0)
                /\ pos' = pos + 1
                /\ fin' = (pos + 1 = Len(Names0))
                /\ LET w == Wrong(Names0[pos + 1]) IN (IF w = {} THEN TRUE ELSE Report(Obs[cas].id, w))
        /\ UNCHANGED cas
Spec == Init /\ [][Next]_<<cas, pos, fin>>
=============================================================================
