----------------------------- MODULE TraceTData -----------------------------
(* Recorded histories of qualifying template data with one import table.    *)
EXTENDS TData, Judge

VARIABLES cas, pos, fin, tab
tvars == <<cas, pos, fin, tab>>

Case  == Obs[cas].case
O     == Obs[cas].obs
Specs(l) == [n \in DOMAIN l |-> [a |-> l[n].a, p |-> l[n].p]]
DataOp(refs) == [op |-> "data", refs |-> refs]

TInit == /\ cas \in 1..N /\ pos = 0 /\ fin = FALSE
         /\ tab = IF Obs[cas].st # "ok" THEN Empty
                  ELSE TableOf(Specs(Obs[cas].obs.specs0), Empty,
                               DataOp([n \in DOMAIN Obs[cas].case.regs |-> Sym(Obs[cas].case.regs[n].p, Obs[cas].case.regs[n].n, "")]))

\* the references whose packages are in specs, with a name that is known
Known(specs, less, refs) ==
    LET has == { specs[n].p : n \in DOMAIN specs }
        fix(r) == IF r.p \in less /\ r.p \in has /\ SpecFor(specs, r.p).a # "" THEN [r EXCEPT !.q = ""] ELSE r
        keep == SelectSeq(refs, LAMBDA r : r.p \in has)
    IN [n \in DOMAIN keep |-> fix(keep[n])]

Wrong(s) ==
    LET deep  == ~O.purego
        specs == Specs(s.specs)
        need  == PathsOf(Case.own, RefsD(deep, FALSE, s.before))
        may   == PathsOf(Case.own, RefsD(deep, TRUE, s.before))
        op    == DataOp(Known(specs, Nameless(deep, s.before), RefsD(deep, TRUE, s.before)))
        new   == { specs[n].p : n \in DOMAIN specs } \ DOMAIN tab
        tab2  == TableOf(specs, tab, op)
        map   == Mapping(Case.own, tab2)
    IN IF s.st # "ok" THEN {"C13/panic"}
       ELSE IF ~(need \ DOMAIN tab \subseteq new /\ new \subseteq may /\ Cardinality(DOMAIN tab2) = Len(specs)) THEN {"C13/registered"}
       ELSE If(Successor(Case.own, tab, op, tab2), {"C13/table"})
            \cup If(EqD(MapD(map, deep, s.before), s.after), {"C13/data"})
            \cup If(EqD(s.before, s.orig), {"C13/modified"})

TNext ==
    /\ ~fin /\ UNCHANGED cas
    /\ IF Obs[cas].st # "ok" THEN fin' = TRUE /\ UNCHANGED <<pos, tab>> /\ Report(Obs[cas].id, {"C13/" \o Obs[cas].st})
       ELSE LET s == O.steps[pos + 1]
                bad == Wrong(s)
            IN /\ pos' = pos + 1
               /\ tab' = IF bad # {} THEN tab ELSE TableOf(Specs(s.specs), tab, DataOp(Known(Specs(s.specs), Nameless(~O.purego, s.before), RefsD(~O.purego, TRUE, s.before))))
               /\ fin' = (bad # {} \/ pos + 1 = Len(O.steps))
               /\ IF bad = {} THEN TRUE ELSE Report(Obs[cas].id, bad)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
