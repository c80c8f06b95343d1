------------------------------ MODULE TraceGrow -----------------------------
(* Recorded histories of building a program and writing its files along the *)
(* way: each write shows the program as it is then.                         *)
EXTENDS Grow, FileDoc

VARIABLES cas, pos, fin, tabs, last   \* last: the last rendering of each file, if nothing was done since
tvars == <<cas, pos, fin, tabs, last, cur, past>>

Case  == Obs[cas].case
Start(c) == [world |-> c.world, pool |-> c.pool, blocks |-> [i \in 1..c.blocks |-> <<>>], files |-> c.files]

Paths(tab)    == { tab[i].p : i \in DOMAIN tab }
TableSet(tab) == { <<tab[i].a, tab[i].p>> : i \in DOMAIN tab }

WrongWrite(st, w) ==
    LET f == st.f
    IN    If(w.st = "ok", {"C08/" \o w.st, "C09/" \o w.st, "C10/" \o w.st})
     \cup (IF w.doc = <<>> THEN {} ELSE WrongDoc(cur, f, w.doc[1], past[f + 1]))
     \cup If(w.same, {"C12/model-changed"})
     \cup If(\A g \in DOMAIN tabs : (g # f + 1) => w.tabs[g] = tabs[g], {"C12/other-import-table"})
     \cup If(TableSet(tabs[f + 1]) \subseteq TableSet(w.tabs[f + 1]), {"C12/binding-lost"})
     \cup If(w.st = "ok" => /\ NeededBy(cur, f) \subseteq Paths(w.tabs[f + 1])
                            /\ Paths(w.tabs[f + 1]) \subseteq NeededBy(cur, f) \cup past[f + 1], {"C09/table"})
     \cup If(last[f + 1] # <<>> => last[f + 1] = <<w.h>>, {"C12/not-repeatable"})

\* building does not touch the import tables, but for explicit imports
WrongBuild(st, r) ==
          If(r.st = "ok", {"C10/build-" \o r.st})
     \cup If(\A g \in DOMAIN tabs : ~(st.a = "reg" /\ g = st.f + 1) => r.tabs[g] = tabs[g], {"C12/table-of-unwritten-file"})
     \cup If(st.a = "reg" => TableSet(tabs[st.f + 1]) \subseteq TableSet(r.tabs[st.f + 1]), {"C12/binding-lost"})

All(bad) == IF bad = {} THEN {} ELSE bad \cup {"C20/as-it-is"}

TInit ==
    /\ cas \in 1..N /\ pos = 0 /\ fin = FALSE
    /\ IF Obs[cas].st = "ok"
       THEN /\ GrowInit(Start(Case))
            /\ tabs = [f \in DOMAIN Case.files |-> <<>>]
            /\ last = [f \in DOMAIN Case.files |-> <<>>]
       ELSE cur = <<>> /\ past = <<>> /\ tabs = <<>> /\ last = <<>>

TNext ==
    /\ ~fin
    /\ UNCHANGED cas
    /\ IF Obs[cas].st # "ok"
       THEN /\ Report(Obs[cas].id, { p \o "/" \o Obs[cas].st : p \in {"C08", "C09", "C10", "C12", "C20"} })
            /\ fin' = TRUE /\ UNCHANGED <<pos, tabs, last, cur, past>>
       ELSE LET st  == Case.steps[pos + 1]
                r   == Obs[cas].obs.steps[pos + 1]
                bad == All(IF st.a = "write" THEN WrongWrite(st, r) ELSE WrongBuild(st, r))
            IN /\ Step(st)
               /\ tabs' = r.tabs
               /\ last' = IF st.a = "write" THEN [last EXCEPT ![st.f + 1] = <<r.h>>] ELSE [f \in DOMAIN last |-> <<>>]
               /\ pos' = pos + 1
               /\ fin' = (pos + 1 = Len(Case.steps) \/ bad # {})
               /\ IF bad = {} THEN TRUE ELSE Report(Obs[cas].id, bad)

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
