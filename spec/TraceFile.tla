------------------------------ MODULE TraceFile -----------------------------
(* Recorded histories of writing the files of a program, judged against     *)
(* File: what each written file says (C08, C09, C10, C15), that nothing but *)
(* the import table of the written file changes (C12).                      *)
EXTENDS FileDoc

VARIABLES cas, pos, fin, tabs   \* tabs: the import tables, as lists of import specs

tvars == <<cas, pos, fin, tabs>>

Prog   == Obs[cas].case
Writes == Obs[cas].obs.writes

\* the table of the written file covers what it needs and keeps its bindings
TableSet(specs) == { <<specs[i].a, specs[i].p>> : i \in DOMAIN specs }

WrongWrite(w) ==
    LET f == w.f
        fresh == Obs[cas].obs.fresh[f + 1]
    IN    If(w.h = fresh.h, {"C12/as-if-fresh"})
     \cup If(fresh.h = fresh.h2, {"C12/deterministic"})
     \cup If(w.snap = Obs[cas].obs.snap0, {"C12/model-changed"})
     \cup If(\A g \in DOMAIN tabs : (g # f + 1) => w.tabs[g] = tabs[g], {"C12/other-import-table"})
     \cup If(TableSet(tabs[f + 1]) \subseteq TableSet(w.tabs[f + 1]), {"C12/binding-lost"})
     \cup If(w.st = "ok" => { w.tabs[f + 1][i].p : i \in DOMAIN w.tabs[f + 1] } = NeededBy(Prog, f), {"C09/table"})
     \cup If(w.st = "ok", {"C08/" \o w.st, "C09/" \o w.st, "C10/" \o w.st, "C15/" \o w.st})
     \cup If(w.canon, {"C15/canonical"})
     \cup (IF w.doc = <<>> THEN {} ELSE WrongDoc(Prog, f, w.doc[1], {}))

TInit == /\ cas \in 1..N /\ pos = 0 /\ fin = FALSE
         /\ tabs = IF Obs[cas].st = "ok" THEN Obs[cas].obs.tabs0 ELSE <<>>

TNext ==
    /\ ~fin
    /\ IF Obs[cas].st # "ok"
       THEN /\ Report(Obs[cas].id, { p \o "/" \o Obs[cas].st : p \in {"C08", "C09", "C10", "C12"} })
            /\ fin' = TRUE /\ UNCHANGED <<cas, pos, tabs>>
       ELSE /\ pos < Len(Writes)
            /\ LET w   == Writes[pos + 1]
                   bad == WrongWrite(w)
               IN /\ tabs' = w.tabs
                  /\ pos' = pos + 1
                  /\ fin' = (pos + 1 = Len(Writes))
                  /\ IF bad = {} THEN TRUE ELSE Report(Obs[cas].id, bad)
            /\ UNCHANGED cas

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
