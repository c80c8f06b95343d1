------------------------------ MODULE TraceCode -----------------------------
(* Recorded histories of building code blocks: the text that a block has in *)
(* a rendered file (C11).                                                   *)
EXTENDS Code, Judge

VARIABLES cas, pos, fin
tvars == <<cas, pos, fin, blocks>>

Case  == Obs[cas].case
Steps == Obs[cas].obs.steps

TInit == cas \in 1..N /\ pos = 0 /\ fin = FALSE /\ CInit

QualsOf(imports) == [p \in { imports[i].p : i \in DOMAIN imports } |-> BoundName(Case, imports[CHOOSE i \in DOMAIN imports : imports[i].p = p])]

WrongShow(o, s) ==
    LET b     == blocks[o.b]
        want  == BlockPaths(Case.own, Case.pool, b) \cup ({ o.regs[i].p : i \in DOMAIN o.regs } \ {Case.own})
        Shows(text, imports) ==
            IF want \subseteq { imports[i].p : i \in DOMAIN imports }
            THEN If(text = BlockText(Case.own, QualsOf(imports), Case.pool, b), {"C11/text"})
            ELSE {"C11/import"}
    IN Shows(s.text, s.imports) \cup (IF s.ftext = <<>> THEN {} ELSE Shows(s.ftext[1], s.fimports))

Stop(tags) == fin' = TRUE /\ UNCHANGED <<pos, blocks>> /\ (IF tags = {} THEN TRUE ELSE Report(Obs[cas].id, tags))

TNext ==
    /\ ~fin /\ UNCHANGED cas
    /\ IF Obs[cas].st # "ok" THEN Stop({"C11/" \o Obs[cas].st})
       ELSE IF pos = Len(Case.ops) THEN Stop({})
       ELSE LET o == Case.ops[pos + 1]
                s == Steps[pos + 1]
                bad == IF s.st # "ok" THEN {"C11/" \o s.st}
                       ELSE IF o.op = "show" THEN WrongShow(o, s) ELSE {}
            IN IF bad # {} THEN Stop(bad)
               ELSE pos' = pos + 1 /\ fin' = FALSE /\ Do(o)

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
