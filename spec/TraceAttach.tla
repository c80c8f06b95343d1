----------------------------- MODULE TraceAttach ----------------------------
(* Recorded histories of building elements and adding them to files: after  *)
(* every operation, the answers to all queries (C16).  What is recorded of  *)
(* a step are the answers that changed; seen and fseen accumulate them.     *)
EXTENDS Attach, Judge

VARIABLES cas, pos, fin, seen, fseen
tvars == <<cas, pos, fin, seen, fseen, items, owner, decls, files>>

Ops   == Obs[cas].case.ops
Steps == Obs[cas].obs.steps

TInit == cas \in 1..N /\ pos = 0 /\ fin = FALSE /\ seen = <<>> /\ fseen = <<>> /\ AInit

Update(s, chg) == LET n == IF chg = <<>> THEN Len(s) ELSE LET m == CHOOSE m \in { chg[x].i : x \in DOMAIN chg } : \A x \in DOMAIN chg : chg[x].i <= m IN IF m > Len(s) THEN m ELSE Len(s)
                  IN [j \in 1..n |-> IF \E x \in DOMAIN chg : chg[x].i = j
                                     THEN chg[CHOOSE x \in DOMAIN chg : chg[x].i = j].a ELSE s[j]]
\* receivers' names do not matter
Anon(xs, k) == IF xs = <<>> \/ k \notin {"method", "imethod"} \/ xs[1].k # "func" \/ xs[1].sig.args = <<>> THEN xs
               ELSE <<[xs[1] EXCEPT !.sig.args[1].n = ""]>>

WrongItem(j, a) ==
    LET want == Answer(j)
        it   == items[j]
        got  == [a EXCEPT !.tn = Anon(@, items[j].k)]
    IN If(got.syms = want.syms, {"C16/symbols"})
       \cup If(got.one = want.one, {"C16/symbol"})
       \cup If(got.str = want.str, {"C16/string"})
       \cup If(got.tn = want.tn, {"C16/type"})
       \cup If(got.mref = want.mref, {"C16/method-reference"})
       \cup If(got.und = want.und, {"C16/underlying"})
       \cup If(got.alias = want.alias, {"C16/alias"})
       \cup If(it.k = "method" => got.recv = <<it.recv>>, {"C16/receiver"})

Stop(tags) == fin' = TRUE /\ UNCHANGED <<pos, seen, fseen, avars>> /\ (IF tags = {} THEN TRUE ELSE Report(Obs[cas].id, tags))

TNext ==
    /\ ~fin /\ UNCHANGED cas
    /\ IF Obs[cas].st # "ok" THEN Stop({"C16/" \o Obs[cas].st})
       ELSE IF pos = Len(Ops) THEN
            Stop(UNION { IF Sure(j) THEN WrongItem(j, seen[j]) ELSE {} : j \in DOMAIN items }
                 \cup UNION { If(fseen[f] = FileAnswer(f), {"C16/file"}) : f \in DOMAIN files })
       ELSE LET o == Ops[pos + 1]
                s == Steps[pos + 1]
                bad == UNION { IF Sure(j) /\ j \in DOMAIN seen THEN WrongItem(j, seen[j]) ELSE {} : j \in DOMAIN items }
                       \cup UNION { If(fseen[f] = FileAnswer(f), {"C16/file"}) : f \in DOMAIN files }
            IN IF bad # {} THEN Stop(bad)
               ELSE IF ~Defined(o) THEN Stop({})
               ELSE IF Panics(o) # (s.st = "panic") THEN Stop({"C16/panics"})
               \* the types obtained from elements before are what they were
               ELSE IF s.kept # <<>> THEN Stop({"C16/kept", "C05/kept"})
               ELSE /\ pos' = pos + 1 /\ fin' = FALSE
                    /\ (IF Panics(o) THEN UNCHANGED avars ELSE Do(o))
                    /\ seen' = Update(seen, s.items)
                    /\ fseen' = Update(fseen, s.files)

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
