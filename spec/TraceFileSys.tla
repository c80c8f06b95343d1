----------------------------- MODULE TraceFileSys ---------------------------
(* Recorded histories of calls that write files below a scratch directory:  *)
(* the whole tree after each call (C19).                                    *)
EXTENDS FileSys, Judge

VARIABLES cas, pos, fin, tree
tvars == <<cas, pos, fin, tree>>

O == Obs[cas]
TreeOf(ns) == [p \in { ns[x].path : x \in DOMAIN ns } |->
                 LET n == ns[CHOOSE x \in DOMAIN ns : ns[x].path = p] IN [t |-> n.t, c |-> n.c, to |-> n.to, w |-> n.w]]

TInit == cas \in 1..N /\ pos = 0 /\ fin = FALSE /\ tree = IF Obs[cas].st = "ok" THEN TreeOf(Obs[cas].obs.tree0) ELSE <<>>

\* the files of call c, below its root
FilesOf(c, steps) == [k \in DOMAIN c.files |-> [path |-> c.root \o c.files[k].dir \o <<c.files[k].name>>,
                                               c |-> steps.hashes[k], bad |-> c.files[k].bad # ""]]
NoRoot(c) == c.fn = "gopath" /\ c.form \in {"unset", "empty"}

Right(c, s) ==
    LET t == TreeOf(s.tree)
    IN IF NoRoot(c) THEN s.e = "other" /\ Same(tree, t)
       ELSE Outcome(tree, FilesOf(c, s), 1, t, s.e)

TNext ==
    /\ ~fin /\ UNCHANGED cas
    /\ IF O.st # "ok" THEN fin' = TRUE /\ UNCHANGED <<pos, tree>> /\ Report(O.id, {"C19/" \o O.st})
       ELSE LET c == O.case.calls[pos + 1]
                s == O.obs.steps[pos + 1]
                ok == s.e # "panic" /\ Right(c, s)
            IN /\ pos' = pos + 1
               /\ tree' = TreeOf(s.tree)
               /\ fin' = (~ok \/ pos + 1 = Len(O.case.calls))
               /\ IF ok THEN TRUE ELSE Report(O.id, {IF s.e = "panic" THEN "C19/panic" ELSE IF NoRoot(c) THEN "C19/gopath" ELSE "C19/outcome"})

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
