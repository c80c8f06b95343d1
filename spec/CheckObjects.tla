----------------------------- MODULE CheckObjects ---------------------------
(* Conversions of go/types objects and packages (C17).                      *)
EXTENDS Objects, Judge

VARIABLES cas, pos
cvars == <<cas, pos>>
C == Obs[cas].case
O == Obs[cas].obs

\* predeclared objects have no package
Univ(n, m) == << [k |-> IF m = "" THEN "sym" ELSE "mref", p |-> "", q |-> "", name |-> n, m |-> m] >>

WrongQuery(q, got) ==
    IF got.st # "ok" THEN {"C17/" \o got.st}
    ELSE If(got.ref = (IF q.e = <<>> THEN Univ(q.name, q.m) ELSE Refer(C.pkgs, q)),
            IF q.m = "" THEN {"C17/symbol"} ELSE {"C17/method"})

Wrong == IF Obs[cas].st # "ok" THEN {"C17/" \o Obs[cas].st}
         ELSE UNION { WrongQuery(C.queries[x], O.refs[x]) : x \in DOMAIN C.queries }
              \cup If(O.pkgs = [x \in DOMAIN C.pkgs |-> [p |-> C.pkgs[x].p, n |-> C.pkgs[x].n]], {"C17/package"})
              \cup If(O.none = [p |-> "", n |-> ""], {"C17/no-package"})

Init == cas \in 1..N /\ pos = 0
Next == pos = 0 /\ pos' = 1 /\ UNCHANGED cas
        /\ LET w == Wrong IN (IF w = {} THEN TRUE ELSE Report(Obs[cas].id, w))
Spec == Init /\ [][Next]_cvars
=============================================================================
