------------------------------ MODULE Imports ------------------------------
(* The import table of one file as a state machine (see ImportTable).       *)
EXTENDS ImportTable

----------------------------------------------------------------------------
(* The state machine, for model checking the design.                        *)
CONSTANTS Owns, Paths, Decls, Aliases

VARIABLES own, tab, out

vars == <<own, tab, out>>

RegOp(p, n) == [op |-> "reg", p |-> p, q |-> n]
PfxOp(p)    == [op |-> "prefix", p |-> p]

Init == own \in Owns /\ tab = Empty /\ out = "none"

Register(p, n) ==
    \E q \in Aliases \cup {n} :
      LET t2 == IF p = own \/ p \in DOMAIN tab THEN tab
                ELSE [x \in DOMAIN tab \cup {p} |-> IF x = p THEN [q |-> q, decl |-> n] ELSE tab[x]]
      IN /\ Successor(own, tab, RegOp(p, n), t2)
         /\ tab' = t2
         /\ out' = Prefix(own, t2, p)
         /\ UNCHANGED own

LookUp(p) ==
    /\ UNCHANGED <<own, tab>>
    /\ out' = IF Fails(own, tab, PfxOp(p)) THEN "panic" ELSE Prefix(own, tab, p)

Next == \/ \E p \in Paths, n \in Decls : Register(p, n)
        \/ \E p \in Paths : LookUp(p)

Spec == Init /\ [][Next]_vars

TypeOK == \A p \in DOMAIN tab : tab[p].q \in Aliases \cup Decls /\ tab[p].decl \in Decls

\* C01
Unique    == \A p, r \in DOMAIN tab : tab[p].q = tab[r].q => p = r
Valid     == \A p \in DOMAIN tab : Identifier(tab[p].q)
NotOwn    == own \notin DOMAIN tab
Stable    == [][\A p \in DOMAIN tab : p \in DOMAIN tab' /\ tab'[p] = tab[p]]_vars
NoLoss    == [][out' = "panic" => tab' = tab]_vars
\* C02: what the import declarations bind is what was handed out
Binds(specs) == { <<IF specs[i].a = "" THEN tab[specs[i].p].decl ELSE specs[i].a, specs[i].p>> : i \in DOMAIN specs }
SpecsBind   == Binds(SpecsOf(tab)) = { <<tab[p].q, p>> : p \in DOMAIN tab }
SpecsSorted == IsSpecsOf(SpecsOf(tab), tab)
SpecsRound  == \A p \in Paths, n \in Decls : TableOf(SpecsOf(tab), tab, RegOp(p, n)) = tab
\* C03/C08: a qualified reference resolves to the intended package
Imps == [q \in { tab[p].q : p \in DOMAIN tab } |-> CHOOSE p \in DOMAIN tab : tab[p].q = q]
Resolves ==
    \A p \in DOMAIN tab \cup {own}, n \in Decls :
      LET s == Sym(p, n, "X")
      IN MapRef([op |-> "resolve", own |-> own, imps |-> Imps], MapRef(Mapping(own, tab), s))
         = MapRef([op |-> "intend", own |-> own], s)
=============================================================================
