-------------------------------- MODULE Files -------------------------------
(* Writing the files of a program: a state machine.                         *)
(*                                                                          *)
(*   vals   the values (references) that the files' elements and code hold; *)
(*          they are shared: uses says which file uses which, in order      *)
(*   tabs   the import table of each file                                   *)
(*   outs   what was written last for each file: the qualified references   *)
(*          and the import specs                                            *)
(*                                                                          *)
(* Write(f) qualifies copies of the values against the table of f, which    *)
(* registers the packages they refer to.  With InPlace (the mutant) it      *)
(* qualifies the values themselves.                                         *)
EXTENDS ImportTable

CONSTANTS FileIds, OwnOf, InitVals, UseSeqs, AliasSeq, TrueNames, InPlace, Order

VARIABLES vals, tabs, outs, uses

vars == <<vals, tabs, outs, uses>>

\* the first usable name
RECURSIVE Pick(_, _, _)
Pick(tab, names, i) ==
    IF Identifier(names[i]) /\ \A p \in DOMAIN tab : tab[p].q # names[i] THEN names[i]
    ELSE Pick(tab, names, i + 1)

RegisterRef(own, tab, s) ==
    IF Local(s) \/ s.p = own \/ s.p \in DOMAIN tab THEN tab
    ELSE [x \in DOMAIN tab \cup {s.p} |->
            IF x = s.p THEN [q |-> Pick(tab, <<s.q>> \o AliasSeq, 1), decl |-> s.q] ELSE tab[x]]

RECURSIVE RegisterAll(_, _, _, _)
RegisterAll(own, tab, refs, i) ==
    IF i > Len(refs) THEN tab ELSE RegisterAll(own, RegisterRef(own, tab, refs[i]), refs, i + 1)

RefsAt(vs, f) == [i \in DOMAIN uses[f] |-> vs[uses[f][i]]]

Result(own, tab, refs) ==
    [refs |-> [i \in DOMAIN refs |-> MapRef(Mapping(own, tab), refs[i])], specs |-> SpecsOf(tab)]

\* what writing f gives for a freshly built program
Fresh(f) == LET refs == RefsAt(InitVals, f)
            IN Result(OwnOf[f], RegisterAll(OwnOf[f], Empty, refs, 1), refs)

None == [refs |-> <<>>, specs |-> <<>>]

Init == /\ vals = InitVals
        /\ tabs = [f \in FileIds |-> Empty]
        /\ outs = [f \in FileIds |-> None]
        /\ uses \in [FileIds -> UseSeqs]

Write(f) ==
    LET refs == RefsAt(vals, f)
        t2   == RegisterAll(OwnOf[f], tabs[f], refs, 1)
    IN /\ tabs' = [tabs EXCEPT ![f] = t2]
       /\ outs' = [outs EXCEPT ![f] = Result(OwnOf[f], t2, refs)]
       /\ vals' = IF InPlace
                  THEN [v \in DOMAIN vals |->
                          IF \E i \in DOMAIN uses[f] : uses[f][i] = v
                          THEN MapRef(Mapping(OwnOf[f], t2), vals[v]) ELSE vals[v]]
                  ELSE vals
       /\ UNCHANGED uses

Next == \E f \in FileIds : Write(f)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Written(f) == outs[f] # None

\* registering one by one is a transition of the import table
StepsOK == [][\A f \in FileIds : tabs'[f] # tabs[f] =>
               LET refs == RefsAt(vals, f)
                   op   == [op |-> "ensureSig", sig |-> [args |-> [i \in DOMAIN refs |->
                              [n |-> "", t |-> Named(refs[i].p, refs[i].q, refs[i].name)]], res |-> <<>>, var |-> FALSE]]
               IN Successor(OwnOf[f], tabs[f], op, tabs'[f])]_vars

\* C12
AsIfFresh == \A f \in FileIds : Written(f) => outs[f] = Fresh(f)
Untouched == vals = InitVals
OnlyOwn   == [][\E f \in FileIds : \A g \in FileIds \ {f} : tabs'[g] = tabs[g] /\ outs'[g] = outs[g]]_vars

\* C08
ImpsOf(specs) ==
    LET B == { <<IF specs[i].a = "" THEN TrueNames[specs[i].p] ELSE specs[i].a, specs[i].p>> : i \in DOMAIN specs }
    IN [q \in { b[1] : b \in B } |-> (CHOOSE b \in B : b[1] = q)[2]]
Denotes ==
    \A f \in FileIds : Written(f) =>
      \A i \in DOMAIN outs[f].refs :
        MapRef([op |-> "resolve", own |-> OwnOf[f], imps |-> ImpsOf(outs[f].specs)], outs[f].refs[i])
        = MapRef([op |-> "intend", own |-> OwnOf[f]], InitVals[uses[f][i]])

\* C09
Exact ==
    \A f \in FileIds : Written(f) =>
      { outs[f].specs[i].p : i \in DOMAIN outs[f].specs } = PathsOf(OwnOf[f], RefsAt(InitVals, f))
=============================================================================
