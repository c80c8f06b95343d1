------------------------------- MODULE MCGrow -------------------------------
(* Files, with references that are inserted anywhere between writes: a      *)
(* write shows the references there are at that moment, imports what they   *)
(* need, and never rebinds a qualifier that an earlier write used.  With    *)
(* Cached (the mutant), a file that was written keeps what was rendered.    *)
EXTENDS Files

CONSTANTS Cached, Most

VARIABLES shown   \* what the file referred to when it was written
gvars == <<vals, tabs, outs, uses, shown>>

MCOwn   == [f \in {"A", "B"} |-> IF f = "A" THEN "a/own" ELSE "b/foo"]
MCVals  == << Sym("b/foo", "foo", "X"), Sym("c/foo", "foo", "X"), Sym("a/own", "own", "T"), Sym("d/func", "func", "Z") >>
MCUses  == { <<>>, <<1>>, <<2>> }
MCAlias == <<"foo1", "foo2", "foo3", "foo4">>
MCTrue  == [p \in {"a/own", "b/foo", "c/foo", "d/func"} |->
              CASE p = "a/own" -> "own" [] p = "d/func" -> "func" [] OTHER -> "foo"]

GInit == Init /\ shown = [f \in FileIds |-> <<>>]

Insert(f, i, v) ==
    /\ Len(uses[f]) < Most
    /\ uses' = [uses EXCEPT ![f] = SubSeq(@, 1, i) \o <<v>> \o SubSeq(@, i + 1, Len(@))]
    /\ UNCHANGED <<vals, tabs, outs, shown>>

WriteNow(f) ==
    /\ IF Cached /\ Written(f)
       THEN UNCHANGED <<vals, tabs, outs, uses>>
       ELSE Write(f)
    /\ shown' = [shown EXCEPT ![f] = uses[f]]

GNext == \E f \in FileIds :
            \/ WriteNow(f)
            \/ \E i \in 0..Len(uses[f]), v \in DOMAIN InitVals : Insert(f, i, v)

GSpec == GInit /\ [][GNext]_gvars

ShowsAll ==
    \A f \in FileIds : Written(f) =>
      /\ Len(outs[f].refs) = Len(shown[f])
      /\ \A i \in DOMAIN outs[f].refs :
           MapRef([op |-> "resolve", own |-> OwnOf[f], imps |-> ImpsOf(outs[f].specs)], outs[f].refs[i])
           = MapRef([op |-> "intend", own |-> OwnOf[f]], InitVals[shown[f][i]])
ImportsAll ==
    \A f \in FileIds : Written(f) =>
      { outs[f].specs[i].p : i \in DOMAIN outs[f].specs } = PathsOf(OwnOf[f], [i \in DOMAIN shown[f] |-> InitVals[shown[f][i]]])
Keeps == [][\A f \in FileIds : \A p \in DOMAIN tabs[f] : p \in DOMAIN tabs'[f] /\ tabs'[f][p] = tabs[f][p]]_gvars
=============================================================================
