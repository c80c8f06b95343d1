------------------------------- MODULE MCFiles ------------------------------
EXTENDS Files
MCOwn   == [f \in {"A", "B"} |-> IF f = "A" THEN "a/own" ELSE "b/foo"]
MCVals  == << Sym("b/foo", "foo", "X"), Sym("c/foo", "foo", "X"), Sym("c/foo", "", "Y"), Sym("a/own", "own", "T"),
              Sym("", "", "error"), Sym("d/func", "func", "Z") >>
MCUses  == UNION { [1..n -> 1..6] : n \in 0..Order }
MCAlias == <<"foo1", "foo2", "foo3", "foo4">>
MCTrue  == [p \in {"a/own", "b/foo", "c/foo", "d/func"} |->
              CASE p = "a/own" -> "own" [] p = "d/func" -> "func" [] OTHER -> "foo"]
=============================================================================
