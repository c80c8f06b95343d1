------------------------------ MODULE SmallCode -----------------------------
(* A few pieces of every kind, and the operations on three blocks.          *)
EXTENDS GoTypes, Integers

W == << [p |-> "a/own", n |-> "own"], [p |-> "b/foo", n |-> "foo"], [p |-> "c/foo", n |-> "foo"] >>
Pool == << [k |-> "sym", sym |-> Sym("b/foo", "foo", "X")],
           [k |-> "pmref", sym |-> Sym("c/foo", "foo", "Y"), m |-> "M"],
           [k |-> "tn", t |-> [k |-> "map", key |-> Named("a/own", "own", "K"), e |-> [k |-> "slice", e |-> Named("c/foo", "foo", "Z")]]],
           [k |-> "pkg", p |-> "b/foo", q |-> "foo"] >>

Lit(s)  == [k |-> "lit", s |-> s]
Ref(a, verb, w, left, prec) == [k |-> "arg", a |-> a, verb |-> verb, w |-> w, left |-> left, prec |-> prec, star |-> FALSE, plus |-> FALSE]
\* a format that is not right: what fmt makes of it
NoVerb == [k |-> "plain", raw |-> "%", out |-> "%!(NOVERB)", verb |-> "", w |-> 0, left |-> FALSE, prec |-> -1, star |-> FALSE, plus |-> FALSE]
R0(a)   == Ref(a, "s", 0, FALSE, -1)
Piece(k, parts) == [k |-> k, parts |-> parts, idx |-> FALSE, shape |-> IF k = "tmpl" THEN "slice" ELSE ""]

Few == { Piece("print", <<Lit("%s{{")>>), Piece("println", <<Lit("x\n")>>),
         Piece("printf", <<Lit("%d"), R0(0), Lit(""), Ref(1, "q", 9, TRUE, -1)>>),
         Piece("printlnf", <<Ref(2, "v", 3, FALSE, 5)>>), Piece("tmpl", <<R0(3), Lit(".{}%"), R0(0)>>),
         Piece("printf", <<Lit("y"), NoVerb>>) }

CodeOps(P, nb) ==
       { [op |-> "put", b |-> b, piece |-> x] : b \in 1..nb, x \in P }
  \cup { [op |-> "add", b |-> b, c |-> c] : b, c \in 1..nb }
NewOp(k) == [op |-> "new", kind |-> k]
ShowOp(b, how) == [op |-> "show", b |-> b, how |-> how, regs |-> <<>>]
=============================================================================
