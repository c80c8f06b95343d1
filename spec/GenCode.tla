------------------------------- MODULE GenCode ------------------------------
(* Every history of up to three operations on two blocks and a function     *)
(* with a few pieces; every piece of one or two parts; every formatting of  *)
(* a reference.                                                             *)
EXTENDS SmallCode, SequencesExt, Json, IOUtils

Size == IOEnv.SIZE
C(ops) == [own |-> "a/own", pkg |-> "own", world |-> W, pool |-> Pool, ops |-> ops]

Start == <<NewOp("cb"), NewOp("cb"), NewOp("func")>>
End   == <<[op |-> "end", b |-> 3], ShowOp(1, "var"), ShowOp(2, "const"), ShowOp(3, "fn"), ShowOp(3, "func")>>
Hists == { C(Start \o s \o End) : s \in [1..2 -> CodeOps(Few, 3)] }
    \cup (IF Size = "small" THEN {}
          ELSE { C(Start \o s \o End) : s \in [1..3 -> CodeOps({ x \in Few : x.k \in {"print", "println"} }, 3)] }
          \cup { C(Start \o s \o End) : s \in [1..3 -> CodeOps({ x \in Few : x.k \in {"printf", "tmpl"} }, 3)] })

Texts == {"", "%", "%%", "%s", "{{.}}", "}}", "`", "\r", "\n", "\\", "x"}
Parts == { Lit(s) : s \in Texts } \cup { R0(a) : a \in 0..3 }
Seqs(S) == { <<x>> : x \in S } \cup { <<x, y>> : x, y \in S }
Lits  == { Lit(s) : s \in Texts }
Pieces == { Piece(k, s) : k \in {"print", "println"}, s \in Seqs(Lits) }
     \cup { Piece(k, s) : k \in {"printf", "printlnf", "tmpl"}, s \in Seqs(Parts) }
     \cup { Piece("printf", <<NoVerb>>) }
     \cup { [Piece(k, <<Ref(a, v, w, l, p)>>) EXCEPT !.parts[1].star = st] :
              k \in {"printf", "printlnf"}, a \in 0..3, v \in {"s", "v", "q"}, w \in {0, 1, 30}, l \in BOOLEAN, p \in {-1, 0, 4, 40}, st \in BOOLEAN }
Singles == { C(<<NewOp("cb"), [op |-> "put", b |-> 1, piece |-> x], ShowOp(1, "var")>>) : x \in Pieces }
      \cup { C(<<[op |-> "con", piece |-> x], ShowOp(1, "const")>>) : x \in Pieces }
      \cup { C(<<[op |-> "init", via |-> v, piece |-> x], ShowOp(1, "func")>>) : v \in {"const", "var"}, x \in { x \in Pieces : x.k = "printf" } }
      \cup { C(<<NewOp("func"), [op |-> "put", b |-> 1, piece |-> x], [op |-> "end", b |-> 1], ShowOp(1, "fn")>>) : x \in Pieces }
Number(name, kind, S) ==
    LET s == SetToSeq(S)
    IN [i \in DOMAIN s |-> s[i] @@ [id |-> name \o "-g" \o ToString(i), kind |-> kind]]
ASSUME ndJsonSerialize(IOEnv.OUT, Number("code", "code", Hists \cup Singles))
=============================================================================
