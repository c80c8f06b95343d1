------------------------------- MODULE MCCode -------------------------------
(* Histories of up to Steps operations on two blocks and a function.        *)
EXTENDS Code, SmallCode
CONSTANTS Steps, ByReference       \* ByReference: a wrong way of adding a block

VARIABLE n, op
cvars == <<blocks, n, op>>

\* the wrong way remembers the block instead of what it consists of
RECURSIVE Deref(_, _)
Deref(bs, b) == IF b = <<>> THEN <<>>
                ELSE (IF Head(b).c = "block" THEN Deref(bs, bs[Head(b).b]) ELSE <<Head(b)>>) \o Deref(bs, Tail(b))

CMInit == blocks = << <<>>, <<>>, <<[c |-> "lit", s |-> BlockStart]>> >> /\ n = 0 /\ op = [op |-> "none"]
CMNext == /\ n < Steps /\ n' = n + 1
          /\ \E o \in CodeOps(Few, 3) \cup { ShowOp(1, "var") } :
                /\ op' = o
                /\ IF ByReference /\ o.op = "add"
                   THEN o.b > o.c /\ blocks' = [blocks EXCEPT ![o.b] = Append(@, [c |-> "block", b |-> o.c])]
                   ELSE Do(o)
CMSpec == CMInit /\ [][CMNext]_cvars

Q == [p \in {"b/foo", "c/foo"} |-> IF p = "b/foo" THEN "foo" ELSE "foo1"]
TextOf(bs, b) == BlockText("a/own", Q, Pool, Deref(bs, bs[b]))
PieceText(pc) == BlockText("a/own", Q, Pool, Chunks(pc))

\* only the block that is operated on changes, and only by growing at its end
Grows == [][ \A b \in DOMAIN blocks :
               TextOf(blocks', b) =
                 TextOf(blocks, b) \o (CASE op'.op = "put" /\ op'.b = b -> PieceText(op'.piece)
                                         [] op'.op = "add" /\ op'.b = b -> TextOf(blocks, op'.c)
                                         [] OTHER -> "") ]_cvars
\* a piece ends with a newline of its own exactly if a line-printing method made it
Lines == \A pc \in Few : PieceText(pc) = PieceText([pc EXCEPT !.k = "printf"]) \o (IF pc.k \in {"println", "printlnf"} THEN NL ELSE "")
\* the exact text of some pieces
Examples == /\ PieceText(Piece("printlnf", <<Ref(2, "v", 3, FALSE, 5)>>)) = "map[K" \o NL
            /\ PieceText(Piece("print", <<Ref(2, "s", 17, FALSE, -1)>>)) = "   map[K][]foo1.Z"
            /\ PieceText(Piece("printf", <<Ref(1, "q", 12, TRUE, -1), Lit("|")>>)) = "\"foo1.Y.M\"  |"
            /\ PieceText(Piece("tmpl", <<R0(3), Lit(".{}%"), R0(0)>>)) = "foo.{}%foo.X"
=============================================================================
