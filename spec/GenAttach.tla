------------------------------ MODULE GenAttach -----------------------------
(* Every sequence of Moves and MoreMoves of up to a length, after Setup.    *)
EXTENDS SmallAttach, SequencesExt, Json, IOUtils

Size  == IOEnv.SIZE
Upto  == CASE Size = "small" -> 2 [] OTHER -> 3
Hists == { [ops |-> Setup \o s] : s \in [1..2 -> MoreMoves] }
         \cup (IF Upto = 2 THEN {} ELSE { [ops |-> Setup \o s] : s \in [1..3 -> Moves] })
Number(name, kind, S) ==
    LET s == SetToSeq(S)
    IN [i \in DOMAIN s |-> s[i] @@ [id |-> name \o "-g" \o ToString(i), kind |-> kind]]
ASSUME ndJsonSerialize(IOEnv.OUT, Number("attach", "attach", Hists))
=============================================================================
