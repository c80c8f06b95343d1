----------------------------- MODULE GenObjects -----------------------------
(* All small programs, with queries for all objects and methods.            *)
EXTENDS SmallObjects, SequencesExt, Json, IOUtils

Size == IOEnv.SIZE
Vias == <<"lookup", "ptr", "set", "own">>
MQs  == SetToSeq({ Q(e, m, v) : e \in {<<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 1>>}, m \in Methods, v \in IF Size = "small" THEN {"lookup", "own"} ELSE SeqRange(Vias) })
Cases == { [pkgs |-> p, queries |-> Queries \o MQs] : p \in { p \in Programs : Fits(p) } }
Number(name, kind, S) ==
    LET s == SetToSeq(S)
    IN [i \in DOMAIN s |-> s[i] @@ [id |-> name \o "-g" \o ToString(i), kind |-> kind]]
ASSUME ndJsonSerialize(IOEnv.OUT, Number("obj", "obj", Cases))
=============================================================================
