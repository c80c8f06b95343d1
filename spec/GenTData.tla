------------------------------ MODULE GenTData ------------------------------
EXTENDS SmallTData, SequencesExt, Json, IOUtils

Size == IOEnv.SIZE
WaySeq == SetToSeq(Ways)
Map(items) == FlattenSeq([x \in DOMAIN items |->
                  LET ws == SelectSeq(WaySeq, LAMBDA w : Fit(w, items[x]))
                  IN [n \in DOMAIN ws |-> Put(ws[n], items[x])]])
Two == Map(Map(Leaves))
Items == Leaves \o Map(Leaves) \o Two
         \o (IF Size = "small" THEN <<>> ELSE Map(SelectSeq(Two, LAMBDA i : TRUE)))
Top == SelectSeq(Items, LAMBDA i : ~IsIface(i.d))
Regs(n) == IF n % 2 = 0 THEN <<>> ELSE <<[p |-> "b/foo", n |-> "foo"]>>
Cases == [n \in DOMAIN Top |->
            [id |-> "tdata-g" \o ToString(n), kind |-> "tdata", own |-> "own", regs |-> Regs(n),
             steps |-> <<[d |-> Top[n].d, v |-> Top[n].v]>>]]
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
=============================================================================
