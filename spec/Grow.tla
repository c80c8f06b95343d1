-------------------------------- MODULE Grow --------------------------------
(* Building a program step by step, and writing its files along the way.    *)
(*                                                                          *)
(*   cur    the program as it is now (see File)                             *)
(*   past   for each file, what it needed to import when it was written     *)
(*                                                                          *)
(* Steps: see GrowSteps.                                                   *)
EXTENDS GrowSteps

VARIABLES cur, past

GrowInit(p) == cur = p /\ past = [f \in DOMAIN p.files |-> {}]

Step(st) ==
    /\ cur' = Apply(cur, st)
    /\ past' = IF st.a = "write" THEN [past EXCEPT ![st.f + 1] = @ \cup NeededBy(cur, st.f)] ELSE past
=============================================================================
