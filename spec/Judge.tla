-------------------------------- MODULE Judge -------------------------------
(* Common part of the conformance modules: the recorded observations, and   *)
(* how a verdict is reported to the runner.                                 *)
(*                                                                          *)
(* An observation is [id, kind, case, st, obs]: what was asked of the code, *)
(* whether it returned ("ok"), and what was seen.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)
N   == Len(Obs)
Lanes == 8

\* verdicts are printed on one line each; always TRUE
Report(id, tags) == PrintT("@REJECT " \o ToJson([id |-> id, tags |-> tags]))

\* tag "C01/unique": property C01, clause "unique"
If(cond, tags) == IF cond THEN {} ELSE tags
=============================================================================
