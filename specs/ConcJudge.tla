------------------------------ MODULE ConcJudge -----------------------------
(* Judges the outcomes recorded from the real code with ValidOutcome.      *)
EXTENDS Conc
VARIABLE n
Recorded == ndJsonDeserialize(IOEnv.OUTCOMES)
JInit == /\ n = 0 /\ Init
JNext == /\ n < Len(Recorded) /\ n' = n + 1 /\ UNCHANGED vars
         /\ (Why(Recorded[n + 1]) = {} \/ PrintT(<<"BAD", ToJson([n |-> n, why |-> Why(Recorded[n + 1])])>>))
JSpec == JInit /\ [][JNext]_<<vars, n>>
=============================================================================
