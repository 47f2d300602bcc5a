---------------------------- MODULE MCConcJudge -----------------------------
EXTENDS ConcJudge
T2 == {1, 2}
P1 == {<<>>}
=============================================================================
