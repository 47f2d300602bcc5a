------------------------------ MODULE LexerFile ------------------------------
(* The lexer on texts that other specifications have generated. *)
EXTENDS Lexer, IOUtils
Records == ndJsonDeserialize(IOEnv.TEXTS)
Init == \E r \in 1..Len(Records) : Start(Ended(Records[r].text))
Spec == Init /\ [][Next]_vars
==============================================================================
