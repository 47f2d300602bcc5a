---------------------------- MODULE MCPathAlg ----------------------------
EXTENDS PathAlg
cAlphabet == {"/", ".", "a", "b"}
cNames == {<<"a">>, <<"b">>, <<"a", "b">>, <<".", "a">>, <<".", ".", ".">>}
Lit(c) == [k |-> "lit", c |-> c]
cSegParts == {Lit("a"), Lit("B"), Lit("."), [k |-> "any"], [k |-> "star"],
              [k |-> "in", s |-> {"a", "B"}], [k |-> "notin", s |-> {"a"}]}
cSubjects == {<<"a">>, <<"b">>, <<"B">>, <<"a", "B">>, <<".", "a">>, <<"a", "b", "a">>}
==========================================================================
