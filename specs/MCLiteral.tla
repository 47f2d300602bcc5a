------------------------------ MODULE MCLiteral ------------------------------
EXTENDS Literal
One == {<<"'">>, <<"\"">>}
All == {<<"'">>, <<"\"">>, <<"'", "'", "'">>, <<"\"", "\"", "\"">>}
Triples == {<<"'", "'", "'">>, <<"\"", "\"", "\"">>}
Plain == {<<>>}
Kinds == {<<>>, <<"b">>, <<"r">>, <<"r", "b">>}
AllPrefixes == {<<>>, <<"r">>, <<"R">>, <<"u">>, <<"U">>, <<"b">>, <<"B">>, <<"r", "b">>, <<"b", "r">>, <<"R", "b">>, <<"B", "R">>}
\* Escapes of one character, quotes and line endings.
Simple == {"\\", "'", "\"", "n", "a", "\n", "\r", "g", "<e9>"}
Lines == {"\\", "\n", "\r", "a", "'"}
Letters == {"\\", "a", "b", "t", "n", "v", "f", "r", "c", "8", " ", "x", "u", "U", "N", "0", "<e9>", "<20ac>", "<1f40d>"}
Octals == {"\\", "0", "1", "3", "4", "7", "8", "a"}
Hexes == {"\\", "x", "u", "0", "f", "A", "9", "g", "<e9>"}
Digits == {"0", "1", "d", "8", "f"}
\* The bodies \uXXXX and \UXXXXXXXX with digits, and one character around them.
Long == {"0", "1", "d", "f", "8"}
Unicode == UNION {{<<"\\", "u", a, b, c, d>> \o e : a, b, c, d \in Long, e \in {<<>>, <<"0">>, <<"\\", "n">>}},
                  {<<"\\", "U", "0", "0", a, b, c, d, "0", e>> : a, b, c, d, e \in {"0", "1", "f", "d"}},
                  {<<"<e9>", "\\", "x", a, b, "\\", "x", c>> \o e : a, b, c \in Long, e \in {<<>>, <<"0">>, <<"\\", "\\">>}}}
UInit == /\ prefix \in {<<>>, <<"b">>} /\ quote \in One
         /\ body \in {b \in Unicode : prefix = <<>> \/ b[1] # "<e9>"}
         /\ k = 1 /\ out = <<>> /\ bad = FALSE /\ done = FALSE
==============================================================================
