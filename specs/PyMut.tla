-------------------------------- MODULE PyMut --------------------------------
(* Broken programs, as they stand in an editor while one types: programs of
   PyGen.tla in which a few tokens were removed, doubled, exchanged, replaced or
   added, or that were cut off. *)
EXTENDS PyGen
CONSTANT Rounds        \* how many broken versions are made of a program
VARIABLES pieces,      \* the texts (with the space in front) of the program
          broken,      \* the current broken version
          round
mvars == <<vars, pieces, broken, round>>

Junk == {"(", ")", "[", "]", "{", "}", ":", ",", "=", "'", "\"", "\"\"\"", "'''", "f'", "f\"{", "rf'''", "\\",
         "\n", "\r\n", "    ", "\n  ", "\n        ", "\t", "#", "@", " else ", " except ", " def ", " class ", " import ",
         " lambda ", " async ", " match ", " case ", "é", "🐍", "0x", "1__0", "$", "?", "!", "->", ":=",
         "...", "*", "**", ";", " return ", "b'", "rb\"", " if ", " in ", " not ", ".", "\f", "<>",
         "\\\n", " type ", " with ", " try:", " from ", " await ", " yield ", "_", "%=", "`", "\r", "\n\n"}
\* The text of every token, with its space; empty ones are left out.
RECURSIVE Texts(_, _)
Texts(o, i) == IF i > Len(o) THEN <<>>
               ELSE (IF o[i][1] = "t" /\ o[i][3] \o o[i][4] # "" THEN <<o[i][4] \o o[i][3]>> ELSE <<>>)
                    \o Texts(o, i + 1)
Removed(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Inserted(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Edited(s) ==
    IF s = <<>> THEN <<RandomElement(Junk)>>
    ELSE LET ops == 1..(7 + 0 * Len(s)) IN
         CHOOSE r \in {LET i == RandomElement(1..Len(s))
                           j == RandomElement(1..Len(s))
                           o == RandomElement(ops)
                       IN CASE o = 1 -> Removed(s, i)
                            [] o = 2 -> Inserted(s, i, s[i])
                            [] o = 3 -> [s EXCEPT ![i] = s[j]]
                            [] o = 4 -> [s EXCEPT ![i] = RandomElement(Junk)]
                            [] o = 5 -> Inserted(s, i, RandomElement(Junk))
                            [] o = 6 -> Inserted(s, i, s[j])
                            [] OTHER -> IF RandomElement(ops) > 2 THEN Removed(s, i) ELSE SubSeq(s, 1, i)} : TRUE

MInit == Init /\ pieces = <<>> /\ broken = <<>> /\ round = 0
Grow == ~Done /\ Next /\ UNCHANGED <<pieces, broken, round>>
Take == /\ Done /\ pieces = <<>>
        /\ pieces' = Texts(out, 1)
        /\ broken' = <<>> /\ round' = 0 /\ UNCHANGED vars
Break == /\ pieces # <<>> /\ round < Rounds
         /\ \E k \in {RandomElement(1..(3 + 0 * round))} :
            broken' = CASE k = 1 -> Edited(pieces) [] k = 2 -> Edited(Edited(pieces))
                        [] OTHER -> Edited(Edited(Edited(pieces)))
         /\ round' = round + 1 /\ UNCHANGED <<vars, pieces>>
MNext == Grow \/ Take \/ Break
MSpec == MInit /\ [][MNext]_mvars
MEmit == round > 0 => PrintT(<<"BEHAVIOUR", ToJson(broken)>>)
==============================================================================
