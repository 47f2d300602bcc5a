------------------------------- MODULE Concat --------------------------------
(* String literals written next to each other are one string.  One step adds a
   literal; the value is known as long as no f-string is among them. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxParts
VARIABLES parts, value, known, kinds
vars == <<parts, value, known, kinds>>
\* Text and value of the literals; an f-string has none.
Known == ("'a'" :> <<97>>) @@ ("\"\"" :> <<>>) @@ ("r'\\n'" :> <<92, 110>>) @@ ("'\\n'" :> <<10>>)
         @@ ("'''x\ny'''" :> <<120, 10, 121>>) @@ ("u'<e9>'" :> <<233>>) @@ ("'\\x41\\\\'" :> <<65, 92>>)
         @@ ("\"\"\"\r\n\"\"\"" :> <<10>>) @@ ("''''''" :> <<>>)
Formatted == {"f'b'", "rf\"{x}\"", "f''"}
Template == {"t'c'", "rT'''d'''", "Tr\"\""}
Gaps == {" ", "", "\n", " # 'c'\n", "\\\n", "\t"}
Init == parts = <<>> /\ value = <<>> /\ known = TRUE /\ kinds = <<>>
Next == /\ Len(parts) < MaxParts
        /\ \E p \in DOMAIN Known \union Formatted \union Template, g \in (IF parts = <<>> THEN {""} ELSE Gaps) :
              \* Quotes that touch would be read as other quotes.
              /\ g = "" /\ parts # <<>> => SubSeq(p, 1, 1) \notin {"'", "\""}
              /\ parts' = Append(parts, g \o p)
              /\ value' = IF p \in DOMAIN Known THEN value \o Known[p] ELSE value
              /\ known' = (known /\ p \in DOMAIN Known)
              /\ kinds' = Append(kinds, IF p \in Formatted THEN "f" ELSE IF p \in Template THEN "t" ELSE "s")
Spec == Init /\ [][Next]_vars
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))
Emit == parts # <<>> => PrintT(<<"BEHAVIOUR", ToJson([parts |-> "(" \o Joined(parts) \o ")", known |-> known, kinds |-> kinds, value |-> value])>>)
==============================================================================
