------------------------------ MODULE Fragments ------------------------------
(* All texts made of at most MaxLen pieces of an alphabet: every way in which
   those pieces can meet. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE text
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E x \in Alphabet : text' = Append(text, x)
Spec == Init /\ [][Next]_text
Emit == PrintT(<<"TEXT", ToJson(text)>>)
==============================================================================
