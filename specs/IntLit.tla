------------------------------- MODULE IntLit --------------------------------
(* The value of an integer literal, as decimal digits, the lowest first: every
   digit that is read multiplies what was read before by the base. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Digits, MaxLen
VARIABLES text, base, value, gap
vars == <<text, base, value, gap>>
Heads == {<<"", 10>>, <<"0x", 16>>, <<"0X", 16>>, <<"0o", 8>>, <<"0O", 8>>, <<"0b", 2>>, <<"0B", 2>>}
Worth == [c \in {"0"} |-> 0] @@ ("1" :> 1) @@ ("2" :> 2) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
         @@ ("a" :> 10) @@ ("b" :> 11) @@ ("e" :> 14) @@ ("F" :> 15) @@ ("f" :> 15)
RECURSIVE Times(_, _, _)
\* n * factor + carry
Times(n, factor, carry) ==
    IF n = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o Times(<<>>, factor, carry \div 10)
    ELSE LET v == Head(n) * factor + carry IN <<v % 10>> \o Times(Tail(n), factor, v \div 10)
Init == \E h \in Heads : text = h[1] /\ base = h[2] /\ value = <<>> /\ gap = (h[2] # 10)
Next == Len(text) < MaxLen /\ \E d \in Digits, u \in {"", "_"} :
            /\ Worth[d] < base
            /\ u = "_" => gap
            \* A decimal number other than zero does not start with 0.
            /\ base = 10 /\ text # "" => (SubSeq(text, 1, 1) # "0" \/ d = "0")
            /\ text' = text \o u \o d /\ value' = Times(value, base, Worth[d]) /\ gap' = TRUE /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
Canonical == value = <<>> \/ value[Len(value)] \in 0..9
Read == text \notin {"", "0x", "0X", "0o", "0O", "0b", "0B"}
Emit == Read => PrintT(<<"BEHAVIOUR", ToJson([text |-> text, value |-> value])>>)
==============================================================================
