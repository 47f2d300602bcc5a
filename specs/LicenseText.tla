----------------------------- MODULE LicenseText -----------------------------
(* Files that are no licence, and texts of keys.

   A licence file is a list of fields, up to MaxOdd of which are written in an odd
   way, and the text may end early.  None of them carries the signature of a
   trusted key, so each is rejected (and reading it never fails otherwise).
   A key is 32 numbers of at most two hexadecimal digits, separated by colons. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOdd, Cuts
VARIABLES kind, fields, cut, parts, n
vars == <<kind, fields, cut, parts, n>>
Odd == {"absent", "null", "text", "number", "negative", "fraction", "huge", "twice", "list", "object", "unpaired", "wide", "hex", "zeros", "long"}
NFields == 8
OddOnes(f) == {j \in DOMAIN f : f[j] # "plain"}

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
\* What a part may look like and the number it stands for (-1: none).
Forms == [short |-> [t |-> "7", v |-> 7], long |-> [t |-> "0a", v |-> 10], upper |-> [t |-> "FE", v |-> 254], max |-> [t |-> "ff", v |-> 255],
          zero |-> [t |-> "00", v |-> 0], empty |-> [t |-> "", v |-> 0 - 1], big |-> [t |-> "100", v |-> 0 - 1], letter |-> [t |-> "g1", v |-> 0 - 1],
          blank |-> [t |-> " 1", v |-> 0 - 1], minus |-> [t |-> "-1", v |-> 0 - 1], wide |-> [t |-> "Q", v |-> 0 - 1], prefix |-> [t |-> "0x1", v |-> 0 - 1]]
Init == \/ /\ kind = "file" /\ parts = <<>> /\ n = 0 /\ cut = 0
           /\ fields = [j \in 1..NFields |-> "plain"]
        \/ /\ kind = "key" /\ fields = <<>> /\ cut = 0 /\ n \in {1, 2, 16, 31, 32, 33, 64}
           /\ parts = [j \in 1..n |-> "long"]
Deform == /\ kind = "file" /\ Cardinality(OddOnes(fields)) < MaxOdd /\ cut = 0
          /\ \E j \in DOMAIN fields, o \in Odd : fields[j] = "plain" /\ fields' = [fields EXCEPT ![j] = o]
          /\ UNCHANGED <<kind, cut, parts, n>>
Cut == /\ kind = "file" /\ cut = 0 /\ Cardinality(OddOnes(fields)) <= 1
       /\ \E x \in Cuts : cut' = x
       /\ UNCHANGED <<kind, fields, parts, n>>
Special == {1, n \div 2, n} \ {0}
Replace == /\ kind = "key" /\ Cardinality({j \in DOMAIN parts : parts[j] # "long"}) < MaxOdd
           /\ \E j \in Special, f \in DOMAIN Forms : parts[j] = "long" /\ parts' = [parts EXCEPT ![j] = f]
           /\ UNCHANGED <<kind, fields, cut, n>>
Next == Deform \/ Cut \/ Replace
Spec == Init /\ [][Next]_vars
Good == n = 32 /\ \A j \in DOMAIN parts : Forms[parts[j]].v >= 0
Emit == PrintT(<<"BEHAVIOUR", ToJson(IF kind = "file" THEN [fields |-> fields, cut |-> cut]
            ELSE [parts |-> [j \in DOMAIN parts |-> Forms[parts[j]].t], good |-> Good,
                  bytes |-> [j \in DOMAIN parts |-> Forms[parts[j]].v]])>>)
==============================================================================
