------------------------------- MODULE License -------------------------------
(* Licences: issued and signed, then carried around and changed, then verified.

   Somebody signs a licence with one of the keys.  Up to MaxSteps changes follow:
   of a field, of a piece of text from one field to the next, of the signature.
   What is verified is accepted if one of the trusted keys signed exactly these
   fields, and the moment lies in the period. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Texts, Numbers, Moments, Keys, MaxSteps
VARIABLES signed, lic, sig, steps, trusted, now, verdict
vars == <<signed, lic, sig, steps, trusted, now, verdict>>

\* Texts and numbers are sequences of characters; numbers have no zeros in front.
DigitOf == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("9" :> 9)
Digits == DOMAIN DigitOf
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + DigitOf[s[Len(s)]]
IsNumber(s) == s # <<>> /\ (\A j \in DOMAIN s : s[j] \in Digits) /\ (s[1] = "0" => Len(s) = 1)
\* The fields in their order: name, e-mail, company, from, until, version, level.
Text == 1..3
Number == 4..6
From == 4
Until == 5
Version == 6
Level == 7
WellFormed(l) == \A f \in Number : IsNumber(l[f])
Fields == {<<n, e, c, from, until, <<"1">>, "Standard">> : n \in Texts, e \in Texts, c \in Texts, from \in Numbers, until \in Numbers}

Init == /\ signed \in [lic : Fields, key : Keys]
        /\ lic = signed.lic /\ sig = "own" /\ steps = 0
        /\ trusted = {} /\ now = 0 /\ verdict = "open"
Change(l) == /\ verdict = "open" /\ steps < MaxSteps /\ l # lic /\ WellFormed(l)
             /\ lic' = l /\ steps' = steps + 1 /\ UNCHANGED <<signed, sig, trusted, now, verdict>>
SetText == \E f \in Text, t \in Texts : Change([lic EXCEPT ![f] = t])
SetNumber == \E f \in Number, t \in Numbers : Change([lic EXCEPT ![f] = t])
SetLevel == Change([lic EXCEPT ![Level] = IF @ = "Standard" THEN "NoLicense" ELSE "Standard"])
\* A character goes over to the neighbouring field.
Over == \E f \in 1..5 : /\ lic[f] # <<>>
                        /\ Change([lic EXCEPT ![f] = SubSeq(@, 1, Len(@) - 1), ![f + 1] = <<lic[f][Len(lic[f])]>> \o @])
Back == \E f \in 1..5 : /\ lic[f + 1] # <<>>
                        /\ Change([lic EXCEPT ![f] = Append(@, lic[f + 1][1]), ![f + 1] = Tail(@)])
Swap == \E f \in {1, 2, 4} : Change([lic EXCEPT ![f] = lic[f + 1], ![f + 1] = lic[f]])
Damages == {"flipped", "cut", "empty", "malleated", "long", "not hex", "of another licence", "swapped halves"}
Damage == /\ verdict = "open" /\ sig = "own" /\ steps < MaxSteps
          /\ \E d \in Damages : sig' = d
          /\ steps' = steps + 1 /\ UNCHANGED <<signed, lic, trusted, now, verdict>>

\* What is signed is more than the characters of the fields in a row: this is the
\* part of the changes that the implementation cannot see (a known finding).
Row(l) == l[1] \o l[2] \o l[3] \o l[4] \o l[5] \o l[6]
Unseen == lic # signed.lic /\ Row(lic) = Row(signed.lic) /\ lic[Level] = signed.lic[Level]
Accepted(t) == sig = "own" /\ lic = signed.lic /\ signed.key \in t
Verdict(t, m) == IF ~Accepted(t) THEN "rejected"
                 ELSE IF m < Value(lic[From]) THEN "not yet"
                 ELSE IF m > Value(lic[Until]) THEN "expired" ELSE "valid"
Verify == /\ verdict = "open"
          /\ \E t \in SUBSET Keys, m \in Moments :
                trusted' = t /\ now' = m /\ verdict' = Verdict(t, m)
          /\ UNCHANGED <<signed, lic, sig, steps>>
Next == SetText \/ SetNumber \/ SetLevel \/ Over \/ Back \/ Swap \/ Damage \/ Verify
Spec == Init /\ [][Next]_vars

\* Nothing is accepted that was not signed so.
Unaltered == verdict \in {"valid", "not yet", "expired"} => lic = signed.lic /\ sig = "own" /\ signed.key \in trusted
InPeriod == verdict = "valid" => Value(lic[From]) <= now /\ now <= Value(lic[Until])
Never == Value(lic[From]) > Value(lic[Until]) => verdict # "valid"
Emit == verdict # "open" => PrintT(<<"BEHAVIOUR", ToJson([signed |-> signed, lic |-> lic, sig |-> sig,
            trusted |-> trusted, now |-> now, verdict |-> verdict, unseen |-> Unseen /\ sig = "own" /\ signed.key \in trusted])>>)
==============================================================================
