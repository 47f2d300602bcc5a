------------------------------- MODULE DocText -------------------------------
(* A text without the blanks that all its lines start with, and without blank
   space around it.  One step adds a character and keeps for the line in work
   the blanks it starts with. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chars, MaxLen
VARIABLE text
Blank == {" ", "\t", "<a0>", "<3000>"}
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c)
Spec == Init /\ [][Next]_text
RECURSIVE Lines(_), Lead(_), Glue(_), Strip(_), Joined(_)
\* The lines of a text.
Lines(t) == IF \A j \in DOMAIN t : t[j] # "\n" THEN <<t>>
            ELSE LET e == CHOOSE j \in DOMAIN t : t[j] = "\n" /\ \A m \in 1..(j - 1) : t[m] # "\n"
                 IN <<SubSeq(t, 1, e - 1)>> \o Lines(SubSeq(t, e + 1, Len(t)))
Lead(l) == IF l # <<>> /\ l[1] \in Blank THEN 1 + Lead(Tail(l)) ELSE 0
IsBlank(l) == Lead(l) = Len(l)
Indent(ls) == LET s == {Lead(ls[j]) : j \in {m \in DOMAIN ls : ~IsBlank(ls[m])}}
              IN IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x <= y
Glue(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<"\n">> \o Glue(Tail(ls))
Dedented(t) == LET ls == Lines(t)
                   n == Indent(ls)
               IN Glue([j \in DOMAIN ls |-> IF Len(ls[j]) >= n THEN SubSeq(ls[j], n + 1, Len(ls[j])) ELSE ls[j]])
Space == Blank \union {"\n"}
Strip(t) == IF t = <<>> THEN t ELSE IF t[1] \in Space THEN Strip(Tail(t))
            ELSE IF t[Len(t)] \in Space THEN Strip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))
\* Nothing but blank space is removed, and doing it twice changes nothing.
OnlyBlank == LET seen(t) == SelectSeq(t, LAMBDA c : c \notin Space)
             IN seen(Strip(Dedented(text))) = seen(text)
Twice == Dedented(Dedented(text)) = Dedented(text)
Emit == PrintT(<<"BEHAVIOUR", ToJson([text |-> Joined(text), dedent |-> Joined(Dedented(text)),
                                      clean |-> Joined(Strip(Dedented(text)))])>>)
==============================================================================
