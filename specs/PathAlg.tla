----------------------------- MODULE PathAlg -----------------------------
(***************************************************************************)
(* What paths mean (property V06).  A path text is a sequence of one-      *)
(* character strings.  The specification defines the operations a path     *)
(* layer offers through the components of a path; each state is one        *)
(* question (a text, a pair of texts, or a glob pattern), and Emit prints  *)
(* it with the prescribed answers.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Alphabet, MaxLen, Names, MaxComps, RelLen, SegParts, MaxSegs, SubjectNames, Mode, Sample

Sep == "/"
VARIABLE q

\* ---- components ----
RECURSIVE SplitAt(_, _, _)
SplitAt(s, i, cur) ==
    IF i > Len(s) THEN <<cur>>
    ELSE IF s[i] = Sep THEN <<cur>> \o SplitAt(s, i + 1, <<>>)
    ELSE SplitAt(s, i + 1, Append(cur, s[i]))
Parts(s) == SplitAt(s, 1, <<>>)

RECURSIVE Fold(_, _)
Fold(parts, acc) ==
    IF parts = <<>> THEN acc
    ELSE LET h == Head(parts)
             nxt == IF h = <<>> \/ h = <<".">> THEN acc
                    ELSE IF h = <<".", ".">> THEN (IF acc = <<>> THEN acc ELSE Front(acc))
                    ELSE Append(acc, h)
         IN Fold(Tail(parts), nxt)
\* The location an absolute path text names: the components from the root.
Loc(s) == Fold(Parts(s), <<>>)

RECURSIVE JoinComps(_)
JoinComps(cs) == IF cs = <<>> THEN <<>> ELSE <<Sep>> \o Head(cs) \o JoinComps(Tail(cs))
\* The one normal text of a location.
Text(cs) == IF cs = <<>> THEN <<Sep>> ELSE JoinComps(cs)
Norm(s) == Text(Loc(s))

IsAbs(s) == s # <<>> /\ s[1] = Sep
Absolute(cwd, s) == IF IsAbs(s) THEN s ELSE cwd \o <<Sep>> \o s

FirstSep(s) == IF \E i \in 1..Len(s) : s[i] = Sep
               THEN CHOOSE i \in 1..Len(s) : s[i] = Sep /\ \A j \in 1..(i-1) : s[j] # Sep
               ELSE 0
LastSep(s) == IF \E i \in 1..Len(s) : s[i] = Sep
              THEN CHOOSE i \in 1..Len(s) : s[i] = Sep /\ \A j \in (i+1)..Len(s) : s[j] # Sep
              ELSE 0
None == [none |-> TRUE]
Some(x) == [some |-> x]
SplitFirst(s) == IF FirstSep(s) = 0 THEN [head |-> s, rest |-> None]
                 ELSE [head |-> SubSeq(s, 1, FirstSep(s) - 1), rest |-> Some(SubSeq(s, FirstSep(s) + 1, Len(s)))]
SplitLast(s) == IF LastSep(s) = 0 THEN [folder |-> None, name |-> s]
                ELSE [folder |-> Some(SubSeq(s, 1, LastSep(s) - 1)), name |-> SubSeq(s, LastSep(s) + 1, Len(s))]

Parent(cs) == IF cs = <<>> THEN None ELSE Some(Text(Front(cs)))
Below(base, cs) == IsPrefix(base, cs)

RECURSIVE CommonLen(_, _)
CommonLen(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0
                   ELSE 1 + CommonLen(Tail(a), Tail(b))

\* ---- globs ----
\* A pattern is a sequence of segments, a segment a sequence of parts; a part is
\* [k |-> "lit", c |-> char], [k |-> "any"], [k |-> "star"],
\* [k |-> "in", s |-> set], [k |-> "notin", s |-> set]; <<[k |-> "rec"]>> is **.
Lower(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] OTHER -> c
Same(cs, x, y) == IF cs THEN x = y ELSE Lower(x) = Lower(y)
RECURSIVE SegMatch(_, _, _)
SegMatch(cs, parts, name) ==
    IF parts = <<>> THEN name = <<>>
    ELSE LET p == Head(parts) IN
         IF p.k = "star"
         THEN \E n \in 0..Len(name) : SegMatch(cs, Tail(parts), SubSeq(name, n + 1, Len(name)))
         ELSE /\ name # <<>>
              /\ CASE p.k = "lit" -> Same(cs, p.c, Head(name))
                   [] p.k = "any" -> TRUE
                   [] p.k = "in" -> \E x \in p.s : Same(cs, x, Head(name))
                   [] p.k = "notin" -> \A x \in p.s : ~Same(cs, x, Head(name))
              /\ SegMatch(cs, Tail(parts), Tail(name))
IsRec(seg) == Len(seg) = 1 /\ seg[1].k = "rec"
RECURSIVE PathMatch(_, _, _)
PathMatch(cs, segs, comps) ==
    IF segs = <<>> THEN comps = <<>>
    ELSE IF IsRec(Head(segs))
    THEN IF Len(segs) = 1 THEN comps # <<>>          \* a trailing ** is everything below
         ELSE \E n \in 0..Len(comps) : PathMatch(cs, Tail(segs), SubSeq(comps, n + 1, Len(comps)))
    ELSE /\ comps # <<>>
         /\ SegMatch(cs, Head(segs), Head(comps))
         /\ PathMatch(cs, Tail(segs), Tail(comps))

PartText(p) ==
    CASE p.k = "lit" -> <<p.c>>
      [] p.k = "any" -> <<"?">>
      [] p.k = "star" -> <<"*">>
      [] p.k = "rec" -> <<"*", "*">>
      [] p.k = "in" -> <<"[">> \o SetToSortSeq(p.s, LAMBDA x, y : FALSE) \o <<"]">>
      [] p.k = "notin" -> <<"[", "!">> \o SetToSortSeq(p.s, LAMBDA x, y : FALSE) \o <<"]">>
RECURSIVE SegText(_)
SegText(seg) == IF seg = <<>> THEN <<>> ELSE PartText(Head(seg)) \o SegText(Tail(seg))
RECURSIVE PatText(_)
PatText(segs) == IF segs = <<>> THEN <<>> ELSE <<Sep>> \o SegText(Head(segs)) \o PatText(Tail(segs))
Wild(segs) == \E i \in DOMAIN segs : \E j \in DOMAIN segs[i] : segs[i][j].k # "lit"

\* ---- the universes ----
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Texts == {<<Sep>> \o s : s \in SeqsUpTo(Alphabet, MaxLen)}
Comps == SeqsUpTo(Names, MaxComps)
Rels == SeqsUpTo(Alphabet, RelLen)
\* (. and .. as segments are not patterns but navigation)
Dots(s) == \A i \in DOMAIN s : s[i].k = "lit" /\ s[i].c = "."
Segments == {s \in SeqsUpTo(SegParts, 2) : s # <<>> /\ ~Dots(s) /\ \A i \in 1..(Len(s)-1) : ~(s[i].k = "star" /\ s[i+1].k = "star")}
               \cup {<<[k |-> "rec"]>>}
\* (not starting with two consecutive ** and not the empty pattern)
Patterns == {p \in SeqsUpTo(Segments, MaxSegs) : p # <<>>}
Subjects == SeqsUpTo(SubjectNames, 3) \ {<<>>}

PatLen(n) == IF n < Sample \div 3 THEN 2 ELSE IF n < (2 * Sample) \div 3 THEN 3 ELSE 4
Init ==
    CASE Mode = "text" -> q \in {[k |-> "text", s |-> s] : s \in Texts}
      [] Mode = "pair" -> \/ q \in {[k |-> "rel", a |-> a, r |-> r] : a \in Comps, r \in Rels}
                          \/ q \in {[k |-> "two", a |-> a, b |-> b] : a \in Comps, b \in Comps}
      [] Mode = "glob" -> q \in {[k |-> "glob", p |-> p] : p \in Patterns}
      \* patterns of full length, sampled
      [] Mode = "globrandom" -> q \in {[k |-> "glob", p |-> [i \in 1..PatLen(n) |-> RandomElement(Segments)]] : n \in 1..Sample}
Next == FALSE /\ q' = q
Spec == Init /\ [][Next]_q

\* ---- laws of the specification itself ----
Laws ==
    CASE q.k = "text" ->
           /\ Norm(Norm(q.s)) = Norm(q.s)
           /\ Loc(Norm(q.s)) = Loc(q.s)
           /\ \A i \in DOMAIN Loc(q.s) : Loc(q.s)[i] \notin {<<>>, <<".">>, <<".", ".">>}
      [] q.k = "two" -> (Below(q.a, q.b) /\ Below(q.b, q.a)) => q.a = q.b
      [] OTHER -> TRUE

Answers ==
    CASE q.k = "text" ->
           [k |-> "text", s |-> q.s, norm |-> Norm(q.s),
            first |-> SplitFirst(q.s), last |-> SplitLast(q.s),
            parent |-> Parent(Loc(q.s))]
      [] q.k = "rel" ->
           [k |-> "rel", base |-> Text(q.a), r |-> q.r,
            joined |-> Norm(Absolute(Text(q.a), q.r)), abs |-> IsAbs(q.r)]
      [] q.k = "two" ->
           [k |-> "two", a |-> Text(q.a), b |-> Text(q.b),
            below |-> Below(q.a, q.b),
            ups |-> Len(q.b) - CommonLen(q.a, q.b)]
      [] q.k = "glob" ->
           [k |-> "glob", p |-> PatText(q.p), simple |-> ~Wild(q.p),
            yes |-> {Text(s) : s \in {x \in Subjects : PathMatch(TRUE, q.p, x)}},
            yesci |-> {Text(s) : s \in {x \in Subjects : PathMatch(FALSE, q.p, x)}}]
Emit == PrintT(<<"Q", ToJson(Answers)>>)
==========================================================================
