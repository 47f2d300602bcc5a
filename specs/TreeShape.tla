------------------------------ MODULE TreeShape ------------------------------
(* What the tree of every text has to look like, whether the text is a program
   or not: the leaves spell the text in order, and every inner node spans
   exactly its leaves.  Judges trees recorded from the real parser.

   A record has size (of the code the tree is about), tail (the last characters
   of the text that was parsed), added (what the parser put behind it) and
   nodes: <<index, depth, 1 if it is a leaf, start, end>> in pre-order of the
   children, as the children are reported. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

Records == ndJsonDeserialize(IOEnv.SHAPES)
Gaps == ndJsonDeserialize(IOEnv.GAPS)
VARIABLES i, bad
vars == <<i, bad>>

\* The code ends with a line ending, which is not part of a line joining.
EndsIn(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Added(t) == LET a == IF EndsIn(t, <<"\n">>) THEN <<>> ELSE <<"\n">>
                u == t \o a
            IN IF EndsIn(u, <<"\\", "\n">>) \/ EndsIn(u, <<"\\", "\r", "\n">>)
               THEN a \o <<"\n">> ELSE a

Idx(n) == n[1]
Depth(n) == n[2]
Leaf(n) == n[3] = 1
From(n) == n[4]
To(n) == n[5]
\* Where the subtree of the node k ends (its last node is its last leaf).
RECURSIVE SubEnd(_, _, _)
SubEnd(ns, k, j) == IF j = Len(ns) THEN j
                    ELSE IF Depth(ns[j + 1]) <= Depth(ns[k]) THEN j ELSE SubEnd(ns, k, j + 1)
RECURSIVE Tiles(_, _, _)
Tiles(ns, k, at) == IF k > Len(ns) THEN TRUE
                    ELSE IF ~Leaf(ns[k]) THEN Tiles(ns, k + 1, at)
                    ELSE /\ at <= From(ns[k]) /\ From(ns[k]) <= To(ns[k])
                         /\ Tiles(ns, k + 1, To(ns[k]))

\* Leaves have no children, all other nodes have.
Nested(ns) == LET n == Len(ns) IN
    /\ n >= 2
    /\ Depth(ns[1]) = 0
    /\ ~Leaf(ns[1])
    /\ Leaf(ns[n])
    /\ \A k \in 2..n : Depth(ns[k]) >= 1
    /\ \A k \in 1..n - 1 : IF Leaf(ns[k]) THEN Depth(ns[k + 1]) <= Depth(ns[k])
                           ELSE Depth(ns[k + 1]) = Depth(ns[k]) + 1

Why(r) ==
    LET ns == r.nodes
        n == Len(ns)
    IN IF ~(r.added = Added(r.tail)) THEN "the code is not the text"
       ELSE IF ~(r.agree /\ \A k \in 1..n : Idx(ns[k]) = k - 1) THEN "the order of the nodes"
       ELSE IF ~r.bounds THEN "a node ends within a character"
       ELSE IF ~Nested(ns) THEN "a leaf with children or a node without"
       ELSE IF ~Tiles(ns, 1, 0) THEN "leaves overlap or are out of order"
       ELSE IF ~(To(ns[n]) = r.size) THEN "the last leaf is not at the end"
       ELSE IF ~(From(ns[1]) = 0 /\ To(ns[1]) = r.size) THEN "the root is not the whole text"
       ELSE IF ~(\A k \in 2..n : Leaf(ns[k]) \/ /\ From(ns[k]) = From(ns[k + 1])
                                                /\ To(ns[k]) = To(ns[SubEnd(ns, k, k)]))
            THEN "a node does not span its leaves"
       ELSE ""

\* Blanks, line endings, comments and line joinings.
RECURSIVE Trivia(_, _), Comment(_, _)
Eol(c) == c \in {"\n", "\r"}
Trivia(g, k) ==
    IF k > Len(g) THEN TRUE
    ELSE CASE g[k] \in {" ", "\t", "\f", "\n", "\r"} -> Trivia(g, k + 1)
           [] g[k] = "#" -> Comment(g, k + 1)
           [] g[k] = "\\" -> k < Len(g) /\ Eol(g[k + 1]) /\ Trivia(g, k + 2)
           [] OTHER -> FALSE
Comment(g, k) == IF k > Len(g) THEN TRUE ELSE IF Eol(g[k]) THEN Trivia(g, k + 1) ELSE Comment(g, k + 1)

Init == i = 0 /\ bad = 0
Next == \/ /\ i < Len(Records)
           /\ i' = i + 1
           /\ LET w == Why(Records[i + 1]) IN
              /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
              /\ IF w = "" THEN TRUE ELSE PrintT(<<"BAD", ToJson([i |-> Records[i + 1].i, why |-> w])>>)
        \/ /\ i >= Len(Records) /\ i < Len(Records) + Len(Gaps)
           /\ i' = i + 1
           /\ LET r == Gaps[i + 1 - Len(Records)]
                  g == r.gap IN
              /\ bad' = bad + (IF Trivia(g, 1) THEN 0 ELSE 1)
              /\ IF Trivia(g, 1) THEN TRUE
                 ELSE PrintT(<<"BAD", ToJson([i |-> r.i, gap |-> g, why |-> "text that belongs to no leaf"])>>)
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Records) + Len(Gaps) + 1
==============================================================================
