----------------------------- MODULE GrammarJudge -----------------------------
(* In the tree of every text, derivable or not, the children of each node that
   is not marked as an error are those of one right-hand side of its rule, and
   those of an error node are a beginning of one.  So a text that is not
   derivable has an error node.  Judges the pairs (node, children) recorded from
   the real parser.

   Where the real grammar is deliberately more lenient than the reference
   manual, or needs a different shape while text is broken, the rule is given
   again below (Lenient). *)
EXTENDS PyGrammar, TLC, Json, IOUtils, FiniteSets

Records == ndJsonDeserialize(IOEnv.KIDS)
VARIABLES i, bad
vars == <<i, bad>>

Lenient == [
  \* Blank lines in odd places, and blocks whose head is broken.
  stmt |-> A(<<Rules.stmt, T("Newline"), N("broken_scope")>>),
  broken_scope |-> S(<<T("Indent"), P(N("stmt")), T("Dedent")>>),
  subject_expr |-> A(<<N("named_expression"), N("star_named_expressions")>>),
  \* `*a or b` in a list is reported by the checker and not by the parser.
  star_named_expression |-> A(<<S(<<K("*"), N("disjunction")>>), N("named_expression")>>),
  t_primary |-> A(<<Rules.t_primary, Rules.t_inner>>),
  kwargs |-> A(<<Rules.kwargs,
                 S(<<Sep(K(","), A(<<N("kwarg"), N("starred_expression")>>)), O(K(","))>>),
                 S(<<Sep(K(","), A(<<N("kwarg"), N("starred_expression")>>)), K(","),
                     Sep(K(","), A(<<N("kwarg"), N("double_starred_expression")>>)), O(K(","))>>),
                 S(<<Sep(K(","), A(<<N("kwarg"), N("double_starred_expression")>>)), O(K(","))>>)>>)
]
Body(n) == IF n \in DOMAIN Lenient THEN Lenient[n] ELSE Rules[n]
Known(n) == n \in DOMAIN Lenient \/ n \in DOMAIN Rules

Token(t) == CASE t \in {"CaptureName", "Conversion"} -> "Name"
              [] t = "FStringSpec" -> "FStringString" [] OTHER -> t

\* What can stand for a symbol: a hidden node with one child is that child.
RECURSIVE Nullable(_), Singles(_)
Nullable(b) == CASE b[1] \in {"opt", "star"} -> TRUE
                 [] b[1] = "seq" -> \A k \in DOMAIN b[2] : Nullable(b[2][k])
                 [] b[1] = "alt" -> \E k \in DOMAIN b[2] : Nullable(b[2][k])
                 [] b[1] = "plus" -> Nullable(b[2])
                 [] b[1] = "sep" -> Nullable(b[3])
                 [] OTHER -> FALSE
Singles(b) == CASE b[1] \in {"n", "nd"} -> {<<"n", b[2]>>}
                [] b[1] = "t" -> {<<"t", Token(b[2])>>}
                [] b[1] \in {"k", "k0"} -> {<<"k", b[2]>>}
                [] b[1] = "fstr" -> {}
                [] b[1] \in {"opt", "star", "plus"} -> Singles(b[2])
                [] b[1] = "sep" -> Singles(b[3])
                [] b[1] = "alt" -> UNION {Singles(b[2][k]) : k \in DOMAIN b[2]}
                [] OTHER -> UNION {IF \A j \in DOMAIN b[2] : j = k \/ Nullable(b[2][j])
                                   THEN Singles(b[2][k]) ELSE {} : k \in DOMAIN b[2]}
RECURSIVE Closure(_)
Closure(set) ==
    LET more == UNION {IF s[1] = "n" /\ s[2] \in Hidden
                       THEN Singles(IF s[2] = "t_primary" THEN Rules.t_primary ELSE Body(s[2]))
                       ELSE {} : s \in set}
    IN IF more \subseteq set THEN set ELSE Closure(set \union more)
Shown(s) == IF s[1] = "n" THEN <<"n", NodeName(s[2])>> ELSE s
ASSUME TLCSet(7, [n \in DOMAIN Rules \union DOMAIN Lenient |-> {Shown(s) : s \in Closure({<<"n", n>>})}])
Visible(n) == TLCGet(7)[n]

\* The positions behind what the body matches from position p on.  The flag is
\* set in error nodes: what is missing may be missing from there on.
RECURSIVE Ends(_, _, _, _), Repeat(_, _, _, _, _)
One(set, kids, p) == IF p <= Len(kids) /\ kids[p] \in set THEN {p + 1} ELSE {}
Ends(b, kids, p, part) ==
    LET all == CASE b[1] = "n" -> One(Visible(b[2]) \union (IF b[2] = "stmt" THEN {<<"e", "stmt">>} ELSE {}), kids, p)
                 [] b[1] = "nd" -> One(Visible(b[2]), kids, p)
                 [] b[1] = "t" -> One({<<"t", Token(b[2])>>}, kids, p)
                 [] b[1] \in {"k", "k0"} -> One({<<"k", b[2]>>}, kids, p)
                 [] b[1] = "fstr" -> Ends(S(<<T("FStringStart"), b[2], T("FStringEnd")>>), kids, p, part)
                 [] b[1] = "opt" -> {p} \union Ends(b[2], kids, p, part)
                 [] b[1] = "star" -> {p} \union Repeat(b[2], kids, {p}, {}, part)
                 [] b[1] = "plus" -> Repeat(b[2], kids, {p}, {}, part)
                 [] b[1] = "sep" -> LET first == Ends(b[3], kids, p, part)
                                    IN first \union Repeat(S(<<b[2], b[3]>>), kids, first, {}, part)
                 [] b[1] = "alt" -> UNION {Ends(b[2][k], kids, p, part) : k \in DOMAIN b[2]}
                 [] OTHER -> IF b[2] = <<>> THEN {p}
                             ELSE UNION {Ends(S(Tail(b[2])), kids, q, part) : q \in Ends(Head(b[2]), kids, p, part)}
    IN IF part /\ (p > Len(kids) \/ (p = Len(kids) /\ kids[p][1] \in {"e", "el"})) THEN {Len(kids) + 1} ELSE all
Repeat(b, kids, from, seen, part) ==
    LET new == UNION {Ends(b, kids, q, part) : q \in from} \ seen
    IN IF new = {} THEN seen ELSE Repeat(b, kids, new, seen \union new, part)
Fits(n, kids, part) == (Len(kids) + 1) \in Ends(Body(n), kids, 1, part)

Reserved == {"False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue",
    "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is",
    "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"}
\* The words that are names except where a rule wants them.
Soft == {"match", "case", "_", "type"}

Why(r) ==
    CASE r.k = "leaf" /\ r.type = "Name" -> IF r.text \in Reserved THEN "a reserved word is a name" ELSE ""
      [] r.k = "leaf" -> ""
      [] ~Known(r.n) -> "an unknown node"
      [] r.k = "node" -> IF ~Fits(r.n, r.kids, FALSE) THEN "children that its rule does not allow"
                         ELSE IF r.n \in Hidden /\ Len(r.kids) < 2 THEN "a node that should have been its child"
                         ELSE ""
      [] OTHER -> IF r.n = "stmt" /\ Len(r.kids) = 1 /\ r.kids[1][1] = "el" THEN ""
                  ELSE IF Fits(r.n, r.kids, TRUE) THEN "" ELSE "an error node that is not the beginning of a node"

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ LET w == Why(Records[i + 1]) IN
           /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
           /\ IF w = "" THEN TRUE
              ELSE PrintT(<<"BAD", ToJson([i |-> Records[i + 1].i, why |-> w, record |-> Records[i + 1]])>>)
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Records) + 1
===============================================================================
