------------------------------- MODULE Ranges --------------------------------
(* What an editor shows and selects, as it follows from the tree: selections
   around a position, blocks to fold, names from a position on, and the place
   for new imports.  Judges answers recorded from the real tree.

   A tree is its list of nodes in pre-order: type (t), depth (d), whether it is a
   leaf, start (s) and end (e).  Positions count from 0. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
Records == ndJsonDeserialize(IOEnv.RANGES)
VARIABLES i, bad
vars == <<i, bad>>
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y

End(ns, k) == LET later == {j \in k + 1..Len(ns) : ns[j].d <= ns[k].d} IN
              IF later = {} THEN Len(ns) ELSE MinOf(later) - 1
Ancestors(ns, k) == {j \in 1..k - 1 : End(ns, j) >= k}
Kids(ns, k) == {j \in k + 1..End(ns, k) : ns[j].d = ns[k].d + 1}
Leaves(ns) == {j \in 1..Len(ns) : ns[j].leaf}
RECURSIVE InOrder(_)
InOrder(s) == IF s = {} THEN <<>> ELSE <<MinOf(s)>> \o InOrder(s \ {MinOf(s)})
Full(n) == n.e > n.s

(******************************** selections *********************************)
\* What is not selected on its own.
Hidden == {"Operator", "Endmarker", "Indent", "Dedent", "ErrorDedent", "Keyword", "kwargs", "block", "simple_stmts"}
LineStart(r, p) == MaxOf({x \in {r.lines[j] : j \in DOMAIN r.lines} : x <= p})
\* A statement, and what surrounds it, may start with its line.
Spans(r, n) == {<<n.s, n.e>>, <<LineStart(r, n.s), n.e>>}
\* The leaf that is meant by a position: the one that holds it, or that ends here
\* if what follows is a keyword, an operator or the end of the line.
Meant(ns, p) ==
    LET holds == {j \in Leaves(ns) : ns[j].s <= p /\ p < ns[j].e}
        ends == {j \in Leaves(ns) : ns[j].e = p /\ Full(ns[j]) /\ ns[j].t # "Newline"}
        \* Between the opening quotes of an f-string and its text both are meant.
        open == \A j \in holds : ns[j].s = p /\ ns[j].t = "FStringString"
    IN IF holds = {} THEN {{}}
       ELSE IF ends # {} /\ \A j \in holds : ns[j].s = p /\ ns[j].t \in {"Keyword", "Newline"} THEN {ends}
       ELSE IF ends # {} /\ open THEN {holds, ends}
       ELSE {holds}
SelectionOf(r, p, meant) ==
    LET ns == r.nodes
        sel == r.sel[p + 1]
        got == {sel[j] : j \in DOMAIN sel}
        from == IF meant = {} THEN {}
                ELSE LET k == MaxOf(meant) IN {j \in Ancestors(ns, k) \union {k} : ns[j].t \notin Hidden}
    IN IF sel = <<>> \/ sel[Len(sel)] # <<0, r.size>> THEN "the last selection is not everything"
       ELSE IF \E j \in DOMAIN sel : ~(sel[j][1] <= p /\ p <= sel[j][2]) THEN "a selection is not around the position"
       ELSE IF \E j \in 2..Len(sel) : ~(sel[j][1] <= sel[j - 1][1] /\ sel[j - 1][2] <= sel[j][2] /\ sel[j] # sel[j - 1])
            THEN "a selection does not grow"
       ELSE IF \E x \in got : ~\E j \in DOMAIN ns : x \in Spans(r, ns[j]) THEN "a selection is not a node"
       ELSE IF \E j \in from : Spans(r, ns[j]) \cap got = {} THEN "an enclosing node is not selected"
       ELSE IF from # {} /\ sel[1] \notin Spans(r, ns[MaxOf(from)]) THEN "the first selection is not the innermost"
       ELSE ""
Selection(r, p) == LET all == {SelectionOf(r, p, m) : m \in Meant(r.nodes, p)}
                   IN IF "" \in all THEN "" ELSE CHOOSE x \in all : TRUE

(*********************************** folds ***********************************)
\* Blocks of their own lines and match statements, to the start of their last leaf.
LastLeaf(ns, k) == MaxOf({j \in k..End(ns, k) : ns[j].leaf /\ ns[j].t \notin {"Dedent", "ErrorDedent"}})
Folds(ns) ==
    LET ks == InOrder({k \in DOMAIN ns : ns[k].t = "match_stmt" \/ (ns[k].t = "block" /\ ns[k + 1].t # "simple_stmts")})
        start(k) == IF ns[k].t = "block" THEN ns[k].s ELSE ns[InOrder(Kids(ns, k))[4]].s
    IN [x \in DOMAIN ks |-> <<start(ks[x]), ns[LastLeaf(ns, ks[x])].s>>]

(*********************************** names ***********************************)
NameLeaves(ns) == {k \in DOMAIN ns : ns[k].t = "Name"}
\* All that end here or later; the one in front of them may come too.
NamesFrom(ns, p) == InOrder({k \in NameLeaves(ns) : ns[k].e >= p})
GoodNames(ns, got, p) ==
    LET want == NamesFrom(ns, p)
        earlier == {k \in NameLeaves(ns) : ns[k].e < p}
    IN got = want \/ (earlier # {} /\ got = <<MaxOf(earlier)>> \o want)
\* Definitions that start in a range; some in front of them may come too.
HintNodes(ns) == {k \in DOMAIN ns : ns[k].t \in {"function_def", "assignment"}}
GoodHints(ns, h) ==
    LET want == {k \in HintNodes(ns) : ns[k].s >= h.from /\ ns[k].s <= h.to}
        got == {h.got[j] : j \in DOMAIN h.got}
    IN h.got = InOrder(got) /\ want \subseteq got /\ got \subseteq {k \in HintNodes(ns) : ns[k].s <= h.to}

(********************************** imports **********************************)
RECURSIVE Leading(_, _, _, _)
\* How many of the top statements are a docstring or imports.
SimpleKids(ns, k) == {j \in k..End(ns, k) : ns[j].t = "simple_stmt" /\ ns[j].d = ns[k].d + 2}
\* A statement that is only strings; whether an f-string counts is left open.
StringNodes == {"simple_stmt", "star_expressions", "expression", "atom", "strings", "String"}
Alone(ns, j, lenient) == \/ \A m \in j..End(ns, j) : ns[m].t \in StringNodes
                         \/ lenient /\ \E m \in j..End(ns, j) :
                               /\ ns[m].t = "strings" /\ End(ns, m) = End(ns, j)
                               /\ \A x \in j..m : ns[x].t \in StringNodes
IsImport(ns, j) == ns[j + 1].t \in {"import_from", "import_name"}
Leading(ns, tops, n, lenient) ==
    IF n > Len(tops) THEN n - 1
    ELSE LET k == tops[n]
             simple == SimpleKids(ns, k)
         IN IF ns[k].t = "stmt" /\ ns[k + 1].t = "simple_stmts" /\ simple # {}
               /\ ((\A j \in simple : IsImport(ns, j)) \/ (n = 1 /\ Alone(ns, MinOf(simple), lenient)))
            THEN Leading(ns, tops, n + 1, lenient) ELSE n - 1
ImportPlace(r) ==
    LET ns == r.nodes
        q == r.imports
        tops == InOrder(Kids(ns, 1))
        n == Leading(ns, tops, 1, FALSE)
        most == Leading(ns, tops, 1, TRUE)
        before == {k \in 1..n : TRUE}
    IN IF \E k \in Leaves(ns) : ns[k].s < q /\ q < ns[k].e THEN "new imports within a token"
       ELSE IF \E k \in before : ns[tops[k]].e > q THEN "new imports before old ones"
       ELSE IF most < Len(tops) /\ ns[tops[most + 1]].s < q THEN "new imports after statements"
       ELSE IF ~r.errors /\ q \notin {r.lines[j] : j \in DOMAIN r.lines} THEN "new imports within a line"
       ELSE IF q \in {r.comments[j] : j \in DOMAIN r.comments} THEN "new imports within a comment"
       ELSE ""

Why(r) ==
    LET ns == r.nodes
        sel == {p \in 0..r.size : r.bounds[p + 1] /\ Selection(r, p) # ""}
        names == {p \in 0..r.size : r.bounds[p + 1] /\ ~GoodNames(ns, r.names[p + 1], p)}
    IN IF sel # {} THEN <<Selection(r, MinOf(sel)), MinOf(sel)>>
       ELSE IF r.fold # Folds(ns) THEN <<"folding", Folds(ns)>>
       ELSE IF r.all # InOrder(NameLeaves(ns)) THEN <<"names", 0>>
       ELSE IF names # {} THEN <<"names from a position", MinOf(names)>>
       ELSE IF \E h \in DOMAIN r.hints : ~GoodHints(ns, r.hints[h]) THEN <<"hints", 0>>
       ELSE IF ImportPlace(r) # "" THEN <<ImportPlace(r), r.imports>>
       ELSE <<>>
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ \E w \in {Why(Records[i + 1])} :
           /\ bad' = bad + (IF w = <<>> THEN 0 ELSE 1)
           /\ IF w = <<>> THEN TRUE ELSE PrintT(<<"BAD", ToJson([i |-> Records[i + 1].i, why |-> w])>>)
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Records) + 1
==============================================================================
