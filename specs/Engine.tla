-------------------------------- MODULE Engine --------------------------------
(* What the parsing engine makes of a grammar and an input.

   A rule is read as the automaton of its body: all right-hand sides are followed
   at once as long as they agree on the next symbol.  Where the next token can
   start different symbols, the alternatives are tried in the order in which they
   are written, each for the whole rest of the rule; the first that reaches the
   end of the rule is taken for good.  A rule does not end as long as it can take
   the next token.  A rule that starts with itself is continued after it was
   matched.  A collapsible rule with one child is that child.

   The module makes random grammars (Grow) and prescribes the tree, or that there
   is none, for every input up to MaxLen tokens. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, NRules
VARIABLES grammar, round
Tokens == {"a", "b", "c"}
Stop == "$"

(***************************** bodies of rules ******************************)
T(x) == <<"t", x>>
N(k) == <<"n", k>>
S(x) == <<"seq", x>>
A(x) == <<"alt", x>>
O(x) == <<"opt", x>>
M(x) == <<"star", x>>
P(x) == <<"plus", x>>
Not(x) == <<"not", x>>       \* the next token is not x
And(x) == <<"and", x>>       \* the next token is x

\* The positions of a body are numbered in the order of the text.  sym is the
\* sequence of their symbols, first and last are sets of positions, fol[p] those
\* that may come after p.
Shift(set, k) == {p + k : p \in set}
Empty == [n |-> TRUE, sym |-> <<>>, first |-> {}, last |-> {}, fol |-> <<>>]
One(s) == [n |-> FALSE, sym |-> <<s>>, first |-> {1}, last |-> {1}, fol |-> <<{}>>]
Cat(x, y) == LET k == Len(x.sym) IN
    [n |-> x.n /\ y.n,
     sym |-> x.sym \o y.sym,
     first |-> x.first \union (IF x.n THEN Shift(y.first, k) ELSE {}),
     last |-> Shift(y.last, k) \union (IF y.n THEN x.last ELSE {}),
     fol |-> [p \in 1..k + Len(y.sym) |->
                IF p > k THEN Shift(y.fol[p - k], k)
                ELSE x.fol[p] \union (IF p \in x.last THEN Shift(y.first, k) ELSE {})]]
Or(x, y) == LET k == Len(x.sym) IN
    [n |-> x.n \/ y.n, sym |-> x.sym \o y.sym,
     first |-> x.first \union Shift(y.first, k), last |-> x.last \union Shift(y.last, k),
     fol |-> [p \in 1..k + Len(y.sym) |-> IF p > k THEN Shift(y.fol[p - k], k) ELSE x.fol[p]]]
Loop(x) == [x EXCEPT !.fol = [p \in DOMAIN x.fol |->
                                x.fol[p] \union (IF p \in x.last THEN x.first ELSE {})]]
RECURSIVE Pos(_), CatAll(_, _), OrAll(_, _)
CatAll(xs, k) == IF k > Len(xs) THEN Empty ELSE Cat(Pos(xs[k]), CatAll(xs, k + 1))
OrAll(xs, k) == IF k = Len(xs) THEN Pos(xs[k]) ELSE Or(Pos(xs[k]), OrAll(xs, k + 1))
Pos(b) == CASE b[1] \in {"t", "n", "not", "and"} -> One(b)
            [] b[1] = "seq" -> CatAll(b[2], 1)
            [] b[1] = "alt" -> OrAll(b[2], 1)
            [] b[1] = "opt" -> [Pos(b[2]) EXCEPT !.n = TRUE]
            [] b[1] = "star" -> [Loop(Pos(b[2])) EXCEPT !.n = TRUE]
            [] OTHER -> Loop(Pos(b[2]))

(*********************************** parsing *********************************)
\* A grammar: rules[k] = [body, hidden]; au[k] the positions; first[k] the tokens.
RECURSIVE FirstTokens(_, _, _)
FirstTokens(au, k, seen) ==
    UNION {LET s == au[k].sym[p] IN
           IF s[1] = "t" THEN {s[2]}
           ELSE IF s[1] = "n" /\ s[2] \notin seen THEN FirstTokens(au, s[2], seen \union {s[2]})
           ELSE {} : p \in au[k].first}
Self(g, k) == {p \in g.au[k].first : g.au[k].sym[p] = N(k)}
Starts(g, s, t) == CASE s[1] = "t" -> s[2] = t
                     [] s[1] = "n" -> t \in g.first[s[2]]
                     [] s[1] = "and" -> s[2] = t
                     [] OTHER -> FALSE

RECURSIVE Ordered(_)
Ordered(set) == IF set = {} THEN <<>>
                ELSE LET m == CHOOSE x \in set : \A y \in set : x <= y IN <<m>> \o Ordered(set \ {m})
\* Neighbouring positions of the same symbol are one alternative.
RECURSIVE Runs(_, _, _)
Runs(sym, ps, cur) ==
    IF ps = <<>> THEN (IF cur = {} THEN <<>> ELSE <<cur>>)
    ELSE IF cur = {} \/ sym[Head(ps)] = sym[CHOOSE x \in cur : TRUE]
    THEN Runs(sym, Tail(ps), cur \union {Head(ps)})
    ELSE <<cur>> \o Runs(sym, Tail(ps), {Head(ps)})

Failed == <<"fail">>
Hard == <<"hard">>
RECURSIVE Match(_, _, _, _), Run(_, _, _, _, _, _, _), Try(_, _, _, _, _, _),
          Advance(_, _, _, _, _, _)
Node(g, k, kids) == IF g.rules[k].hidden /\ Len(kids) = 1 THEN kids[1] ELSE <<k, kids>>
Follow(g, k, ps) == UNION {g.au[k].fol[p] : p \in ps}
Final(g, k, ps) == ps \cap g.au[k].last # {}
\* Sets of positions to continue with, and whether the rule may end here.
Run(g, k, in, i, kids, cand, final) ==
    LET au == g.au[k]
        t == in[i]
        nots == {p \in cand : au.sym[p][1] = "not"}
    IN IF nots # {} THEN
           IF \E p \in nots : au.sym[p][2] = t THEN Failed
           ELSE Run(g, k, in, i, kids, (cand \ nots) \union Follow(g, k, nots), final \/ Final(g, k, nots))
       ELSE LET self == Self(g, k)
                after == Follow(g, k, self)
                live == {p \in cand : Starts(g, au.sym[p], t)}
            IN IF final /\ self # {} /\ \E p \in after : Starts(g, au.sym[p], t)
               THEN LET r == Run(g, k, in, i, <<Node(g, k, kids)>>, after, FALSE)
                    IN IF r = Failed THEN Hard ELSE r
               ELSE IF live = {} THEN (IF final THEN <<"ok", i, Node(g, k, kids)>> ELSE Failed)
               ELSE IF Cardinality({au.sym[p] : p \in live}) = 1 THEN Advance(g, k, in, i, kids, live)
               ELSE LET clash == {p \in cand : \E q \in cand : /\ au.sym[p] # au.sym[q]
                                                               /\ \E x \in Tokens \union {Stop} :
                                                                    Starts(g, au.sym[p], x) /\ Starts(g, au.sym[q], x)}
                        same == {p \in cand : \E q \in clash : au.sym[p] = au.sym[q]}
                        runs == Runs(au.sym, Ordered(same), {})
                    IN Try(g, k, in, i, kids, SelectSeq(runs, LAMBDA r : r \subseteq live))
Try(g, k, in, i, kids, runs) ==
    IF runs = <<>> THEN Failed
    ELSE LET r == Advance(g, k, in, i, kids, Head(runs))
         IN IF r = Failed THEN Try(g, k, in, i, kids, Tail(runs)) ELSE r
Advance(g, k, in, i, kids, ps) ==
    LET s == g.au[k].sym[CHOOSE p \in ps : TRUE]
        go(j, more) == Run(g, k, in, j, more, Follow(g, k, ps), Final(g, k, ps))
    IN CASE s[1] = "t" -> go(i + 1, Append(kids, s[2]))
         [] s[1] = "and" -> go(i, kids)
         [] OTHER -> LET m == Match(g, s[2], in, i)
                     IN IF m[1] = "ok" THEN go(m[2], Append(kids, m[3])) ELSE Failed
Match(g, k, in, i) == Run(g, k, in, i, <<>>, g.au[k].first \ Self(g, k), FALSE)

\* The rule above all others: statements up to the end.
RECURSIVE File(_, _, _, _)
File(g, in, i, kids) ==
    IF in[i] = Stop THEN <<"ok", kids>>
    ELSE LET m == Match(g, 1, in, i)
         IN IF m[1] = "ok" THEN File(g, in, m[2], Append(kids, m[3])) ELSE <<"fail">>
Inputs == UNION {[1..n -> Tokens] : n \in 1..MaxLen}
Expected(g) == {<<in, File(g, in \o <<Stop>>, 1, <<>>)>> : in \in Inputs}

(********************************** grammars *********************************)
\* Every rule takes at least one token, only direct left recursion, and what a
\* negative lookahead guards is the only thing that can come there.
RECURSIVE Leads(_, _, _)
Leads(au, k, seen) == LET next == {au[k].sym[p][2] : p \in {q \in au[k].first : au[k].sym[q][1] = "n"}} \ {k}
                      IN IF next \subseteq seen THEN seen
                         ELSE UNION {Leads(au, j, seen \union next) : j \in next}
RECURSIVE States(_, _, _)
States(a, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET c == CHOOSE x \in todo : TRUE
             next == {UNION {a.fol[p] : p \in {q \in c : a.sym[q] = s}} : s \in {a.sym[q] : q \in c}}
         IN States(a, (todo \union next) \ (seen \union {c}), seen \union {c})
Guarded(a) == \A c \in States(a, {a.first}, {}) :
    /\ (\E p \in c : a.sym[p][1] \in {"not", "and"}) => Cardinality(c) = 1
    /\ \A p \in a.first : a.sym[p][1] \notin {"not", "and"}
Valid(rules) ==
    LET au == [k \in DOMAIN rules |-> Pos(rules[k].body)] IN
    /\ \A k \in DOMAIN rules : ~au[k].n /\ au[k].first # {} /\ Guarded(au[k])
    /\ \A k \in DOMAIN rules : k \notin Leads(au, k, {})
    /\ \A k \in DOMAIN rules : \E p \in au[k].first : au[k].sym[p] # N(k)
    \* a rule is not left recursive in the middle of itself
    /\ \A k \in DOMAIN rules : \A p \in au[k].first : au[k].sym[p] = N(k) => p \notin au[k].last
    /\ \A k \in DOMAIN rules : \A p \in DOMAIN au[k].sym :
          \A q \in au[k].first : (au[k].sym[q] = N(k) /\ q \in au[k].fol[p]) => FALSE
    \* what may not follow a rule is not also what continues it
    /\ \A k \in DOMAIN rules : (\E p \in au[k].first : au[k].sym[p] = N(k)) =>
          \A p \in DOMAIN au[k].sym : au[k].sym[p][1] # "not"
Full(rules) ==
    LET au == [k \in DOMAIN rules |-> Pos(rules[k].body)] IN
    [rules |-> rules, au |-> au, first |-> [k \in DOMAIN rules |-> FirstTokens(au, k, {k})]]

\* Random bodies.  x makes every call a new choice.
RECURSIVE Item(_, _, _), Seq1(_, _, _), Body1(_, _)
Pick(set, x) == RandomElement(IF x = 0 THEN set ELSE {y \in set : x > 0})
Tok(x) == T(Pick(Tokens, x))
Item(k, d, x) ==
    LET o == Pick(1..15, x) IN
    CASE o <= 4 -> Tok(x)
      [] o <= 9 -> IF k < NRules THEN N(Pick((k + 1)..NRules, x)) ELSE Tok(x)
      [] o = 10 -> IF d = 0 THEN Tok(x) ELSE O(Seq1(k, d - 1, x))
      [] o = 11 -> IF d = 0 THEN Tok(x) ELSE M(Seq1(k, d - 1, x))
      [] o = 12 -> IF d = 0 THEN Tok(x) ELSE P(Seq1(k, d - 1, x))
      [] o = 13 -> IF d = 0 THEN Tok(x) ELSE A(<<Seq1(k, d - 1, x), Seq1(k, d - 1, x)>>)
      [] o = 14 -> S(<<Tok(x), N(Pick(2..NRules, x)), Tok(x)>>)
      [] OTHER -> S(<<IF k < NRules THEN N(Pick((k + 1)..NRules, x)) ELSE Tok(x),
                      <<Pick({"not", "and"}, x), Pick(Tokens, x)>>>>)
Seq1(k, d, x) ==
    LET n == Pick(1..3, x) IN
    CASE n = 1 -> Item(k, d, x)
      [] n = 2 -> S(<<Item(k, d, x), Item(k, d, x)>>)
      [] OTHER -> S(<<Item(k, d, x), Item(k, d, x), Item(k, d, x)>>)
Body1(k, x) ==
    LET n == Pick(1..8, x) IN
    CASE n = 1 -> Seq1(k, 1, x)
      [] n <= 3 -> A(<<Seq1(k, 1, x), Seq1(k, 1, x)>>)
      [] n <= 6 -> A(<<Seq1(k, 0, x), Seq1(k, 1, x), Seq1(k, 0, x)>>)
      [] OTHER -> IF k = 1 THEN Seq1(k, 1, x) ELSE A(<<S(<<N(k), Seq1(k, 0, x)>>), Seq1(k, 1, x)>>)
RandomRules(x) == [k \in 1..NRules |-> [body |-> Body1(k, x), hidden |-> Pick(BOOLEAN, x) /\ k > 1]]

Init == grammar = <<>> /\ round = 0
Grow == \E r \in {RandomRules(round)} : grammar' = (IF Valid(r) THEN Full(r) ELSE <<>>) /\ round' = round + 1
Next == Grow
Spec == Init /\ [][Next]_<<grammar, round>>
Emit == grammar = <<>> \/ PrintT(<<"BEHAVIOUR", ToJson([rules |-> grammar.rules, runs |-> Expected(grammar)])>>)
===============================================================================
