------------------------------- MODULE Cursor --------------------------------
(* What is known about a cursor: the scope it is in, what may be completed, the
   call that is being written and the symbol it stands on, as it follows from the
   tree.  Judges answers recorded from the real tree.

   A tree is its list of nodes in pre-order: type (t), depth (d), whether it is a
   leaf, start (s), end (e) and the text of short leaves (c).  Positions count
   from 0.  Next to the answers for a text (at) there are those for the text cut
   off at the position (cut), and for a text in which the statement that is being
   written ends at the position (torn); the tree is always that of the whole. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
Records == ndJsonDeserialize(IOEnv.CURSOR)
VARIABLES i, bad
vars == <<i, bad>>
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
RECURSIVE InOrder(_)
InOrder(s) == IF s = {} THEN <<>> ELSE <<MinOf(s)>> \o InOrder(s \ {MinOf(s)})

\* The shape of a tree: where subtrees end, and parents.
Ends(ns) == [k \in DOMAIN ns |->
             LET later == {j \in k + 1..Len(ns) : ns[j].d <= ns[k].d} IN
             IF later = {} THEN Len(ns) ELSE MinOf(later) - 1]
Parents(ns) == [k \in DOMAIN ns |-> IF k = 1 THEN 0 ELSE MaxOf({j \in 1..k - 1 : ns[j].d < ns[k].d})]
RECURSIVE Up(_, _)
Up(pa, k) == IF k = 0 THEN {} ELSE {k} \cup Up(pa, pa[k])
Kids(w, k) == InOrder({j \in k + 1..w.ends[k] : w.ns[j].d = w.ns[k].d + 1})
Full(n) == n.e > n.s
Span(n) == <<n.s, n.e>>

(*********************************** scopes **********************************)
ScopeNodes == {"function_def", "class_def", "lambda"}
ScopeOf(w, k) ==
    LET in == {j \in Up(w.pa, k) : w.ns[j].t \in ScopeNodes} IN
    IF in = {} THEN <<"Module", 0>> ELSE <<w.ns[MaxOf(in)].t, w.ns[MaxOf(in)].s>>
\* The leaves a position belongs to: the one around it, or those it stands between.
Around(w, p) ==
    LET in == {k \in w.leaves : w.ns[k].s < p /\ p < w.ns[k].e}
        front == {k \in w.leaves : w.ns[k].e <= p /\ Full(w.ns[k])}
        back == {k \in w.leaves : w.ns[k].s >= p /\ Full(w.ns[k])}
        from == IF front = {} THEN 1 ELSE MaxOf(front)
        to == IF back = {} THEN Len(w.ns) ELSE MinOf(back)
    IN IF in # {} THEN in ELSE {k \in w.leaves : from <= k /\ k <= to}
GoodScope(w, p, sc) == \E k \in Around(w, p) : sc = ScopeOf(w, k)

(***************************** comments, strings *****************************)
InComment(r, p) == {c \in {r.comments[j] : j \in DOMAIN r.comments} : c[1] < p /\ p <= c[2]}
NearComment(r, p) == {c \in {r.comments[j] : j \in DOMAIN r.comments} : c[1] < p /\ p <= c[3]}
InString(w, p) == \E k \in w.leaves : w.ns[k].t = "String" /\ w.ns[k].s < p /\ p < w.ns[k].e
AtString(w, p) == \E k \in w.leaves : w.ns[k].t = "String" /\ w.ns[k].s <= p /\ p <= w.ns[k].e

(*********************************** calls ***********************************)
Calls(w) == {k \in DOMAIN w.ns : w.ns[k].t \in {"primary", "t_primary"}
                                 /\ LET ks == Kids(w, k) IN Len(ks) > 1 /\ w.ns[ks[2]].c = "("}
\* The innermost call whose parentheses are around the position.
CallsAt(w, p) == {k \in w.calls : LET ks == Kids(w, k) IN
                                  w.ns[ks[2]].e <= p /\ p <= w.ns[ks[Len(ks)]].s}
\* What stands between the parentheses: arguments and commas.
RECURSIVE Flat(_, _)
Flat(w, ks) == IF ks = <<>> THEN <<>>
               ELSE (IF w.ns[ks[1]].t = "kwargs" THEN Flat(w, Kids(w, ks[1])) ELSE <<ks[1]>>)
                    \o Flat(w, Tail(ks))
Inner(w, k) == LET ks == Kids(w, k) IN
               IF Len(ks) = 3 THEN <<>>
               ELSE IF w.ns[ks[3]].t = "arguments" THEN Flat(w, Kids(w, ks[3]))
               ELSE <<ks[3]>>
IsComma(w, k) == w.ns[k].leaf /\ w.ns[k].c = ","
\* A name and nothing else.
JustName(w, k) == \E j \in k..w.ends[k] : w.ns[j].t = "Name" /\ w.ends[k] = j
                      /\ w.ns[j].s = w.ns[k].s /\ w.ns[j].e = w.ns[k].e
\* Names longer than what is recorded have no text.
ArgOf(w, k) ==
    LET n == w.ns[k] IN
    CASE n.t = "named_expression" /\ JustName(w, k) -> <<"name", w.ns[w.ends[k]].c>>
      [] n.t = "kwarg" -> <<"keyword", w.ns[k + 1].c>>
      [] n.t = "starred_expression" -> <<"star", "">>
      [] n.t = "double_starred_expression" -> <<"star star", "">>
      [] OTHER -> <<"positional", "">>
RECURSIVE Written(_, _, _, _)
\* The arguments up to the one that is being written; last is what was in front.
Written(w, xs, p, last) ==
    IF xs = <<>> THEN IF last = "," THEN << <<"positional", "">> >> ELSE <<>>
    ELSE IF IsComma(w, xs[1]) THEN IF w.ns[xs[1]].e > p THEN <<>> ELSE Written(w, Tail(xs), p, ",")
    ELSE <<ArgOf(w, xs[1])>> \o Written(w, Tail(xs), p, "")
RECURSIVE Done(_, _, _)
\* Those that are followed by a comma in front of the position.
Done(w, xs, p) ==
    IF Len(xs) < 2 \/ w.ns[xs[2]].e > p THEN <<>> ELSE <<ArgOf(w, xs[1])>> \o Done(w, Tail(Tail(xs)), p)
Same(a, b) == a[1] = b[1] /\ (a[2] = b[2] \/ a[2] = "")
SameArgs(as, bs) == Len(as) = Len(bs) /\ \A j \in DOMAIN as : Same(as[j], bs[j])
Signature(w, p, sig, whole) ==
    LET at == CallsAt(w, p)
        k == MaxOf(at)
        xs == Inner(w, k)
        done == Done(w, xs, p)
    IN IF at = {} THEN IF sig.k # "None" THEN "a call that is none" ELSE ""
       ELSE IF sig.k = "None" THEN "a call is missed"
       ELSE IF sig.b # Span(w.ns[k + 1]) THEN "another call"
       ELSE IF whole THEN IF ~SameArgs(Written(w, xs, p, ""), sig.args) THEN "arguments" ELSE ""
       ELSE IF Len(sig.args) < Len(done) \/ ~SameArgs(done, SubSeq(sig.args, 1, Len(done))) THEN "arguments in front"
       ELSE IF done # <<>> /\ Len(sig.args) # Len(done) + 1 THEN "number of arguments"
       ELSE ""

(******************************** completions ********************************)
None == [k |-> "Global", b |-> <<>>, n |-> 0, used |-> <<0, <<>>>>]
RECURSIVE DotsIn(_, _)
DotsIn(w, ks) == IF ks = <<>> THEN 0
                 ELSE (CASE w.ns[ks[1]].c = "." -> 1 [] w.ns[ks[1]].c = "..." -> 3 [] OTHER -> 0) + DotsIn(w, Tail(ks))
OwnerOf(w, k, t) == LET in == {j \in Up(w.pa, k) : w.ns[j].t = t} IN IF in = {} THEN 0 ELSE MaxOf(in)
\* The module of an import: dots and name.
ModuleOf(w, f) ==
    LET ks == Kids(w, f)
        names == {j \in 1..Len(ks) : w.ns[ks[j]].t = "dotted_import_name"}
        upto == IF names = {} THEN Len(ks) ELSE MinOf(names)
        plain == {j \in 1..upto : w.ns[ks[j]].leaf}
    IN [n |-> DotsIn(w, [x \in 1..Cardinality(plain) |-> ks[InOrder(plain)[x]]]),
        b |-> IF names = {} THEN <<>> ELSE Span(w.ns[ks[MinOf(names)]])]
NamesOf(w, xs) == LET all == {w.ns[xs[j] + 1].c : j \in {x \in DOMAIN xs : w.ns[xs[x]].t = "kwarg"}} IN all
\* Arguments in front of the one that is being written.
Used(w, xs, p) ==
    LET before == {j \in DOMAIN xs : ~IsComma(w, xs[j]) /\ \E m \in DOMAIN xs : m > j /\ IsComma(w, xs[m]) /\ w.ns[xs[m]].e <= p}
    IN [pos |-> Cardinality({j \in before : w.ns[xs[j]].t = "named_expression"}),
        kw |-> {w.ns[xs[j] + 1].c : j \in {x \in before : w.ns[xs[x]].t = "kwarg"}}]
Before(w, k) == LET f == {j \in w.leaves : j < k} IN IF f = {} THEN 0 ELSE MaxOf(f)
\* Leaf k is a name, v the leaf in front of it.
Expected(w, k, v) ==
    LET ns == w.ns
        up == w.pa[k]
        upup == w.pa[up]
        holder == IF ns[up].t = "name_def" THEN upup ELSE up
        from == OwnerOf(w, k, "import_from")
        attr(n) == [None EXCEPT !.k = "Attribute", !.b = Span(ns[n + 1])]
        ct == IF v = 0 THEN "" ELSE ns[v].c
    IN CASE ct = "as" -> [None EXCEPT !.k = "As"]
         [] ns[holder].t = "function_def" /\ ct = "def" -> [None EXCEPT !.k = "Def"]
         [] ns[holder].t = "class_def" /\ ct = "class" -> [None EXCEPT !.k = "Class"]
         [] ns[holder].t \in {"primary", "t_primary"} /\ holder + 1 # k /\ ct = "." -> attr(holder)
         [] from # 0 /\ ns[up].t = "dotted_import_name" ->
              [None EXCEPT !.k = "Module", !.n = ModuleOf(w, from).n,
                           !.b = IF k = up + 1 THEN <<>> ELSE Span(ns[up + 1])]
         [] from # 0 -> [None EXCEPT !.k = "Member", !.n = ModuleOf(w, from).n, !.b = ModuleOf(w, from).b]
         [] OwnerOf(w, k, "dotted_as_name") # 0 ->
              LET d == OwnerOf(w, k, "dotted_as_name") IN
              [None EXCEPT !.k = "Module", !.b = IF ns[d].s = ns[k].s THEN <<>> ELSE <<ns[d].s, ns[Before(w, v)].e>>]
         [] v # 0 /\ ct \in {"(", ","} /\ w.pa[v] # 0
              /\ ns[w.pa[v]].t \in {"function_def_parameters", "parameters"} ->
              LET f == OwnerOf(w, k, "function_def") IN [None EXCEPT !.k = "Param", !.b = Span(ns[f + 2])]
         [] OTHER -> None
CallOf(w, v) ==
    LET pv == w.pa[v] IN
    IF w.ns[v].c = "(" /\ pv \in w.calls THEN pv
    ELSE IF w.ns[v].c = "," /\ w.ns[pv].t = "arguments" /\ w.pa[pv] \in w.calls THEN w.pa[pv]
    ELSE IF w.ns[v].c = "," /\ w.ns[pv].t = "kwargs" /\ w.pa[w.pa[pv]] \in w.calls THEN w.pa[w.pa[pv]]
    ELSE 0
\* The name that is being written at a position.
WordAt(w, p) == LET at == {k \in w.leaves : w.ns[k].t = "Name" /\ w.ns[k].s <= p /\ p <= w.ns[k].e}
                    glued == {k \in w.leaves : w.ns[k].t \in {"String", "Bytes", "FStringEnd", "Number"} /\ w.ns[k].e = p}
                IN IF at = {} \/ glued # {} THEN 0 ELSE MaxOf(at)
Completion(w, r, p, a, whole) ==
    LET k == WordAt(w, p)
        v == Before(w, k)
        x == Expected(w, k, v)
        call == IF v = 0 THEN 0 ELSE CallOf(w, v)
        used == Used(w, Inner(w, call), w.ns[k].s)
        \* A new line that is cut off may end the blocks around it: open.
        fresh == v # 0 /\ \E j \in DOMAIN r.lines : w.ns[v].e < r.lines[j] /\ r.lines[j] <= p
    IN IF k = 0 \/ (~whole /\ fresh) THEN ""
       ELSE IF x.k # a.k THEN "completes " \o a.k \o " and not " \o x.k
       ELSE IF x.k # "Global" THEN IF x.b # a.b \/ x.n # a.n THEN "completes something else" ELSE ""
       \* What may be written for the parameters of a call in a target is left open.
       ELSE IF call # 0 /\ ~whole /\ w.ns[call].t = "t_primary" THEN ""
       ELSE IF call = 0 THEN IF a.b # <<>> THEN "completes arguments of no call" ELSE ""
       ELSE IF a.b # Span(w.ns[call + 1]) THEN "completes arguments of another call"
       ELSE IF a.used[1] # used.pos \/ {a.used[2][j] : j \in DOMAIN a.used[2]} # used.kw THEN "the arguments in front"
       ELSE ""
\* What is replaced by a completion: the name up to the position.
Rest(w, p, a) == LET k == WordAt(w, p) IN
                 IF k # 0 /\ a.r # <<w.ns[k].s, p>> THEN "replaces something else" ELSE ""

(*********************************** goto ************************************)
Touching(w, p) == {k \in w.leaves : Full(w.ns[k]) /\ w.ns[k].s <= p /\ p <= w.ns[k].e}
Operation == {"sum", "term", "shift_expr", "bitwise_or", "bitwise_xor", "bitwise_and", "power", "comparison", "factor"}
Magic(c, unary) ==
    CASE c = "==" -> "__eq__" [] c = "!=" -> "__ne__" [] c = "<" -> "__lt__" [] c = ">" -> "__gt__"
      [] c = "<=" -> "__le__" [] c = ">=" -> "__ge__" [] c = "|" -> "__or__" [] c = "&" -> "__and__"
      [] c = "^" -> "__xor__" [] c = "+" -> (IF unary THEN "__pos__" ELSE "__add__")
      [] c = "-" -> (IF unary THEN "__neg__" ELSE "__sub__") [] c = "~" -> "__invert__"
      [] c = "*" -> "__mul__" [] c = "/" -> "__truediv__" [] c = "//" -> "__floordiv__" [] c = "%" -> "__mod__"
      [] c = ">>" -> "__rshift__" [] c = "<<" -> "__lshift__" [] c = "**" -> "__pow__" [] c = "@" -> "__matmul__"
      [] OTHER -> ""
AugMagic(c) ==
    CASE c = "|=" -> "__ior__" [] c = "&=" -> "__iand__" [] c = "^=" -> "__ixor__" [] c = "+=" -> "__iadd__"
      [] c = "-=" -> "__isub__" [] c = "*=" -> "__imul__" [] c = "/=" -> "__itruediv__" [] c = "//=" -> "__ifloordiv__"
      [] c = "%=" -> "__imod__" [] c = ">>=" -> "__irshift__" [] c = "<<=" -> "__ilshift__" [] c = "**=" -> "__ipow__"
      [] c = "@=" -> "__imatmul__" [] OTHER -> ""
GoNone == [k |-> "None", b |-> <<0, 0>>, m |-> "", on |-> <<>>]
GoName(w, k) ==
    LET ns == w.ns
        up == w.pa[k]
        holder == IF ns[up].t = "name_def" THEN w.pa[up] ELSE up
        is(kind, n) == [GoNone EXCEPT !.k = kind, !.b = Span(ns[n]), !.on = Span(ns[k])]
    IN CASE ns[holder].t = "primary" -> is("Primary", holder)
         [] ns[holder].t = "t_primary" -> is("Primary", holder)
         [] ns[holder].t = "import_from_as_name" -> is("Import", holder)
         [] ns[holder].t = "global_stmt" -> is("Global", up)
         [] ns[holder].t = "nonlocal_stmt" -> is("Nonlocal", up)
         [] OTHER -> is("Name", k)
GoKeyword(w, k) ==
    LET ns == w.ns
        up == w.pa[k]
        is(kind, n, m) == [GoNone EXCEPT !.k = kind, !.b = Span(ns[n]), !.m = m]
        op == IF ns[up].t = "comp_op" THEN w.pa[up] ELSE up
        inner == IF ns[up].t = "comp_op" THEN up ELSE k
        ks == Kids(w, op)
        at == CHOOSE j \in DOMAIN ks : ks[j] = inner
        unary == at = 1
        on == IF unary THEN ks[2] ELSE ks[at - 1]
    IN CASE ns[up].t \in {"primary", "t_primary"} -> is("Primary", up, "")
         [] ns[up].t = "atom" -> is("Atom", up, "")
         [] ns[up].t = "augassign" -> is("AugAssign", k, AugMagic(ns[k].c))
         [] ns[op].t \in Operation /\ Magic(ns[k].c, unary) # "" -> is("Operator", on, Magic(ns[k].c, unary))
         [] OTHER -> GoNone
\* The name of an attribute is that of the primary.
SameGo(x, g) == x.k = g.k /\ (x.k = "None" \/ x.b = g.b) /\ x.m = g.m /\ (x.on = g.on \/ x.on = <<>>)
Goto(w, p, g) ==
    LET at == Touching(w, p)
        names == {k \in at : w.ns[k].t = "Name"}
        k == MaxOf(at)
        x == IF names # {} THEN GoName(w, MaxOf(names))
             ELSE IF w.ns[k].t = "Keyword" THEN GoKeyword(w, k) ELSE GoNone
    IN IF names = {} /\ Cardinality(at) # 1 THEN ""
       ELSE IF SameGo(x, g) THEN "" ELSE "goes to " \o g.k \o " and not " \o x.k

(********************************* judgement *********************************)
\* What holds for every text, also for broken ones.
Always(w, r, q) ==
    LET p == q.p
        a == q.comp
        com == InComment(r, p)
    IN IF ~GoodScope(w, p, a.sc) THEN "scope of a completion"
       ELSE IF ~GoodScope(w, p, q.go.sc) THEN "scope of a symbol"
       ELSE IF q.sig.k # "None" /\ ~GoodScope(w, p, q.sig.sc) THEN "scope of a call"
       ELSE IF com # {} /\ (a.k # "Comment" \/ \A c \in com : a.b # <<c[1], c[2]>>) THEN "a comment is none"
       ELSE IF a.k = "Comment" /\ NearComment(r, p) = {} THEN "a comment that is none"
       ELSE IF InString(w, p) /\ a.k # "String" THEN "a string is none"
       ELSE IF ~AtString(w, p) /\ a.k = "String" THEN "a string that is none"
       ELSE ""
Valid(w, r, q) ==
    LET sig == Signature(w, q.p, q.sig, TRUE)
        com == Completion(w, r, q.p, q.comp, TRUE)
        rest == Rest(w, q.p, q.comp)
        go == Goto(w, q.p, q.go)
    IN IF sig # "" THEN sig ELSE IF com # "" THEN com ELSE IF rest # "" THEN rest ELSE go
\* Cut off while a name is written, or where one would be.
\* (A target that starts with a bracket may be read as a list of targets: open.)
Listlike(w, p) == \E k \in DOMAIN w.ns : w.ns[k].t = "t_primary" /\ w.ns[k].s <= p /\ p <= w.ns[k].e
                     /\ \E j \in w.leaves : w.ns[j].s = w.ns[k].s /\ w.ns[j].c \in {"(", "["}
\* (match and type are only keywords when the whole statement is there: open.)
Soft(w, p) == \E k \in Around(w, p) : LET up == {j \in Up(w.pa, k) : w.ns[j].t \in {"match_stmt", "block", "type_alias"}} IN
                  up # {} /\ w.ns[MaxOf(up)].t # "block"
CutOff(w, r, q) ==
    IF Listlike(w, q.p) \/ Soft(w, q.p) THEN "" ELSE
    LET sig == IF InComment(r, q.p) # {} \/ InString(w, q.p) THEN "" ELSE Signature(w, q.p, q.sig, FALSE)
        com == Completion(w, r, q.p, q.comp, FALSE)
        rest == Rest(w, q.p, q.comp)
    IN IF com # "" THEN com ELSE IF rest # "" THEN rest ELSE sig
First(r, qs, J(_)) ==
    LET no == {j \in DOMAIN qs : J(qs[j]) # ""} IN
    IF no = {} THEN <<>> ELSE <<J(qs[MinOf(no)]), qs[MinOf(no)].p>>
Why(r) ==
    LET ns == r.nodes
        w0 == [ns |-> ns, ends |-> TLCEval(Ends(ns)), pa |-> TLCEval(Parents(ns)),
               leaves |-> TLCEval({k \in DOMAIN ns : ns[k].leaf}), calls |-> {}]
        w == [w0 EXCEPT !.calls = TLCEval(Calls(w0))]
        always == First(r, r.at, LAMBDA q : Always(w, r, q))
        valid == First(r, r.at, LAMBDA q : Valid(w, r, q))
        cut == First(r, r.cut, LAMBDA q : CutOff(w, r, q))
        torn == First(r, r.torn, LAMBDA q : CutOff(w, r, q))
    IN IF always # <<>> THEN always
       ELSE IF r.errors THEN <<>>
       ELSE IF valid # <<>> THEN valid
       ELSE IF cut # <<>> THEN <<"cut", cut>>
       ELSE IF torn # <<>> THEN <<"torn", torn>>
       ELSE <<>>
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ \E y \in {Why(Records[i + 1])} :
           /\ bad' = bad + (IF y = <<>> THEN 0 ELSE 1)
           /\ IF y = <<>> THEN TRUE ELSE PrintT(<<"BAD", ToJson([i |-> Records[i + 1].i, why |-> y])>>)
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Records) + 1
==============================================================================
