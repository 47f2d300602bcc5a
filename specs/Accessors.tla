------------------------------ MODULE Accessors ------------------------------
(* What the typed syntax tree says about a program: the parts of every statement,
   expression and pattern, in their order, and what every name is.  Follows from
   the nodes of the tree alone; judges the answers of the real accessors.

   A tree is its list of nodes in pre-order: type (t), parent (p, the root has 0),
   children (k), start (s), end (e), text of a leaf (x), characters of a number or
   of the prefix of a string (c).  What is said is a list of words; a word
   "what:n" is about node n, "." ends a list, "no what" is an absent part. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Records == ndJsonDeserialize(IOEnv.ACCESSORS)
VARIABLES i, bad
vars == <<i, bad>>

H(tag, k) == <<tag \o ":" \o ToString(k)>>
IsWord(n) == n.t \in {"Keyword", "Newline", "Indent", "Dedent", "Endmarker", "FStringStart", "FStringEnd"}
Kids(ns, k) == ns[k].k
Parts(ns, k) == SelectSeq(ns[k].k, LAMBDA j : ~IsWord(ns[j]))
Of(ns, k, t) == SelectSeq(ns[k].k, LAMBDA j : ns[j].t = t)
Words(ns, k) == SelectSeq(ns[k].k, LAMBDA j : ns[j].t = "Keyword")
Says(ns, k, x) == \E j \in DOMAIN ns[k].k : ns[ns[k].k[j]].x = x
Last(s) == s[Len(s)]
Kid(ns, k, n) == ns[k].k[n]
TypeOfKid(ns, k, n) == IF n > Len(ns[k].k) THEN "" ELSE ns[ns[k].k[n]].t
TextOfKid(ns, k, n) == IF n > Len(ns[k].k) THEN "" ELSE ns[ns[k].k[n]].x
TypeOfParent(ns, k) == IF ns[k].p = 0 THEN "" ELSE ns[ns[k].p].t

\* The closest node above of one of these types; 0 if there is none.
RECURSIVE Above(_, _, _)
Above(ns, k, types) == LET p == ns[k].p IN
                       IF p = 0 THEN 0 ELSE IF ns[p].t \in types THEN p ELSE Above(ns, p, types)
\* The last node of the subtree, and whether it has a node of a type.
RECURSIVE End(_, _)
End(ns, k) == IF ns[k].k = <<>> THEN k ELSE End(ns, Last(ns[k].k))
Within(ns, k, types) == {j \in k..End(ns, k) : ns[j].t \in types}

Scopes == {"file", "class_def", "function_def", "lambda"}
ScopeOf(ns, k) == LET s == Above(ns, k, Scopes) IN
                  IF ns[s].t = "file" THEN <<"in module">> ELSE H("in " \o ns[s].t, s)

(********************************* operators *********************************)
Methods == [op \in {"+", "-", "*", "/", "//", "%", "@", "**", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">="} |->
   CASE op = "+" -> "add" [] op = "-" -> "sub" [] op = "*" -> "mul" [] op = "/" -> "truediv"
     [] op = "//" -> "floordiv" [] op = "%" -> "mod" [] op = "@" -> "matmul" [] op = "**" -> "pow"
     [] op = "<<" -> "lshift" [] op = ">>" -> "rshift" [] op = "&" -> "and" [] op = "|" -> "or"
     [] op = "^" -> "xor" [] op = "<" -> "lt" [] op = ">" -> "gt" [] op = "<=" -> "le" [] op = ">=" -> "ge"]
Mirror == [op \in {"<", ">", "<=", ">="} |->
   CASE op = "<" -> "__gt__" [] op = ">" -> "__lt__" [] op = "<=" -> "__ge__" [] op = ">=" -> "__le__"]
Magic(op) == "__" \o Methods[op] \o "__"
Reverse(op) == IF op \in DOMAIN Mirror THEN Mirror[op] ELSE "__r" \o Methods[op] \o "__"
Operator(op) == op \o " " \o Magic(op) \o " " \o Reverse(op)
AugOps == [x \in {"+=", "-=", "*=", "/=", "//=", "%=", "@=", "**=", "<<=", ">>=", "&=", "|=", "^="} |->
   CHOOSE op \in DOMAIN Methods : op \o "=" = x]

(********************************** numbers **********************************)
HasChar(n, cs) == \E j \in DOMAIN n.c : n.c[j] \in cs
NumberKind(n) == IF HasChar(n, {"j", "J"}) THEN "Complex"
                 ELSE IF HasChar(n, {"x", "X"}) THEN "Int"
                 ELSE IF HasChar(n, {".", "e", "E"}) THEN "Float" ELSE "Int"
IsTemplate(n) == HasChar(n, {"t", "T"})

(********************************* the parts *********************************)
RECURSIVE V(_, _), VS(_, _), Comparisons(_, _, _), Blocks(_, _, _), Params(_, _, _, _), Strings(_, _, _), SelfNames(_, _, _)
\* One after the other.
VS(ns, ks) == IF ks = <<>> THEN <<>> ELSE V(ns, Head(ks)) \o VS(ns, Tail(ks))
List(ns, ks) == VS(ns, ks) \o <<".">>
Opt(ns, label, ks) == IF ks = <<>> THEN <<"no " \o label>> ELSE <<label>> \o VS(ns, ks)
OptH(label, what, ks) == IF ks = <<>> THEN <<"no " \o label>> ELSE <<label>> \o H(what, ks[1])
First(ks) == IF ks = <<>> THEN <<>> ELSE <<ks[1]>>
Rest(ks) == IF ks = <<>> THEN <<>> ELSE Tail(ks)

\* The expression that is all of a simple statement, 0 if it is something else.
Lone(ns, k) ==      \* k: a simple_stmt or a stmt of it
    IF ns[k].t # "simple_stmt" \/ TypeOfKid(ns, k, 1) # "star_expressions" THEN 0
    ELSE LET s == Kid(ns, k, 1) IN
         IF Len(Kids(ns, s)) # 1 \/ TypeOfKid(ns, s, 1) # "expression" THEN 0
         ELSE LET e == Kid(ns, s, 1) IN IF TypeOfKid(ns, e, 1) # "atom" THEN 0 ELSE Kid(ns, e, 1)
\* The statements of a block, simple ones on their own.
RECURSIVE Flat(_, _)
Flat(ns, ks) == IF ks = <<>> THEN <<>>
                ELSE LET k == Head(ks) IN
                     (IF ns[k].t = "simple_stmts" THEN Of(ns, k, "simple_stmt")
                      ELSE IF ns[k].t = "stmt" /\ TypeOfKid(ns, k, 1) = "simple_stmts" THEN Of(ns, Kid(ns, k, 1), "simple_stmt")
                      ELSE IF ns[k].t = "stmt" THEN <<k>> ELSE <<>>) \o Flat(ns, Tail(ks))
Statements(ns, b) == Flat(ns, Kids(ns, b))
DocOf(ns, b) == LET a == Lone(ns, Statements(ns, b)[1]) IN
                IF a # 0 /\ TypeOfKid(ns, a, 1) = "strings" THEN <<Kid(ns, a, 1)>> ELSE <<>>
\* What the first statement after a docstring says about a function without an implementation.
Trivial(ns, b) ==
    LET all == Statements(ns, b)
        ss == IF DocOf(ns, b) = <<>> THEN all ELSE Tail(all)
    IN IF ss = <<>> THEN <<"trivial">>
       ELSE LET s == ss[1]
                a == Lone(ns, s)
                is(t) == ns[s].t = "simple_stmt" /\ TypeOfKid(ns, s, 1) = t
                raised == IF is("raise_stmt") THEN Of(ns, Kid(ns, s, 1), "expression") ELSE <<>>
            IN IF is("pass_stmt") THEN <<"trivial">>
               ELSE IF a # 0 /\ (TypeOfKid(ns, a, 1) = "strings" \/ TextOfKid(ns, a, 1) = "...") THEN <<"trivial">>
               ELSE IF raised # <<>> THEN H("raises", raised[1])
               ELSE <<"not trivial">>

Binary(ns, k) == H(ns[k].t, k) \o <<Operator(TextOfKid(ns, k, 2))>> \o VS(ns, Parts(ns, k))
CompOp(ns, k) == LET ws == Words(ns, k)
                     a == ns[ws[1]].x
                 IN IF Len(ws) = 2 THEN a \o " " \o ns[ws[2]].x ELSE IF a \in DOMAIN Mirror THEN Operator(a) ELSE a
Comparisons(ns, ks, n) ==
    IF n > Len(ks) THEN <<".">>
    ELSE <<CompOp(ns, ks[n])>> \o H("left", ks[n - 1]) \o V(ns, ks[n + 1]) \o Comparisons(ns, ks, n + 2)

\* "if" and "elif" with their conditions, then "else".
Blocks(ns, ks, n) ==
    IF n > Len(ks) THEN <<".">>
    ELSE IF ns[ks[n]].t = "else_block"
         THEN H("else", ks[n]) \o V(ns, Kid(ns, ks[n], 3)) \o Blocks(ns, ks, n + 1)
    ELSE H("if", ks[n]) \o V(ns, ks[n + 1]) \o V(ns, ks[n + 3]) \o Blocks(ns, ks, n + 4)

ParamKind(ns, k, before) ==
    LET t == ns[k].t IN
    CASE t \in {"param_no_default", "param_with_default", "lambda_param_no_default", "lambda_param_with_default"} ->
              IF before THEN "PositionalOnly" ELSE "PositionalOrKeyword"
      [] t \in {"param_maybe_default", "lambda_param_maybe_default"} -> "KeywordOnly"
      [] t \in {"starred_param", "lambda_starred_param"} -> "Star"
      [] OTHER -> "StarStar"
\* before: in front of a slash
Params(ns, ks, n, before) ==
    IF n > Len(ks) THEN <<>>
    ELSE LET k == ks[n] IN
         IF ns[k].x = "/" THEN Params(ns, ks, n + 1, FALSE)
         ELSE IF IsWord(ns[k]) THEN Params(ns, ks, n + 1, before)
         ELSE IF ns[k].t \in {"star_etc", "lambda_star_etc"} THEN Params(ns, Kids(ns, k), 1, FALSE)
         ELSE <<ParamKind(ns, k, before)>> \o VS(ns, Of(ns, k, "name_def"))
              \o LET as == Of(ns, k, "annotation") \o Of(ns, k, "star_annotation") IN
                 (IF as = <<>> THEN <<"no annotation">>
                  ELSE <<"annotation">> \o H("", as[1])
                       \o (IF TypeOfKid(ns, as[1], 2) = "star_expression" THEN <<"starred">> \o V(ns, Kid(ns, Kid(ns, as[1], 2), 2))
                           ELSE V(ns, Kid(ns, as[1], 2))))
              \o Opt(ns, "default", Of(ns, k, "expression"))
              \o Params(ns, ks, n + 1, before)
AllParams(ns, ks) ==    \* ks: none or one list of parameters
    IF ks = <<>> THEN <<".">>
    ELSE Params(ns, Kids(ns, ks[1]), 1, Says(ns, ks[1], "/")) \o <<".">>
HasAnnotation(ns, k) == \E p \in Within(ns, k, {"annotation", "star_annotation"}) :
                           Above(ns, p, {"function_def_parameters", "lambda"}) = k

Function(ns, k) ==
    LET up == TypeOfParent(ns, k)
        kind == CASE up = "stmt" -> "Normal" [] up = "decorated" -> "Decorated"
                  [] up = "async_stmt" -> "Async" [] up = "async_function_def" -> "DecoratedAsync"
        pars == Of(ns, k, "function_def_parameters")[1]
        body == Last(Kids(ns, k))
        within == Above(ns, k, {"block"})
        colon == SelectSeq(Kids(ns, k), LAMBDA j : ns[j].x = ":")[1]
    IN H("function_def", k) \o ScopeOf(ns, k)
       \o <<kind, IF kind \in {"Async", "DecoratedAsync"} THEN "is async" ELSE "is sync",
            IF Of(ns, k, "return_annotation") # <<>> \/ HasAnnotation(ns, pars) THEN "typed" ELSE "untyped",
            IF within # 0 /\ TypeOfParent(ns, within) \in {"if_stmt", "else_block"} THEN "conditional" ELSE "always">>
       \o VS(ns, Of(ns, k, "name_def"))
       \o Opt(ns, "type_params", Of(ns, k, "type_params"))
       \o AllParams(ns, Of(ns, pars, "parameters"))
       \o Opt(ns, "returns", Of(ns, k, "return_annotation"))
       \o H("colon", colon) \o <<"colon ends " \o ToString(ns[colon].e)>>
       \o OptH("doc", "strings", DocOf(ns, body))
       \o Trivial(ns, body)
       \o V(ns, body)

\* Attributes of names that are assigned in a class.
IsSelf(ns, k) == /\ ns[k].t = "t_primary" /\ TypeOfKid(ns, k, 3) = "name_def" /\ TypeOfKid(ns, k, 1) = "atom"
                 /\ TypeOfKid(ns, Kid(ns, k, 1), 1) = "Name"
SelfNames(ns, k, end) ==
    IF k > end THEN <<>>
    ELSE (IF IsSelf(ns, k) THEN H("self", Kid(ns, Kid(ns, k, 1), 1)) \o H("Name", Kid(ns, Kid(ns, k, 3), 1)) ELSE <<>>)
         \o SelfNames(ns, k + 1, end)
Class(ns, k) ==
    LET open == SelectSeq(Kids(ns, k), LAMBDA j : ns[j].x = "(")
        close == SelectSeq(Kids(ns, k), LAMBDA j : ns[j].x = ")")
        body == Last(Kids(ns, k))
    IN H("class_def", k) \o ScopeOf(ns, k) \o VS(ns, Of(ns, k, "name_def"))
       \o Opt(ns, "type_params", Of(ns, k, "type_params"))
       \o Opt(ns, "bases", Of(ns, k, "arguments"))
       \o <<IF open = <<>> THEN "no parentheses"
            ELSE "parentheses " \o ToString(ns[open[1]].s) \o " " \o ToString(ns[close[1]].e)>>
       \o OptH("doc", "strings", DocOf(ns, body))
       \o SelfNames(ns, k, End(ns, k))
       \o V(ns, body)

Strings(ns, ks, n) ==
    IF n > Len(ks) THEN <<".">>
    ELSE (IF ns[ks[n]].t = "fstring" THEN H("fstring", ks[n]) \o List(ns, Parts(ns, ks[n]))
          ELSE H(IF IsTemplate(ns[ks[n]]) THEN "Template" ELSE "String", ks[n])) \o Strings(ns, ks, n + 1)

\* The part after the first one of a.b, a(b) and a[b].
Second(ns, k) ==
    LET x == TextOfKid(ns, k, 2)
        c == Kid(ns, k, 3)
        t == ns[c].t
    IN CASE x = "." -> <<"attribute">> \o H("Name", IF t = "name_def" THEN Kid(ns, c, 1) ELSE c)
         [] x = "(" ->
              LET args == IF t = "arguments" THEN Parts(ns, c) ELSE <<>>
                  single == IF Len(args) = 1 /\ ns[args[1]].t = "named_expression" THEN args ELSE <<>>
              IN <<"call">> \o (IF t = "arguments" THEN V(ns, c) ELSE IF t = "comprehension" THEN V(ns, c) \o <<".">> ELSE <<".">>)
                 \o OptH("single", "", single)
         [] x = "[" -> <<"item">> \o (IF t = "slices" THEN <<"slices">> \o List(ns, Parts(ns, c)) ELSE V(ns, c))

Bracketed(ns, k, what) == <<what>> \o (IF Parts(ns, k) = <<>> THEN <<".">> ELSE V(ns, Parts(ns, k)[1]))
Atom(ns, k) ==
    LET f == Kid(ns, k, 1)
        x == ns[f].x
        second == IF Parts(ns, k) = <<>> THEN "" ELSE ns[Parts(ns, k)[1]].t
    IN H("atom", k) \o
       CASE ns[f].t \in {"Name", "strings"} -> V(ns, f)
         [] ns[f].t = "Number" -> H(NumberKind(ns[f]), f)
         [] ns[f].t = "bytes" -> V(ns, f) \o OptH("single", "", IF Len(Kids(ns, f)) = 1 THEN Kids(ns, f) ELSE <<>>)
         [] x \in {"None", "..."} -> <<x>>
         [] x \in {"True", "False"} -> H(x, f)
         [] x = "(" /\ second \in {"tuple_content", ""} -> Bracketed(ns, k, "Tuple")
         [] x = "(" /\ second = "comprehension" -> Bracketed(ns, k, "GeneratorComprehension")
         [] x = "(" /\ second \in {"yield_expr", "named_expression"} -> VS(ns, Parts(ns, k))
         [] x = "[" /\ second = "comprehension" -> Bracketed(ns, k, "ListComprehension")
         [] x = "[" -> Bracketed(ns, k, "List")
         [] x = "{" /\ second \in {"dict_content", ""} -> Bracketed(ns, k, "Dict")
         [] x = "{" /\ second = "dict_comprehension" -> VS(ns, Parts(ns, k))
         [] x = "{" /\ second = "comprehension" -> Bracketed(ns, k, "SetComprehension")
         [] x = "{" -> Bracketed(ns, k, "Set")

\* Names and targets that are assigned to.
TPrimary(ns, k) == H("t_primary", k) \o V(ns, Kid(ns, k, 1)) \o Second(ns, k)
IsTarget(ns, k) == TypeOfParent(ns, k) \in {"star_targets", "star_target", "star_target_brackets", "single_target", "with_item", "del_targets"}
Target(ns, k) ==
    LET l == Last(Kids(ns, k)) IN
    IF ns[l].t = "name_def" THEN <<"attribute">> \o TPrimary(ns, k) \o V(ns, l) ELSE <<"index">> \o TPrimary(ns, k)

Assignment(ns, k) ==
    LET ks == Parts(ns, k)
        op == Of(ns, k, "augassign")
        note == Of(ns, k, "annotation")
    IN H("assignment", k)
       \o IF op # <<>> THEN
             LET x == AugOps[TextOfKid(ns, op[1], 1)] IN
             V(ns, ks[1]) \o <<x \o "= __i" \o Methods[x] \o "__ " \o Operator(x)>> \o V(ns, ks[3])
          ELSE IF note # <<>> THEN
             LET n == Kid(ns, Kid(ns, k, 1), 1) IN
             V(ns, ks[1]) \o <<"annotation">> \o Opt(ns, "of", IF ns[n].t = "name_def" THEN <<n>> ELSE <<>>)
             \o V(ns, Kid(ns, note[1], 2)) \o Opt(ns, "=", SubSeq(ks, 3, Len(ks)))
          ELSE VS(ns, SubSeq(ks, 1, Len(ks) - 1)) \o <<"=">> \o V(ns, Last(ks))

ImportFrom(ns, k) ==
    LET to == CHOOSE n \in DOMAIN Kids(ns, k) : TextOfKid(ns, k, n) = "import"
        level == LET d(n) == IF TextOfKid(ns, k, n) = "." THEN 1 ELSE IF TextOfKid(ns, k, n) = "..." THEN 3 ELSE 0
                     sum[n \in 1..to] == IF n = 1 THEN 0 ELSE d(n) + sum[n - 1]
                 IN sum[to]
        what == Last(Kids(ns, k))
    IN H("import_from", k) \o <<"level " \o ToString(level)>>
       \o Opt(ns, "module", Of(ns, k, "dotted_import_name"))
       \o (IF TextOfKid(ns, what, 1) = "*" THEN H("*", Kid(ns, what, 1)) ELSE VS(ns, Parts(ns, what))) \o <<".">>

\* Captured names of a pattern that is just a name, or has one after "as".
SimpleNames(ns, p) ==
    LET name == IF ns[p].t = "pattern" /\ TypeOfKid(ns, p, 1) = "name_def" THEN <<Kid(ns, p, 1)>> ELSE <<>>
        as == IF ns[p].t = "pattern" /\ Len(Kids(ns, p)) = 3 THEN <<Kid(ns, p, 3)>> ELSE <<>>
    IN Opt(ns, "simple", name) \o Opt(ns, "simple as", as)
Cat2(a, b) == a \o b

V(ns, k) ==
    LET t == ns[k].t
        ks == Parts(ns, k)
        exprs == Of(ns, k, "expression")
    IN
    CASE t \in {"file", "stmt", "simple_stmts", "simple_stmt", "named_expression", "single_target"} ->
              IF t = "stmt" /\ TypeOfKid(ns, k, 1) = "Newline" THEN <<"Newline">>
              ELSE IF t = "file" THEN List(ns, ks) ELSE VS(ns, ks)
      [] t = "block" -> H(t, k) \o List(ns, ks)
      [] t = "Name" -> H(t, k)
      [] t = "name_def" -> H("def", Kid(ns, k, 1))
      \* simple statements
      [] t = "assignment" -> Assignment(ns, k)
      [] t = "return_stmt" -> H(t, k) \o Opt(ns, "value", ks)
      [] t = "raise_stmt" -> H(t, k) \o (IF exprs = <<>> THEN <<"no exception">>
                             ELSE <<"exception">> \o V(ns, exprs[1]) \o Opt(ns, "cause", Tail(exprs)))
      [] t \in {"pass_stmt", "break_stmt", "continue_stmt", "nonlocal_stmt"} -> H(t, k)
      [] t = "global_stmt" -> H(t, k) \o List(ns, ks)
      [] t = "assert_stmt" -> H(t, k) \o V(ns, exprs[1]) \o Opt(ns, "message", Tail(exprs))
      [] t = "del_stmt" -> H(t, k) \o VS(ns, ks)
      [] t = "del_targets" -> List(ns, ks)
      [] t = "del_t_atom" -> IF ks = <<>> THEN <<>> ELSE <<"group">> \o VS(ns, ks)
      [] t = "import_from" -> ImportFrom(ns, k)
      [] t = "import_from_as_name" -> H(t, k) \o (IF TypeOfKid(ns, k, 1) = "Name" THEN VS(ns, ks)
                                      ELSE H("Name", Kid(ns, ks[1], 1)) \o V(ns, ks[1]))
      [] t = "import_name" -> H(t, k) \o List(ns, Parts(ns, ks[1]))
      [] t = "dotted_as_name" -> H(t, k) \o (IF ns[ks[1]].t = "name_def" THEN V(ns, ks[1]) \o Opt(ns, "module", Tail(ks))
                                 ELSE V(ns, ks[1]) \o <<"as">> \o V(ns, ks[2]))
      [] t \in {"dotted_import_name", "dotted_pattern_name"} ->
              (IF t = "dotted_pattern_name" /\ TypeOfParent(ns, k) \in {"pattern", "or_pattern"} THEN H(t, k) ELSE <<>>) \o VS(ns, ks)
      [] t = "type_alias" -> H(t, k) \o V(ns, ks[1]) \o Opt(ns, "type_params", Of(ns, k, "type_params")) \o VS(ns, exprs)
      \* compound statements
      [] t = "if_stmt" -> H(t, k) \o Blocks(ns, Kids(ns, k), 1)
      [] t = "while_stmt" -> H(t, k) \o V(ns, ks[1]) \o V(ns, ks[2]) \o Opt(ns, "else", Of(ns, k, "else_block"))
      [] t = "else_block" -> VS(ns, ks)
      [] t = "finally_block" -> <<"finally">> \o VS(ns, ks)
      [] t = "for_stmt" -> H(t, k) \o V(ns, ks[1]) \o V(ns, ks[2]) \o V(ns, ks[3]) \o Opt(ns, "else", Of(ns, k, "else_block"))
      [] t = "try_stmt" -> LET say(j) == IF ns[ks[j]].t = "block" THEN <<"try">> \o V(ns, ks[j])
                                         ELSE IF ns[ks[j]].t = "else_block" THEN <<"else">> \o V(ns, ks[j]) ELSE V(ns, ks[j])
                               upto[j \in 0..Len(ks)] == IF j = 0 THEN <<>> ELSE upto[j - 1] \o say(j)
                           IN H(t, k) \o upto[Len(ks)] \o <<".">>
      [] t = "except_block" -> H(t, k) \o Opt(ns, "exception", Of(ns, k, "except_expression")) \o VS(ns, Of(ns, k, "block"))
      [] t = "except_star_block" -> H(t, k) \o VS(ns, ks)
      [] t = "except_expression" -> IF ns[ks[1]].t = "expressions" THEN List(ns, Parts(ns, ks[1]))
                                    ELSE V(ns, ks[1]) \o <<"as">> \o V(ns, ks[2])
      [] t = "with_stmt" -> H(t, k) \o List(ns, Parts(ns, ks[1])) \o V(ns, ks[2])
      [] t = "with_item" -> H(t, k)
              \o <<IF TypeOfParent(ns, Above(ns, k, {"with_stmt"})) = "async_stmt" THEN "in async" ELSE "in sync">>
              \o V(ns, ks[1]) \o Opt(ns, "as", Tail(ks))
      [] t = "function_def" -> Function(ns, k)
      [] t = "class_def" -> Class(ns, k)
      [] t = "decorated" -> H(t, k) \o List(ns, Kids(ns, ks[1])) \o V(ns, ks[2])
      [] t = "decorator" -> H(t, k) \o VS(ns, ks)
      [] t \in {"async_stmt", "async_function_def"} -> <<"async">> \o VS(ns, ks)
      [] t = "match_stmt" -> H(t, k) \o (IF TypeOfKid(ns, ks[1], 1) = "named_expression" THEN VS(ns, Kids(ns, ks[1]))
                                         ELSE <<"Tuple">> \o V(ns, Kid(ns, ks[1], 1)))
                             \o List(ns, Tail(ks))
      [] t = "case_block" -> H(t, k) \o SimpleNames(ns, ks[1])
                             \o (IF ns[ks[1]].t = "pattern" THEN V(ns, ks[1]) ELSE <<"open">> \o V(ns, ks[1]))
                             \o Opt(ns, "guard", Of(ns, k, "guard")) \o VS(ns, Of(ns, k, "block"))
      [] t = "guard" -> VS(ns, ks)
      \* parameters of types
      [] t = "type_params" -> List(ns, ks)
      [] t = "type_param" ->
              LET star == TextOfKid(ns, k, 1)
                  default == Of(ns, k, "type_param_default") \o Of(ns, k, "type_param_starred_default")
              IN H(t, k) \o VS(ns, Of(ns, k, "name_def"))
                 \o (CASE star = "*" -> <<"TypeVarTuple">> [] star = "**" -> <<"ParamSpec">>
                       [] OTHER -> <<"TypeVar">> \o Opt(ns, "bound", Of(ns, k, "type_param_bound")))
                 \o Opt(ns, "default", default)
      [] t \in {"type_param_bound", "type_param_default", "type_param_starred_default", "return_annotation"} -> VS(ns, ks)
      \* targets
      [] t = "star_targets" -> IF Len(Kids(ns, k)) = 1 THEN VS(ns, ks) ELSE <<"targets">> \o List(ns, ks)
      [] t = "star_target_brackets" ->
              IF ks = <<>> THEN <<"targets", ".">>
              ELSE IF TextOfKid(ns, k, 1) = "(" THEN VS(ns, ks)
              ELSE <<"targets">> \o List(ns, Parts(ns, ks[1]))
      [] t = "star_target" -> H(t, k) \o VS(ns, ks)
      [] t = "t_primary" -> IF IsTarget(ns, k) THEN Target(ns, k) ELSE TPrimary(ns, k)
      \* expressions
      [] t = "star_expressions" -> H(t, k) \o (IF Len(Kids(ns, k)) = 1 THEN VS(ns, ks) ELSE <<"Tuple">> \o List(ns, ks))
      [] t \in {"star_expression", "starred_expression", "star_named_expression"} ->
              (IF TypeOfParent(ns, k) \in {"arguments", "kwargs"} THEN <<"*">> ELSE <<"starred">>) \o VS(ns, ks)
      [] t = "double_starred_expression" -> <<"**">> \o VS(ns, ks)
      [] t \in {"star_named_expressions", "dict_content"} -> List(ns, ks)
      [] t = "tuple_content" -> V(ns, ks[1]) \o (IF Len(ks) = 2 THEN V(ns, ks[2]) ELSE <<".">>)
      [] t = "expression" -> H(t, k) \o VS(ns, ks)
      [] t = "walrus" -> H(t, k) \o VS(ns, ks)
      [] t = "ternary" -> H(t, k) \o VS(ns, ks)
      [] t = "lambda" -> H(t, k) \o ScopeOf(ns, k) \o AllParams(ns, Of(ns, k, "lambda_parameters")) \o VS(ns, exprs)
      [] t = "factor" -> H(t, k) \o <<TextOfKid(ns, k, 1)>> \o VS(ns, ks)
      [] t \in {"power", "term", "sum", "shift_expr", "bitwise_and", "bitwise_xor", "bitwise_or"} -> Binary(ns, k)
      [] t = "comparison" -> H(t, k) \o V(ns, ks[1]) \o Comparisons(ns, ks, 2)
      [] t \in {"inversion", "conjunction", "disjunction", "await_primary"} -> H(t, k) \o VS(ns, ks)
      [] t = "primary" -> H(t, k) \o V(ns, Kid(ns, k, 1)) \o Second(ns, k)
      [] t = "slice" -> LET colons == {n \in DOMAIN Kids(ns, k) : TextOfKid(ns, k, n) = ":"}
                            nth(e) == 1 + Len(SelectSeq(Kids(ns, k), LAMBDA j : ns[j].x = ":" /\ j < e))
                            at(n) == SelectSeq(exprs, LAMBDA e : nth(e) = n)
                        IN H(t, k) \o Opt(ns, "from", at(1)) \o Opt(ns, "to", at(2)) \o Opt(ns, "step", at(3))
      [] t = "arguments" -> List(ns, ks)
      [] t = "kwargs" -> VS(ns, ks)
      [] t = "kwarg" -> H(t, k) \o VS(ns, ks)
      [] t = "yield_expr" -> H(t, k) \o (IF ks = <<>> THEN <<"nothing">> ELSE VS(ns, ks))
      [] t = "yield_from" -> <<"from">> \o VS(ns, ks)
      [] t = "comprehension" -> H(t, k)
              \o <<IF TextOfKid(ns, ns[k].p, 1) = "(" \/ TypeOfParent(ns, k) \in {"primary", "t_primary"} THEN "generator" ELSE "collection",
                   IF Within(ns, ks[1], {"await_primary"}) # {} THEN "awaits" ELSE "no await">>
              \o VS(ns, ks)
      [] t = "dict_comprehension" -> H(t, k) \o VS(ns, Parts(ns, ks[1])) \o V(ns, ks[2])
      [] t = "dict_key_value" -> H(t, k) \o VS(ns, ks)
      [] t = "dict_starred" -> H(t, k) \o VS(ns, ks)
      [] t = "for_if_clauses" -> List(ns, ks)
      [] t = "async_for_if_clause" -> <<"async">> \o VS(ns, ks)
      [] t \in {"sync_for_if_clause", "comp_if"} -> H(t, k) \o VS(ns, ks)
      [] t = "atom" -> Atom(ns, k)
      [] t = "strings" -> H(t, k)
              \o OptH("single", "", IF Len(ks) = 1 /\ ns[ks[1]].t = "String" /\ ~IsTemplate(ns[ks[1]]) THEN ks ELSE <<>>)
              \o Strings(ns, ks, 1)
      [] t = "bytes" -> H(t, k)
      [] t = "FStringString" -> H(t, k)
      [] t = "fstring_expr" -> H(t, k) \o List(ns, Parts(ns, ks[1]))
              \o (LET s == Of(ns, k, "fstring_format_spec") IN
                  IF s = <<>> THEN <<"no spec">> ELSE H("spec", s[1]) \o List(ns, Parts(ns, s[1])))
      \* patterns
      [] t = "pattern" -> H(t, k) \o V(ns, Kid(ns, k, 1)) \o Opt(ns, "as", Tail(ks))
      [] t \in {"or_pattern", "mapping_pattern"} -> H(t, k) \o List(ns, ks)
      [] t = "wildcard_pattern" -> H(t, k)
      [] t = "group_pattern" -> H(t, k) \o VS(ns, ks)
      [] t = "sequence_pattern" -> H(t, k) \o (IF ks = <<>> THEN <<".">> ELSE VS(ns, ks))
      [] t = "open_sequence_pattern" -> List(ns, ks)
      [] t = "star_pattern" -> H(t, k) \o VS(ns, ks)
      [] t \in {"key_value_pattern", "keyword_pattern"} -> H(t, k) \o VS(ns, ks)
      [] t = "double_star_pattern" -> <<"**">> \o VS(ns, ks)
      [] t = "class_pattern" -> H(t, k) \o V(ns, ks[1]) \o (IF Len(ks) = 1 THEN <<".">> ELSE V(ns, ks[2]))
      [] t = "param_patterns" -> List(ns, ks)
      [] t = "literal_pattern" -> H(t, k) \o (IF ks = <<>> THEN <<TextOfKid(ns, k, 1)>> ELSE VS(ns, ks))
      [] t = "signed_number" -> <<IF TextOfKid(ns, k, 1) = "-" THEN "-" ELSE "+">> \o H(NumberKind(ns[ks[1]]), ks[1])
      [] t = "complex_number" -> H(t, k)

(*********************************** names ***********************************)
Defining == {"function_def", "class_def", "assignment", "import_from_as_name", "import_name", "lambda", "comprehension",
             "dict_comprehension", "walrus", "for_stmt", "try_stmt", "with_item", "del_stmt", "match_stmt", "type_alias",
             "global_stmt", "nonlocal_stmt"}
ParamTypes == {"param_no_default", "param_with_default", "param_maybe_default", "starred_param", "double_starred_param"}
Maybe(label, what, k) == OptH(label, what, IF k = 0 THEN <<>> ELSE <<k>>)
\* A name and what defines it.
About(ns, k) ==
    LET d == ns[k].p
        is == ns[d].t = "name_def"
        p == IF is THEN ns[d].p ELSE 0
        by == Above(ns, d, Defining)
        part == ns[p].t
    IN H("Name", k) \o <<ns[d].t, IF is THEN "definition" ELSE "reference">> \o ScopeOf(ns, k) \o ScopeOf(ns, k)
       \o IF ~is THEN <<>>
          ELSE H(ns[by].t, by)
               \o <<"part of " \o (IF part \in {"t_primary", "global_stmt", "nonlocal_stmt"} THEN part ELSE "other")>>
               \o Maybe("assigned", "", IF ns[by].t = "assignment" THEN by ELSE 0)
               \o (IF part \in {"import_from_as_name", "dotted_as_name"} THEN <<"imported">> \o H(part, p) ELSE <<"no imported">>)
               \o Maybe("function", "", IF part = "function_def" THEN p ELSE 0)
               \o Maybe("class", "", IF part = "class_def" THEN p ELSE 0)
               \o Maybe("param of", "", IF part \in ParamTypes THEN Above(ns, p, {"function_def"}) ELSE 0)
RECURSIVE Names(_, _)
Names(ns, k) == IF k > Len(ns) THEN <<>> ELSE (IF ns[k].t = "Name" THEN About(ns, k) ELSE <<>>) \o Names(ns, k + 1)

(****************************** names of functions ***************************)
\* The names that a function binds: its parameters and what its statements define,
\* not what functions, classes and lambdas in it bind.  Left open: the variables of
\* comprehensions and type aliases, and what is defined within the defaults of
\* parameters and the bases of classes in it.
ScopeTypes == {"function_def", "class_def", "lambda"}
BindsIn(ns, d) == LET p == ns[d].p IN Above(ns, IF ns[p].t \in {"function_def", "class_def"} THEN p ELSE d, ScopeTypes)
Binds(ns, f, d, lenient) ==    \* d: a name_def
    LET t == ns[ns[d].p].t
        s == BindsIn(ns, d)
        inner == ns[Above(ns, d, {"comprehension", "dict_comprehension", "stmt", "walrus", "type_params"})].t
        head == d < Last(Kids(ns, f))
    IN IF t = "t_primary" THEN FALSE
       ELSE IF head THEN s = f /\ t \in ParamTypes
       ELSE IF s = f THEN lenient \/ inner \in {"stmt", "walrus"}
       ELSE lenient /\ inner = "walrus" /\ s # 0 /\ Above(ns, s, ScopeTypes) = f
GoodLocals(ns, l) ==
    LET got == {l.got[j] : j \in DOMAIN l.got}
        defs == {d \in l.f..End(ns, l.f) : ns[d].t = "name_def"}
        names(lenient) == {d + 1 : d \in {d \in defs : Binds(ns, l.f, d, lenient)}}
    IN names(FALSE) \subseteq got /\ got \subseteq names(TRUE)

(********************************** judging **********************************)
\* The first word that differs.
Differs(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                     d == {j \in 1..n : a[j] # b[j]}
                     at == IF d = {} THEN n + 1 ELSE CHOOSE x \in d : \A y \in d : x <= y
                     w(s) == SubSeq(s, IF at > 3 THEN at - 3 ELSE 1, IF at + 1 > Len(s) THEN Len(s) ELSE at + 1)
                 IN <<w(a), w(b)>>
Why(r) ==
    LET ns == r.nodes
        parts == V(ns, 1)
        names == Names(ns, 1)
    IN IF r.said # parts THEN <<"parts">> \o Differs(parts, r.said)
       ELSE IF r.names # names THEN <<"names">> \o Differs(names, r.names)
       ELSE IF \E l \in DOMAIN r.locals : ~GoodLocals(ns, r.locals[l])
            THEN LET l == r.locals[CHOOSE l \in DOMAIN r.locals : ~GoodLocals(ns, r.locals[l])] IN <<"locals", <<ToString(l.f)>>, <<ToString(l.got)>>>>
       ELSE <<>>
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ \E w \in {Why(Records[i + 1])} :
           /\ bad' = bad + (IF w = <<>> THEN 0 ELSE 1)
           /\ IF w = <<>> THEN TRUE ELSE PrintT(<<"BAD", ToJson([i |-> Records[i + 1].i, why |-> w])>>)
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Records) + 1
==============================================================================
