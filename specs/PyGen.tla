-------------------------------- MODULE PyGen --------------------------------
(* Programs, as a user types them: token after token, every one of them derived
   from the grammar and laid out in any of the ways the lexical rules allow.  A
   behaviour ends with the text of a program and the one syntax tree it has.

   The tree is a list of events <<"(", node>>, <<")">> and
   <<"t", type, text, gap>>: a token, and the blank space, comments and line
   joinings in front of it.

   The machine is a pushdown automaton: todo is what has still to be written
   (a list <<item, rest>>, the empty list is <<>>), open are the nodes that are
   not complete. *)
EXTENDS PyGrammar, Integers, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Stmts,        \* how many statements a program has
          Budget,       \* how many optional parts a statement has
          Focus         \* nodes that are preferred wherever they are possible

VARIABLES todo, open, out, lay, swarm, stmts
vars == <<todo, open, out, lay, swarm, stmts>>

RuleSeq == SetToSeq(DOMAIN Rules)

\* ---- how deep the shallowest derivation of a rule is ----
Higher(a, b) == IF a > b THEN a ELSE b
RECURSIVE HE(_, _), HAll(_, _, _), HAny(_, _, _)
HE(h, e) ==
    CASE e[1] \in {"t", "k", "k0", "opt", "star"} -> 0
      [] e[1] = "n" -> h[e[2]]
      [] e[1] = "seq" -> HAll(h, e[2], 1)
      [] e[1] = "alt" -> HAny(h, e[2], 1)
      [] e[1] \in {"plus", "fstr"} -> HE(h, e[2])
      [] e[1] \in {"sep", "nd"} -> HE(h, e[3])
HAll(h, s, i) == IF i > Len(s) THEN 0 ELSE Higher(HE(h, s[i]), HAll(h, s, i + 1))
HAny(h, s, i) == IF i = Len(s) THEN HE(h, s[i])
                 ELSE LET a == HE(h, s[i]) b == HAny(h, s, i + 1) IN IF a < b THEN a ELSE b
RECURSIVE HIter(_, _)
HIter(h, k) == IF k = 0 THEN h
               ELSE HIter(TLCEval([n \in DOMAIN Rules |-> LET x == HE(h, Rules[n]) IN
                                                          IF x > 90 THEN 99 ELSE x + 1]), k - 1)
\* (kept in registers: TLC would compute them anew at every use)
ASSUME TLCSet(7, HIter([n \in DOMAIN Rules |-> 99], 40))
ASSUME TLCSet(8, TLCEval([n \in DOMAIN Rules |-> CHOOSE i \in 1..Len(RuleSeq) : RuleSeq[i] = n]))
ASSUME TLCSet(9, TLCEval(Rules))
Height == TLCGet(7 + 0 * swarm)
Idx == TLCGet(8 + 0 * swarm)
Body(n) == TLCGet(9 + 0 * swarm)[n]
Least(s) == LET hs == TLCEval([i \in 1..Len(s) |-> HE(Height, s[i])]) IN
            {i \in 1..Len(s) : \A j \in 1..Len(s) : hs[i] <= hs[j]}

\* ---- operators bind in this order, loosest first ----
Chain == <<"ternary", "disjunction", "conjunction", "inversion", "comparison", "bitwise_or",
           "bitwise_xor", "bitwise_and", "shift_expr", "sum", "term", "factor", "power",
           "await_primary", "primary">>
ChainSet == ToSet(Chain)
Level(n) == CHOOSE i \in 1..Len(Chain) : Chain[i] = n
\* The body of a rule of the chain when it is not just the next one.
RECURSIVE Forced(_)
Forced(e) ==
    IF e[1] = "alt" THEN A(SubSeq(e[2], 1, Len(e[2]) - 1))
    ELSE LET i == CHOOSE i \in 1..Len(e[2]) : e[2][i][1] \in {"opt", "star"} IN
         S([e[2] EXCEPT ![i] = IF @[1] = "opt" THEN @[2] ELSE P(@[2])])

\* ---- words ----
Names == {"a", "b", "foo", "x1", "_p", "é", "match", "case", "type", "_", "Δelta", "print", "f", "rb", "ⅷ"}
Newlines == {"Newline", "Indent", "Dedent"}
Triple(q) == q \in {"'''", "\"\"\""}
Lexemes(t, fs) ==
    CASE t = "Name" -> Names
      [] t = "CaptureName" -> Names \ {"_"}
      [] t = "Conversion" -> {"r", "s", "a"}
      [] t = "Number" -> {"0", "7", "1_000", "0x_fF", "0b1", "0o17", "1.", "1.5", ".5", "1e5",
                          "1E-3", "2j", "0_0", "00", "1_0.0_1e+1_0J", "12345678901234567890"}
      [] t = "String" -> {"'a'", "\"b\"", "''", "\"\"", "'''x\ny'''", "\"\"\"\"q\" \\\"\"\"\"", "r'\\d'",
                          "u\"é\"", "'it\\'s'", "'#'", "\"'''\"", "'\\\n'", "'''\\''''", "R\"\\\"\"", "U''"}
      [] t = "Bytes" -> {"b'a'", "rb\"\\x\"", "bR'''\n'''", "B\"\"", "Rb'\\''"}
      [] t = "FStringString" ->
           {"x", " a b ", "{{", "}}y", "#", "é", "\\\\", "\\t", "!", ":", "="}
           \cup (IF fs[1].raw THEN {"\\d"} ELSE {"\\N{DIGIT ONE}", "\\N{EM DASH}{{"})
           \cup (IF Triple(fs[1].q) THEN {"\n", "l1\r\n  l2", "\" ' "}
                 ELSE IF fs[1].q = "'" THEN {"\"", "\"\"\""} ELSE {"'", "it's"})
      [] t = "FStringSpec" -> {">3", ".2f", "%Y", ":", "!", " x", "=5", "é"}
TypeOf(t) == CASE t = "CaptureName" -> "Name" [] t = "Conversion" -> "Name"
               [] t = "FStringSpec" -> "FStringString" [] OTHER -> t
Glued(t) == t \in {"FStringString", "FStringSpec", "Conversion"}
Quotes == {"'", "\"", "'''", "\"\"\""}
FPrefix == {"f", "F", "rf", "fR"}

\* ---- layout ----
Openers == {"(", "[", "{"}
Closers == {")", "]", "}"}
Loose == Openers \cup Closers \cup {",", ";"}
WordKw == {"if", "elif", "else", "while", "for", "in", "try", "except", "finally", "with", "as",
           "def", "class", "return", "raise", "from", "import", "global", "nonlocal", "del",
           "assert", "pass", "break", "continue", "yield", "lambda", "not", "and", "or", "is",
           "None", "True", "False", "async", "await", "match", "case", "type", "_"}
WordType == {"Name", "Number", "String", "Bytes", "FStringStart", "FStringEnd", "FStringString"}
Class(ty, x) == IF ty \in WordType \/ x \in WordKw THEN "word"
                ELSE IF x \in Loose THEN "loose" ELSE "op"
\* Two tokens that would be read as one, or as others, when they touched.
MustPart(pt, px, ty, x) ==
    LET p == Class(pt, px) t == Class(ty, x) IN
    \/ p = "word" /\ t = "word"
    \/ p = "op" /\ t = "op"
    \/ pt = "Number" /\ t = "op"
    \/ p = "op" /\ ty = "Number"
    \/ px = "{" /\ x = "{"
    \/ px = "}" /\ x = "}"
Blank == {" ", "  ", "\t"}
Joined == {" \\\n", "\\\n  ", " \\\r\n"}
InBrackets == {"\n", "  # ' ( \" note\n  ", "\n\n\t", "\r\n ", " \n# x\n"}
EolGaps == {"", " ", "  # type: ignore", "#", " # é ' \"\"\" ( [ {"}
Eols == {"\n", "\r\n"}
LineGaps == {"\n", "# c\n", "    # c ( '\n", "\t\n", "\r\n", "\f\n", "  \n\n# d\n", "   \f \r\n"}
Steps == {" ", "  ", "    ", "\t", "        "}
EndGaps == {"", "# end\n", "\n", "  ", "    # end", "\f"}

Pick(set) == RandomElement(set)
OneIn(n) == RandomElement(1..(n + 0 * swarm)) = 1
Weight(r) == 3 + ((swarm * (r * 7 + 3)) % 14)
Bias(r, k) == 1 + ((swarm * (r * 13 + 5)) % k)
\* Rules whose alternatives all have a short derivation.
Cheap == {"fstring_expr", "strings", "fstring", "fstring_format_spec", "param_patterns",
          "mapping_pattern", "class_pattern", "literal_pattern", "complex_number", "signed_number",
          "key_value_pattern", "kwargs", "arguments", "star_etc", "parameters", "slices", "slice",
          "dict_content", "lambda_parameters", "lambda_star_etc", "type_param"}
Focused(s) == {i \in 1..Len(s) : s[i][1] = "n" /\ s[i][2] \in Focus}
Taken(b, r) == IF RuleSeq[r] \in Focus \cap Cheap THEN RandomElement(1..(7 + 0 * swarm)) <= 3
               ELSE b > 0 /\ RandomElement(1..Weight(r)) <= 4

\* The space in front of a token.
GapOf(ty, x, glue) ==
    LET part == MustPart(lay.pt, lay.px, ty, x)
        soft == IF part THEN Blank ELSE {""} \cup Blank
    IN CASE glue -> ""
         [] ty = "Newline" -> RandomElement(IF swarm = 0 THEN {} ELSE EolGaps)
         [] ty \in {"Indent", "Dedent"} -> ""
         [] ty = "Endmarker" -> RandomElement(IF swarm = 0 THEN {} ELSE EndGaps)
         [] lay.bol -> (IF OneIn(4) THEN RandomElement(IF swarm = 0 THEN {} ELSE LineGaps) ELSE "") \o Last(lay.ind)
         [] lay.fs # <<>> /\ \E i \in 1..Len(lay.fs) : ~Triple(lay.fs[i].q) ->
              IF part \/ OneIn(4) THEN " " ELSE ""
         [] lay.b > 0 /\ OneIn(6) -> RandomElement(IF swarm = 0 THEN {} ELSE InBrackets \cup Joined)
         [] lay.b = 0 /\ OneIn(12) -> RandomElement(IF swarm = 0 THEN {} ELSE Joined)
         [] OTHER -> RandomElement(soft)

Count(k) == [open EXCEPT ![1].c = @ + k]
Emitted(ty, x, glue) ==
    /\ out' = Append(out, <<"t", ty, x, GapOf(ty, x, glue)>>)
    /\ open' = Count(1)
    /\ lay' = [lay EXCEPT
         !.pt = ty, !.px = x, !.bol = (ty = "Newline") \/ (@ /\ ty \in {"Indent", "Dedent"}),
         !.ind = IF ty = "Indent" THEN Append(@, Last(@) \o RandomElement(IF swarm = 0 THEN {} ELSE Steps))
                 ELSE IF ty = "Dedent" THEN Front(@) ELSE @,
         !.b = @ + (IF ty = "Keyword" /\ x \in Openers THEN 1
                    ELSE IF ty = "Keyword" /\ x \in Closers THEN -1 ELSE 0)]

\* e is still to be written, with b optional parts, inside the rule number r.
Item(e, b, r) == [e |-> e, b |-> b, r |-> r]
RECURSIVE PushSeq(_, _, _, _, _, _)
PushSeq(s, fl, i, b, r, rest) ==
    IF i > Len(s) THEN rest
    ELSE CASE fl[i] = "no" -> PushSeq(s, fl, i + 1, b, r, rest)
           [] fl[i] = "part" /\ s[i][1] = "opt" ->
                <<Item(s[i][2], b, r), PushSeq(s, fl, i + 1, b, r, rest)>>
           [] fl[i] = "part" /\ s[i][1] = "star" ->
                <<Item(P(s[i][2]), b, r), PushSeq(s, fl, i + 1, b, r, rest)>>
           [] OTHER -> <<Item(s[i], b, r), PushSeq(s, fl, i + 1, b, r, rest)>>
RECURSIVE Flags(_, _, _, _)
Flags(s, i, b, r) ==
    IF i > Len(s) THEN <<>>
    ELSE <<IF s[i][1] \in {"k", "k0", "t"} THEN "token"
           ELSE IF s[i][1] \in {"opt", "star"} THEN (IF Taken(b, r) THEN "part" ELSE "no")
           ELSE "part">> \o Flags(s, i + 1, b, r)
Parts(fl) == Cardinality({i \in 1..Len(fl) : fl[i] = "part"})

Opened(n, h) == [n |-> n, at |-> Len(out) + 1, c |-> 0, h |-> h]
Open(n, hidden, body, b, r, rest) ==
    /\ open' = <<Opened(n, hidden)>> \o open
    /\ out' = IF hidden THEN out ELSE Append(out, <<"(", n>>)
    /\ todo' = <<Item(body, b, r), <<Item(<<"close">>, 0, r), rest>>>>
    /\ UNCHANGED lay
Rewrite(t) == todo' = t /\ UNCHANGED <<open, out, lay>>

Step ==
    /\ todo # <<>>
    /\ LET it == todo[1]
           rest == todo[2]
           e == it.e
           b == it.b
           r == it.r
       IN CASE e[1] = "t" ->
                 /\ \E x \in {IF e[2] = "Newline" THEN RandomElement(IF swarm = 0 THEN {} ELSE Eols)
                              ELSE IF e[2] \in Newlines \cup {"Endmarker"} THEN ""
                              ELSE RandomElement(Lexemes(e[2], lay.fs))} :
                    Emitted(TypeOf(e[2]), x, Glued(e[2]))
                 /\ todo' = rest
            [] e[1] = "k" -> Emitted("Keyword", e[2], FALSE) /\ todo' = rest
            [] e[1] = "k0" -> Emitted("Keyword", e[2], TRUE) /\ todo' = rest
            [] e[1] = "n" ->
                 IF e[2] \in ChainSet
                 THEN IF b <= 0 \/ RandomElement(1..(10 + 0 * b)) <= 3
                      THEN Rewrite(<<Item(N("atom"), b, r), rest>>)
                      ELSE \E j \in {RandomElement(IF b > 0 THEN Level(e[2])..Len(Chain) ELSE {})} :
                           Open(Chain[j], FALSE, Forced(Body(Chain[j])), b - 1, Idx[Chain[j]], rest)
                 ELSE Open(NodeName(e[2]), e[2] \in Hidden, Body(e[2]), b, Idx[e[2]], rest)
            [] e[1] = "nd" -> Open(e[2], FALSE, e[3], b, r, rest)
            [] e[1] = "close" ->
                 LET o == open[1] IN
                 /\ out' = IF ~o.h THEN Append(out, <<")">>)
                           ELSE IF o.c = 1 THEN out
                           ELSE Append(InsertAt(out, o.at, <<"(", o.n>>), <<")">>)
                 /\ open' = IF Len(open) = 1 THEN <<>>
                            ELSE [Tail(open) EXCEPT ![1].c = @ + 1]
                 /\ todo' = rest
                 /\ UNCHANGED lay
            [] e[1] = "seq" ->
                 \E fl \in {Flags(e[2], 1, b, r)} :
                 LET m == Parts(fl) IN Rewrite(PushSeq(e[2], fl, 1, IF m <= 1 THEN b ELSE b \div m, r, rest))
            [] e[1] = "alt" ->
                 LET k == Len(e[2])
                 IN \E i \in {IF RuleSeq[r] \in Focus \cap Cheap THEN RandomElement(1..k)
                               ELSE IF b <= 0 THEN RandomElement(Least(e[2]))
                               ELSE IF OneIn(2) /\ Focused(e[2]) # {} THEN RandomElement(Focused(e[2]))
                               ELSE IF OneIn(3) THEN Bias(r, k) ELSE RandomElement(1..k)} :
                    Rewrite(<<Item(e[2][i], b - 1, r), rest>>)
            [] e[1] = "opt" -> Rewrite(IF Taken(b, r) THEN <<Item(e[2], b, r), rest>> ELSE rest)
            [] e[1] = "star" -> Rewrite(IF Taken(b, r) THEN <<Item(P(e[2]), b, r), rest>> ELSE rest)
            [] e[1] = "plus" ->
                 \E more \in {Taken(b - 1, r)} :
                 Rewrite(IF more THEN <<Item(e[2], b \div 2, r), <<Item(e, b - b \div 2, r), rest>>>>
                         ELSE <<Item(e[2], b, r), rest>>)
            [] e[1] = "sep" ->
                 \E more \in {Taken(b - 1, r)} :
                 Rewrite(IF more THEN <<Item(e[3], b \div 2, r), <<Item(e[2], 0, r), <<Item(e, b - b \div 2, r), rest>>>>>>
                         ELSE <<Item(e[3], b, r), rest>>)
            [] e[1] = "fstr" ->
                 \E q \in {RandomElement(IF b > 0 THEN Quotes ELSE {"'"})} :
                 \E p \in {RandomElement(IF b > 0 THEN FPrefix ELSE {"f"})} :
                    /\ out' = Append(out, <<"t", "FStringStart", p \o q, GapOf("FStringStart", p \o q, FALSE)>>)
                    /\ open' = Count(1)
                    /\ lay' = [lay EXCEPT !.fs = <<[q |-> q, raw |-> p \in {"rf", "fR"}]>> \o @,
                                          !.pt = "FStringStart", !.px = p, !.bol = FALSE]
                    /\ todo' = <<Item(e[2], b, r), <<Item(<<"fend">>, 0, r), rest>>>>
            [] e[1] = "fend" ->
                 /\ out' = Append(out, <<"t", "FStringEnd", lay.fs[1].q, "">>)
                 /\ open' = Count(1)
                 /\ lay' = [lay EXCEPT !.fs = Tail(@), !.pt = "FStringEnd", !.px = ""]
                 /\ todo' = rest
    /\ UNCHANGED <<swarm, stmts>>

Init == /\ todo = <<>> /\ open = <<[n |-> "file", at |-> 1, c |-> 0, h |-> FALSE]>>
        /\ out = <<<<"(", "file">>>> /\ swarm = 0 /\ stmts = 0
        /\ lay = [b |-> 0, fs |-> <<>>, ind |-> <<"">>, bol |-> TRUE, pt |-> "Newline", px |-> ""]
Choose == swarm = 0 /\ swarm' = RandomElement(1..(10007 + stmts))
          /\ UNCHANGED <<todo, open, out, lay, stmts>>
Statement ==
    /\ swarm # 0 /\ todo = <<>> /\ stmts < Stmts
    /\ todo' = <<Item(N("stmt"), Budget, 1), <<>>>>
    /\ stmts' = stmts + 1
    /\ UNCHANGED <<open, out, lay, swarm>>
Finish ==
    /\ swarm # 0 /\ todo = <<>> /\ stmts = Stmts
    /\ todo' = <<Item(T("Endmarker"), 0, 1), <<Item(<<"close">>, 0, 1), <<>>>>>>
    /\ stmts' = stmts + 1
    /\ UNCHANGED <<open, out, lay, swarm>>
Done == stmts > Stmts /\ todo = <<>>
Next == Choose \/ Statement \/ Finish \/ Step
Spec == Init /\ [][Next]_vars

\* ---- properties of the specification itself ----
NeverNegative == lay.b >= 0
Level0 == Done => lay.b = 0 /\ lay.fs = <<>> /\ lay.ind = <<"">> /\ open = <<>>
Balanced == Done => Cardinality({i \in 1..Len(out) : out[i][1] = "("})
                    = Cardinality({i \in 1..Len(out) : out[i][1] = ")"})
NoEmptyNode == Done => \A i \in 1..Len(out) - 1 : ~(out[i][1] = "(" /\ out[i + 1][1] = ")")
Emit == Done => PrintT(<<"BEHAVIOUR", ToJson(out)>>)
==============================================================================
