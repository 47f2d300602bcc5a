-------------------------------- MODULE Lexer --------------------------------
(* How a text is split into tokens: the lexical rules of Python, and what is
   done with what they do not allow.

   One step takes one token.  The state is the position in the text, whether a
   new line starts here, the open indentations, the number of open brackets, and
   the open f-strings with their own brackets and format specs. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES text, i, nl, indents, par, fstack, toks, done
vars == <<text, i, nl, indents, par, fstack, toks, done>>

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexDigit == Digit \union {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Letter == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r",
           "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J",
           "K", "L", "M", "N", "O", "P", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_", "Q"}
Line == {"\n", "\r"}
Blank == {" ", "\t", "\f"}
Quote == {"'", "\""}
Op3 == {"**=", ">>=", "<<=", "//=", "..."}
Op2 == {"**", ">>", "<<", "//", "->", ":=", "+=", "-=", "*=", "/=", "%=", "&=", "@=", "|=", "^=", "!=",
        "==", "<=", ">="}
Op1 == {"+", "-", "*", "/", "%", "&", "@", "|", "^", "!", "=", "<", ">", "[", "]", "(", ")", "{", "}",
        "~", ";", ".", ",", ":"}
\* Words that only start statements: what is still open in front of them is closed.
Break == {"import", "class", "def", "try", "except", "finally", "while", "with", "return", "continue",
          "break", "del", "pass", "global", "assert", "nonlocal"}

Max(set) == CHOOSE x \in set : \A y \in set : y <= x
At(k) == IF k <= Len(text) THEN SubSeq(text, k, k) ELSE ""
Has(k, word) == /\ k + Len(word) - 1 <= Len(text)
                /\ SubSeq(text, k, k + Len(word) - 1) = word
\* Behind the line ending at k, or k.
LineEnd(k) == IF At(k) = "\r" /\ At(k + 1) = "\n" THEN k + 2 ELSE IF At(k) \in Line THEN k + 1 ELSE k
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

(********************************** numbers **********************************)
RECURSIVE Part(_, _)
Part(set, k) == IF At(k) \in set THEN Part(set, k + 1)
                ELSE IF At(k) = "_" /\ At(k + 1) \in set THEN Part(set, k + 2) ELSE k
Digits(k) == IF At(k) \in Digit THEN Part(Digit, k + 1) ELSE k
Exponent(k) == LET m == IF At(k + 1) \in {"+", "-"} THEN k + 2 ELSE k + 1
               IN IF At(k) \in {"e", "E"} /\ Digits(m) > m THEN Digits(m) ELSE k
Floats(k) == LET d == Digits(k) IN
    (IF d > k /\ At(d) = "." THEN {Exponent(Digits(d + 1))} ELSE {})
    \union (IF At(k) = "." /\ Digits(k + 1) > k + 1 THEN {Exponent(Digits(k + 1))} ELSE {})
    \union (IF d > k /\ Exponent(d) > d THEN {Exponent(d)} ELSE {})
Based(k, letters, set) == IF At(k) = "0" /\ At(k + 1) \in letters /\ Part(set, k + 2) > k + 2
                          THEN {Part(set, k + 2)} ELSE {}
Ints(k) == Based(k, {"x", "X"}, HexDigit) \union Based(k, {"b", "B"}, {"0", "1"})
           \union Based(k, {"o", "O"}, Digit \ {"8", "9"})
           \union (IF At(k) = "0" THEN {Part({"0"}, k + 1)} ELSE IF At(k) \in Digit THEN {Digits(k)} ELSE {})
Imags(k) == {x + 1 : x \in {y \in Floats(k) \union {Digits(k)} : y > k /\ At(y) \in {"j", "J"}}}
\* The longest number at k ends here.
NumberEnd(k) == IF At(k) \in Digit \union {"."} THEN Max({k} \union Floats(k) \union Ints(k) \union Imags(k)) ELSE k

(***************************** operators, names ******************************)
OpEnd(k) == IF At(k) \notin Op1 THEN k
            ELSE IF k + 2 <= Len(text) /\ SubSeq(text, k, k + 2) \in Op3 THEN k + 3
            ELSE IF k + 1 <= Len(text) /\ SubSeq(text, k, k + 1) \in Op2 THEN k + 2 ELSE k + 1
RECURSIVE NameEnd(_)
NameEnd(k) == IF At(k) \in Letter \union Digit THEN NameEnd(k + 1) ELSE k

(********************************** strings **********************************)
\* Behind the end of a string whose body goes on at k, or 0.
RECURSIVE Closed(_, _), Closed3(_, _)
Closed(k, q) == CASE At(k) = "" \/ At(k) \in Line -> 0
                  [] At(k) = q -> k + 1
                  [] At(k) = "\\" -> IF At(k + 1) = "" THEN 0
                                     ELSE IF At(k + 1) \in Line THEN Closed(LineEnd(k + 1), q)
                                     ELSE Closed(k + 2, q)
                  [] OTHER -> Closed(k + 1, q)
Triple(k) == At(k + 1) = At(k) /\ At(k + 2) = At(k)
Closed3(k, q) == CASE At(k) = "" -> 0
                   [] At(k) = q /\ Triple(k) -> k + 3
                   [] At(k) = "\\" -> IF At(k + 1) = "" THEN 0 ELSE Closed3(k + 2, q)
                   [] OTHER -> Closed3(k + 1, q)
\* The kind of string that a prefix makes.
One(k) == At(k)
Two(k) == SubSeq(text, k, k + 1)
Kind(k, n) == CASE n = 0 -> "String"
                [] n = 1 /\ One(k) \in {"r", "R", "u", "U", "t", "T"} -> "String"
                [] n = 1 /\ One(k) \in {"b", "B"} -> "Bytes"
                [] n = 1 /\ One(k) \in {"f", "F"} -> "FStringStart"
                [] n = 2 /\ Two(k) \in {"tr", "tR", "Tr", "TR", "rt", "rT", "Rt", "RT"} -> "String"
                [] n = 2 /\ Two(k) \in {"br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB"} -> "Bytes"
                [] n = 2 /\ Two(k) \in {"fr", "fR", "Fr", "FR", "rf", "rF", "Rf", "RF"} -> "FStringStart"
                [] OTHER -> "none"
Prefix(k) == IF At(k) \in Quote THEN 0 ELSE IF At(k + 1) \in Quote THEN 1
             ELSE IF At(k + 2) \in Quote THEN 2 ELSE 9
\* <<type, end>> of the string at k; type "none" if there is none.
StringAt(k) ==
    LET n == Prefix(k)
        kind == IF n > 2 THEN "none" ELSE Kind(k, n)
        q == At(k + n)
    IN CASE kind = "none" -> <<"none", k>>
         [] kind = "FStringStart" -> <<kind, k + n + (IF Triple(k + n) THEN 3 ELSE 1)>>
         [] Triple(k + n) -> LET e == Closed3(k + n + 3, q)
                             IN IF e = 0 THEN <<"ErrorToken", k + n + 3>> ELSE <<kind, e>>
         [] OTHER -> LET e == Closed(k + n + 1, q) IN IF e = 0 THEN <<"none", k>> ELSE <<kind, e>>

(********************************* f-strings *********************************)
InExpr(f) == f.par > f.spec
InSpec(f) == f.par = f.spec /\ f.spec > 0
\* Behind a character name {LATIN SMALL LETTER A} at k, or k.
NameChar == (Letter \ {"_", "Q"}) \union Digit \union {"-"}
RECURSIVE NameWords(_)
NameWords(k) == IF At(k) \in NameChar THEN NameWords(k + 1)
                ELSE IF At(k) = " " /\ At(k + 1) \in NameChar THEN NameWords(k + 1) ELSE k
CharName(k) == LET e == NameWords(k + 1)
               IN IF At(k) = "{" /\ At(k + 1) \in NameChar /\ At(e) = "}" THEN e + 1 ELSE k
\* Where the literal part that starts at k ends, and why.
RECURSIVE Literal(_, _)
Literal(k, f) ==
    CASE At(k) = "" -> <<"open", k>>
      [] At(k) \in {"{", "}"} ->
            IF At(k + 1) = "" THEN <<"open", k>>
            ELSE IF At(k + 1) # At(k) \/ InSpec(f) THEN <<"brace", k>> ELSE Literal(k + 2, f)
      [] At(k) = f.quote /\ (~f.triple \/ Triple(k)) -> <<"quote", k>>
      [] At(k) = "\\" ->
            IF At(k + 1) = "N" /\ ~f.raw /\ CharName(k + 2) > k + 2 THEN Literal(CharName(k + 2), f)
            ELSE IF At(k + 1) \in {"{", "}", ""} THEN Literal(k + 1, f)
            ELSE IF At(k + 1) \in Line THEN Literal(LineEnd(k + 1), f)
            ELSE Literal(k + 2, f)
      [] At(k) \in Line /\ ~f.triple -> <<"line", k>>
      [] OTHER -> Literal(k + 1, f)
\* Where the outermost f-string starts that may not go over a line.
FirstShort(s) == CHOOSE x \in 1..Len(s) : ~s[x].triple /\ \A y \in 1..(x - 1) : s[y].triple

(**************************** blanks and lines *******************************)
\* Over blanks, comments and joined lines, at the start of a line also over empty
\* lines: <<position, number of blanks in front of the line>>.
RECURSIVE Skip(_, _, _, _)
Skip(k, start, blanks, comment) ==
    CASE At(k) = "" -> <<k, blanks>>
      [] At(k) \in Line -> IF start THEN Skip(k + 1, start, 0, FALSE) ELSE <<k, blanks>>
      [] comment -> Skip(k + 1, start, blanks, TRUE)
      [] At(k) \in Blank -> Skip(k + 1, start, IF start THEN blanks + 1 ELSE blanks, FALSE)
      [] At(k) = "#" -> Skip(k + 1, start, 0, TRUE)
      [] At(k) = "\\" -> IF At(k + 1) \in Line THEN <<Skip(LineEnd(k + 1), start, 0, FALSE)[1], blanks>>
                         ELSE <<k, blanks>>
      [] OTHER -> <<k, blanks>>
\* The number of blanks in front of k if nothing else is in front of it on its line.
RECURSIVE Before(_, _)
Before(k, n) == IF k = 0 THEN <<>> ELSE IF At(k) \in Line THEN <<n>>
                ELSE IF At(k) \in {" ", "\t"} THEN Before(k - 1, n + 1) ELSE <<>>
Dedent(n) == IF n > indents[Len(indents) - 1] THEN <<"ErrorDedent", Append(Pop(indents), n)>>
             ELSE <<"Dedent", Pop(indents)>>

(*********************************** steps ***********************************)
Take(type, from, to) == toks' = Append(toks, <<type, from - 1, to - 1>>) /\ i' = to /\ UNCHANGED <<text, done>>
Same == UNCHANGED <<indents, par, fstack>>

\* The next token of code is at k.
Token(k) ==
    LET c == At(k)
        nest == fstack # <<>>
        name == NameEnd(k)
        string == StringAt(k)
        line == Before(k - 1, 0)
        breaks == /\ (c = ";" \/ (At(k) \in Letter /\ NumberEnd(k) = k /\ string[1] = "none"
                                  /\ SubSeq(text, k, name - 1) \in Break))
                  /\ (par > 0 \/ nest)
    IN /\ nl' = (c \in Line /\ par = 0 /\ ~nest)
       /\ CASE breaks /\ line # <<>> /\ line[1] < Top(indents) ->
                 LET d == Dedent(line[1])
                 IN Take(d[1], k, k) /\ indents' = d[2] /\ UNCHANGED <<par, fstack>>
            [] breaks -> /\ par' = 0 /\ fstack' = <<>> /\ UNCHANGED indents
                         /\ Take(IF c = ";" THEN "Operator" ELSE "Name", k, IF c = ";" THEN k + 1 ELSE name)
            [] c = ":" /\ nest /\ InExpr(Top(fstack)) /\ Top(fstack).par = Top(fstack).spec + 1 ->
                 /\ fstack' = [fstack EXCEPT ![Len(fstack)].spec = @ + 1]
                 /\ Take("Operator", k, k + 1) /\ UNCHANGED <<indents, par>>
            [] NumberEnd(k) > k -> Take("Number", k, NumberEnd(k)) /\ Same
            [] OpEnd(k) > k /\ ~(c = ":" /\ nest /\ InExpr(Top(fstack)) /\ Top(fstack).par = Top(fstack).spec + 1) ->
                 /\ Take("Operator", k, OpEnd(k)) /\ UNCHANGED indents
                 /\ CASE c \in {"(", "[", "{"} ->
                           IF nest THEN fstack' = [fstack EXCEPT ![Len(fstack)].par = @ + 1] /\ UNCHANGED par
                           ELSE par' = par + 1 /\ UNCHANGED fstack
                      [] c \in {")", "]", "}"} ->
                           IF nest
                           THEN /\ UNCHANGED par
                                /\ LET f == Top(fstack)
                                       p == IF f.par > 0 THEN f.par - 1 ELSE 0
                                   IN fstack' = Append(Pop(fstack),
                                          [f EXCEPT !.par = p, !.spec = IF @ < p THEN @ ELSE p])
                           ELSE par' = (IF par > 0 THEN par - 1 ELSE 0) /\ UNCHANGED fstack
                      [] OTHER -> UNCHANGED <<par, fstack>>
            [] string[1] = "FStringStart" ->
                 /\ Take(string[1], k, string[2]) /\ UNCHANGED <<indents, par>>
                 /\ fstack' = Append(fstack, [quote |-> At(k + Prefix(k)), triple |-> Triple(k + Prefix(k)),
                                              raw |-> Prefix(k) = 2, par |-> 0, spec |-> 0])
            [] string[1] # "none" /\ string[1] # "FStringStart" -> Take(string[1], k, string[2]) /\ Same
            [] string[1] = "none" /\ c \in Letter -> Take("Name", k, name) /\ Same
            [] c \in Line /\ par = 0 /\ ~nest -> Take("Newline", k, LineEnd(k)) /\ Same
            [] c \in Line /\ (par > 0 \/ nest) ->
                 i' = Skip(LineEnd(k), TRUE, 0, FALSE)[1] /\ UNCHANGED <<text, toks, done>> /\ Same
            [] c = "" /\ Len(indents) > 1 -> Take("Dedent", k, k) /\ indents' = Pop(indents) /\ UNCHANGED <<par, fstack>>
            [] c = "" /\ Len(indents) = 1 -> /\ toks' = Append(toks, <<"Endmarker", k - 1, k - 1>>)
                                             /\ done' = TRUE /\ i' = k /\ UNCHANGED text /\ Same
            [] OTHER -> Take("ErrorToken", k, k + 1) /\ Same
Code ==
    LET w == Skip(i, nl, 0, FALSE)
        k == w[1]
    IN IF nl /\ At(k) # "" /\ At(k) \notin Line /\ w[2] > Top(indents)
       THEN Take("Indent", k, k) /\ nl' = FALSE /\ indents' = Append(indents, w[2]) /\ UNCHANGED <<par, fstack>>
       ELSE IF nl /\ At(k) # "" /\ At(k) \notin Line /\ w[2] < Top(indents)
       THEN LET d == Dedent(w[2])
            IN /\ toks' = Append(toks, <<d[1], k - 1, k - 1>>) /\ indents' = d[2]
               /\ UNCHANGED <<text, i, nl, par, fstack, done>>
       ELSE Token(k)
Next ==
    /\ ~done
    /\ IF fstack = <<>> \/ InExpr(Top(fstack)) THEN Code
       ELSE LET l == Literal(i, Top(fstack))
                f == Top(fstack)
            IN CASE l[1] = "open" -> Code
                 [] l[2] > i -> Take("FStringString", i, l[2]) /\ UNCHANGED nl /\ Same
                 [] l[1] = "brace" -> Code
                 [] l[1] = "quote" -> /\ Take("FStringEnd", i, i + (IF f.triple THEN 3 ELSE 1))
                                      /\ fstack' = Pop(fstack) /\ UNCHANGED <<nl, indents, par>>
                 [] OTHER -> /\ fstack' = SubSeq(fstack, 1, FirstShort(fstack) - 1)
                             /\ UNCHANGED <<text, i, nl, indents, par, toks, done>>
\* A text always ends with a line that is not joined with the next one.
Tail2(t, x) == Len(t) >= Len(x) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x
Ended(t) == LET u == IF Tail2(t, "\n") THEN t ELSE t \o "\n"
            IN IF Tail2(u, "\\\n") \/ Tail2(u, "\\\r\n") THEN u \o "\n" ELSE u
Start(t) == /\ text = t /\ i = 1 /\ nl = TRUE /\ indents = <<0>> /\ par = 0 /\ fstack = <<>>
            /\ toks = <<>> /\ done = FALSE

(********************************** properties *******************************)
Count(type) == Cardinality({k \in DOMAIN toks : toks[k][1] = type})
\* Tokens lie in order and do not overlap; indentations are opened and closed alike.
InOrder == Len(toks) < 2 \/ toks[Len(toks)][2] >= toks[Len(toks) - 1][3]
Balanced == done => Count("Indent") = Count("Dedent") /\ toks[Len(toks)] = <<"Endmarker", Len(text), Len(text)>>
Open == Count("Indent") - Count("Dedent") = Len(indents) - 1
Growing == \A k \in 2..Len(indents) : indents[k] > indents[k - 1]
\* Between two tokens are only blanks, comments, joined lines, and line endings in brackets.
Nothing == Len(toks) > 1 => toks[Len(toks) - 1][3] <= toks[Len(toks)][2]
NoNested == fstack # <<>> => \A k \in DOMAIN fstack : fstack[k].spec <= fstack[k].par
Emit == done => PrintT(<<"BEHAVIOUR", ToJson([text |-> text, toks |-> toks])>>)
===============================================================================
