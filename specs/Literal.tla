------------------------------- MODULE Literal -------------------------------
(* The value of a string or bytes literal.

   A literal is a prefix, quotes and a body, the body a sequence of characters.
   One step decodes one character or one escape of the body. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chars, MaxLen, Prefixes, QuoteMarks
VARIABLES prefix, quote, body, k, out, bad, done
vars == <<prefix, quote, body, k, out, bad, done>>

Code == [x \in {"\n"} |-> 10] @@ [x \in {"\r"} |-> 13] @@ [x \in {"\t"} |-> 9] @@ [x \in {" "} |-> 32]
        @@ [x \in {"\""} |-> 34] @@ [x \in {"'"} |-> 39] @@ [x \in {"\\"} |-> 92] @@ [x \in {"{"} |-> 123]
        @@ [x \in {"}"} |-> 125] @@ [x \in {"-"} |-> 45] @@ [x \in {"<e9>"} |-> 233] @@ [x \in {"<20ac>"} |-> 8364]
        @@ [x \in {"<1f40d>"} |-> 128013]
        @@ ("0" :> 48) @@ ("1" :> 49) @@ ("2" :> 50) @@ ("3" :> 51) @@ ("4" :> 52) @@ ("5" :> 53)
        @@ ("6" :> 54) @@ ("7" :> 55) @@ ("8" :> 56) @@ ("9" :> 57)
        @@ ("a" :> 97) @@ ("b" :> 98) @@ ("c" :> 99) @@ ("d" :> 100) @@ ("e" :> 101) @@ ("f" :> 102)
        @@ ("g" :> 103) @@ ("n" :> 110) @@ ("r" :> 114) @@ ("t" :> 116) @@ ("v" :> 118) @@ ("u" :> 117)
        @@ ("x" :> 120) @@ ("N" :> 78) @@ ("U" :> 85) @@ ("A" :> 65) @@ ("F" :> 70) @@ ("X" :> 88) @@ ("B" :> 66)
Ascii(c) == Code[c] < 128
Octal == {"0", "1", "2", "3", "4", "5", "6", "7"}
Hex == Octal \union {"8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "F"}
Digit(c) == LET n == Code[c] IN IF n >= 97 THEN n - 87 ELSE IF n >= 65 THEN n - 55 ELSE n - 48

At(j) == IF j <= Len(body) THEN body[j] ELSE ""
\* Line endings: "\r\n" and "\r" are read as "\n".
LineEnd(j) == IF At(j) = "\r" /\ At(j + 1) = "\n" THEN j + 2 ELSE j + 1
Raw == \E j \in DOMAIN prefix : prefix[j] \in {"r", "R"}
IsBytes == \E j \in DOMAIN prefix : prefix[j] \in {"b", "B"}
Triple == Len(quote) = 3

\* The body is closed by the quotes behind it and by nothing before.
RECURSIVE Fits(_, _, _)
Fits(b, q, j) ==
    CASE j > Len(b) -> TRUE
      [] b[j] = "\\" -> /\ j < Len(b)
                        /\ Fits(b, q, IF b[j + 1] = "\r" /\ j + 2 <= Len(b) /\ b[j + 2] = "\n" THEN j + 3 ELSE j + 2)
      [] b[j] = q[1] -> IF Len(q) = 1 THEN FALSE
                        ELSE j < Len(b) /\ ~(j + 1 < Len(b) /\ b[j + 1] = q[1] /\ b[j + 2] = q[1]) /\ Fits(b, q, j + 1)
      [] b[j] \in {"\n", "\r"} /\ Len(q) = 1 -> FALSE
      [] OTHER -> Fits(b, q, j + 1)
Init == /\ prefix \in Prefixes /\ quote \in QuoteMarks
        /\ body \in {b \in UNION {[1..n -> Chars] : n \in 0..MaxLen} :
                        Fits(b, quote, 1) /\ (IsBytes => \A j \in DOMAIN b : Ascii(b[j]))}
        /\ k = 1 /\ out = <<>> /\ bad = FALSE /\ done = FALSE

Put(cs, next) == out' = out \o cs /\ k' = next /\ UNCHANGED <<prefix, quote, body, bad, done>>
Single == ("\\" :> 92) @@ ("'" :> 39) @@ ("\"" :> 34) @@ ("a" :> 7) @@ ("b" :> 8) @@ ("t" :> 9) @@ ("n" :> 10)
          @@ ("v" :> 11) @@ ("f" :> 12) @@ ("r" :> 13)
RECURSIVE Number(_, _, _)
Number(j, n, base) == IF n = 0 THEN 0 ELSE Number(j, n - 1, base) * base + Digit(At(j + n - 1))
OctalLen(j) == IF At(j + 1) \notin Octal THEN 1 ELSE IF At(j + 2) \notin Octal THEN 2 ELSE 3
AllHex(j, n) == \A m \in 0..(n - 1) : At(j + m) \in Hex
HexLen == ("x" :> 2) @@ ("u" :> 4) @@ ("U" :> 8)
\* What no character can be: outside of Unicode, half of a pair, or not a number.
Zeros(j) == At(j) = "0" /\ At(j + 1) = "0" /\ (At(j + 2) = "0" \/ (At(j + 2) = "1" /\ At(j + 3) = "0"))
Scalar(n) == n < 55296 \/ (n > 57343 /\ n <= 1114111)
Escape ==
    LET c == At(k + 1)
    IN CASE c \in {"\n", "\r"} -> Put(<<>>, LineEnd(k + 1))
         [] c \in DOMAIN Single -> Put(<<Single[c]>>, k + 2)
         [] c \in Octal ->
              LET n == OctalLen(k + 1)
                  v == Number(k + 1, n, 8)
              IN Put(<<IF IsBytes THEN v % 256 ELSE v>>, k + 1 + n)
         [] c \in DOMAIN HexLen /\ (c = "x" \/ ~IsBytes) ->
              LET n == HexLen[c]
              IN IF AllHex(k + 2, n) /\ (n < 8 \/ Zeros(k + 2)) /\ Scalar(Number(k + 2, n, 16))
                 THEN Put(<<Number(k + 2, n, 16)>>, k + 2 + n)
                 ELSE bad' = TRUE /\ done' = TRUE /\ UNCHANGED <<prefix, quote, body, k, out>>
         [] c = "N" /\ ~IsBytes -> bad' = TRUE /\ done' = TRUE /\ UNCHANGED <<prefix, quote, body, k, out>>
         [] OTHER -> Put(<<92, Code[c]>>, k + 2)
Next == /\ ~done
        /\ CASE k > Len(body) -> done' = TRUE /\ UNCHANGED <<prefix, quote, body, k, out, bad>>
             [] At(k) = "\\" /\ ~Raw -> Escape
             [] At(k) \in {"\n", "\r"} -> Put(<<10>>, LineEnd(k))
             [] OTHER -> Put(<<Code[At(k)]>>, k + 1)
Spec == Init /\ [][Next]_vars

RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))
\* A value is never longer than its text; without escapes and line endings it is the text.
NotLonger == Len(out) <= k - 1
Same == done /\ ~bad /\ (\A j \in DOMAIN body : body[j] \notin {"\\", "\r"})
        => out = [j \in DOMAIN body |-> Code[body[j]]]
NoReturn == Raw => \A j \in DOMAIN out : out[j] # 13
Emit == done => PrintT(<<"BEHAVIOUR", ToJson([text |-> Joined(prefix \o quote \o body \o quote),
            bytes |-> IsBytes, value |-> out, bad |-> bad,
            offset |-> Len(prefix) + Len(quote), quotes |-> Len(quote)])>>)
==============================================================================
