------------------------------- MODULE Ignores -------------------------------
(* Comments that suppress messages.

   The lexer says where comments are: every # that no token contains starts one
   (or a further one within it).  What is written behind it, and which range
   of the text it acts on, follows. *)
EXTENDS Lexer
RECURSIVE Spaces(_), EndLine(_), PieceEnd(_), Trim(_), Sorted(_), Directives(_), TrimCodes(_, _)
White == {" ", "\t"}
Spaces(k) == IF At(k) \in White THEN Spaces(k + 1) ELSE k
EndLine(k) == IF At(k) = "" \/ At(k) \in Line THEN k ELSE EndLine(k + 1)
PieceEnd(k) == IF At(k) = "" \/ At(k) \in Line \union {"#"} THEN k ELSE PieceEnd(k + 1)
Trim(k) == IF At(k - 1) \in White THEN Trim(k - 1) ELSE k
InToken(k) == \E t \in DOMAIN toks : toks[t][2] < k /\ k <= toks[t][3]
Hashes == {k \in 1..Len(text) : At(k) = "#" /\ ~InToken(k)}

\* What the comment at h says. Positions count from zero here.
Says(h) ==
    LET a == Spaces(h + 1)
        kind == IF Has(a, "type:") THEN "type" ELSE IF Has(a, "zuban:") THEN "zuban" ELSE ""
        b == Spaces(a + Len(kind) + 1)
        c == b + 6
        d == Spaces(c)
        e == PieceEnd(h + 1)
        f == Trim(e)
    IN CASE kind = "" \/ ~Has(b, "ignore") -> [what |-> "other"]
         [] d < f /\ At(d) = "[" /\ At(f - 1) = "]" /\ f - 1 > d + 1 ->
                [what |-> "codes", at |-> h - 1, kind |-> kind, start |-> d, codes |-> SubSeq(text, d + 1, f - 2)]
         [] c = e \/ (c < e /\ At(c) \in White) -> [what |-> "all", at |-> h - 1]
         [] OTHER -> [what |-> "other"]
Sorted(s) == IF s = {} THEN <<>>
             ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})
Recognised == Sorted({h \in Hashes : Says(h).what # "other"})
\* Several comments together: everything, or the codes of all of them.
Answer(s) == IF s = <<>> THEN [what |-> "none"]
             ELSE IF Len(s) = 1 \/ \A j \in DOMAIN s : s[j].what = "codes"
             THEN IF s[1].what = "all" THEN [what |-> "all"]
                  ELSE [what |-> "codes", kind |-> s[1].kind, start |-> s[1].start, codes |-> s[1].codes,
                        later |-> [j \in 1..(Len(s) - 1) |-> s[j + 1].codes]]
             ELSE [what |-> "all"]
\* How many of the comments lie in front of position p, or end with the line of p.
Before0(said, p) == Cardinality({j \in DOMAIN said : said[j].at < p})
AnswerFor(said, p, q) == Answer(SubSeq(said, Before0(said, p) + 1, Before0(said, EndLine(q + 1) - 1)))

\* Where a comment can be added for position p; defined where it has to be.
TrimCodes(k, j) == IF j > k /\ At(j) \in White THEN TrimCodes(k, j - 1) ELSE j
Insert(said, p) ==
    LET a == AnswerFor(said, p, p)
        l == EndLine(p + 1) - 1
        last == CHOOSE t \in DOMAIN toks : /\ toks[t][2] < l /\ toks[t][3] > toks[t][2]
                                           /\ \A u \in (t + 1)..Len(toks) : toks[u][2] >= l \/ toks[u][2] = toks[u][3]
        starts == \E t \in DOMAIN toks : toks[t][2] = p /\ toks[t][3] > p /\ toks[t][1] # "Newline"
    IN CASE a.what = "all" -> [must |-> "not"]
         [] a.what = "codes" -> [must |-> "extend", kind |-> a.kind,
                                 at |-> TrimCodes(a.start, a.start + Len(a.codes))]
         [] a.what = "none" /\ starts /\ l > p /\ At(l) # "\\" /\ toks[last][3] <= l
               /\ ~\E t \in DOMAIN toks : toks[t][1] = "FStringString" /\ toks[t][2] = l ->
                [must |-> "add", at |-> toks[last][3]]
         [] OTHER -> [must |-> "any"]

\* Configuration for the file: <<position, text>> of the lines that start with it.
Directives(k) == LET e == CHOOSE j \in k..(Len(text) + 1) : At(j) \in {"\n", ""} /\ \A m \in k..(j - 1) : At(m) # "\n"
                     rest == IF e > Len(text) THEN <<>> ELSE Directives(e + 1)
                 IN IF Has(k, "# mypy: ") /\ k + 8 <= e THEN <<<<k + 7, SubSeq(text, k + 8, e - 1)>>>> \o rest ELSE rest
Report ==
    LET said == [j \in DOMAIN Recognised |-> Says(Recognised[j])]
        n == Len(said)
        first == Answer(SubSeq(said, 1, Before0(said, toks[1][2])))
    IN [text |-> text,
        from |-> [p \in 1..(Len(text) + 1) |-> Before0(said, p - 1)],
        to |-> [p \in 1..(Len(text) + 1) |-> Before0(said, EndLine(p) - 1)],
        answers |-> [a \in 1..(n + 1) |-> [b \in 1..(n + 1) |-> Answer(SubSeq(said, a, b - 1))]],
        first |-> first,
        insert |-> [p \in 1..(Len(text) + 1) |-> Insert(said, p - 1)],
        directives |-> Directives(1)]

\* A comment acts on every range that contains its place on the line, and on no line behind it.
OnItsLine == done => LET said == [j \in DOMAIN Recognised |-> Says(Recognised[j])] IN
    \A j \in DOMAIN said : \A p \in 0..Len(text) :
        LET a == AnswerFor(said, p, p).what
            same == \A k \in (p + 1)..said[j].at : At(k) \notin Line
        IN /\ p <= said[j].at /\ same => a # "none"
           /\ a # "none" => \E m \in DOMAIN said : said[m].at >= p /\ \A k \in (p + 1)..said[m].at : At(k) \notin Line
EmitIgnores == done => PrintT(<<"BEHAVIOUR", ToJson(Report)>>)
==============================================================================
