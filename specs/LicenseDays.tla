----------------------------- MODULE LicenseDays -----------------------------
(* Numbers of days: f * 2^p + o, up to the largest 64 bit number, as text.
   A licence for so many days is valid for as many times 86400 seconds, unless
   that is more than a clock can show, which is an error. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxFactor
VARIABLES f, p, d
\* Decimal digits, the last one first.
RECURSIVE Add(_, _, _)
Add(x, y, c) == IF x = <<>> /\ y = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                ELSE LET a == IF x = <<>> THEN 0 ELSE x[1]
                         b == IF y = <<>> THEN 0 ELSE y[1]
                         s == a + b + c
                     IN <<s % 10>> \o Add(IF x = <<>> THEN x ELSE Tail(x), IF y = <<>> THEN y ELSE Tail(y), s \div 10)
Names == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE <<n % 10>> \o Digits(n \div 10)
RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE Text(Tail(x)) \o Names[x[1] + 1]
Limit == <<5, 1, 6, 1, 5, 5, 9, 0, 7, 3, 7, 0, 4, 4, 7, 6, 4, 4, 8, 1>>
RECURSIVE Less(_, _)
Less(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y)
              ELSE IF x = <<>> THEN FALSE
              ELSE IF x[Len(x)] # y[Len(y)] THEN x[Len(x)] < y[Len(y)]
              ELSE Less(SubSeq(x, 1, Len(x) - 1), SubSeq(y, 1, Len(y) - 1))
Init == f \in 0..MaxFactor /\ p = 0 /\ d = Digits(f)
Next == /\ p < 64 /\ f > 0 /\ p' = p + 1 /\ d' = Add(d, d, 0) /\ f' = f
        /\ ~Less(Limit, d')
Spec == Init /\ [][Next]_<<f, p, d>>
Ok == Less(d, Limit)
Emit == PrintT(<<"BEHAVIOUR", ToJson([days |-> Text(d)])>>) /\ (Ok => PrintT(<<"BEHAVIOUR", ToJson([days |-> Text(Add(d, <<1>>, 0))])>>))
==============================================================================
