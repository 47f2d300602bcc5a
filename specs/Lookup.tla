------------------------------ MODULE Lookup ------------------------------
(***************************************************************************)
(* Which entry a path has and which workspace root owns it (V04).          *)
(*                                                                         *)
(* A disk with files, directories and symbolic links is chosen at random   *)
(* (from the tables below), and roots in some order.  Steps ask for paths, *)
(* list directories, open buffers and add further roots.  The meaning is   *)
(* Kind(P) and Owner(P), defined from the disk and the open buffers alone: *)
(* neither the order of roots nor the history of questions matters.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Depth

VARIABLES disk, live, roots, open, started, hist
vars == <<disk, live, roots, open, started, hist>>

\* ---- the universe of paths (relative to a scratch directory) ----
Spots == {
  <<"w">>, <<"w","a.py">>, <<"w","d">>, <<"w","d","c.py">>, <<"w","d","n">>, <<"w","d","n","k.py">>,
  <<"w","d",".h">>, <<"w",".h">>, <<"w",".h","x.py">>, <<"w","site-packages">>, <<"w","site-packages","p.py">>,
  <<"w","d","__pycache__">>, <<"w","d","__pycache__","q.py">>, <<"w","node_modules">>, <<"w","node_modules","r.py">>,
  <<"w","l">>, <<"w","d","l">>, <<"w","d","n","l">>, <<"w","site-packages","l">>,
  <<"v">>, <<"v","b.py">>, <<"v","m">>, <<"v","m","z.py">>, <<"v","l">>, <<"v","m","l">>,
  <<"w","dd">>, <<"w","dd","e.py">> }
FileNames == {"a.py", "c.py", "k.py", "x.py", "p.py", "q.py", "r.py", "b.py", "z.py", "e.py"}
Names == UNION {ToSet(p) : p \in Spots}
IsFileName(n) == n \in FileNames
Ignored(n) == n \in {".h", "site-packages", "node_modules", "__pycache__"}
RootSpots == {<<"w">>, <<"w","d">>, <<"w","d","n">>, <<"v">>, <<"w","site-packages">>, <<"w",".h">>, <<"v","m">>, <<"w","dd">>}
Targets == Spots \cup {<<>>, <<"nowhere">>}

NoNode == [k |-> "none", to |-> <<>>]
\* What may be where: names of files may also be links, "l" is always a link.
NodeChoices(p) ==
    IF Last(p) = "l" THEN {[k |-> "link", to |-> t] : t \in Targets} \cup {NoNode}
    ELSE IF IsFileName(Last(p))
    THEN {[k |-> "file", to |-> <<>>], NoNode}
    ELSE {[k |-> "dir", to |-> <<>>]}
RandomNode(p) ==
    LET r == RandomElement(1..(10 + Len(roots))) IN   \* (roots are empty: not a constant for TLC)
    IF Last(p) = "l" THEN (IF r <= 7 THEN [k |-> "link", to |-> RandomElement(Targets)] ELSE NoNode)
    ELSE IF IsFileName(Last(p))
    THEN (IF r <= 6 THEN [k |-> "file", to |-> <<>>]
          ELSE IF r <= 8 THEN [k |-> "link", to |-> RandomElement(Targets)] ELSE NoNode)
    ELSE IF r <= 8 THEN [k |-> "dir", to |-> <<>>] ELSE IF r <= 9 THEN NoNode ELSE [k |-> "file", to |-> <<>>]

\* A spot only exists when everything above it is a real directory.
Settled(raw) ==
    [p \in Spots |->
        IF \A i \in 1..(Len(p) - 1) : raw[SubSeq(p, 1, i)].k = "dir" THEN raw[p] ELSE NoNode]

\* ---- the file system ----
Node(p) == IF p = <<>> THEN [k |-> "dir", to |-> <<>>]
           ELSE IF p \in Spots THEN disk[p] ELSE NoNode
Fail == <<"!">>
RECURSIVE Phys(_, _, _)
Phys(at, rest, fuel) ==
    IF rest = <<>> THEN at
    ELSE IF fuel = 0 THEN Fail
    ELSE LET p == Append(at, Head(rest))
             nd == Node(p)
         IN CASE nd.k = "none" -> Fail
              [] nd.k = "link" -> Phys(<<>>, nd.to \o Tail(rest), fuel - 1)
              [] nd.k = "file" -> IF Tail(rest) = <<>> THEN p ELSE Fail
              [] nd.k = "dir" -> Phys(p, Tail(rest), fuel)
Real(p) == Phys(<<>>, p, 20)

Heads(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}
ProperPrefixes(p) == Heads(p) \ {p}
StrictlyBelow(r, p) == IsPrefix(r, p) /\ r # p

\* ---- meaning ----
RootsOver(p) == {r \in ToSet(roots) : StrictlyBelow(r, p)}
HasOwner(p) == RootsOver(p) # {}
Owner(p) == CHOOSE r \in RootsOver(p) : \A s \in RootsOver(p) : Len(s) <= Len(r)

OpenBelow(p, r) == \E o \in open : StrictlyBelow(p, o) /\ HasOwner(o) /\ Owner(o) = r

\* What one name in a directory (given by its lexical path) is on disk.
DiskEntry(p) ==
    LET n == Last(p)
        parent == Real(Front(p))
        ph == Real(p)
    IN IF Ignored(n) \/ parent = Fail \/ ph = Fail THEN "none"
       ELSE IF Node(Append(parent, n)).k = "link" /\ Node(ph).k = "dir"
               /\ \E a \in ProperPrefixes(p) : Real(a) = ph
       THEN "none"                     \* a link back to a directory it is in
       ELSE Node(ph).k

EntryKind(p, r) ==
    IF p \in open THEN "file"
    ELSE IF OpenBelow(p, r) THEN "dir"
    ELSE DiskEntry(p)

RECURSIVE Walk(_, _, _)
Walk(r, at, rest) ==
    LET p == Append(at, Head(rest))
        k == EntryKind(p, r)
    IN IF Len(rest) = 1 THEN k
       ELSE IF k = "dir" THEN Walk(r, p, Tail(rest))
       ELSE "none"

Kind(p) ==
    IF HasOwner(p)
    THEN LET r == Owner(p) IN
         IF Node(Real(r)).k = "dir" \/ \E o \in open : StrictlyBelow(r, o)
         THEN Walk(r, r, SubSeq(p, Len(r) + 1, Len(p)))
         ELSE "none"
    ELSE IF p \in open THEN "file" ELSE "none"
OwnerOf(p) == IF Kind(p) = "none" THEN <<"none">>
              ELSE IF HasOwner(p) THEN Owner(p) ELSE <<"fallback">>

\* ---- steps ----
\* Questions: spots, spots seen through links, and things that are not there.
Ask == Spots
       \cup {Append(p, n) : p \in {x \in Spots : ~IsFileName(Last(x))}, n \in Names}
AskDeep == {p \o <<n, m>> : p \in {x \in Spots : Last(x) = "l"}, n \in Names, m \in Names}
\* What the operating system can reach (the disk never changes here).
Reachable(d) ==
    LET P(p) == LET RECURSIVE G(_, _, _)
                    N(q) == IF q = <<>> THEN [k |-> "dir", to |-> <<>>] ELSE IF q \in Spots THEN d[q] ELSE NoNode
                    G(at, rest, fuel) ==
                      IF rest = <<>> THEN TRUE ELSE IF fuel = 0 THEN FALSE
                      ELSE LET q == Append(at, Head(rest))
                               nd == N(q)
                           IN CASE nd.k = "none" -> FALSE
                                [] nd.k = "link" -> G(<<>>, nd.to \o Tail(rest), fuel - 1)
                                [] nd.k = "file" -> Tail(rest) = <<>>
                                [] nd.k = "dir" -> G(q, Tail(rest), fuel)
                IN G(<<>>, p, 20)
        one == {p \in Ask : P(p)}
        two == {p \in {Append(q, n) : q \in one, n \in Names} : P(p)}
        three == {p \in {Append(q, n) : q \in two \ one, n \in Names} : P(p)}
    IN one \cup two \cup three
Rec(r) == hist' = Append(hist, r)
Running == started /\ Len(hist) < Depth

Init ==
    /\ disk = [p \in Spots |-> NoNode]
    /\ live = {}
    /\ roots = <<>>
    /\ open = {}
    /\ started = FALSE
    /\ hist = <<>>

\* One random element, or none (an exhaustive variant would return S).
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RandomRoots(n) ==
    LET a == RandomElement(RootSpots)
        b == RandomElement(RootSpots)
        c == RandomElement(RootSpots)
        all == IF n = 1 THEN <<a>> ELSE IF n = 2 THEN <<a, b>> ELSE <<a, b, c>>
        uniq == SelectSeq([i \in DOMAIN all |-> <<i, all[i]>>],
                          LAMBDA x : \A j \in 1..(x[1] - 1) : all[j] # x[2])
    IN TLCEval([i \in DOMAIN uniq |-> uniq[i][2]])

Start ==
    /\ ~started
    /\ started' = TRUE
    /\ LET raw == TLCEval([p \in Spots |-> RandomNode(p)])
       IN disk' = TLCEval(Settled(raw))
    /\ live' = TLCEval(Reachable(disk'))
    /\ roots' = RandomRoots(RandomElement(1..3))
    /\ UNCHANGED open
    /\ Rec([op |-> "start",
            disk |-> {[p |-> p, k |-> disk'[p].k, to |-> disk'[p].to] : p \in {x \in Spots : disk'[x].k # "none"}},
            roots |-> roots'])

\* Below an ignored directory that became known through a buffer nothing is promised.
Murky(p) ==
  \* the directories leading to a buffer that no root owns
  \/ ~HasOwner(p) /\ \E o \in open : StrictlyBelow(p, o)
  \/ \E o \in open : \E a \in ProperPrefixes(p) :
                a # <<>> /\ StrictlyBelow(a, o) /\ p # o /\ HasOwner(o)
                /\ \E i \in (Len(Owner(o)) + 1)..Len(a) : Ignored(a[i]) \/ Node(SubSeq(a, 1, i)).k # "dir"
FindIn(S) ==
    /\ Running
    /\ \E p \in Pick(S) :
         /\ ~Murky(p)
         /\ Rec([op |-> "find", p |-> p, kind |-> Kind(p), owner |-> OwnerOf(p)])
    /\ UNCHANGED <<disk, live, roots, open, started>>
Find == FindIn(Spots)
FindFar == FindIn(Ask)
FindDeep == FindIn(AskDeep)
FindLive == FindIn(live)

List ==
    /\ Running
    /\ \E p \in Pick({x \in live : Node(Real(x)).k = "dir" /\ RootsOver(x) # {}}) :
         /\ Kind(p) = "dir"
         /\ ~Murky(p) /\ ~Murky(Append(p, "?"))
         /\ Rec([op |-> "list", p |-> p,
                 names |-> {n \in Names : Kind(Append(p, n)) # "none"}])
    /\ UNCHANGED <<disk, live, roots, open, started>>

\* The entry found by the path is the one met when walking down from any root
\* above it (as imports do), unless an ignored name hides it there.
Same ==
    /\ Running
    /\ \E p \in Pick({x \in live : RootsOver(x) # {}}) : \E r \in Pick(RootsOver(p)) :
         /\ Kind(p) \in {"file", "dir"}
         /\ \A a \in Heads(p) \ ({p} \cup Heads(r)) : DiskEntry(a) = "dir"
         /\ p \in open \/ DiskEntry(p) = Kind(p)
         /\ ~Murky(p)
         /\ Rec([op |-> "same", p |-> p, root |-> r, kind |-> Kind(p)])
    /\ UNCHANGED <<disk, live, roots, open, started>>

\* A buffer is opened where neither a directory nor a file is in the way.
Openable == {p \in Ask \cup {Append(p, "new.py") : p \in Spots} :
               /\ IsFileName(Last(p)) \/ Last(p) = "new.py"
               /\ \A a \in ProperPrefixes(p) :
                    a # <<>> =>
                      /\ a \notin open /\ ~IsFileName(Last(a)) /\ Last(a) # "l"
                      /\ Node(a).k \in {"dir", "none"}
               /\ Node(p).k \in {"file", "none"}}
Open ==
    /\ Running /\ Cardinality(open) < 3
    /\ \E p \in Pick(Openable) :
         /\ open' = open \cup {p}
         /\ Rec([op |-> "open", p |-> p, owner |-> IF HasOwner(p) THEN Owner(p) ELSE <<"fallback">>])
    /\ UNCHANGED <<disk, live, roots, started>>

Add ==
    /\ Running
    /\ \E r \in Pick(RootSpots) :
         \* (a root added below another one that may have listed it: known finding)
         /\ r \in ToSet(roots) \/ \A x \in ToSet(roots) : ~StrictlyBelow(x, r)
         /\ \A o \in open : ~StrictlyBelow(r, o)
         /\ roots' = IF r \in ToSet(roots) THEN roots ELSE Append(roots, r)
         /\ Rec([op |-> "add", p |-> r, new |-> r \notin ToSet(roots)])
    /\ UNCHANGED <<disk, live, open, started>>

Next == Start \/ Find \/ FindLive \/ FindLive \/ FindFar \/ FindDeep \/ List \/ List \/ List \/ Same \/ Same \/ Open \/ Add
Spec == Init /\ [][Next]_vars

\* ---- laws ----
OwnerMostSpecific == started => \A p \in Spots : HasOwner(p) =>
    /\ StrictlyBelow(Owner(p), p)
    /\ \A r \in ToSet(roots) : StrictlyBelow(r, p) => IsPrefix(r, Owner(p))
OpenFound == started => \A o \in open : Kind(o) = "file"
OrderIrrelevant == Cardinality(ToSet(roots)) = Len(roots)
Emit == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
===========================================================================
