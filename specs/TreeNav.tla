------------------------------- MODULE TreeNav -------------------------------
(* What every navigation method of a syntax tree has to answer, defined from
   the nesting of the nodes alone.  Judges recorded answers of the real tree.

   A tree is its list of nodes in pre-order with their depth (d), whether they
   are leaves, their start (s) and end (e).  Indexes in the record count from
   0, "none" is -1. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

Records == ndJsonDeserialize(IOEnv.NAV)
VARIABLES i, bad
vars == <<i, bad>>

None == -1
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
Largest(s) == IF s = {} THEN None ELSE MaxOf(s) - 1       \* as recorded
Smallest(s) == IF s = {} THEN None ELSE MinOf(s) - 1

\* ---- definitions: ns is the list of nodes, k a position in it ----
\* The last node of the subtree of k.
End(ns, k) == LET later == {j \in k + 1..Len(ns) : ns[j].d <= ns[k].d} IN
              IF later = {} THEN Len(ns) ELSE MinOf(later) - 1
ParentsOf(ns, k) == {j \in 1..k - 1 : End(ns, j) >= k}      \* all ancestors
Parent(ns, k) == Largest(ParentsOf(ns, k))
Sub(ns, k) == k + 1..End(ns, k)
Kids(ns, k) == {j \in Sub(ns, k) : ns[j].d = ns[k].d + 1}
Siblings(ns, k) == IF k = 1 THEN {} ELSE Kids(ns, Parent(ns, k) + 1)
NextSibling(ns, k) == Smallest({j \in Siblings(ns, k) : j > k})
PrevSibling(ns, k) == Largest({j \in Siblings(ns, k) : j < k})
Leaves(ns) == {j \in 1..Len(ns) : ns[j].leaf}
NextLeaf(ns, k) == Smallest({j \in Leaves(ns) : j > k})
PrevLeaf(ns, k) == Largest({j \in Leaves(ns) : j < k})
RECURSIVE InOrder(_)
InOrder(s) == IF s = {} THEN <<>> ELSE <<MinOf(s) - 1>> \o InOrder(s \ {MinOf(s)})
OfType(n, set) == \E t \in 1..Len(set) : set[t] = n.type
Until(ns, k, set) == Largest({j \in ParentsOf(ns, k) : OfType(ns[j], set)})
\* The nodes of a kind from k on that start before its end; if avoid, none below
\* one that was found.
Found(ns, k, set, avoid) ==
    LET all == {j \in {k} \cup Sub(ns, k) : OfType(ns[j], set) /\ ns[j].s < ns[k].e}
    IN InOrder(IF avoid THEN {j \in all : ParentsOf(ns, j) \cap all = {}} ELSE all)
\* The space in front of a node and behind it.
Pre(ns, k) == LET p == PrevLeaf(ns, k) IN
              LET from == IF p = None THEN 0 ELSE ns[p + 1].e IN <<from, ns[k].s - from>>
Suf(ns, k) == LET later == {j \in End(ns, k) + 1..Len(ns) : ns[j].leaf} IN
              IF ns[k].s = ns[k].e \/ later = {} THEN <<ns[k].e, 0>>
              ELSE <<ns[k].e, ns[MinOf(later)].s - ns[k].e>>
SameSlice(got, want) == got[2] = want[2] /\ (want[2] = 0 \/ got[1] = want[1])
\* The leaf at a position: one that starts there or holds it, the one that ends
\* there if nothing starts there, else the one the position is in front of.
LeafAt(ns, p) ==
    LET before == {j \in Leaves(ns) : ns[j].s <= p}
        last == IF before = {} THEN MinOf(Leaves(ns)) ELSE MaxOf(before)
    IN IF before # {} /\ ns[last].e < p /\ last # MaxOf(Leaves(ns))
       THEN NextLeaf(ns, last) ELSE last - 1

Sets == 4
Wrong(ns, sets, k) ==
    LET n == ns[k] IN
    IF n.idx # k - 1 \/ ~n.same THEN "index"
    ELSE IF n.len # n.e - n.s \/ ~SameSlice(n.code, <<n.s, n.e - n.s>>) THEN "as_code"
    ELSE IF n.par # Parent(ns, k) THEN "parent"
    ELSE IF n.next # NextSibling(ns, k) THEN "next_sibling"
    ELSE IF n.prev # PrevSibling(ns, k) THEN "previous_sibling"
    ELSE IF n.nl # NextLeaf(ns, k) THEN "next_leaf"
    ELSE IF n.pl # PrevLeaf(ns, k) THEN "previous_leaf"
    ELSE IF n.ll # End(ns, k) - 1 THEN "last_leaf_in_subtree"
    ELSE IF n.kids # InOrder(Kids(ns, k)) \/ n.nth # n.kids THEN "children"
    ELSE IF ~SameSlice(n.pre, Pre(ns, k)) THEN "prefix_to_previous_leaf"
    ELSE IF ~SameSlice(n.suf, Suf(ns, k)) THEN "suffix"
    ELSE IF \E t \in 1..Sets : n.until[t] # Until(ns, k, sets[t]) THEN "parent_until"
    ELSE IF \E t \in 1..Sets : n.isType[t] # OfType(n, sets[t]) THEN "is_type"
    ELSE IF n.errNode # (n.err /\ ~n.leaf) THEN "maybe_error_node"
    ELSE IF n.errLeaf # (n.err /\ n.leaf /\ n.type # "Error(Keyword)") THEN "maybe_error_leaf"
    ELSE IF ~n.leaf /\ \E t \in 1..Sets :
              \/ n.found[2 * t - 1] # Found(ns, k, sets[t], FALSE)
              \/ n.found[2 * t] # Found(ns, k, sets[t], TRUE) THEN "search"
    ELSE ""
Why(r) ==
    LET ns == r.nodes
        wrong == {k \in 1..Len(ns) : Wrong(ns, r.sets, k) # ""}
        at == {p \in 1..Len(r.at) : r.at[p] # LeafAt(ns, p - 1)}
    IN IF wrong # {} THEN <<Wrong(ns, r.sets, MinOf(wrong)), MinOf(wrong) - 1>>
       ELSE IF at # {} THEN <<"leaf_by_position", MinOf(at) - 1>>
       ELSE <<>>

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ \E w \in {Why(Records[i + 1])} :
           /\ bad' = bad + (IF w = <<>> THEN 0 ELSE 1)
           /\ IF w = <<>> THEN TRUE ELSE PrintT(<<"BAD", ToJson([i |-> Records[i + 1].i, why |-> w])>>)
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").diameter = Len(Records) + 1
==============================================================================
