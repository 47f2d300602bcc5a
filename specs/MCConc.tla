------------------------------- MODULE MCConc -------------------------------
EXTENDS Conc
O(o, f) == [op |-> o, f |-> f]
Single == {<<O(o, f)>> : o \in {"load", "index", "dep", "sub", "viaindex"}, f \in {"f"}}
          \cup {<<O("root", r)>> : r \in {"r", "s"}} \cup {<<O("load", "g")>>, <<O("dep", "g")>>}
Few == {<<O("load", "f")>>, <<O("index", "f")>>, <<O("root", "r")>>, <<O("dep", "f")>>}
Long == {<<a, b>> : a, b \in {O(o, f) : o \in {"load", "index", "dep", "sub", "viaindex"}, f \in Files}
                              \cup {O("root", r) : r \in Roots}}
=============================================================================
