------------------------------ MODULE MCIgnores ------------------------------
EXTENDS Ignores
CONSTANTS Alphabet, MaxLen
Words == {"#", " ", "type:", "zuban:", "ignore", "[", "]", "a", "\t"}
Codes == {"# type: ignore", "#zuban:ignore", "[", "]", "a", " ", "#", ",", "\n"}
Places == {"# type: ignore", "# zuban: ignore[a]", "# type:ignore[b,Q ]", "\n", "x", "'", "(", ")", " ", "\r\n", "\r", "Q"}
Strings == {"# type: ignore[a]", "'", "'''", "f'''{", "}", "\n", "x", "\\\n", "  "}
Heads == {"# type: ignore", "# type: ignore[a]", "# zuban: ignore[Q]", "\n", " ", "x", "'''d'''", "# mypy: b", "\r\n", "Q", "if x:"}
Mypy == {"# mypy: ", "# mypy:", "a=b", " ", "\n", "\r\n", "'''", "Q", "#"}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
RECURSIVE Joined(_)
Joined(t) == IF t = <<>> THEN "" ELSE Head(t) \o Joined(Tail(t))
Init == \E t \in Texts : Start(Ended(Joined(t)))
Spec == Init /\ [][Next]_vars
==============================================================================
