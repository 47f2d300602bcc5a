------------------------------- MODULE MCLexer -------------------------------
(* The lexer on all texts of at most MaxLen pieces of an alphabet. *)
EXTENDS Lexer
CONSTANTS Alphabet, MaxLen
Numbers == {"0", "1", "8", "_", ".", "e", "x", "b", "o", "j", "+", "a"}
Bases == {"0x", "0b", "0O", "0", "1", "7", "9", "_", ".", "e-", "E", "J", "f", " ", "if"}
Operators == {"+", "-", "*", "/", "%", "&", "@", "|", "^", "!", "=", "<", ">", "~", ";", ".", ",", ":", "a", " ", "$", "?"}
Strings == {"'", "\"", "\\", "\n", "a", "r", "b", "Q", "\r"}
Prefixes == {"r", "R", "b", "B", "u", "U", "f", "F", "t", "T", "'", "'''", "\"", "\"\"\"", "a", "\\", " "}
Triples == {"'''", "\"\"\"", "'", "\"", "\\", "\n", "a", "rb", "\r\n"}
Indents == {" ", "  ", "\n", "a", "(", ")", "#", "\t", "\\\n", ":", "\r"}
Lines == {" ", "\n", "\r", "\\", "#", "a", "("}
FStrings == {"f'", "f\"", "'", "\"", "{", "}", ":", "a", "\n", "\\", "="}
FNested == {"f'", "f\"\"\"", "'", "\"\"\"", "{", "}", ":", "!r", "(", ")", "\n", "x", "rf'"}
FEscapes == {"f'", "rf'", "f'''", "\\", "N", "{", "}", "{A B}", "{-}", "'", "\r", "\n", "a b"}
Breaks == {"(", "f'{", "\n", " ", "def", "class ", ";", "x", "'", ")", "del", "  "}
Depths == {"if x:\n ", "if x:\n  ", "if x:\n   ", "\n", "\n ", "\n  ", "(", "f\"{", "pass", ";", "y"}
Deep == {"if x:\n if y:\n  ", "if x:\n  if y:\n    ", "\n", "\n ", "\n  ", "(", "f\"{", "pass", ";", "y"}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
RECURSIVE Joined(_)
Joined(t) == IF t = <<>> THEN "" ELSE Head(t) \o Joined(Tail(t))
Init == \E t \in Texts : Start(Ended(Joined(t)))
Spec == Init /\ [][Next]_vars
==============================================================================
