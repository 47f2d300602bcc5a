----------------------------- MODULE MCFragments -----------------------------
(* The alphabets of texts that are enumerated. *)
EXTENDS Fragments
Pieces == {"a", " ", "\n", "    ", "(", ")", "[", "]", "{", "}", ":", ",", "=", "'", "\"", "'''",
           "\"\"\"", "f'", "f\"", "f'''", "\\", "\\\n", "\r", "\r\n", "#", "<e9>", "\t", "\f", "1", "0x", ".",
           "if ", "def ", "else", "import ", "lambda", "*", "!", "$", "@", ";", "\n  ", "\\N{", "rb'",
           "match ", "_", "<a0>", "<1f40d>", "<feff>"}
Small == {"a", " ", "\n", "(", ")", "{", "}", ":", "'", "\"", "f'", "f\"\"\"", "\\", "\r", "#", "<e9>",
          "if ", "\n  ", "def ", "="}
Tiny == {"a", "\n", " ", "(", "'", "f'", "{", "}", "\\", "#"}
\* Words of the grammar.
Words == {"a ", "1 ", "'s' ", "b'' ", "f'{a}' ", "( ", ") ", "[ ", "] ", "{ ", "} ", ", ", ": ", ":= ", "= ", "+= ", ". ", "* ",
          "** ", "- ", "/ ", "| ", "not ", "in ", "is ", "if ", "else ", "for ", "lambda ", "await ", "async ", "yield ",
          "from ", "import ", "as ", "del ", "return ", "raise ", "global ", "with ", "match ", "case ", "_ ", "type ", "class ",
          "def ", "-> ", "@ ", "... ", "None ", "\n", "\n  ", "; ", "try: ", "except ", "while ", "== "}
Heads == {"for ", "with ", "match ", "case ", "del ", "a", "(", ")", "[", "]", ",", "=", "*", ".", " in ", " as ", ":", "\n "}
\* What editors are asked about.
Editing == {"import a\n", "from b import c\n", "'doc'", "# c\n", "\n", "x", " = y", "if z:\n  ", "return 1\n", "\r\n", "  ",
            "match m:\n case 1:\n  ", "def f(): ", "(", "<e9>;", "\\\n", "pass\n", "\t", "#", "$"}
\* Pieces of what is completed while one types.
Typing == {"foo(", "a", ", ", ".", "from ", "import ", ")", "def f(", "x=", "lambda: ", "class C(", " as ", "\n", "'s'",
           "# c", "[", "*", "...", "\r", "@", "del ", "f'{", ": ", "  ", "<e9>"}
\* Pieces that are written very often in a row, after another one.
Flat == {"", "(", "f'{", "\n", "a\n", "# c\n", "\\\n", "-", "a,", "}", "'", "<e9>", "\r", "a.", "else", "@a\n", " ", "x=",
         "not ", "b''", "a if b else ", "await ", "a ", ";", "def "}
Nested == {"", "(", "[", "{", "a(", "f(a=", "(a,", "{a:", "if a:\n ", "lambda:", "f'{", "f'", "\"\"\"", "a[", "(yield ", "a(b:=",
           "(a if ", "f(**", "[a for a in ", "with (", "match (", "def f(a=(", "x y"}
==============================================================================
