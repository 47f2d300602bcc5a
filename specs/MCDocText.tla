------------------------------ MODULE MCDocText ------------------------------
EXTENDS DocText
Docs == {" ", "\n", "a", "\t", "<a0>"}
Wide == {" ", "\n", "a", "<3000>", "<e9>"}
==============================================================================
