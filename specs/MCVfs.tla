------------------------------ MODULE MCVfs ------------------------------
(* Universes for Vfs: each instance picks one set of definitions.          *)
EXTENDS Vfs
\* two files next to each other
F_flat == {"a.py", "b.py"}
I_flat == {<<>>, <<"a.py">>, <<"b.py">>, <<"b.py", "a.py">>}
\* three files: chains and cycles
F_three == {"a.py", "b.py", "e.py"}
I_three == {<<>>, <<"a.py">>, <<"b.py">>, <<"e.py">>, <<"b.py", "e.py">>}
\* one directory
F_dir == {"a.py", "d/c.py"}
I_tiny == {<<>>, <<"d/c.py">>}
I_dir == {<<>>, <<"d/c.py">>, <<"a.py">>}
D_dir == {"d"}
\* two levels
F_deep == {"a.py", "d/c.py", "d/n/k.py"}
I_deep == {<<>>, <<"d/c.py">>, <<"d/n/k.py">>, <<"a.py">>}
D_deep == {"d", "d/n"}
\* with the file that affects everything
I_db == {<<>>, <<"b.py">>, <<"s.pyi">>, <<"b.py", "s.pyi">>}
\* everything
F_all == {"a.py", "b.py", "d/c.py", "d/n/k.py"}
I_all == {<<>>, <<"a.py">>, <<"b.py">>, <<"d/c.py">>, <<"d/n/k.py">>, <<"b.py", "d/c.py">>, <<"s.pyi">>}
O_all == {"o.py"}
==========================================================================
