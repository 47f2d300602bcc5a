------------------------------ MODULE MCLicense ------------------------------
EXTENDS License
NoText == {<<>>}
Names == {<<>>, <<"a">>, <<"1">>, <<"a", "b">>}
Two == {<<>>, <<"a">>}
Years == {<<"5">>, <<"1", "2">>, <<"2", "0">>}
Ends == {<<"2">>, <<"3">>, <<"5">>}
Times == 0..21
Late == 1..6
Some == {0, 5, 12, 20}
OneTime == {12}
One == {<<"2">>, <<"1", "3">>}
Many == {<<"0">>, <<"1">>, <<"2">>, <<"9">>, <<"1", "0">>, <<"1", "9">>, <<"2", "0">>, <<"2", "1">>}
==============================================================================
