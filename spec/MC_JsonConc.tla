---------------------------- MODULE MC_JsonConc ----------------------------
EXTENDS JsonConc
\* the shape of the harness's types
Recursive == [A |-> <<"i", "B", "A">>, B |-> <<"s", "A", "C">>, C |-> <<"s", "C">>, i |-> <<>>, s |-> <<>>]
=============================================================================
