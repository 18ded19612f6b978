---- MODULE HighLevelMC ----
EXTENDS HighLevelClient
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
One == Upto({"b", "u", "r", "d", "p", "i"}, 2) \cup {a \o <<"X">> \o b : a \in Upto({"b", "p", "u", "i"}, 1), b \in Upto({"b", "i"}, 1)}
       \cup {<<"b", "b", "b">>, <<"r", "d", "b">>, <<"b", "p", "b">>, <<"b", "i", "b">>, <<"u", "u", "p">>, <<"r", "d", "d">>, <<"b", "b", "X">>}
Deep == Upto({"b", "u", "r", "d", "p", "i"}, 3) \cup {a \o <<"X">> \o b : a \in Upto({"b", "p", "u", "i"}, 2), b \in Upto({"b", "i", "p"}, 1)}
        \cup {<<"b", "b", "b", "b">>, <<"p", "b", "p", "b">>, <<"r", "d", "r", "d">>, <<"u", "b", "u", "b">>, <<"i", "b", "i", "b">>}
====
