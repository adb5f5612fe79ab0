---- MODULE MC_trace ----
EXTENDS BrokerTrace
Fs == {<<"a">>, <<"b">>, <<"a","b">>, <<"a","+">>, <<"+","b">>, <<"+">>, <<"#">>, <<"b","#">>, <<"zz">>}
Ts == {<<"a">>, <<"a","b">>, <<"b","a">>, <<"b","b">>, <<"c">>}
Tab == [f \in Fs |-> [t \in Ts |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
