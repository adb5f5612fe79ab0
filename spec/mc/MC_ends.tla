---- MODULE MC_ends ----
(* C09: sessions with nested filters, unsubscribed one by one, that end and come back under the same identifier *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>, << <<"a","b">> >>, << <<"a","+">> >>}
cTS == {<<"a">>, <<"a","b">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
