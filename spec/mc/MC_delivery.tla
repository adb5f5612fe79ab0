---- MODULE MC_delivery ----
(* C02: who receives what, over all histories of subscribe, unsubscribe, disconnect, reconnect *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>, << <<"+">> >>, << <<"#">> , <<"a">> >>}
cTS == {<<"a">>, <<"a","b">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
