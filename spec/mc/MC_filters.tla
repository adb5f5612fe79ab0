---- MODULE MC_filters ----
(* C02: filters in one tree: nested, overlapping, with shared prefixes; two clients *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>, << <<"a","b">> >>, << <<"a","+">> >>, << <<"+","b">> >>, << <<"#">> >>}
cTS == {<<"a">>, <<"a","b">>, <<"a","b","c">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
