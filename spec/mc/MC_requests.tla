---- MODULE MC_requests ----
(* C06: every request gets its reply; lists of filters, also with repetitions *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>, << <<"a">>, <<"b">> >>, << <<"b">>, <<"b">>, <<"a">> >>}
cTS == {<<"a">>, <<"b">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
