---- MODULE MC_admission ----
(* C07: packets before, without, and after an accepted CONNECT, also under a shared identifier *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>}
cTS == {<<"a">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
