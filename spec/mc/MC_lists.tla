---- MODULE MC_lists ----
(* C06: long lists of filters (SUBACK with remaining lengths of one and two bytes) *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
Many(n) == [i \in 1..n |-> <<"m", ToString(i)>>]
cFS == {Many(1), Many(60), Many(125), Many(126), Many(200), Many(1000)}
cTS == {<<"m", "7">>, <<"m", "150">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
