---- MODULE MC_listslong ----
(* C06: lists longer than a 16-bit counter counts, of filters that repeat *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
Many(n) == [i \in 1..n |-> <<"m", ToString(i)>>]
Cyc(n) == [i \in 1..n |-> <<"m", ToString(i % 40)>>]
cFS == {Many(1), Cyc(16381), Cyc(16382), Cyc(66000)}
cTS == {<<"m", "7">>, <<"m", "33">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
