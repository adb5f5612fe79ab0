---- MODULE MC_invalid ----
(* C11: invalid topic names and malformed packets between valid ones *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">>, <<"#">> >>, << <<"+">> >>}
cTS == {<<"a">>, <<"">>, <<"+">>, <<"#">>, <<"a","+">>, <<"a","#">>, <<"a+">>, <<"a","#b">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
====
