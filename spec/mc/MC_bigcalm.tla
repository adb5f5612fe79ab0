---- MODULE MC_bigcalm ----
(* simulated, not enumerated: six connections that mostly subscribe, unsubscribe and publish *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>, << <<"b">>, <<"a">> >>, << <<"a","b">> >>, << <<"a","+">> >>, << <<"+","b">>, <<"+","+">> >>,
         << <<"+">> >>, << <<"#">> >>, << <<"b","b","#">> >>, << <<"","a">>, <<"a","">> >>, << <<"+","+","+">>, <<"a","+","b">> >>,
         << <<"$s">> >>, << <<"$s","a">>, <<"$s","+">> >>, << <<"a">>, <<"a","#","b">>, <<"a+">> >>}
cTS == {<<"a">>, <<"b">>, <<"a","b">>, <<"b","a">>, <<"","a">>, <<"a","">>, <<"a","b","b">>, <<"b","b","b","a">>, 
         <<"$s">>, <<"$s","a">>, <<"c">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
Likely(e) == LET p == s.ph[e.c] IN
    /\ p = "fresh" => e.op = "connect"
    /\ p = "up" => e.op # "connect"
    /\ p = "dead" => e.op = "fin" 
NextL == \E e \in Events : Likely(e) /\ Step(e)
SpecL == Init /\ [][NextL]_vars
====
