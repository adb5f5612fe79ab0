---- MODULE MC_idle ----
(* simulated, not enumerated: connections that are left alone for long between anything they do *)
EXTENDS Broker, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>, << <<"b">>, <<"+">> >>}
cTS == {<<"a">>, <<"b">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
Likely(e) == LET p == s.ph[e.c] IN
    /\ p = "off" => e.op = "open"
    /\ p = "fresh" => e.op \in {"connect", "wait"}
    /\ p = "up" => e.op # "connect" /\ (e.op \in {"fin", "half", "disc"} => e.c = 1)
    /\ p = "dead" => e.op = "fin" 
NextL == \E e \in Events : Likely(e) /\ Step(e)
SpecL == Init /\ [][NextL]_vars
====
