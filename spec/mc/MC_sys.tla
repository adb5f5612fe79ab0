---- MODULE MC_sys ----
(* C12, C19, C20: the broker as built.  Clients that share an identifier or not, and one that may stop reading *)
EXTENDS BrokerSys
CONSTANTS Shared
cIdOf == IF Shared THEN [c \in Conns |-> "x"] ELSE [c \in Conns |-> ToString(c)]
E(c, op) == [op |-> op, c |-> c]
Con(c, k) == [op |-> "connect", c |-> c, id |-> cIdOf[c], cred |-> k]
Sub(c) == [op |-> "sub", c |-> c, fs |-> <<<<"a">>>>]
Pub(c) == [op |-> "pub", c |-> c, topic |-> <<"a">>]
\* everything
cProgram(c, n) ==
    IF n = 1 THEN {Con(c, "anon"), Con(c, "wrong"), E(c, "ping")}
    ELSE {Sub(c), Pub(c), E(c, "disc"), E(c, "bad"), E(c, "half")}
\* client 1 subscribes and ends in some way, the others publish
cSmall(c, n) ==
    CASE n = 1 /\ c = 1 -> {Con(c, "anon")}
      [] n = 1 /\ c # 1 -> {Con(c, "anon"), Con(c, "wrong")}
      [] n = 2 -> IF c = 1 THEN {Sub(c)} ELSE {Pub(c)}
      [] n = 3 -> IF c = 1 THEN {E(c, "disc"), E(c, "bad"), E(c, "half")} ELSE {Pub(c), E(c, "ping")}
\* the shape of the known finding: client 1 subscribes and stops reading, client 2 publishes
cStall(c, n) ==
    IF n = 1 THEN {Con(c, "anon")}
    ELSE IF c = 1 THEN IF n = 2 THEN {Sub(c)} ELSE {} ELSE {Pub(c)}
====
