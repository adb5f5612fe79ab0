-------------------------------- MODULE Crowd --------------------------------
(***************************************************************************)
(* C12, C19, C20: what a crowd of clients in every situation may change    *)
(* for others: nothing.  Two good clients exchange messages; visitors come *)
(* (with identifiers and topics of their own), get themselves into some    *)
(* situation, stay, and leave in some way.  Every event of a visitor is a  *)
(* sequence of BrokerCore events of connections whose identifiers no good  *)
(* client uses, so by OthersUntouched, NoEffectWithoutSession and          *)
(* RepliesToRequester (module Broker) the good clients see exactly what    *)
(* they would see alone; this module says what remains of the visitors and *)
(* what the process does.                                                  *)
(*                                                                         *)
(* A situation is a phase of the connection and an activity in it.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Phases, Activities, Ways, MaxLive,
          MayStop,        \* the process may be interrupted
          StopAt,         \* ... as soon as there are so many visitors
          Out

VARIABLES s, last
vars == <<s, last>>

Situations == {[p |-> p, a |-> a] : p \in Phases, a \in Activities}
\* connections of a visitor: a takeover needs two
Size(x)  == IF x.p = "taken" THEN 2 ELSE 1
Sockets(st) == LET RECURSIVE Sum(_)
                   Sum(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Sum(Tail(q))
               IN Sum(st.live)

Init == /\ s = [live |-> <<>>, run |-> "yes"]
        /\ last = [e |-> [op |-> "init"], o |-> <<>>]

\* outputs: what a step lets the good clients see (nothing), how many sockets of visitors there may
\* be afterwards, and whether the process runs
Step(e, st) == s' = st /\ last' = [e |-> e, o |-> [good |-> <<>>, sockets |-> Sockets(st), run |-> st.run]]

Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* positions of visitors do not matter: the sequence is kept as a function of arrival
Come(x)     == /\ s.run = "yes" /\ Len(s.live) < MaxLive
               /\ Step([op |-> "come", x |-> x], [s EXCEPT !.live = Append(@, x)])
Leave(i, w) == /\ s.run = "yes" /\ i \in DOMAIN s.live
               /\ Step([op |-> "leave", i |-> i, way |-> w], [s EXCEPT !.live = Without(@, i)])
Stop        == /\ MayStop /\ s.run = "yes" /\ Len(s.live) >= StopAt
               /\ Step([op |-> "interrupt"], [s EXCEPT !.run = "exit 0", !.live = <<>>])
Next == \/ \E x \in Situations : Come(x)
        \/ \E i \in 1..MaxLive, w \in Ways : Leave(i, w)
        \/ \E n \in 1..20 : Stop        \* (as often as that in simulations)
Spec == Init /\ [][Next]_vars
View == s

Emit == IF Out = "" THEN TRUE
        ELSE CSVWrite("%1$s", <<ToJson([f |-> s, t |-> s', e |-> last'.e, o |-> last'.o])>>, Out)
EmitState == IF Out = "" THEN TRUE
             ELSE CSVWrite("%1$s", <<ToJson([n |-> TLCGet("level"), s |-> s, e |-> last.e, o |-> last.o])>>, Out)

TypeOK == s.run \in {"yes", "exit 0"} /\ Len(s.live) <= MaxLive
\* C20: nothing remains of visitors that are gone
Gone == s.live = <<>> => Sockets(s) = 0
\* C19: only an interrupt ends the process
OnlyInterrupt == [][s'.run # s.run => last'.e.op = "interrupt"]_vars
=============================================================================
