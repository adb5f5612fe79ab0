------------------------------- MODULE Broker -------------------------------
(***************************************************************************)
(* State machine over BrokerCore.  `s` is the broker state; `last` is the  *)
(* event of the last step with the outputs it produced (an observation     *)
(* variable, hidden by the VIEW in exhaustive runs).                       *)
(***************************************************************************)
EXTENDS BrokerCore, TLC, Json, CSV

CONSTANTS Conns,      \* connections
          Ids,        \* client identifiers ("" = let the broker choose)
          Creds,      \* kinds of credentials
          FilterSeqs, \* filter lists used in SUBSCRIBE and UNSUBSCRIBE
          TopicSet,   \* topic names published on
          Ops,        \* operations enabled in this configuration
          OwnId,      \* TRUE: connection c uses only the c-th id (no sharing)
          Out         \* file for the transitions, "" for none

\* the known deviation of C01 is kept out of every other property
ASSUME \A q \in FilterSeqs, t \in TopicSet : \A i \in DOMAIN q : ~ParentOnly(q[i], t)

VARIABLES s, last
vars == <<s, last>>

IdsOf(c) == IF OwnId THEN {ToString(c)} ELSE Ids

Events ==
    UNION { IF "open"    \in Ops THEN {[op |-> "open", c |-> c] : c \in Conns} ELSE {},
            IF "fin"     \in Ops THEN {[op |-> "fin",  c |-> c] : c \in Conns} ELSE {},
            IF "rst"     \in Ops THEN {[op |-> "rst",  c |-> c] : c \in Conns} ELSE {},
            IF "half"    \in Ops THEN {[op |-> "half", c |-> c] : c \in Conns} ELSE {},
            IF "ping"    \in Ops THEN {[op |-> "ping", c |-> c] : c \in Conns} ELSE {},
            IF "ack"     \in Ops THEN {[op |-> "ack",  c |-> c] : c \in Conns} ELSE {},
            IF "disc"    \in Ops THEN {[op |-> "disc", c |-> c] : c \in Conns} ELSE {},
            IF "bad"     \in Ops THEN {[op |-> "bad",  c |-> c] : c \in Conns} ELSE {},
            IF "wait"    \in Ops THEN {[op |-> "wait", c |-> c] : c \in Conns} ELSE {},
            IF "connect" \in Ops
              THEN UNION {{[op |-> "connect", c |-> c, id |-> i, cred |-> k] : i \in IdsOf(c), k \in Creds} : c \in Conns}
              ELSE {},
            IF "sub"   \in Ops THEN {[op |-> "sub",   c |-> c, fs |-> f] : c \in Conns, f \in FilterSeqs} ELSE {},
            IF "unsub" \in Ops THEN {[op |-> "unsub", c |-> c, fs |-> f] : c \in Conns, f \in FilterSeqs} ELSE {},
            IF "pub"   \in Ops THEN {[op |-> "pub",   c |-> c, topic |-> t] : c \in Conns, t \in TopicSet} ELSE {} }

Init == /\ s = Start(Conns)
        /\ last = [e |-> [op |-> "init"], out |-> <<>>]

Step(e) == /\ CanHappen(s, e)
           /\ LET r == Apply(s, e) IN s' = r.s /\ last' = [e |-> e, out |-> r.out]

Next == \E e \in Events : Step(e)

Spec == Init /\ [][Next]_vars

View == s

\* every transition is written out once (an action constraint that is always true)
Emit == IF Out = "" THEN TRUE
        ELSE CSVWrite("%1$s", <<ToJson([f |-> s, t |-> s', e |-> last'.e, o |-> last'.out])>>, Out)

\* the same for simulation: an invariant, evaluated along each behaviour TLC chooses
EmitState == IF Out = "" THEN TRUE
             ELSE CSVWrite("%1$s", <<ToJson([n |-> TLCGet("level"), s |-> s, e |-> last.e, o |-> last.out])>>, Out)

-----------------------------------------------------------------------------
\* Properties of the design

TypeOK == /\ s.ph \in [Conns -> {"off", "fresh", "up", "dead"}]
          /\ \A c \in Conns : (s.ph[c] = "up") <=> (s.id[c] # NoId)

\* C10: at most one connection per client identifier
UniqueOwner == \A c, d \in Conns : s.ph[c] = "up" /\ s.ph[d] = "up" /\ s.id[c] = s.id[d] => c = d

\* C09, C20: nothing is stored for a connection that is not up
NothingLeft == \A c \in Conns : s.ph[c] # "up" => s.subs[c] = {}

\* C09: a session starts without subscriptions
StartsEmpty == [][\A c \in Conns : s.ph[c] # "up" /\ s'.ph[c] = "up" => s'.subs[c] = {}]_vars

\* C07: only a CONNECT with admitted credentials makes a connection act
OnlyAdmitted == [][\A c \in Conns : s.ph[c] # "up" /\ s'.ph[c] = "up" =>
                     /\ s.ph[c] = "fresh"
                     /\ last'.e.op = "connect" /\ last'.e.c = c /\ Admits(last'.e.cred)]_vars

\* C07: an event of a connection without session has no effect on others and on subscriptions
NoEffectWithoutSession ==
    [][ last'.e.op # "init" /\ s.ph[last'.e.c] # "up" /\ last'.e.op # "connect" =>
          /\ s'.subs = s.subs /\ s'.id = s.id
          /\ \A i \in DOMAIN last'.out : last'.out[i][1] = last'.e.c /\ last'.out[i][2] = Eof ]_vars

\* C02: a client's own operations change no other connection, except a takeover by CONNECT
OthersUntouched ==
    [][ \A c \in Conns : c # last'.e.c /\ s'.subs[c] # s.subs[c] =>
          /\ last'.e.op = "connect"
          /\ s.id[c] = EffectiveId(last'.e.c, last'.e.id) ]_vars

\* C02: only messages go to others, and exactly to holders of a matching filter
DeliveredExactly ==
    [][ LET e == last'.e IN
        e.op = "pub" /\ s.ph[e.c] = "up" /\ ValidName(e.topic) =>
          \A c \in Conns :
             Len(OutFor(last'.out, c)) = Cardinality({f \in s.subs[c] : Match(f, e.topic)}) ]_vars

\* C06: one reply per request, only to the requester
RepliesToRequester ==
    [][ LET e == last'.e IN
        /\ e.op \in {"sub", "unsub", "ping"} /\ s.ph[e.c] = "up" =>
             Len(last'.out) = 1 /\ last'.out[1][1] = e.c
        /\ \A i \in DOMAIN last'.out :
             last'.out[i][1] # e.c => last'.out[i][2].t \in {"msg", "eof"} ]_vars

\* C06: subscribing twice is the same as subscribing once
Idempotent ==
    [][ LET e == last'.e IN
        e.op = "sub" /\ s.ph[e.c] = "up" /\ Range(e.fs) \subseteq s.subs[e.c] => s' = s ]_vars

\* C07, C09: DISCONNECT, a second CONNECT, a malformed packet and every kind of close end the session
EndsCompletely ==
    [][ LET e == last'.e IN
        e.op \in {"disc", "bad", "fin", "rst", "half"} => s'.ph[e.c] \in {"dead", "off"} /\ s'.subs[e.c] = {} ]_vars

\* C02, C06, C13: nothing happens because time passes
TimeChangesNothing == [][ last'.e.op = "wait" => s' = s /\ last'.out = <<>> ]_vars

\* C10: a CONNECT closes exactly the connection that holds the identifier
TakeoverExact ==
    [][ LET e == last'.e IN
        e.op = "connect" /\ s.ph[e.c] = "fresh" /\ Admits(e.cred) =>
          \A d \in Conns \ {e.c} :
             /\ (s.ph[d] = "up" /\ s.id[d] = EffectiveId(e.c, e.id)) <=> (s.ph[d] = "up" /\ s'.ph[d] = "dead")
             /\ (s.ph[d] # "up" => s'.ph[d] = s.ph[d]) ]_vars
=============================================================================
