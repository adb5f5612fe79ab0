----------------------------- MODULE BrokerCore -----------------------------
(***************************************************************************)
(* The sequential meaning of the broker, as pure operators, so that the    *)
(* model checked by TLC (Broker), the concurrent model (BrokerSys), the    *)
(* wire-level model (Wire) and the trace specification (BrokerTrace) all   *)
(* use one definition.                                                     *)
(*                                                                         *)
(* A broker state is a record s of functions over connections              *)
(*   s.ph   "off"    no TCP connection                                     *)
(*          "fresh"  TCP connection, no CONNECT processed yet              *)
(*          "up"     CONNECT accepted, the connection owns a session       *)
(*          "dead"   the broker has closed it, the client still has a socket*)
(*   s.id   client identifier of an "up" connection, else NoId             *)
(*   s.subs set of topic filters held by an "up" connection                *)
(* A session exists exactly as long as its connection is "up".             *)
(*                                                                         *)
(* Apply(s, e) is the effect of one event e of the environment: the record *)
(* [s |-> next state, out |-> sequence of <<connection, output>>].         *)
(* The order of the outputs matters only per connection.                   *)
(***************************************************************************)
EXTENDS Topics, FiniteSets

CONSTANTS NoId,
          Admits(_),    \* which credentials are accepted
          Match(_, _)   \* the matching relation, Matches in every configuration
                        \* (a parameter so that it can be tabulated)

Start(Conns) == [ph   |-> [c \in Conns |-> "off"],
                 id   |-> [c \in Conns |-> NoId],
                 subs |-> [c \in Conns |-> {}]]

ConnsOf(s) == DOMAIN s.ph

Range(q)   == {q[i] : i \in DOMAIN q}

RECURSIVE SeqOf(_)
SeqOf(S)   == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* ---- outputs
ConnAck(code) == [t |-> "connack", code |-> code]
SubAck(n)     == [t |-> "suback", n |-> n]
UnsubAck      == [t |-> "unsuback"]
PingResp      == [t |-> "pingresp"]
Msg(topic)    == [t |-> "msg", topic |-> topic]
Eof           == [t |-> "eof"]

To(c, o)      == << <<c, o>> >>
Result(s, o)  == [s |-> s, out |-> o]

\* ---- sessions
Owners(s, id) == {c \in ConnsOf(s) : s.ph[c] = "up" /\ s.id[c] = id}

EndSession(s, c, ph) == [s EXCEPT !.ph[c] = ph, !.id[c] = NoId, !.subs[c] = {}]

\* the broker closes c: no session, EOF at the client
CloseIt(s, c) == Result(EndSession(s, c, "dead"), To(c, Eof))

\* ---- identity: Admits(cred) decides; see Auth for the meaning of a password file
Anonymous(cred) == cred \in {"anon", "good"}     \* for the configurations not about credentials

\* "" asks the broker for a unique identifier
EffectiveId(c, id) == IF id = "" THEN <<"generated", c>> ELSE <<"given", id>>

Accept(s, c, id) ==
    LET old  == Owners(s, id)                       \* at most one, see UniqueOwner
        s1   == [ph   |-> [d \in ConnsOf(s) |-> IF d \in old THEN "dead" ELSE s.ph[d]],
                 id   |-> [d \in ConnsOf(s) |-> IF d \in old THEN NoId ELSE s.id[d]],
                 subs |-> [d \in ConnsOf(s) |-> IF d \in old THEN {} ELSE s.subs[d]]]
        eofs == LET q == SeqOf(old) IN [i \in 1..Len(q) |-> <<q[i], Eof>>]
    IN Result([s1 EXCEPT !.ph[c] = "up", !.id[c] = id, !.subs[c] = {}],
              eofs \o To(c, ConnAck(0)))

\* ---- deliveries: one copy per matching filter
Copies(s, c, t) == Cardinality({f \in s.subs[c] : Match(f, t)})

RECURSIVE Deliver(_, _, _)
Deliver(s, cs, t) ==
    IF cs = {} THEN <<>>
    ELSE LET c == CHOOSE c \in cs : TRUE
             n == Copies(s, c, t)
         IN [i \in 1..n |-> <<c, Msg(t)>>] \o Deliver(s, cs \ {c}, t)

\* ---- events of a connection that owns a session
ApplyUp(s, e) ==
    CASE e.op = "connect" -> CloseIt(s, e.c)                        \* second CONNECT
      [] e.op = "sub"     -> Result([s EXCEPT !.subs[e.c] = @ \cup Range(e.fs)],
                                    To(e.c, SubAck(Len(e.fs))))
      [] e.op = "unsub"   -> Result([s EXCEPT !.subs[e.c] = @ \ Range(e.fs)],
                                    To(e.c, UnsubAck))
      [] e.op = "pub"     -> IF ValidName(e.topic)
                             THEN Result(s, Deliver(s, {c \in ConnsOf(s) : s.subs[c] # {}}, e.topic))
                             ELSE CloseIt(s, e.c)
      [] e.op = "ping"    -> Result(s, To(e.c, PingResp))
      [] e.op = "ack"     -> Result(s, <<>>)      \* PUBACK, PUBREC, PUBREL, PUBCOMP: only QoS 0 is supported
      [] e.op = "disc"    -> CloseIt(s, e.c)
      [] e.op = "bad"     -> CloseIt(s, e.c)

\* ---- first packet of a connection
ApplyFresh(s, e) ==
    IF e.op = "connect"
    THEN IF Admits(e.cred)
         THEN Accept(s, e.c, EffectiveId(e.c, e.id))
         ELSE Result(EndSession(s, e.c, "dead"), To(e.c, ConnAck(5)) \o To(e.c, Eof))
    ELSE CloseIt(s, e.c)

\* ---- what the client does with its TCP connection
IsTcp(op) == op \in {"open", "fin", "rst", "half"}

ApplyTcp(s, e) ==
    CASE e.op = "open" -> Result([s EXCEPT !.ph[e.c] = "fresh"], <<>>)
      [] e.op = "half" -> Result(EndSession(s, e.c, "off"),          \* shutdown, then close after EOF
                                 IF s.ph[e.c] = "dead" THEN <<>> ELSE To(e.c, Eof))
      [] OTHER         -> Result(EndSession(s, e.c, "off"), <<>>)

Apply(s, e) ==
    IF IsTcp(e.op) THEN ApplyTcp(s, e)
    ELSE IF e.op = "wait" THEN Result(s, <<>>)      \* time passes, for as long as it likes
    ELSE CASE s.ph[e.c] = "up"    -> ApplyUp(s, e)
           [] s.ph[e.c] = "fresh" -> ApplyFresh(s, e)
           [] s.ph[e.c] = "dead"  -> Result(s, <<>>)

CanHappen(s, e) == IF e.op = "open" THEN s.ph[e.c] = "off" ELSE s.ph[e.c] # "off"

\* ---- outputs for one connection
OutFor(out, c) == SelectSeq(out, LAMBDA p : p[1] = c)
=============================================================================
