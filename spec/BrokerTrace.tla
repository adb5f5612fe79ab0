---------------------------- MODULE BrokerTrace -----------------------------
(***************************************************************************)
(* Is a recorded concurrent execution of the real broker a behaviour of    *)
(* the specification?                                                      *)
(*                                                                         *)
(* A recording holds, per connection, what the client sent and everything  *)
(* it received.  It is explained if there is one order in which the broker *)
(* can have processed all packets - each connection's in the order sent -  *)
(* such that BrokerCore!Apply produces exactly what every connection       *)
(* received, and that respects real time: a packet is processed only after *)
(* the packets that caused anything any client had received before that    *)
(* packet was sent (need[d] counts those items for connection d).          *)
(*                                                                         *)
(* A client that has closed its socket (gone[d]) has not read all it was owed: what it has read is the beginning *)
(* of it.                                                                  *)
(*                                                                         *)
(* copies[d] of a PUBLISH is the number of times connection d received that *)
(* message (payloads are unique) anywhere in the recording: it is processed *)
(* when exactly these copies are due.                                       *)
(*                                                                         *)
(* The search commits to a packet that does not change the broker's state  *)
(* (PINGREQ, PUBLISH, an acknowledgement, anything of a connection without *)
(* session) as soon as it fits: all that it outputs is then at the head of *)
(* what the receivers have received, so in any explanation everything      *)
(* processed before it outputs to others only and does not change with it; *)
(* moving it to the front keeps the explanation valid.  Only packets that  *)
(* change the state are branched on.                                       *)
(***************************************************************************)
EXTENDS BrokerCore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.MC_TRACES)

VARIABLES tr,    \* the recording being explained
          s,     \* the broker
          sp,    \* per connection: packets processed
          rp     \* per connection: received items explained
vars == <<tr, s, sp, rp>>

Cs(k) == 1..Len(Traces[k].send)

Begin(k) == [ph   |-> [c \in Cs(k) |-> "fresh"],
             id   |-> [c \in Cs(k) |-> NoId],
             subs |-> [c \in Cs(k) |-> {}]]

Init == /\ tr = 1
        /\ s = Begin(1)
        /\ sp = [c \in Cs(1) |-> 0]
        /\ rp = [c \in Cs(1) |-> 0]

Ev(c)    == Traces[tr].send[c][sp[c] + 1]
Ready(c) == /\ sp[c] < Len(Traces[tr].send[c])
            /\ \A d \in Cs(tr) : rp[d] >= Ev(c).need[d]

Same(r, o, e) ==
    /\ r.t = o.t
    /\ CASE o.t = "msg"      -> r.topic = o.topic /\ r.tag = e.tag
         [] o.t = "connack"  -> r.code = o.code
         [] o.t = "suback"   -> r.pid = e.pid /\ r.n = o.n
         [] o.t = "unsuback" -> r.pid = e.pid
         [] OTHER            -> TRUE

\* how much of what is owed now has been received
Least(a, b) == IF a < b THEN a ELSE b
Here(q, d) == IF Traces[tr].gone[d] THEN Least(Len(q), Len(Traces[tr].recv[d]) - rp[d]) ELSE Len(q)

Explains(c, out) ==
    \A d \in Cs(tr) :
        LET q == OutFor(out, d)
            n == Here(q, d) IN
        /\ rp[d] + n <= Len(Traces[tr].recv[d])
        /\ (Ev(c).op = "pub" => Cardinality({i \in 1..n : q[i][2].t = "msg"}) = Ev(c).copies[d])
        /\ \A i \in 1..n : Same(Traces[tr].recv[d][rp[d] + i], q[i][2], Ev(c))

NoChange(c) == s.ph[c] = "dead" \/ (s.ph[c] = "up" /\ Ev(c).op \in {"pub", "ping", "ack"})

Possible(c) == Ready(c) /\ Explains(c, Apply(s, Ev(c)).out)

Process(c) == LET r == Apply(s, Ev(c)) IN
              /\ s' = r.s
              /\ sp' = [sp EXCEPT ![c] = @ + 1]
              /\ rp' = [d \in Cs(tr) |-> rp[d] + Here(OutFor(r.out, d), d)]
              /\ tr' = tr

Explained == \A c \in Cs(tr) : sp[c] = Len(Traces[tr].send[c]) /\ rp[c] = Len(Traces[tr].recv[c])

\* (an explained recording is done with: no other explanation of it is looked for; and a search that takes very
\* long is given up, this recording says nothing then)
Current   == TLCGet(9)
Searched  == TLCGet(10)
Patience  == 60000
NextTrace == /\ PrintT(<<IF Explained THEN "explained" ELSE "undecided", tr>>)
             /\ TLCSet(9, tr + 1)
             /\ TLCSet(10, 0)
             /\ IF tr < Len(Traces)
                THEN /\ tr' = tr + 1
                     /\ s' = Begin(tr + 1)
                     /\ sp' = [c \in Cs(tr + 1) |-> 0]
                     /\ rp' = [c \in Cs(tr + 1) |-> 0]
                ELSE /\ PrintT(<<"all explained", Len(Traces)>>)
                     /\ UNCHANGED vars

Step == LET safe == {c \in Cs(tr) : Ready(c) /\ NoChange(c) /\ Explains(c, Apply(s, Ev(c)).out)} IN
        IF safe # {} THEN Process(CHOOSE c \in safe : TRUE)
        ELSE \E c \in Cs(tr) : Possible(c) /\ ~NoChange(c) /\ Process(c)

Next == /\ tr = Current
        /\ IF Explained \/ Searched > Patience THEN NextTrace ELSE Step

Spec == Init /\ [][Next]_vars

\* the properties of the design, evaluated along real executions
UniqueOwner == \A c, d \in Cs(tr) : s.ph[c] = "up" /\ s.ph[d] = "up" /\ s.id[c] = s.id[d] => c = d
NothingLeft == \A c \in Cs(tr) : s.ph[c] # "up" => s.subs[c] = {}

\* how far the search got, for the report of a rejected recording
Progress == LET n == 1000000 * tr + LET RECURSIVE Sum(_) Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN sp[c] + Sum(S \ {c})
                                    IN Sum(Cs(tr))
            IN /\ TLCSet(10, TLCGet(10) + 1)
               /\ IF n > TLCGet(7) THEN TLCSet(7, n) /\ TLCSet(8, [tr |-> tr, processed |-> sp, explained |-> rp]) ELSE TRUE
ASSUME TLCSet(7, 0) /\ TLCSet(8, <<>>) /\ TLCSet(9, 1) /\ TLCSet(10, 0)
Report == PrintT(<<"furthest", ToJson(TLCGet(8))>>)
=============================================================================
