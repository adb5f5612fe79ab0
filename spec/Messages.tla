------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* What becomes of the attributes of a published message on its way to a   *)
(* subscriber: fixed header, remaining length, topic, payload.             *)
(* Payload and topic are described by length (and the topic by the kind of *)
(* characters it is made of); their bytes are uninterpreted and must come  *)
(* out as they went in.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

MaxLen == 268435455

\* MQTT's variable length encoding
RECURSIVE EncLen(_)
EncLen(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o EncLen(n \div 128)
RECURSIVE DecLen(_)
DecLen(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] - 128 + 128 * DecLen(Tail(q))

\* m: [qos, dup, retain, tlen, tcls, size]
InBody(m)  == 2 + m.tlen + (IF m.qos > 0 THEN 2 ELSE 0) + m.size
OutBody(m) == 2 + m.tlen + m.size
Possible(m) == InBody(m) <= MaxLen /\ (m.qos = 0 => m.dup = 0)

\* the bytes in front of the topic, as sent by the publisher
InHead(m)  == <<48 + 8 * m.dup + 2 * m.qos + m.retain>> \o EncLen(InBody(m))
\* and as received by a subscriber: QoS 0, not a duplicate, not retained
OutHead(m) == <<48>> \o EncLen(OutBody(m))

HasPid(h)  == (h[1] \div 2) % 4 # 0
Delivered(m) == [head |-> OutHead(m), pid |-> FALSE, tlen |-> m.tlen, tcls |-> m.tcls, size |-> m.size]
=============================================================================
