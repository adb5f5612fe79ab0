-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* C22: packets and their bytes.  Render(p) is the byte string of packet   *)
(* p, Parse(bs) the first packet of a byte string, for all fourteen packet *)
(* types of MQTT 3.1.1, with every field - also those the broker does not  *)
(* act on.  Strings are sequences of bytes.                                *)
(*                                                                         *)
(*  connect      id, keep, clean, will, user, pw (optional: <<>> or <<x>>)  *)
(*  connack      sp, code                                                   *)
(*  publish      topic, payload, qos, dup, retain, pid (0 if qos = 0)       *)
(*  puback, pubrec, pubrel, pubcomp, unsuback      pid                      *)
(*  subscribe    pid, fs (<<filter, qos>>, ...)                             *)
(*  suback       pid, codes                                                 *)
(*  unsubscribe  pid, fs (filter, ...)                                      *)
(*  pingreq, pingresp, disconnect                                           *)
(***************************************************************************)
EXTENDS Wire

Number == [connect |-> 1, connack |-> 2, publish |-> 3, puback |-> 4, pubrec |-> 5, pubrel |-> 6, pubcomp |-> 7,
           subscribe |-> 8, suback |-> 9, unsubscribe |-> 10, unsuback |-> 11, pingreq |-> 12, pingresp |-> 13,
           disconnect |-> 14]
Types == DOMAIN Number
FromClient == {"connect", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "unsubscribe", "pingreq", "disconnect"}
FromServer == {"connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "suback", "unsuback", "pingresp"}
OnlyPid == {"puback", "pubrec", "pubrel", "pubcomp", "unsuback"}

\* ---- rendering
B(x) == IF x THEN 1 ELSE 0
Field(q) == Word2(Len(q)) \o q
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))
HeadFlags(p) == CASE p.t = "publish" -> 8 * B(p.dup) + 2 * p.qos + B(p.retain)
                  [] p.t \in {"subscribe", "unsubscribe", "pubrel"} -> 2
                  [] OTHER -> 0
ConnectFlags(p) == 128 * Len(p.user) + 64 * Len(p.pw) + 4 * Len(p.will) + 2 * B(p.clean)
                   + (IF p.will = <<>> THEN 0 ELSE 32 * B(p.will[1].retain) + 8 * p.will[1].qos)
Body(p) ==
    CASE p.t = "connect"  -> Field(<<77, 81, 84, 84>>) \o <<4, ConnectFlags(p)>> \o Word2(p.keep) \o Field(p.id)
                             \o Concat([i \in DOMAIN p.will |-> Field(p.will[i].topic) \o Field(p.will[i].payload)])
                             \o Concat([i \in DOMAIN p.user |-> Field(p.user[i])])
                             \o Concat([i \in DOMAIN p.pw |-> Field(p.pw[i])])
      [] p.t = "connack"  -> <<B(p.sp), p.code>>
      [] p.t = "publish"  -> Field(p.topic) \o (IF p.qos = 0 THEN <<>> ELSE Word2(p.pid)) \o p.payload
      [] p.t = "subscribe" -> Word2(p.pid) \o Concat([i \in DOMAIN p.fs |-> Field(p.fs[i][1]) \o <<p.fs[i][2]>>])
      [] p.t = "unsubscribe" -> Word2(p.pid) \o Concat([i \in DOMAIN p.fs |-> Field(p.fs[i])])
      [] p.t = "suback"   -> Word2(p.pid) \o p.codes
      [] p.t \in OnlyPid  -> Word2(p.pid)
      [] OTHER            -> <<>>
Render(p) == Packet(16 * Number[p.t] + HeadFlags(p), Body(p))

\* ---- parsing; what is left out of bs is looked at nowhere
RECURSIVE Subs(_, _, _)
Subs(b, i, opt) == IF i > Len(b) THEN <<>>
                   ELSE LET f == Bin(b, i) IN
                        <<IF opt THEN <<f.v, b[f.next]>> ELSE f.v>> \o Subs(b, f.next + B(opt), opt)
Parse(bs) ==
    LET l == RemLen(bs, 2, 1, 0)
        n == l.next - 1 + l.v
        b == SubSeq(bs, l.next, n)
        h == bs[1]
        t == CHOOSE x \in Types : Number[x] = h \div 16
        p == CASE t = "connect" ->
                  LET fl == b[8]
                      id == Bin(b, 11)
                      wt == Bin(b, id.next)
                      wp == Bin(b, wt.next)
                      at == IF Bit(fl, 2) = 1 THEN wp.next ELSE id.next
                      u  == Bin(b, at)
                      at2 == IF Bit(fl, 7) = 1 THEN u.next ELSE at
                  IN [t |-> t, id |-> id.v, keep |-> Word(b, 9), clean |-> Bit(fl, 1) = 1,
                      will |-> IF Bit(fl, 2) = 0 THEN <<>>
                               ELSE <<[topic |-> wt.v, payload |-> wp.v, qos |-> Bit(fl, 4) * 2 + Bit(fl, 3), retain |-> Bit(fl, 5) = 1]>>,
                      user |-> IF Bit(fl, 7) = 0 THEN <<>> ELSE <<u.v>>,
                      pw   |-> IF Bit(fl, 6) = 0 THEN <<>> ELSE <<Bin(b, at2).v>>]
               [] t = "connack" -> [t |-> t, sp |-> b[1] = 1, code |-> b[2]]
               [] t = "publish" ->
                  LET topic == Bin(b, 1)
                      qos == (h \div 2) % 4
                  IN [t |-> t, topic |-> topic.v, qos |-> qos, dup |-> Bit(h, 3) = 1, retain |-> Bit(h, 0) = 1,
                      pid |-> IF qos = 0 THEN 0 ELSE Word(b, topic.next),
                      payload |-> SubSeq(b, topic.next + (IF qos = 0 THEN 0 ELSE 2), Len(b))]
               [] t \in OnlyPid     -> [t |-> t, pid |-> Word(b, 1)]
               [] t = "subscribe"   -> [t |-> t, pid |-> Word(b, 1), fs |-> Subs(b, 3, TRUE)]
               [] t = "unsubscribe" -> [t |-> t, pid |-> Word(b, 1), fs |-> Subs(b, 3, FALSE)]
               [] t = "suback"      -> [t |-> t, pid |-> Word(b, 1), codes |-> SubSeq(b, 3, Len(b))]
               [] OTHER             -> [t |-> t]
    IN [n |-> n, p |-> p]

\* ---- the part of a client's packet that the broker acts on: the event Wire decodes
Event(p) ==
    CASE p.t = "connect" -> [op |-> "connect", id |-> Str(p.id),
                             cred |-> [u |-> p.user # <<>>, name |-> Str(Concat(p.user)), p |-> p.pw # <<>>, pw |-> Str(Concat(p.pw))]]
      [] p.t = "publish" -> [op |-> "pub", topic |-> Topic(p.topic), name |-> p.topic, payload |-> p.payload]
      [] p.t = "subscribe" -> [op |-> "sub", fs |-> [i \in DOMAIN p.fs |-> Topic(p.fs[i][1])], pid |-> p.pid]
      [] p.t = "unsubscribe" -> [op |-> "unsub", fs |-> [i \in DOMAIN p.fs |-> Topic(p.fs[i])], pid |-> p.pid]
      [] p.t = "pingreq" -> [op |-> "ping"]
      [] p.t = "disconnect" -> [op |-> "disc"]
      [] OTHER -> [op |-> "ack"]
=============================================================================
