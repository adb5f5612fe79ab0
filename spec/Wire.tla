-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* What a stream of bytes from a client means: a decoder for MQTT 3.1.1    *)
(* packets as a server has to read them, the effect of the packets by      *)
(* BrokerCore, and the bytes the outputs are.                              *)
(*                                                                         *)
(* Decode(bs) looks at the first packet of bs:                             *)
(*   r = "ok"      packet e (an event for BrokerCore), n bytes long        *)
(*       "bad"     all of it is there and it is malformed                  *)
(*       "more"    the packet is not complete yet                          *)
(*       "open"    this specification does not say what has to happen      *)
(*                 (see Open below)                                        *)
(*                                                                         *)
(* Open: protocol name and level, combinations of CONNECT flags that make  *)
(* no sense, flags of CONNECT, PINGREQ and DISCONNECT, packet identifier 0,*)
(* DUP with QoS 0, U+0000 in strings, empty filters, passwords that are    *)
(* not UTF-8, remaining lengths with superfluous bytes.                    *)
(***************************************************************************)
EXTENDS BrokerCore

\* ---- characters
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Digits == "0123456789"
Dig(n) == SubSeq(Digits, n + 1, n + 1)
\* one character, or for all others their number in angle brackets: injective
Chr(b) == IF b \in 32..126 /\ b # 60 THEN SubSeq(Ascii, b - 31, b - 31)
          ELSE "<" \o Dig(b \div 100) \o Dig((b \div 10) % 10) \o Dig(b % 10) \o ">"
RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE Chr(q[1]) \o Str(Tail(q))

\* the levels of a topic: split at "/" (47)
RECURSIVE Split(_, _)
Split(q, cur) == IF q = <<>> THEN <<Str(cur)>>
                 ELSE IF q[1] = 47 THEN <<Str(cur)>> \o Split(Tail(q), <<>>)
                 ELSE Split(Tail(q), Append(cur, q[1]))
Topic(q) == Split(q, <<>>)

\* well-formed UTF-8 (no surrogates, nothing over-long, at most U+10FFFF)
Cont(q, i) == i <= Len(q) /\ q[i] \in 128..191
RECURSIVE Utf8(_, _)
Utf8(q, i) ==
    IF i > Len(q) THEN TRUE
    ELSE LET b == q[i]
             second(lo, hi) == i + 1 <= Len(q) /\ q[i + 1] \in lo..hi IN
         IF b < 128 THEN Utf8(q, i + 1)
         ELSE IF b \in 194..223 THEN Cont(q, i + 1) /\ Utf8(q, i + 2)
         ELSE IF b = 224 THEN second(160, 191) /\ Cont(q, i + 2) /\ Utf8(q, i + 3)
         ELSE IF b = 237 THEN second(128, 159) /\ Cont(q, i + 2) /\ Utf8(q, i + 3)
         ELSE IF b \in 225..239 THEN Cont(q, i + 1) /\ Cont(q, i + 2) /\ Utf8(q, i + 3)
         ELSE IF b = 240 THEN second(144, 191) /\ Cont(q, i + 2) /\ Cont(q, i + 3) /\ Utf8(q, i + 4)
         ELSE IF b \in 241..243 THEN Cont(q, i + 1) /\ Cont(q, i + 2) /\ Cont(q, i + 3) /\ Utf8(q, i + 4)
         ELSE IF b = 244 THEN second(128, 143) /\ Cont(q, i + 2) /\ Cont(q, i + 3) /\ Utf8(q, i + 4)
         ELSE FALSE

\* ---- fields of a packet body; r is "ok", "bad" or "open", next the index behind the field
Bad(n)  == [r |-> "bad", n |-> n, e |-> <<>>]
Open(n) == [r |-> "open", n |-> n, e |-> <<>>]
Ok(n, e) == [r |-> "ok", n |-> n, e |-> e]

Word(b, i) == 256 * b[i] + b[i + 1]

\* a length-prefixed field of bytes
Bin(b, i) == IF i + 1 > Len(b) THEN [r |-> "bad"]
             ELSE IF i + 1 + Word(b, i) > Len(b) THEN [r |-> "bad"]
             ELSE [r |-> "ok", v |-> SubSeq(b, i + 2, i + 1 + Word(b, i)), next |-> i + 2 + Word(b, i)]
\* a length-prefixed string
Text(b, i) == LET x == Bin(b, i) IN
              IF x.r = "bad" THEN x
              ELSE IF ~Utf8(x.v, 1) THEN [r |-> "bad"]
              ELSE IF \E k \in 1..Len(x.v) : x.v[k] = 0 THEN [r |-> "open"]
              ELSE x

Bit(n, k) == (n \div (2 ^ k)) % 2

\* ---- CONNECT: n is the length of the whole packet, b its body
Connect(b, n) ==
    LET name == Text(b, 1) IN
    IF name.r # "ok" THEN [r |-> name.r, n |-> n, e |-> <<>>]
    ELSE IF name.next + 3 > Len(b) THEN Bad(n)
    ELSE
    LET level == b[name.next]
        fl    == b[name.next + 1]
        user  == Bit(fl, 7) = 1
        pass  == Bit(fl, 6) = 1
        will  == Bit(fl, 2) = 1
        wqos  == Bit(fl, 4) * 2 + Bit(fl, 3)
        clean == Bit(fl, 1) = 1
        id    == Text(b, name.next + 4)
        odd   == \/ name.v # <<77, 81, 84, 84>> \/ level # 4 \/ Bit(fl, 0) = 1
                 \/ (~will /\ (wqos # 0 \/ Bit(fl, 5) = 1)) \/ (pass /\ ~user)
    IN IF odd THEN Open(n)
    ELSE IF id.r # "ok" THEN [r |-> id.r, n |-> n, e |-> <<>>]
    ELSE
    LET wt == IF will THEN Text(b, id.next) ELSE [r |-> "ok", v |-> <<>>, next |-> id.next] IN
    IF wt.r # "ok" THEN [r |-> wt.r, n |-> n, e |-> <<>>]
    ELSE LET wp == IF will THEN Bin(b, wt.next) ELSE [r |-> "ok", v |-> <<>>, next |-> wt.next] IN
    IF wp.r # "ok" THEN Bad(n)
    ELSE LET u == IF user THEN Text(b, wp.next) ELSE [r |-> "ok", v |-> <<>>, next |-> wp.next] IN
    IF u.r # "ok" THEN [r |-> u.r, n |-> n, e |-> <<>>]
    ELSE LET p == IF pass THEN Bin(b, u.next) ELSE [r |-> "ok", v |-> <<>>, next |-> u.next] IN
    IF p.r # "ok" THEN Bad(n)
    ELSE IF p.next # Len(b) + 1 THEN Bad(n)
    ELSE IF will /\ wqos = 3 THEN Bad(n)
    ELSE IF \/ (Len(id.v) = 0 /\ ~clean)
            \/ (pass /\ ~Utf8(p.v, 1))
            \/ (will /\ ~ValidName(Topic(wt.v))) THEN Open(n)
    ELSE Ok(n, [op |-> "connect", id |-> Str(id.v),
                cred |-> [u |-> user, name |-> Str(u.v), p |-> pass, pw |-> Str(p.v)]])

Publish(h, b, n) ==
    LET qos == (h \div 2) % 4
        t   == Text(b, 1) IN
    IF qos = 3 THEN Bad(n)
    ELSE IF t.r # "ok" THEN [r |-> t.r, n |-> n, e |-> <<>>]
    ELSE IF ~ValidName(Topic(t.v)) THEN Bad(n)
    ELSE LET body == IF qos = 0 THEN t.next ELSE t.next + 2 IN
    IF body > Len(b) + 1 THEN Bad(n)
    ELSE IF (qos # 0 /\ Word(b, t.next) = 0) \/ (qos = 0 /\ Bit(h, 3) = 1) THEN Open(n)
    ELSE Ok(n, [op |-> "pub", topic |-> Topic(t.v), name |-> t.v, payload |-> SubSeq(b, body, Len(b))])

\* the filters of SUBSCRIBE (opt = 1) and UNSUBSCRIBE (opt = 0) from index i on
RECURSIVE Filters(_, _, _, _)
Filters(b, i, opt, acc) ==
    IF i = Len(b) + 1 THEN [r |-> IF acc = <<>> THEN "bad" ELSE "ok", v |-> acc]
    ELSE LET t == Text(b, i) IN
         IF t.r # "ok" THEN t
         ELSE IF opt = 1 /\ (t.next > Len(b)) THEN [r |-> "bad"]
         ELSE IF opt = 1 /\ b[t.next] > 2 THEN [r |-> "bad"]
         ELSE IF t.v = <<>> THEN LET rest == Filters(b, t.next + opt, opt, Append(acc, t.v)) IN
                                 IF rest.r = "bad" THEN rest ELSE [r |-> "open"]
         ELSE Filters(b, t.next + opt, opt, Append(acc, Topic(t.v)))

List(op, b, n) ==
    IF Len(b) < 2 THEN Bad(n)
    ELSE LET f == Filters(b, 3, IF op = "sub" THEN 1 ELSE 0, <<>>) IN
         IF f.r # "ok" THEN [r |-> f.r, n |-> n, e |-> <<>>]
         ELSE IF Word(b, 1) = 0 THEN Open(n)
         ELSE Ok(n, [op |-> op, fs |-> f.v, pid |-> Word(b, 1)])

Simple(h, want, b, size, e, n) ==
    IF h # want /\ e.op \in {"ping", "disc"} THEN Open(n)
    ELSE IF h # want \/ Len(b) # size THEN Bad(n)
    ELSE IF e.op = "ack" /\ Word(b, 1) = 0 THEN Open(n)
    ELSE Ok(n, e)

\* ---- remaining length: value, and the number of bytes it takes
RECURSIVE RemLen(_, _, _, _)
RemLen(bs, i, mul, acc) ==
    IF i > Len(bs) THEN [r |-> "more"]
    ELSE LET v == acc + (bs[i] % 128) * mul IN
         IF bs[i] < 128 THEN IF i > 2 /\ bs[i] = 0 THEN [r |-> "open"] ELSE [r |-> "ok", v |-> v, next |-> i + 1]
         ELSE IF i = 5 THEN [r |-> "bad"]
         ELSE RemLen(bs, i + 1, mul * 128, v)

Decode(bs) ==
    LET l == RemLen(bs, 2, 1, 0) IN
    IF l.r # "ok" THEN [r |-> l.r, n |-> 0, e |-> <<>>]
    ELSE IF l.next - 1 + l.v > Len(bs) THEN [r |-> "more", n |-> 0, e |-> <<>>]
    ELSE LET n == l.next - 1 + l.v
             b == SubSeq(bs, l.next, n)
             h == bs[1]
             t == h \div 16
         IN CASE t = 1  -> IF h # 16 THEN Open(n) ELSE Connect(b, n)
              [] t = 3  -> Publish(h, b, n)
              [] t = 4  -> Simple(h, 64, b, 2, [op |-> "ack"], n)
              [] t = 5  -> Simple(h, 80, b, 2, [op |-> "ack"], n)
              [] t = 6  -> Simple(h, 98, b, 2, [op |-> "ack"], n)
              [] t = 7  -> Simple(h, 112, b, 2, [op |-> "ack"], n)
              [] t = 8  -> IF h # 130 THEN Bad(n) ELSE List("sub", b, n)
              [] t = 10 -> IF h # 162 THEN Bad(n) ELSE List("unsub", b, n)
              [] t = 12 -> Simple(h, 192, b, 0, [op |-> "ping"], n)
              [] t = 14 -> Simple(h, 224, b, 0, [op |-> "disc"], n)
              [] OTHER  -> Bad(n)

\* ---- the bytes of the outputs
RECURSIVE EncLen(_)
EncLen(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o EncLen(n \div 128)
Packet(h, b) == <<h>> \o EncLen(Len(b)) \o b
Word2(n) == <<n \div 256, n % 256>>
Enc(o, e) ==
    CASE o.t = "connack"  -> <<32, 2, 0, o.code>>
      [] o.t = "suback"   -> Packet(144, Word2(e.pid) \o [i \in 1..o.n |-> 0])
      [] o.t = "unsuback" -> Packet(176, Word2(e.pid))
      [] o.t = "pingresp" -> <<208, 0>>
      [] o.t = "msg"      -> Packet(48, Word2(Len(e.name)) \o e.name \o e.payload)
      [] o.t = "eof"      -> <<>>

\* ---- a whole stream, sent on connection c of state s, which the client then half-closes.
\* Result: r    "closed"  the broker closes by itself
\*              "half"    the broker closes when the client does
\*              "open"    the stream is not specified
\*         out  the outputs in order, <<connection, bytes>> (<<>>: end of the connection)
\*         n    the number of packets processed
RECURSIVE Run(_, _, _, _, _)
Run(s, c, bs, out, n) ==
    IF s.ph[c] = "dead" THEN [r |-> "closed", s |-> s, out |-> out, n |-> n]
    ELSE
    LET d   == IF bs = <<>> THEN [r |-> "more"] ELSE Decode(bs)
        do(e) == LET x == Apply(s, e)
                 IN [s |-> x.s, out |-> out \o [i \in 1..Len(x.out) |-> <<x.out[i][1], Enc(x.out[i][2], e)>>]]
        parent(e) == e.op = "pub" /\ \E k \in ConnsOf(s) : \E f \in s.subs[k] : ParentOnly(f, e.topic)
    IN CASE d.r = "open" -> [r |-> "open", s |-> s, out |-> out, n |-> n]
         [] d.r = "more" -> LET x == do([op |-> "half", c |-> c]) IN [r |-> "half", s |-> x.s, out |-> x.out, n |-> n]
         [] d.r = "bad"  -> LET x == do([op |-> "bad", c |-> c]) IN [r |-> "closed", s |-> x.s, out |-> x.out, n |-> n]
         [] d.r = "ok"   ->
              LET e == [k \in DOMAIN d.e \cup {"c"} |-> IF k = "c" THEN c ELSE d.e[k]] IN
              IF parent(e) THEN [r |-> "open", s |-> s, out |-> out, n |-> n]
              ELSE LET x == do(e) IN Run(x.s, c, SubSeq(bs, d.n + 1, Len(bs)), x.out, n + 1)
=============================================================================
