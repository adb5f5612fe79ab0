---- MODULE MC_codec ----
(* C22: packets of every kind after packets of every kind (the state is the kind of the packet before) *)
EXTENDS Codec, TLC, Json, CSV, IOUtils
CONSTANTS Side, Pairs, Set
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cNoId == "no id"
cAdmits(c) == TRUE

Run1(n, b) == [i \in 1..n |-> b]
Bytes(n) == [i \in 1..n |-> (i * 7 + 3) % 256]
a == <<97>>
mixed == <<195, 169, 47, 230, 151, 165, 240, 159, 152, 128>>       \* é/日😀
odd == <<36, 32, 1, 127, 239, 187, 191>>                              \* $ and blank, controls, BOM
long(n) == Run1(n, 120)
Pids == {1, 255, 256, 65535}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}

\* each field takes all its values with each of the others at some value, some fields in combination
Wills(T, P) == Opt([topic : T, payload : P, qos : 0..2, retain : BOOLEAN])
Conn(Ids, Keeps, W, UP) == {[t |-> "connect", id |-> i, keep |-> k, clean |-> c, will |-> w, user |-> x[1], pw |-> x[2]] :
                            i \in Ids, k \in Keeps, c \in BOOLEAN, w \in W, x \in UP}
NoUser2 == <<<<>>, <<>>>>
UPs == {NoUser2, <<<<a>>, <<>>>>, <<<<a>>, <<mixed>>>>, <<<<(<<>>)>>, <<(<<>>)>>>>, <<<<mixed>>, <<a>>>>}
ConnectFull == Conn({<<>>, a, mixed}, {0, 1, 255, 256, 65535}, Wills({a}, {<<>>, <<0, 255, 0>>}), UPs)
               \cup Conn({long(23), long(24), odd, long(300)}, {60, 32768}, Opt({[topic |-> mixed, payload |-> Bytes(300), qos |-> 1, retain |-> TRUE]}),
                         {NoUser2, <<<<long(260)>>, <<long(256)>>>>, <<<<odd>>, <<odd>>>>})
               \cup {[t |-> "connect", id |-> a, keep |-> 7, clean |-> TRUE, will |-> w, user |-> <<>>, pw |-> <<>>] :
                     w \in {<<[topic |-> t, payload |-> p, qos |-> 2, retain |-> FALSE]>> : t \in {a, mixed, long(127), long(128)}, p \in {<<0>>, Bytes(127), Bytes(128), Bytes(255), Bytes(256)}}}
ConnectCore == Conn({<<>>, a}, {0, 300}, Wills({a}, {<<0, 255>>}), {NoUser2, <<<<a>>, <<mixed>>>>})
Connects(S) == {p \in S : p.id = <<>> => p.clean}

Pub(T, P, Q) == {p \in [t : {"publish"}, topic : T, payload : P, qos : Q, dup : BOOLEAN, retain : BOOLEAN, pid : Pids \cup {0}] :
                 /\ p.qos = 0 <=> p.pid = 0
                 /\ p.qos = 0 => ~p.dup}
Few(p) == p.pid \in {0, 256}
PublishFull == Pub({a, mixed}, {<<>>, <<0>>, Bytes(2)}, 0..2)
               \cup {p \in Pub({a, odd, long(300)}, {Bytes(n) : n \in 118..128}, 0..2) : Few(p)}
               \cup {p \in Pub({mixed}, {Bytes(n) : n \in {300, 4080, 4085, 4096, 16366, 16367, 16368, 16369, 16370, 16371, 16372, 16373, 20000}}, 0..2) : Few(p) /\ ~p.dup}
               \cup {p \in Pub({long(4090), long(65535)}, {<<>>, Bytes(3)}, 0..2) : Few(p) /\ ~p.retain}
PublishCore == {p \in Pub({a, mixed}, {<<>>, Bytes(2), Bytes(124), Bytes(5000)}, 0..2) : p.pid \in {0, 1, 256}}

Sub(L) == {[t |-> "subscribe", pid |-> i, fs |-> l] : i \in Pids, l \in L}
Unsub(L) == {[t |-> "unsubscribe", pid |-> i, fs |-> l] : i \in Pids, l \in L}
Fs == {a, mixed, <<35>>, <<43, 47, 97>>}
SubLists == {<<<<f, q>>>> : f \in Fs, q \in 0..2} \cup {<<<<f, q>>, <<g, r>>>> : f \in Fs, g \in Fs, q \in 0..2, r \in 0..2}
            \cup {[i \in 1..n |-> <<a \o <<97 + (i % 26)>>, i % 3>>] : n \in {3, 24, 25, 26, 1000}} \cup {<<<<long(n), 1>>, <<a, 2>>>> : n \in {119, 120, 121, 128, 5000, 65535}}
UnsubLists == {<<f>> : f \in Fs} \cup {<<f, g>> : f \in Fs, g \in Fs}
              \cup {[i \in 1..n |-> a \o <<97 + (i % 26)>>] : n \in {3, 31, 32, 1000}} \cup {<<long(n), a>> : n \in {120, 121, 128, 5000, 65535}}
PidOnly(S) == {[t |-> k, pid |-> i] : k \in S, i \in Pids \cup {2, 127, 128, 32767, 32768}}

ClientFull == Connects(ConnectFull) \cup PublishFull \cup Sub(SubLists) \cup Unsub(UnsubLists) \cup PidOnly(OnlyPid \cap FromClient)
              \cup {[t |-> "pingreq"], [t |-> "disconnect"]}
ClientCore == Connects(ConnectCore) \cup PublishCore \cup Sub({<<<<a, 0>>>>, <<<<a, 2>>, <<mixed, 1>>>>}) \cup Unsub({<<a>>, <<mixed, a>>})
              \cup {p \in PidOnly(OnlyPid \cap FromClient) : p.pid \in {1, 256}} \cup {[t |-> "pingreq"], [t |-> "disconnect"]}
Connacks == [t : {"connack"}, sp : BOOLEAN, code : 0..5]
Codes == {0, 1, 2, 128}
Suback(L) == {[t |-> "suback", pid |-> i, codes |-> l] : i \in Pids, l \in L}
CodeLists == {<<x>> : x \in Codes} \cup {<<x, y>> : x \in Codes, y \in Codes} \cup {<<x, y, z>> : x \in Codes, y \in Codes, z \in Codes}
             \cup {[i \in 1..n |-> IF i % 5 = 0 THEN 128 ELSE i % 3] : n \in {124, 125, 126, 127, 4088, 4090, 4092, 16381, 16382}}
Huge == {[t |-> "suback", pid |-> 513, codes |-> [i \in 1..n |-> IF i % 5 = 0 THEN 128 ELSE i % 3]] : n \in {32768, 65533, 65534, 66000}}
ServerFull == Connacks \cup PublishFull \cup Huge \cup Suback(CodeLists) \cup PidOnly(OnlyPid) \cup {[t |-> "pingresp"]}
ServerCore == Connacks \cup PublishCore \cup Suback({<<0>>, <<2, 128>>}) \cup {p \in PidOnly(OnlyPid) : p.pid \in {1, 256}} \cup {[t |-> "pingresp"]}
Packets == IF Side = "client" THEN IF Set = "full" THEN ClientFull ELSE ClientCore
           ELSE IF Set = "full" THEN ServerFull ELSE ServerCore

VARIABLES prev, last
vars == <<prev, last>>
Init == prev = "none" /\ last = <<>>
Next == \E p \in Packets : prev' = (IF Pairs THEN p.t ELSE "none") /\ last' = p
Spec == Init /\ [][Next]_vars
View == prev

RoundTrip == [][LET p == last' bs == Render(p) x == Parse(bs) IN x.n = Len(bs) /\ x.p = p]_vars
\* what follows a packet does not change it
Framed    == [][LET p == last' bs == Render(p) IN Parse(bs \o <<192, 0>>) = Parse(bs)]_vars
\* the decoder of Wire (which decides C11 and C13) sees the same packet
\* (strings of many bytes are left to RoundTrip: Wire looks at them character by character)
AgreesWithWire == [][LET p == last' bs == Render(p) d == Decode(bs) IN
                     (p.t \in FromClient /\ Side = "client" /\ Len(bs) < 200) => d.r = "ok" /\ d.n = Len(bs) /\ d.e = Event(p)]_vars
Emit == Out = "" \/ CSVWrite("%1$s", <<ToJson([f |-> prev, t |-> prev', e |-> last', o |-> Render(last')])>>, Out)
====
