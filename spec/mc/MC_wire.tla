---- MODULE MC_wire ----
(* C11, C13: well-formed streams and everything that MaxMut changes of one byte make of them *)
EXTENDS Wire, WireBases, Auth, TLC, Json, CSV, IOUtils
CONSTANTS MaxMut, Full
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cNoId == "no id"
File == <<[u |-> "user", p |-> "secret"]>>
cAdmits(c) == Decide(File, IF c.u THEN c.name ELSE NoUser, IF c.p THEN c.pw ELSE Missing)
\* connection 1 sends the stream, connection 2 watches everything
S0 == [ph |-> <<"fresh", "up">>, id |-> <<cNoId, <<"given", "the watcher">>>>, subs |-> <<{}, {<<"#">>, <<"$x">>}>>]

VARIABLES base, bs, lo, hi, m
vars == <<base, bs, lo, hi, m>>
Init == \E k \in DOMAIN Bases : base = k /\ bs = Bases[k].bs /\ lo = Bases[k].lo /\ hi = Bases[k].hi /\ m = 0

Special(i) == {0, 1, 2, 3, 4, 35, 43, 47, 127, 128, 255, (bs[i] + 1) % 256, (bs[i] + 255) % 256, (bs[i] + 128) % 256,
               (bs[i] + 2) % 256, (bs[i] + 254) % 256, 192, 224, 237, 240, 245}
Values(i)  == IF i = lo \/ (Full /\ i <= lo + 16) THEN 0..255 ELSE Special(i)
Mutated(x, d) == bs' = x /\ hi' = hi + d /\ m' = m + 1 /\ UNCHANGED <<base, lo>>
SetByte == \E i \in lo..hi : \E v \in Values(i) : v # bs[i] /\ Mutated([bs EXCEPT ![i] = v], 0)
Remove  == \E i \in lo..hi : Mutated(SubSeq(bs, 1, i - 1) \o SubSeq(bs, i + 1, Len(bs)), 0 - 1)
Insert  == \E i \in lo..hi : \E v \in {0, 1, 97, 255} : Mutated(SubSeq(bs, 1, i) \o <<v>> \o SubSeq(bs, i + 1, Len(bs)), 1)
Cut     == \E i \in lo..hi : bs' = SubSeq(bs, 1, i) /\ hi' = i /\ m' = MaxMut /\ UNCHANGED <<base, lo>>
Next == m < MaxMut /\ lo <= hi /\ (SetByte \/ Remove \/ Insert \/ Cut)
Spec == Init /\ [][Next]_vars
View == bs

Of(out, c) == SelectSeq(out, LAMBDA p : p[1] = c)
NotEof(out) == SelectSeq(out, LAMBDA p : p[2] # <<>>)
\* the unchanged streams are what they are meant to be
Wellformed(x) == m = 0 => x.r # "open"
\* every output is one packet
OutputsAreFrames(x) == \A i \in DOMAIN x.out : LET q == x.out[i][2] IN
                       q = <<>> \/ LET l == RemLen(q, 2, 1, 0) IN l.r = "ok" /\ l.next - 1 + l.v = Len(q)
\* what arrived before a point of the stream had its effect whatever comes behind it
PrefixClosed(x) == (m = 0 \/ Full) => \A n \in 1..Len(bs) :
                   LET p == Run(S0, 1, SubSeq(bs, 1, n), <<>>, 0) IN
                   /\ p.n <= x.n
                   /\ NotEof(p.out) = SubSeq(NotEof(x.out), 1, Len(NotEof(p.out)))
\* in the end connection 1 has no session, and is told so exactly once
Ended(x) == x.r # "open" => /\ x.s.ph[1] # "up" /\ x.s.subs[1] = {} /\ x.s.ph[2] = "up"
                            /\ Len(SelectSeq(x.out, LAMBDA p : p = <<1, <<>>>>)) = 1
                            /\ x.out[Len(x.out)] = <<1, <<>>>>
Emit(x) == Out = "" \/ CSVWrite("%1$s", <<ToJson([b |-> base, m |-> m, bs |-> bs, r |-> x.r, n |-> x.n, out |-> x.out])>>, Out)
Meaning == LET x == Run(S0, 1, bs, <<>>, 0) IN
           Wellformed(x) /\ OutputsAreFrames(x) /\ PrefixClosed(x) /\ Ended(x) /\ Emit(x)
====
