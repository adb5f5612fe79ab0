---- MODULE MC_segments ----
(* C13: all ways of cutting the streams into MaxCuts + 1 pieces *)
EXTENDS Segments, WireBases, Auth, TLC, Json, CSV, IOUtils
CONSTANTS MaxCuts, MaxLen
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cNoId == "no id"
File == <<[u |-> "user", p |-> "secret"]>>
cAdmits(c) == Decide(File, IF c.u THEN c.name ELSE NoUser, IF c.p THEN c.pw ELSE Missing)
S0 == [ph |-> <<"fresh", "up">>, id |-> <<cNoId, <<"given", "the watcher">>>>, subs |-> <<{}, {<<"#">>, <<"$x">>}>>]
Whole == [k \in DOMAIN Bases |-> Run(S0, 1, Bases[k].bs, <<>>, 0)]

VARIABLES base, at, cuts, x
vars == <<base, at, cuts, x>>
Init == \E k \in DOMAIN Bases : /\ MaxLen = 0 \/ Len(Bases[k].bs) <= MaxLen
                                /\ base = k /\ at = 0 /\ cuts = <<>> /\ x = Fresh(S0)
Piece(n) == /\ n > at /\ n < Len(Bases[base].bs) /\ Len(cuts) < MaxCuts
            /\ x' = Receive(x, 1, SubSeq(Bases[base].bs, at + 1, n))
            /\ at' = n /\ cuts' = Append(cuts, n) /\ UNCHANGED base
Last == /\ at < Len(Bases[base].bs)
        /\ x' = Finish(Receive(x, 1, SubSeq(Bases[base].bs, at + 1, Len(Bases[base].bs))), 1)
        /\ at' = Len(Bases[base].bs) /\ UNCHANGED <<base, cuts>>
Next == Last \/ \E n \in 1..Len(Bases[base].bs) : Piece(n)
Spec == Init /\ [][Next]_vars

Done == at = Len(Bases[base].bs)
NotEof(out) == SelectSeq(out, LAMBDA p : p[2] # <<>>)
Confluent == /\ Done => x.out = Whole[base].out /\ x.s = Whole[base].s
             /\ LET a == NotEof(x.out)  b == NotEof(Whole[base].out) IN a = SubSeq(b, 1, Len(a))
\* nothing but the beginning of a packet is kept back
Waiting == x.rest = <<>> \/ Decode(x.rest).r = "more"
Emit == (Done /\ Out # "") =>
        CSVWrite("%1$s", <<ToJson([b |-> base, bs |-> Bases[base].bs, cuts |-> cuts, r |-> Whole[base].r,
                                   n |-> Whole[base].n, out |-> x.out])>>, Out)
====
