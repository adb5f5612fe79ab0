---- MODULE MC_crowd ----
EXTENDS Crowd, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cPhases == {"fresh", "refused", "up", "sub", "deep", "over", "again", "taken"}
cActs   == {"idle", "partial", "huge", "garbage", "bad", "pings", "pubs", "bigpub", "acks", "subs", "self", "bytes", "midpub", "conns"}
cWays   == {"fin", "rst", "half"}
\* for crowds of many: quiet situations, mostly coming; a step is chosen at random
bPhases == {"fresh", "refused", "up", "sub", "over", "taken"}
bActs   == {"idle", "partial", "bad", "acks", "bytes", "pings"}
R(S) == RandomElement({x \in S : s = s})
NextBig == IF Len(s.live) < MaxLive /\ (s.live = <<>> \/ R(1..100) <= 94)
           THEN Come([p |-> R(bPhases), a |-> IF R(1..4) = 1 THEN R(bActs) ELSE "idle"])
           ELSE Leave(R(DOMAIN s.live), R(cWays))
SpecBig == Init /\ [][NextBig]_vars
EmitBrief == IF Out = "" THEN TRUE
             ELSE CSVWrite("%1$s", <<ToJson([n |-> TLCGet("level"), s |-> Len(s.live), e |-> last.e, o |-> last.o])>>, Out)
====
