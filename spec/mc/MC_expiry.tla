---- MODULE MC_expiry ----
\* every interval, around the moment of expiry: one state per interval
EXTENDS KeepAlive, IOUtils
CONSTANT Deltas
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
All == 0..65535
VARIABLES k
xvars == <<k, tab, ev, ended>>
XInit == k \in All /\ tab = <<>> /\ ev = <<>> /\ ended = ""
XSpec == XInit /\ [][FALSE]_xvars
\* independent of the definition by integer division: the smallest whole number s with 2s+1 >= 3k ... and 2s <= 3k
Least(s) == 2 * s <= 3 * k /\ 3 * k < 2 * s + 2
Def == Least(Leeway(k))
Rows == {<<k, l, l + 1000 * Leeway(k) + d, Expired(k, l, l + 1000 * Leeway(k) + d)>> : l \in {0, 1 - k, 999}, d \in Deltas}
Boundary == \A r \in Rows : r[4] = (k # 0 /\ r[3] - r[2] - 1000 * Leeway(k) >= 0)
XEmit == IF cOut = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Rows)>>, cOut)
cDeltas == {-1, 0, 1000}
cDeltasT == {-1000000, -1000, -500, -1, 0, 1, 500, 1000, 1000000}
====
