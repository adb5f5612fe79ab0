---- MODULE MC_keepalive ----
EXTENDS KeepAlive, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
c3 == {"a", "b", "c"}
c4 == {"a", "b", "c", "d"}
\* expiry at least ten seconds before or after the present
cIntervals == {0, 20, 21}
cTimes == {-41000, -20000, 0, 10000}
cIntervals4 == {7, 65535}
cTimes4 == {-98320000, -30000, 0}
====
