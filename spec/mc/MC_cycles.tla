---- MODULE MC_cycles ----
EXTENDS Cycles, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cLoads == {"ids", "filters", "levels", "queued", "churn", "will", "refused", "partial", "topics", "plain"}
cEnds == {"disc", "fin", "rst", "half", "bad", "connect", "taken"}
====
