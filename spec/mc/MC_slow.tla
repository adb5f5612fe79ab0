---- MODULE MC_slow ----
(* C14: readers that pause; simulated, not enumerated *)
EXTENDS Slow, TLC, Json, CSV, IOUtils
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
EmitState == IF Out = "" THEN TRUE
             ELSE CSVWrite("%1$s", <<ToJson([n |-> TLCGet("level"), s |-> [who |-> who, items |-> Len(q)], e |-> last.e, o |-> last.q])>>, Out)
====
