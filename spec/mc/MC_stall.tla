---- MODULE MC_stall ----
(* C06, C10: a reader whose socket and then whose queue is full, for every length of the queue around the one
   the broker has (and others): it reads on, or its identifier is taken over *)
EXTENDS Slow, TLC, Json, CSV, IOUtils
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
View == <<who, q, bytes, IF last.e.op = "stall" THEN 1 ELSE 0>>
What(x) == IF Len(x) > 1 THEN x[2].t ELSE ""
Emit == Out = "" \/ CSVWrite("%1$s", <<ToJson([f |-> [who |-> who, n |-> Len(q), what |-> What(q)], t |-> [who |-> who, n |-> Len(q'), what |-> What(q')],
                                             e |-> last'.e, o |-> Len(last'.q)])>>, Out)
====
