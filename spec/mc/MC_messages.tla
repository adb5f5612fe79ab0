---- MODULE MC_messages ----
(* C05: messages of every kind, in every order of kinds (the state is the kind of the message before) *)
EXTENDS Messages, TLC, Json, CSV, IOUtils, Integers
CONSTANTS Pairs, Sizes, TLens, TClasses, Bounds, Around
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
Kinds == {m \in [qos : 0..2, dup : 0..1, retain : 0..1, tlen : TLens, tcls : TClasses,
                 size : Sizes \cup {b + d - 2 - t : b \in Bounds, d \in Around, t \in TLens}] :
             m.size >= 0 /\ Possible(m)}
VARIABLES prev, last
vars == <<prev, last>>
None == [qos |-> 0]
Init == prev = None /\ last = None
\* only the flags and the size class of the message before matter for the order
Class(m) == IF ~Pairs THEN None ELSE [qos |-> m.qos, dup |-> m.dup, retain |-> m.retain, big |-> m.size > 100]
Publish(m) == prev' = Class(m) /\ last' = [m |-> m, d |-> Delivered(m)]
Next == \E m \in Kinds : Publish(m)
Spec == Init /\ [][Next]_vars
View == prev
HeadOk == [][LET m == last'.m d == last'.d IN
     /\ d.head[1] = 48 /\ ~HasPid(d.head)
     /\ DecLen(Tail(d.head)) = 2 + m.tlen + m.size
     /\ DecLen(Tail(InHead(m))) = InBody(m)
     /\ Len(d.head) <= Len(InHead(m)) /\ Len(InHead(m)) <= 5]_vars
Emit == Out = "" \/ CSVWrite("%1$s", <<ToJson([f |-> prev, t |-> prev', e |-> last'.m,
                                    o |-> [in |-> InHead(last'.m), out |-> last'.d.head]])>>, Out)
====
