---- MODULE MC_buffer ----
(* C13: packets that end at chosen places of the 4096-byte read buffer, and pieces that end at chosen
   places of the packets.  The state is the position in the buffer at which the next packet starts. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Buf, Start, Targets, Laps
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
VARIABLES off, last
vars == <<off, last>>
Init == off = Start /\ last = <<>>
\* sizes of packets that can be made (remaining lengths have no superfluous bytes)
Possible(t) == t = 2 \/ (t >= 5 /\ t \notin {130, 16387})
\* where pieces end, relative to the packet: in the header, around the end of the buffer, before the last byte
Cuts(t) == LET e == Buf - off IN
           { {} , {1}, {2}, {3}, {t - 1}, {1, t - 1}, {e}, {e - 1}, {e + 1}, {e - 1, e}, {e, e + 1}, {t \div 2} }
Ok(t, c) == \A x \in c : x > 0 /\ x < t
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
Packet(t, c) == /\ Possible(t) /\ Ok(t, c)
                /\ off' = (off + t) % Buf
                /\ last' = [size |-> t, cuts |-> Sorted(c)]
Size(to, k) == (to + k * Buf) - off
Next == \E to \in Targets, k \in 0..Laps :
          /\ to + k * Buf > off
          /\ \E c \in Cuts(Size(to, k)) : Packet(Size(to, k), c)
Spec == Init /\ [][Next]_vars
View == off
InBuffer == off \in 0..(Buf - 1)
Emit == IF Out = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([f |-> off, t |-> off', e |-> last'])>>, Out)
====
