----------------------------- MODULE ReadBuffer -----------------------------
(***************************************************************************)
(* The read side of a connection, as it is built (mqtt_bytes_stream.rs): a *)
(* buffer with a capacity that shrinks when bytes are taken out of its     *)
(* front and grows when it is read into while full.  A field longer than   *)
(* the capacity is collected in portions.                                  *)
(*                                                                         *)
(* Guard = TRUE is the code with the portion of at least one byte; with    *)
(* FALSE (the code before the repair) TLC finds the state in which the     *)
(* portion is zero and the reader spins for ever (Progress fails).         *)
(***************************************************************************)
EXTENDS Naturals

CONSTANTS Cap,      \* initial capacity
          Grow,     \* what a full buffer is extended by
          Fields,   \* lengths of fields
          MaxSent,  \* bytes of the stream in this model
          Guard

VARIABLES cap, len,   \* capacity and content of the buffer
          need,       \* what is missing of the current field
          net,        \* bytes in the network
          sent, used  \* totals
vars == <<cap, len, need, net, sent, used>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Portion == IF need > cap THEN IF Guard THEN Max(cap, 1) ELSE cap ELSE need

Init == cap = Cap /\ len = 0 /\ need = 0 /\ net = 0 /\ sent = 0 /\ used = 0

\* the client sends a piece
Send(n) == sent + n <= MaxSent /\ sent' = sent + n /\ net' = net + n /\ UNCHANGED <<cap, len, need, used>>
\* the decoder asks for the next field
Ask(n) == need = 0 /\ need' = n /\ UNCHANGED <<cap, len, net, sent, used>>
\* the buffer has too little: read from the socket what fits
Fill == /\ need > 0 /\ len < Portion /\ net > 0
        /\ LET room == IF len = cap THEN Grow ELSE cap - len
               k    == Min(net, room)
           IN cap' = (IF len = cap THEN cap + Grow ELSE cap) /\ len' = len + k /\ net' = net - k
        /\ UNCHANGED <<need, sent, used>>
\* a portion is taken out of the front
Take == /\ need > 0 /\ len >= Portion
        /\ len' = len - Portion /\ cap' = cap - Portion /\ need' = need - Portion /\ used' = used + Portion
        /\ UNCHANGED <<net, sent>>
Next == Fill \/ Take \/ (\E n \in 1..3 : Send(n)) \/ (\E n \in Fields : Ask(n))
Spec == Init /\ [][Next]_vars /\ WF_vars(Fill) /\ WF_vars(Take)

TypeOK == len <= cap /\ used + len + net = sent
\* a reader that is asked for something waits or takes something
Progress == need > 0 => Portion > 0
\* what is there is used: the reader never rests with enough bytes in the network
Delivered == [](need > 0 /\ len + net >= need => <>(need = 0))
=============================================================================
