------------------------------ MODULE Segments ------------------------------
(***************************************************************************)
(* A stream of bytes that reaches the broker in pieces: the reader keeps   *)
(* what it cannot use yet and processes every packet as soon as its last   *)
(* byte has arrived.  The way the stream is cut must not matter: this is   *)
(* checked here (Confluent), and every way of cutting that TLC enumerates  *)
(* is replayed.                                                            *)
(***************************************************************************)
EXTENDS Wire

\* what a reader knows: broker state, unused bytes, outputs so far, "open" once not specified
Fresh(s) == [s |-> s, rest |-> <<>>, out |-> <<>>, open |-> FALSE]

RECURSIVE Use(_, _)
Use(x, c) ==
    IF x.s.ph[c] = "dead" THEN [x EXCEPT !.rest = <<>>]
    ELSE IF x.rest = <<>> \/ x.open THEN x
    ELSE LET d == Decode(x.rest) IN
         CASE d.r = "open" -> [x EXCEPT !.open = TRUE]
           [] d.r = "more" -> x
           [] d.r = "bad"  -> LET y == Apply(x.s, [op |-> "bad", c |-> c])
                              IN [x EXCEPT !.s = y.s, !.rest = <<>>,
                                           !.out = @ \o [i \in 1..Len(y.out) |-> <<y.out[i][1], Enc(y.out[i][2], <<>>)>>]]
           [] d.r = "ok"   -> LET e == [k \in DOMAIN d.e \cup {"c"} |-> IF k = "c" THEN c ELSE d.e[k]]
                                  y == Apply(x.s, e)
                              IN Use([x EXCEPT !.s = y.s, !.rest = SubSeq(@, d.n + 1, Len(@)),
                                               !.out = @ \o [i \in 1..Len(y.out) |-> <<y.out[i][1], Enc(y.out[i][2], e)>>]], c)

\* the next piece arrives
Receive(x, c, piece) == IF x.s.ph[c] = "dead" THEN x ELSE Use([x EXCEPT !.rest = @ \o piece], c)

\* the client ends the stream
Finish(x, c) == IF x.s.ph[c] = "dead" THEN x
                ELSE LET y == Apply(x.s, [op |-> "half", c |-> c])
                     IN [x EXCEPT !.s = y.s, !.rest = <<>>,
                                  !.out = @ \o [i \in 1..Len(y.out) |-> <<y.out[i][1], Enc(y.out[i][2], <<>>)>>]]
=============================================================================
