---------------------------- MODULE WriteBuffer ----------------------------
(***************************************************************************)
(* The write side of a connection, as it is built: packets are encoded     *)
(* field by field into a buffer; when a field does not fit, part of the    *)
(* buffer goes to the socket first (write_buf: whatever the socket takes); *)
(* at the end of the packet the buffer is written out.                     *)
(*                                                                         *)
(* Whole = TRUE: the end of a packet waits until everything is written.    *)
(* Whole = FALSE (the code before the repair): it writes once, and what    *)
(* the socket does not take stays until the next packet; Pushed fails.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Cap, Sock, Packets, MaxPackets, Whole

VARIABLES cap, buf,    \* capacity of the buffer, bytes in it (each byte: <<packet, index>>)
          sock,        \* bytes in the socket
          got,         \* bytes the client has read
          pc,          \* "idle", "field" (encoding), "room" (must make room), "end"
          cur,         \* bytes of the current packet not encoded yet
          np           \* packets so far
vars == <<cap, buf, sock, got, pc, cur, np>>

Min(a, b) == IF a < b THEN a ELSE b
Bytes(p, n) == [i \in 1..n |-> <<p, i>>]
Portion == IF Len(cur) > cap THEN cap ELSE Len(cur)
Drop(q, n) == SubSeq(q, n + 1, Len(q))

Init == cap = Cap /\ buf = <<>> /\ sock = <<>> /\ got = <<>> /\ pc = "idle" /\ cur = <<>> /\ np = 0

Start(n) == /\ pc = "idle" /\ np < MaxPackets
            /\ np' = np + 1 /\ cur' = Bytes(np + 1, n) /\ pc' = "field"
            /\ cap' = (IF cap = 0 THEN 1 ELSE cap)     \* the first byte of the header makes room for itself
            /\ UNCHANGED <<buf, sock, got>>
\* the check before a portion is put: "too small" lets the socket take something
Field == /\ pc = "field"
         /\ IF cur = <<>> THEN pc' = "end" /\ UNCHANGED <<cap, buf, cur>>
            ELSE IF Len(buf) + Portion >= cap THEN pc' = "room" /\ UNCHANGED <<cap, buf, cur>>
            ELSE /\ buf' = buf \o SubSeq(cur, 1, Portion) /\ cur' = Drop(cur, Portion) /\ UNCHANGED <<cap, pc>>
         /\ UNCHANGED <<sock, got, np>>
\* write_buf with something to write waits for space in the socket and takes what fits
Room == /\ pc = "room" /\ (buf = <<>> \/ Len(sock) < Sock)
        /\ LET k == Min(Len(buf), Sock - Len(sock))
               w == Portion                              \* decided before the write
               c == cap - k
           IN /\ sock' = sock \o SubSeq(buf, 1, k)
              /\ buf' = Drop(buf, k) \o SubSeq(cur, 1, w)
              /\ cap' = (IF Len(buf) - k + w > c THEN Len(buf) - k + w ELSE c)
              /\ cur' = Drop(cur, w)
        /\ pc' = "field" /\ UNCHANGED <<got, np>>
End == /\ pc = "end"
       /\ IF buf = <<>> THEN pc' = "idle" /\ UNCHANGED <<cap, buf, sock>>
          ELSE /\ Len(sock) < Sock
               /\ LET k == Min(Len(buf), Sock - Len(sock)) IN
                  /\ sock' = sock \o SubSeq(buf, 1, k) /\ buf' = Drop(buf, k) /\ cap' = cap - k
                  /\ pc' = (IF Whole /\ k < Len(buf) THEN "end" ELSE "idle")
       /\ UNCHANGED <<got, cur, np>>
Read(n) == /\ n <= Len(sock) /\ got' = got \o SubSeq(sock, 1, n) /\ sock' = Drop(sock, n)
           /\ UNCHANGED <<cap, buf, pc, cur, np>>
Next == Field \/ Room \/ End \/ (\E n \in Packets : Start(n)) \/ (\E n \in 1..Sock : Read(n))
Spec == Init /\ [][Next]_vars /\ WF_vars(Field) /\ WF_vars(Room) /\ WF_vars(End) /\ WF_vars(\E n \in 1..Sock : Read(n))

\* whatever the client has is the beginning of the packets in order: nothing lost, repeated or mixed
All == got \o sock \o buf \o cur
InOrder == \A i \in 1..Len(All) : i > 1 =>
              \/ All[i][1] = All[i-1][1] /\ All[i][2] = All[i-1][2] + 1
              \/ All[i][1] = All[i-1][1] + 1 /\ All[i][2] = 1
Progress == pc = "field" /\ cur # <<>> => Portion > 0
TypeOK == Len(buf) <= cap /\ Len(sock) <= Sock
\* an idle writer has pushed everything out: no further traffic is needed
Pushed == pc = "idle" => buf = <<>>
\* a client that goes on reading gets everything
Complete == [](np > 0 => <>(pc = "idle" /\ buf = <<>> /\ sock = <<>>))
=============================================================================
