-------------------------------- MODULE Slow --------------------------------
(***************************************************************************)
(* A subscriber that reads when it likes.  q is what the broker owes it    *)
(* and it has not read: a sequence of items, [t |-> "msg", n |-> size] or  *)
(* [t |-> "pong"].  Whatever happens, reading on yields exactly q.         *)
(* who = "other": another client publishes; "self": the subscriber itself  *)
(* does, and its PINGREQs are ordered with its messages.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Sizes,      \* payload sizes
          FillSizes,  \* of messages sent one by one until the socket is full
          Counts,     \* lengths of bursts
          Stalls,     \* numbers of requests sent while a message does not fit
          MaxItems, MaxBytes

VARIABLES who, q, bytes, last
vars == <<who, q, bytes, last>>

Rep(n, x) == [i \in 1..n |-> x]

Init == who \in {"other", "self"} /\ q = <<>> /\ bytes = 0 /\ last = [e |-> [op |-> "init"], q |-> <<>>]

Burst(n, size) == /\ Len(q) + n <= MaxItems /\ bytes + n * size <= MaxBytes /\ bytes < MaxBytes
                  /\ q' = q \o Rep(n, [t |-> "msg", n |-> size]) /\ bytes' = bytes + n * size
                  /\ last' = [e |-> [op |-> "burst", n |-> n, size |-> size], q |-> <<>>] /\ UNCHANGED who
Ping == /\ who = "self" /\ Len(q) < MaxItems
        /\ q' = Append(q, [t |-> "pong", n |-> 0]) /\ UNCHANGED <<bytes, who>>
        /\ last' = [e |-> [op |-> "ping"], q |-> <<>>]
\* as many messages as it takes until the last one does not fit into the socket: then the writer waits in
\* the middle of it, and nothing follows it (how many that are is for the system to decide)
Fill(size) == /\ q = <<>> /\ q' = <<[t |-> "filled", n |-> size]>> /\ bytes' = MaxBytes
              /\ last' = [e |-> [op |-> "fill", size |-> size], q |-> <<>>] /\ UNCHANGED who
\* one message that fits into no socket, and then so many requests of the reader itself, or small messages:
\* the replies, or these, wait behind it, in order (k distinguishes the lengths of the queue the broker keeps
\* for the connection)
Stall(k, what) == /\ q = <<>> /\ bytes' = MaxBytes /\ UNCHANGED who
                  /\ q' = <<[t |-> "huge", n |-> 1]>> \o Rep(k, [t |-> what, n |-> 0])
                  /\ last' = [e |-> [op |-> "stall", n |-> k, what |-> what], q |-> <<>>]
\* another connection takes over the identifier of a reader that has stalled: when the reader reads on, it gets
\* nothing but (some of) q, in order, and then the end; the new connection is the reader from then on
\* (not of one that is publishing itself: which of its messages still count then is not determined)
Takeover == /\ q # <<>> /\ ~(who = "self" /\ Len(q) > 1 /\ q[2].t = "msg") /\ last.e.op = "stall" /\ q' = <<>> /\ bytes' = 0 /\ UNCHANGED who
            /\ last' = [e |-> [op |-> "takeover"], q |-> q]
\* it leaves, with DISCONNECT or against the protocol, while it reads nothing: likewise, and its connection ends
Leave(how) == /\ q # <<>> /\ last.e.op = "stall" /\ q' = <<>> /\ bytes' = 0 /\ UNCHANGED who
              /\ last' = [e |-> [op |-> "leave", how |-> how], q |-> q]
\* reads some bytes, not necessarily whole packets (the abstract state stays: they still have to be right)
Nibble(k) == q # <<>> /\ last' = [e |-> [op |-> "nibble", n |-> k], q |-> <<>>] /\ UNCHANGED <<who, q, bytes>>
Catchup == q # <<>> /\ q' = <<>> /\ bytes' = 0 /\ last' = [e |-> [op |-> "catchup"], q |-> q] /\ UNCHANGED who
Next == \/ \E n \in Counts, s \in Sizes : Burst(n, s)
        \/ Ping \/ Catchup
        \/ \E s \in FillSizes : Fill(s)
        \/ \E k \in Stalls, what \in {"reply", "msg"} : Stall(k, what)
        \/ Takeover \/ \E h \in {"disc", "connect", "broken"} : Leave(h)
        \/ \E k \in {1, 100, 5000, 100000} : Nibble(k)
Spec == Init /\ [][Next]_vars
Bounded == Len(q) <= MaxItems /\ bytes <= MaxBytes
NothingLost == [][last'.e.op = "catchup" => last'.q = q]_vars
=============================================================================
