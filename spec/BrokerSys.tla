------------------------------ MODULE BrokerSys ------------------------------
(***************************************************************************)
(* The broker as it is built: a reader and a writer task per connection,   *)
(* one handler task fed by one bounded queue, a service task that owns the *)
(* sessions and subscriptions (its operations are atomic), a bounded queue *)
(* from the handler to every writer, sockets of bounded size, and clients  *)
(* that read when they like.                                               *)
(*                                                                         *)
(* abs and hist are history variables: abs is the state of BrokerCore,     *)
(* advanced when the handler takes an event, hist what BrokerCore says     *)
(* every connection has to receive.  Refines: what is on its way to a      *)
(* client or has arrived is a beginning of hist, and in the end all of it. *)
(***************************************************************************)
EXTENDS BrokerCore, TLC

CONSTANTS Conns, IdOf, Program(_, _), MaxSend,   \* Program(c, n): the n-th packets client c may send
          EQ, CQ, SO,                            \* sizes of the queues and sockets (in packets)
          Reads,                                 \* connections whose clients go on reading
          Interrupt,                             \* whether the process may be interrupted
          StopNow                                \* the handler notices it also while it waits for a writer

VARIABLES inb, nsent, cl,      \* client side: sent and not read by the broker, number sent, "open" or "half"
          rd,                  \* reader task: "first", "loop", "ended"
          eq,                  \* events for the handler
          sess, subs,          \* service: identifier -> connection or NoConn; identifier -> filters
          h,                   \* handler: what it still has to send, <<connection, item>>
          task,                \* spawned tasks that send Disconnect
          cq, wr,              \* queue to the writer, writer task "run" or "ended"
          so, got,             \* outgoing socket, what the client has read
          sig,                 \* "no", "sent", "stopped" (handler), "exit"
          abs, hist
net   == <<inb, nsent, cl>>
vars  == <<inb, nsent, cl, rd, eq, sess, subs, h, task, cq, wr, so, got, sig, abs, hist>>

NoConn == 0
Ids    == {IdOf[c] : c \in Conns}
Disc   == [t |-> "disconnect"]
Running == sig \in {"no", "sent", "stopped"}

Init == /\ inb = [c \in Conns |-> <<>>] /\ nsent = [c \in Conns |-> 0] /\ cl = [c \in Conns |-> "open"]
        /\ rd = [c \in Conns |-> "first"] /\ eq = <<>>
        /\ sess = [i \in Ids |-> NoConn] /\ subs = [i \in Ids |-> {}]
        /\ h = <<>> /\ task = {}
        /\ cq = [c \in Conns |-> <<>>] /\ wr = [c \in Conns |-> "run"]
        /\ so = [c \in Conns |-> <<>>] /\ got = [c \in Conns |-> <<>>]
        /\ sig = "no"
        /\ abs = [Start(Conns) EXCEPT !.ph = [c \in Conns |-> "fresh"]]
        /\ hist = [c \in Conns |-> <<>>]

\* ---- clients
Send(c) == /\ cl[c] = "open" /\ nsent[c] < MaxSend
           /\ \E e \in Program(c, nsent[c] + 1) :
                 /\ inb' = [inb EXCEPT ![c] = Append(@, e)]
                 /\ cl' = [cl EXCEPT ![c] = IF e.op = "half" THEN "half" ELSE @]
           /\ nsent' = [nsent EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<rd, eq, sess, subs, h, task, cq, wr, so, got, sig, abs, hist>>
Read(c) == /\ so[c] # <<>> /\ got' = [got EXCEPT ![c] = Append(@, Head(so[c]))]
           /\ so' = [so EXCEPT ![c] = Tail(@)]
           /\ UNCHANGED <<inb, nsent, cl, rd, eq, sess, subs, h, task, cq, wr, sig, abs, hist>>

\* ---- what BrokerCore says, at the moment the event takes effect
Effect(e) == LET r == Apply(abs, e) IN
             /\ abs' = r.s
             /\ hist' = [c \in Conns |-> LET o == OutFor(r.out, c) IN hist[c] \o [i \in 1..Len(o) |-> o[i][2]]]

\* ---- reader task: an item of inb is a packet, "bad" bytes, or the end of the stream ("half")
Ends(e) == e.op \in {"bad", "half"} \/ (e.op = "pub" /\ ~ValidName(e.topic))
Reader(c) ==
    /\ Running /\ rd[c] # "ended" /\ inb[c] # <<>>
    /\ LET e == Head(inb[c]) IN
       IF rd[c] = "first" /\ e.op # "connect"
       THEN \* nothing has happened on this connection: it just ends
            /\ rd' = [rd EXCEPT ![c] = "ended"] /\ UNCHANGED eq /\ Effect([e EXCEPT !.op = IF Ends(e) THEN e.op ELSE "bad"])
       ELSE /\ Len(eq) < EQ /\ eq' = Append(eq, e)
            /\ rd' = [rd EXCEPT ![c] = IF Ends(e) THEN "ended" ELSE "loop"]
            /\ UNCHANGED <<abs, hist>>
    /\ inb' = [inb EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<nsent, cl, sess, subs, h, task, cq, wr, so, got, sig>>

\* ---- handler task
Owns(c) == sess[IdOf[c]] = c
Clear(i) == /\ sess' = [sess EXCEPT ![i] = NoConn] /\ subs' = [subs EXCEPT ![i] = {}]
Msgs(t) == LET RECURSIVE Per(_)
               Per(S) == IF S = {} THEN <<>>
                         ELSE LET i == CHOOSE i \in S : TRUE
                                  n == Cardinality({f \in subs[i] : Match(f, t)})
                              IN [k \in 1..n |-> <<sess[i], Msg(t)>>] \o Per(S \ {i})
           IN Per({i \in Ids : sess[i] # NoConn})

Handle ==
    /\ sig # "stopped" /\ Running /\ h = <<>> /\ eq # <<>>
    /\ eq' = Tail(eq)
    /\ LET e == Head(eq)  c == e.c  i == IdOf[c] IN
       /\ Effect(e)
       /\ CASE e.op = "connect" /\ abs.ph[c] = "fresh" ->
                  IF Admits(e.cred)
                  THEN /\ task' = (IF sess[i] # NoConn THEN task \cup {sess[i]} ELSE task)
                       /\ sess' = [sess EXCEPT ![i] = c] /\ subs' = [subs EXCEPT ![i] = {}]
                       /\ h' = To(c, ConnAck(0))
                  ELSE h' = To(c, ConnAck(5)) \o To(c, Disc) /\ UNCHANGED <<sess, subs, task>>
            [] Ends(e) -> IF Owns(c) THEN Clear(i) /\ UNCHANGED <<h, task>> ELSE UNCHANGED <<sess, subs, h, task>>
            [] ~Owns(c) /\ ~Ends(e) /\ ~(e.op = "connect" /\ abs.ph[c] = "fresh") ->
                  \* try_send: dropped when the queue is full, which only happens when a Disconnect is on its way
                  h' = (IF Len(cq[c]) < CQ THEN To(c, Disc) ELSE <<>>) /\ UNCHANGED <<sess, subs, task>>
            [] OTHER ->
                  CASE e.op = "sub"   -> subs' = [subs EXCEPT ![i] = @ \cup Range(e.fs)] /\ h' = To(c, SubAck(Len(e.fs))) /\ UNCHANGED <<sess, task>>
                    [] e.op = "unsub" -> subs' = [subs EXCEPT ![i] = @ \ Range(e.fs)] /\ h' = To(c, UnsubAck) /\ UNCHANGED <<sess, task>>
                    [] e.op = "pub"   -> h' = Msgs(e.topic) /\ UNCHANGED <<sess, subs, task>>
                    [] e.op = "ping"  -> h' = To(c, PingResp) /\ UNCHANGED <<sess, subs, task>>
                    [] e.op = "ack"   -> UNCHANGED <<sess, subs, task, h>>
                    [] e.op \in {"disc", "connect"} -> Clear(i) /\ h' = To(c, Disc) /\ UNCHANGED task
    /\ UNCHANGED <<net, rd, cq, wr, so, got, sig>>

\* one send; to a writer that has ended it fails at once
Push == /\ Running /\ h # <<>>
        /\ LET c == Head(h)[1] IN
           \/ wr[c] = "ended" /\ UNCHANGED cq
           \/ wr[c] = "run" /\ Len(cq[c]) < CQ /\ cq' = [cq EXCEPT ![c] = Append(@, Head(h)[2])]
        /\ h' = Tail(h)
        /\ UNCHANGED <<net, rd, eq, sess, subs, task, wr, so, got, sig, abs, hist>>

\* the spawned task of a takeover
Kick(c) == /\ Running /\ c \in task
           /\ \/ wr[c] = "ended" /\ UNCHANGED cq
              \/ wr[c] = "run" /\ Len(cq[c]) < CQ /\ cq' = [cq EXCEPT ![c] = Append(@, Disc)]
           /\ task' = task \ {c}
           /\ UNCHANGED <<net, rd, eq, sess, subs, h, wr, so, got, sig, abs, hist>>

\* ---- writer task
Unreferenced(c) == /\ rd[c] = "ended" /\ c \notin task /\ sess[IdOf[c]] # c
                   /\ \A k \in 1..Len(eq) : eq[k].c # c
                   /\ \A k \in 1..Len(h) : h[k][1] # c
Writer(c) ==
    /\ Running /\ wr[c] = "run"
    /\ \/ /\ cq[c] # <<>> /\ Head(cq[c]) # Disc /\ Len(so[c]) < SO
          /\ so' = [so EXCEPT ![c] = Append(@, Head(cq[c]))] /\ cq' = [cq EXCEPT ![c] = Tail(@)] /\ UNCHANGED wr
       \/ /\ cq[c] # <<>> /\ Head(cq[c]) = Disc
          /\ wr' = [wr EXCEPT ![c] = "ended"] /\ cq' = [cq EXCEPT ![c] = <<>>] /\ so' = [so EXCEPT ![c] = Append(@, Eof)]
       \/ /\ cq[c] = <<>> /\ Unreferenced(c)
          /\ wr' = [wr EXCEPT ![c] = "ended"] /\ so' = [so EXCEPT ![c] = Append(@, Eof)] /\ UNCHANGED cq
    /\ UNCHANGED <<net, rd, eq, sess, subs, h, task, got, sig, abs, hist>>

\* ---- interrupt: the handler notices it wherever it waits; the process ends when handler and service have
Signal == Interrupt /\ sig = "no" /\ sig' = "sent"
          /\ UNCHANGED <<net, rd, eq, sess, subs, h, task, cq, wr, so, got, abs, hist>>
Stop   == sig = "sent" /\ (StopNow \/ h = <<>>) /\ sig' = "stopped" /\ h' = <<>>
          /\ UNCHANGED <<net, rd, eq, sess, subs, task, cq, wr, so, got, abs, hist>>
Exit   == sig = "stopped" /\ sig' = "exit"
          /\ UNCHANGED <<net, rd, eq, sess, subs, h, task, cq, wr, so, got, abs, hist>>

Next == \/ \E c \in Conns : Send(c) \/ Read(c) \/ Reader(c) \/ Kick(c) \/ Writer(c)
        \/ Handle \/ Push \/ Signal \/ Stop \/ Exit
Fair == /\ \A c \in Conns : WF_vars(Reader(c)) /\ WF_vars(Kick(c)) /\ WF_vars(Writer(c))
        /\ \A c \in Reads : WF_vars(Read(c))
        /\ WF_vars(Handle) /\ WF_vars(Push) /\ WF_vars(Stop) /\ WF_vars(Exit)
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
TypeOK == /\ Len(eq) <= EQ /\ \A c \in Conns : Len(cq[c]) <= CQ /\ Len(so[c]) <= SO + 1

\* C02, C03, C06: everything on its way to a client is, in order, what BrokerCore says
AsItem(x)  == IF x = Disc THEN Eof ELSE x
UpTo(q)    == IF \E k \in 1..Len(q) : q[k] = Eof
              THEN SubSeq(q, 1, CHOOSE k \in 1..Len(q) : q[k] = Eof /\ \A j \in 1..(k - 1) : q[j] # Eof) ELSE q
ForConn(c) == LET o == OutFor(h, c) IN [k \in 1..Len(o) |-> AsItem(o[k][2])]
OnItsWay(c) == UpTo(got[c] \o so[c] \o [k \in 1..Len(cq[c]) |-> AsItem(cq[c][k])] \o ForConn(c))
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Refines == \A c \in Conns : IsPrefix(OnItsWay(c), hist[c])
\* only the end of a connection may be still to be put on its way
NothingMissing == sig \in {"no", "sent"} => \A c \in Conns : hist[c] = OnItsWay(c) \/ hist[c] = Append(OnItsWay(c), Eof)

\* C07, C09, C10: the sessions and subscriptions of the service are those of BrokerCore
Agree == \A i \in Ids : /\ (sess[i] = NoConn) <=> (Owners(abs, EffectiveId(1, i)) = {})
                        /\ sess[i] # NoConn => Owners(abs, EffectiveId(1, i)) = {sess[i]} /\ subs[i] = abs.subs[sess[i]]

\* C12: clients that read get everything; every packet is processed
Served == \A c \in Reads : []<>(sig = "exit" \/ got[c] = hist[c])
Processed == []<>(sig = "exit" \/ (eq = <<>> /\ h = <<>> /\ \A c \in Conns : rd[c] = "ended" \/ inb[c] = <<>>))
\* C19: an interrupt ends the process
Stops == sig = "sent" ~> sig = "exit"
\* C20: when everything has been processed, a connection that has ended has no writer any more
Released == \A c \in Conns : []<>(sig = "exit" \/ rd[c] # "ended" \/ wr[c] = "ended")
=============================================================================
