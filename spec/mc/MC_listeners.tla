---- MODULE MC_listeners ----
(* C16: the broker of module Broker behind several listeners.  `at` says through which one a connection came;
   BrokerCore does not know it. *)
EXTENDS Broker, IOUtils
CONSTANT Listeners
VARIABLE at
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cFS == {<< <<"a">> >>}
cTS == {<<"a">>}
\* for the simulated configuration
cFSx == {<< <<"a">> >>, << <<"a", "+">>, <<"b">> >>, << <<"#">> >>, << <<"+">> >>}
cTSx == {<<"a">>, <<"b">>, <<"a", "b">>}
AllF == UNION {Range(q) : q \in cFS \cup cFSx}
Tab == [f \in AllF |-> [t \in cTS \cup cTSx |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
InitL == Init /\ at = [c \in Conns |-> 0]
Keep  == at' = [c \in Conns |-> IF s'.ph[c] = "off" THEN 0 ELSE at[c]]
NextL == \/ \E e \in Events : e.op # "open" /\ Step(e) /\ Keep
         \/ \E e \in Events, l \in Listeners :
               /\ e.op = "open" /\ Step([op |-> "open", c |-> e.c, l |-> l])
               /\ at' = [at EXCEPT ![e.c] = l]
SpecL == InitL /\ [][NextL]_<<vars, at>>
ViewL == <<s, at>>
With(st, a) == [ph |-> st.ph, id |-> st.id, subs |-> st.subs, at |-> a]
EmitL == IF Out = "" THEN TRUE
         ELSE CSVWrite("%1$s", <<ToJson([f |-> With(s, at), t |-> With(s', at'), e |-> last'.e, o |-> last'.out])>>, Out)
EmitStateL == IF Out = "" THEN TRUE
         ELSE CSVWrite("%1$s", <<ToJson([n |-> TLCGet("level"), s |-> With(s, at), e |-> last.e, o |-> last.out])>>, Out)
\* what a connection gets does not depend on the listeners: every choice of them leads to the same BrokerCore states
Attached == \A c \in Conns : (at[c] = 0) <=> (s.ph[c] = "off")
====
