---- MODULE MC_wide ----
(* Simulated, not enumerated: hundreds of connections at the same time.                        *)
(* A step belongs to a connection chosen at random (all events of all connections would be too *)
(* many successors to choose from).                                                            *)
EXTENDS Broker, IOUtils

N == atoi(IOEnv.MC_N)
\* in how many of 100 steps the connection of the step before goes on (with publications, mostly)
Again == IF "MC_AGAIN" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_AGAIN) ELSE 0
\* whether all the connections come, and subscribe to the filter almost everybody holds, before anything else
Join == "MC_JOIN" \in DOMAIN IOEnv /\ IOEnv.MC_JOIN = "1"
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cConns == 1..N
cFS == {<< <<"a">> >>, << <<"a">> >>, << <<"a","b">>, <<"+">> >>, << <<"a","+">> >>, << <<"#">> >>, << <<"b">>, <<"a","b","c">> >>, << <<"+","b">> >>}
cTS == {<<"a">>, <<"b">>, <<"a","b">>, <<"a","b","c">>, <<"c","b">>}
AllF == UNION {Range(q) : q \in cFS}
Tab == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]

E(o, c) == [op |-> o, c |-> c]
\* what connection c may do next, in the shares in which it does it
Could(c) ==
    CASE s.ph[c] = "off"   -> {E("open", c)}
      [] s.ph[c] = "fresh" -> {[op |-> "connect", c |-> c, id |-> i, cred |-> k] :
                                  i \in {"", ToString(c), ToString(c % 64)}, k \in {"anon"}}
      [] s.ph[c] = "dead"  -> {E("fin", c)}
      [] s.ph[c] = "up"    ->
           LET r == RandomElement({x \in 1..100 : s.ph[c] = "up"}) IN
           CASE r <= Again /\ s.subs[c] # {} -> {[op |-> "pub", c |-> c, topic |-> t] : t \in cTS}
             [] r <= 48 -> {[op |-> "sub", c |-> c, fs |-> << <<"a">> >>]}        \* (a filter almost everybody holds)
             [] r <= 66 -> {[op |-> "sub", c |-> c, fs |-> f] : f \in cFS}
             [] r <= 80 -> {[op |-> "unsub", c |-> c, fs |-> f] : f \in cFS}
             [] r <= 90 -> {[op |-> "pub", c |-> c, topic |-> t] : t \in cTS}
             [] r <= 95 -> {E("ping", c)}
             [] OTHER   -> {E("fin", c), E("rst", c), E("disc", c), E("bad", c)}

\* (the sets depend on s, so that TLC chooses anew in every step)
Whose == IF /\ "c" \in DOMAIN last.e /\ RandomElement({x \in 1..100 : s = s}) <= Again /\ s.ph[last.e.c] \in {"fresh", "up"}
         THEN last.e.c ELSE RandomElement(ConnsOf(s))
\* (three steps of each)
Joining == LET lvl == TLCGet("level") - 1   c == (lvl \div 3) + 1 IN
           CASE s.ph[c] = "off" -> E("open", c)
             [] s.ph[c] = "fresh" -> [op |-> "connect", c |-> c, id |-> RandomElement({i \in {"", ToString(c)} : s = s}), cred |-> "anon"]
             [] OTHER -> [op |-> "sub", c |-> c, fs |-> << <<"a">> >>]
NextW == IF Join /\ TLCGet("level") <= 3 * N THEN Step(Joining) ELSE
         \E c \in {Whose} : \E e \in {RandomElement(Could(c))} : Step(e)
SpecW == Init /\ [][NextW]_vars

\* UniqueOwner of Broker, in a form that can be evaluated for so many
Unique == LET up == {c \in Conns : s.ph[c] = "up"} IN Cardinality({s.id[c] : c \in up}) = Cardinality(up)

EmitPh == IF Out = "" THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson([n |-> TLCGet("level"), s |-> [ph |-> s.ph], e |-> last.e, o |-> last.out])>>, Out)
====
