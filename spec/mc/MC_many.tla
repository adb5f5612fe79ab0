---- MODULE MC_many ----
(* Simulated, not enumerated: a few connections that hold hundreds of filters each, most of which match the same *)
(* names, subscribed and unsubscribed one by one and in long lists.                                              *)
EXTENDS Broker, IOUtils

SE == INSTANCE SequencesExt

L == atoi(IOEnv.MC_L)
\* how many of 100 steps end a connection
Ends == atoi(IOEnv.MC_ENDS)
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cConns == 1..4
cTS  == [1..L -> {"a", "b"}]
Full == [1..L -> {"a", "b", "+"}]
\* (not with L - 1 levels and more: whether P/# matches P is the matter of C01)
Open == UNION {{Append(p, "#") : p \in [1..n -> {"a", "b", "+"}]} : n \in 0..(L - 2)}
All  == SE!SetToSeq(Full \cup Open)
AllF == Range(All)
Tab  == [f \in AllF |-> [t \in cTS |-> Matches(f, t)]]
cMatch(f, t) == Tab[f][t]
N    == Len(All)
cFS  == {<<f>> : f \in AllF}
\* parts of that list: from j on, n filters, every k-th
Part(j, n, k) == [i \in 1..n |-> All[1 + ((j + (i * k)) % N)]]

E(o, c) == [op |-> o, c |-> c]
Could(c) ==
    CASE s.ph[c] = "off"   -> {E("open", c)}
      [] s.ph[c] = "fresh" -> {[op |-> "connect", c |-> c, id |-> i, cred |-> "anon"] : i \in IF Ends > 4 THEN {ToString(c)} ELSE {"", ToString(c)}}
      [] s.ph[c] = "dead"  -> {E("fin", c)}
      [] s.ph[c] = "up"    ->
           LET R(n) == RandomElement({x \in 1..n : s.ph[c] = "up"})
               r == R(100)
               fs == Part(R(N), IF R(2) = 1 THEN R(4) ELSE R(IF R(3) = 1 THEN N ELSE 60), IF R(2) = 1 THEN 1 ELSE R(40))
           IN CASE r <= 30 -> {[op |-> "sub", c |-> c, fs |-> fs]}
                [] r <= 50 -> {[op |-> "unsub", c |-> c, fs |-> fs]}
                [] r <= 98 - Ends -> {[op |-> "pub", c |-> c, topic |-> RandomElement({t \in cTS : s.ph[c] = "up"})]}
                [] r <= 100 - Ends -> {E("ping", c)}
                [] OTHER   -> {E("fin", c), E("disc", c), E("rst", c)}

NextM == \E c \in {RandomElement(ConnsOf(s))} : \E e \in {TLCEval(RandomElement(Could(c)))} : Step(e)
SpecM == Init /\ [][NextM]_vars
Unique == LET up == {c \in Conns : s.ph[c] = "up"} IN Cardinality({s.id[c] : c \in up}) = Cardinality(up)
EmitPh == IF Out = "" THEN TRUE
          ELSE CSVWrite("%1$s", <<ToJson([n |-> TLCGet("level"), s |-> [ph |-> s.ph], e |-> last.e, o |-> last.out])>>, Out)
====
