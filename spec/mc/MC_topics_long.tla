---- MODULE MC_topics_long ----
(* C01: names and filters of many levels.  A base of n levels (all different, or all equal), and    *)
(* the filters and names that differ from it in few places: one or two levels replaced by "+", by   *)
(* another level or by a malformed one, the rest replaced by "#", a level more, less or dropped.    *)
EXTENDS Topics, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Lengths, Deep
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""

Base(k, n)   == [i \in 1..n |-> IF k = "same" THEN "a" ELSE "l" \o ToString(i)]
Places(n)    == IF n <= Deep THEN 1..n ELSE {1, 2, n \div 2, n - 1, n}
Put(q, i, l) == [q EXCEPT ![i] = l]
Drop(q, i)   == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Grow(q, i, l) == SubSeq(q, 1, i) \o <<l>> \o SubSeq(q, i + 1, Len(q))

NamesOf(b) == {b, SubSeq(b, 1, Len(b) - 1), Append(b, "z"), Append(b, ""), <<"">> \o b, <<"$s">> \o b} \cup
              UNION {{Put(b, i, "z"), Put(b, i, ""), Drop(b, i), Grow(b, i, "z")} : i \in Places(Len(b))}
FiltersOf(b) ==
    LET n == Len(b) IN
    {b, SubSeq(b, 1, n - 1), Append(b, "z"), Append(b, "+"), Append(b, "#"), [i \in 1..n |-> "+"], <<"">> \o b, <<"+">> \o b,
     Append([i \in 1..n |-> "+"], "#"), [i \in 1..(n + 1) |-> "+"]} \cup
    UNION {{Put(b, i, "+"), Put(b, i, "z"), Put(b, i, "l+"), Put(b, i, "#"), Append(SubSeq(b, 1, i - 1), "#"), Drop(b, i),
            Append(SubSeq(Put(b, 1, "+"), 1, i), "#")} : i \in Places(n)} \cup
    {Put(Put(b, i, "+"), j, "+") : i, j \in {1, n \div 2, n}}

Kinds == {"same", "all"}
VARIABLES k, n, t
vars == <<k, n, t>>
Init == k \in Kinds /\ n \in Lengths /\ t \in NamesOf(Base(k, n))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* (only those of the neighbourhood: of other lengths a name matches nothing but filters with "#")
Filters == FiltersOf(Base(k, n))
Agree == n <= 40 => \A f \in Filters : Matches(f, t) <=> MatchesDecl(f, t)
NoMalformed == \A f \in Filters : ~ValidFilter(f) => ~MatchesDecl(f, t)
P(f) == Len(f) = Len(t) + 1 /\ f[Len(f)] = "#" /\ MatchesDecl(f, t)
Emit == Out = "" \/ CSVWrite("%1$s", <<ToJson([k |-> k, n |-> n, t |-> t, m |-> {f \in Filters : MatchesDecl(f, t) /\ ~P(f)},
                                              p |-> {f \in Filters : P(f)}, fs |-> IF t = Base(k, n) THEN Filters ELSE {}])>>, Out)
====
