---- MODULE MC_topics ----
(* C01: the matching relation, over all filters of up to MaxF levels and all names of up to MaxT
   levels from small alphabets of levels.  A state is a name; every name is written out with the
   filters that match it. *)
EXTENDS Topics, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS MaxF, MaxT, FLevels, TLevels
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""

Filters == UNION {[1..n -> FLevels] : n \in 1..MaxF}

VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxT /\ \E l \in TLevels : t' = Append(t, l)
Spec == Init /\ [][Next]_t

\* the recursive and the declarative definition agree
Agree == Len(t) > 0 => \A f \in Filters : Matches(f, t) <=> MatchesDecl(f, t)

\* sanity of the relation itself
Reflexive == ValidName(t) => Matches(t, t) /\ (Matches(<<"#">>, t) <=> ~Dollar(t[1]))
PlusOne   == ValidName(t) => (Matches([i \in 1..Len(t) |-> "+"], t) <=> ~Dollar(t[1]))
NoMalformed == \A f \in Filters : ~ValidFilter(f) => ~Matches(f, t)
Parent == ValidName(t) => ParentOnly(Append(t, "#"), t)

Emit == Out = "" \/ Len(t) = 0 \/ ~ValidName(t) \/
        CSVWrite("%1$s", <<ToJson([t |-> t, m |-> {f \in Filters : Matches(f, t) /\ ~ParentOnly(f, t)},
                                   p |-> {f \in Filters : ParentOnly(f, t)}])>>, Out)
====
