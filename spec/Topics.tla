------------------------------- MODULE Topics -------------------------------
(***************************************************************************)
(* Topic names, topic filters and the matching relation of MQTT 3.1.1      *)
(* (section 4.7).  A name or filter is the sequence of its levels, i.e.    *)
(* the string split at "/"; "a//b" is <<"a", "", "b">>, "/" is <<"", "">>. *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Chars(l)   == {SubSeq(l, i, i) : i \in 1..Len(l)}
HasWild(l) == Chars(l) \cap {"+", "#"} # {}
Dollar(l)  == Len(l) > 0 /\ SubSeq(l, 1, 1) = "$"

ValidName(t) == /\ Len(t) > 0
                /\ t # <<"">>
                /\ \A i \in 1..Len(t) : ~HasWild(t[i])

ValidFilter(f) == /\ Len(f) > 0
                  /\ f # <<"">>
                  /\ \A i \in 1..Len(f) :
                        \/ ~HasWild(f[i])
                        \/ f[i] = "+"
                        \/ f[i] = "#" /\ i = Len(f)

\* level-by-level matching from position i on
RECURSIVE Levels(_, _, _)
Levels(f, t, i) ==
    IF i > Len(f) THEN i > Len(t)
    ELSE IF f[i] = "#" THEN TRUE                         \* any number of further levels, also none
    ELSE /\ i <= Len(t)
         /\ (f[i] = "+" \/ f[i] = t[i])
         /\ Levels(f, t, i + 1)

Matches(f, t) == /\ ValidFilter(f)
                 /\ ValidName(t)
                 /\ ~(f[1] \in {"+", "#"} /\ Dollar(t[1]))
                 /\ Levels(f, t, 1)

-----------------------------------------------------------------------------
\* An independent, declarative definition: a filter stands for the set of names
\* obtained by choosing a level for every "+" and a sequence of levels for "#".
Fits(f, t) ==
    LET n == Len(f)  m == Len(t) IN
    IF n > 0 /\ f[n] = "#"
    THEN m >= n - 1 /\ \A i \in 1..(n-1) : f[i] = "+" \/ f[i] = t[i]
    ELSE m = n /\ \A i \in 1..n : f[i] = "+" \/ f[i] = t[i]

MatchesDecl(f, t) == /\ ValidFilter(f) /\ ValidName(t)
                     /\ Fits(f, t)
                     /\ (Dollar(t[1]) => f[1] \notin {"+", "#"})

-----------------------------------------------------------------------------
\* Known deviation of the code (known finding of C01): the filter P/# does not match
\* the name P.  The repository's own unit test pins this, so it is recorded, not
\* repaired.  ParentOnly singles out exactly those pairs; no configuration of the
\* other specifications uses such a pair.
ParentOnly(f, t) == /\ Len(f) = Len(t) + 1
                    /\ f[Len(f)] = "#"
                    /\ Matches(f, t)
=============================================================================
