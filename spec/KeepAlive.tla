------------------------------ MODULE KeepAlive ------------------------------
(***************************************************************************)
(* C21: which sessions have exceeded their keep-alive interval.            *)
(* Times are milliseconds relative to the present; the session table maps  *)
(* client identifiers to the interval (seconds) and the last activity.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Ids, Intervals, Times, Out

\* whole seconds of one and a half times the interval, rounded down
Leeway(k) == (3 * k) \div 2
Expired(k, last, now) == k # 0 /\ last + 1000 * Leeway(k) <= now

VARIABLES tab, ev, ended
vars == <<tab, ev, ended>>
None == <<>>
Held == {i \in Ids : tab[i] # None}
ExpiredIds(t) == {i \in Ids : t[i] # None /\ Expired(t[i][1], t[i][2], 0)}

Nothing == [op |-> "init", id |-> "", k |-> 0, t |-> 0]
Init == tab = [i \in Ids |-> None] /\ ev = Nothing /\ ended = ""
Insert(i, k, t)  == tab' = [tab EXCEPT ![i] = <<k, t>>] /\ ev' = [op |-> "insert", id |-> i, k |-> k, t |-> t] /\ ended' = ""
Activity(i, t)   == /\ tab' = IF tab[i] = None THEN tab ELSE [tab EXCEPT ![i] = <<@[1], t>>]
                    /\ ev' = [op |-> "activity", id |-> i, k |-> 0, t |-> t] /\ ended' = ""
End(i, how)      == /\ tab' = [tab EXCEPT ![i] = None] /\ ended' = IF tab[i] = None THEN "" ELSE i
                    /\ ev' = [op |-> how, id |-> i, k |-> 0, t |-> 0]
Next == \E i \in Ids : \/ \E k \in Intervals, t \in Times : Insert(i, k, t)
                       \/ \E t \in Times : Activity(i, t)
                       \/ \E h \in {"lost", "disconnect"} : End(i, h)
Spec == Init /\ [][Next]_vars

View == tab
Emit == IF Out = "" THEN TRUE
        ELSE CSVWrite("%1$s", <<ToJson([f |-> tab, t |-> tab', e |-> ev',
               o |-> <<[expired |-> ExpiredIds(tab'), ended |-> ended', count |-> Cardinality({i \in Ids : tab'[i] # None})]>>])>>, Out)

\* what the definition says
NeverWithoutInterval == \A i \in Held : tab[i][1] = 0 => i \notin ExpiredIds(tab)
OnlyHeld == ExpiredIds(tab) \subseteq Held
\* of two sessions with the same interval the one that was active earlier does not expire later
Monotone == \A i, j \in Held : tab[i][1] = tab[j][1] /\ tab[i][2] <= tab[j][2] /\ j \in ExpiredIds(tab) => i \in ExpiredIds(tab)
\* the other clients are not concerned
Others == [][\A i \in Ids : i # ev'.id => tab'[i] = tab[i]]_vars
=============================================================================
