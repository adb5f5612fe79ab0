------------------------------- MODULE Cycles -------------------------------
(***************************************************************************)
(* C20: what the broker keeps for a client, and that all of it goes when   *)
(* the client goes.  A client of a kind comes, is given something to keep, *)
(* and its connection ends in some way; any number of times.               *)
(*                                                                         *)
(* Kept: the resources the broker holds for it, by what they are reached   *)
(* from.  An end of the connection releases what is reached only from the  *)
(* connection at once, and what is reached from the session because the    *)
(* session ends with its connection (C09).                                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json, CSV
CONSTANTS Loads, Ends, Out
VARIABLES s, last
vars == <<s, last>>

Resources == {"socket", "read buffer", "write buffer", "queue", "reader", "writer", "session", "subscriptions"}
\* what a load makes the broker keep, besides what every connected client has
Needs(l) == {"socket", "read buffer", "write buffer", "queue", "reader", "writer"} \cup
            (IF l \in {"refused"} THEN {} ELSE {"session"}) \cup
            (IF l \in {"filters", "levels", "churn", "queued"} THEN {"subscriptions"} ELSE {})
ByConnection == {"socket", "read buffer", "write buffer", "queue", "reader", "writer"}
BySession    == {"session", "subscriptions"}

Init == s = [at |-> "away", load |-> "none", kept |-> {}] /\ last = [op |-> "init"]
Come(l) == /\ s.at = "away" /\ last' = [op |-> "come", load |-> l]
           /\ s' = [s EXCEPT !.at = "here", !.load = l, !.kept = Needs(l)]
End(e)  == /\ s.at = "here" /\ last' = [op |-> "end", load |-> s.load, end |-> e]
           /\ s' = [s EXCEPT !.at = "away", !.load = "none", !.kept = (@ \ ByConnection) \ BySession]
Next == (\E l \in Loads : Come(l)) \/ (\E e \in Ends : End(e))
Spec == Init /\ [][Next]_vars
View == s
Emit == IF Out = "" THEN TRUE
        ELSE CSVWrite("%1$s", <<ToJson([f |-> s, t |-> s', e |-> last', o |-> s'.kept])>>, Out)
\* nothing of a client that is gone is left
NothingLeft == s.at = "away" => s.kept = {}
TypeOK == s.kept \subseteq Resources
=============================================================================
