---- MODULE MC_passwd ----
(* C15: every file of up to MaxLen entries (also with several entries for one user), every sequence of
   uses of the tool *)
EXTENDS Auth, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Users, Pws, MaxLen, InitLen
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
Lines == [u : Users, p : Pws]
VARIABLES file, last
vars == <<file, last>>
Init == file \in UNION {[1..n -> Lines] : n \in 0..InitLen} /\ last = <<>>
Set(u, p) == /\ file' = SetPw(file, u, p) /\ Len(file') <= MaxLen
             /\ last' = [op |-> "set", u |-> u, p |-> p, ok |-> TRUE]
Del(u)    == /\ file' = DelPw(file, u)
             /\ last' = [op |-> "del", u |-> u, ok |-> TRUE]
\* a name that cannot be stored
Bad(op)   == /\ UNCHANGED file
             /\ last' = [op |-> op, ok |-> FALSE]
Next == \/ \E u \in Users : Del(u) \/ \E p \in Pws : Set(u, p)
        \/ \E op \in {"badset", "baddel"} : Bad(op)
Spec == Init /\ [][Next]_vars
View == file
Table(f) == [u \in Users |-> PwOf(f, u)]
\* the line-level transformation does at the level of users what the tool is for
SetExact == [][last'.op = "set" => Table(file') = [Table(file) EXCEPT ![last'.u] = last'.p]]_vars
DelExact == [][last'.op = "del" => Table(file') = [Table(file) EXCEPT ![last'.u] = NoEntry]]_vars
BadNone  == [][~last'.ok => file' = file]_vars
\* no entry of any other user is touched
Others   == [][last'.ok => SelectSeq(file', LAMBDA l : l.u # last'.u) = SelectSeq(file, LAMBDA l : l.u # last'.u)]_vars
Emit == Out = "" \/ CSVWrite("%1$s", <<ToJson([f |-> file, t |-> file', e |-> last', o |-> Table(file')])>>, Out)
====
