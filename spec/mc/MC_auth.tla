---- MODULE MC_auth ----
(* C08: every password file with at most one entry per user, every pair of user name and password
   presented, after every kind of earlier attempt *)
EXTENDS Auth, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Users, Pws, Files, Track
Out == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
Presented == {[u |-> u, p |-> p] : u \in Users \cup {"stranger"}, p \in Pws \cup {"other", Missing}}
             \cup {[u |-> NoUser, p |-> Missing]}
\* all tables as files in one order of the users
Order == CHOOSE q \in [1..Cardinality(Users) -> Users] : \A a, b \in DOMAIN q : a # b => q[a] # q[b]
FileOf(tab) == LET F[i \in 0..Len(Order)] == IF i = 0 THEN <<>>
                   ELSE IF tab[Order[i]] = NoEntry THEN F[i-1] ELSE Append(F[i-1], [u |-> Order[i], p |-> tab[Order[i]]])
               IN F[Len(Order)]
AllFiles == {FileOf(tab) : tab \in [Users -> Pws \cup {NoEntry}]}
FullFiles == {FileOf(tab) : tab \in {t \in [Users -> Pws] : \A u \in Users : t[u] = CHOOSE p \in Pws : TRUE}}

VARIABLES file, prev, last
vars == <<file, prev, last>>
Init == /\ file \in (IF Files = "all" THEN AllFiles ELSE FullFiles)
        /\ prev = [u |-> "none yet", p |-> Missing] /\ last = <<>>
Attempt(e) == /\ last' = [e |-> e, ok |-> Decide(file, e.u, e.p)]
              /\ prev' = IF Track THEN e ELSE prev
              /\ UNCHANGED file
Next == \E e \in Presented : Attempt(e)
Spec == Init /\ [][Next]_vars
View == <<file, prev>>
\* the decision is a function of the file's entry for this user name and of the password alone
Local == [][\A g \in {f \in AllFiles : PwOf(f, last'.e.u) = PwOf(file, last'.e.u)} : Decide(g, last'.e.u, last'.e.p) = last'.ok]_vars
Exact == [][last'.ok <=> (last'.e.u = NoUser \/ \E i \in DOMAIN file : file[i] = last'.e)]_vars
Emit == Out = "" \/ CSVWrite("%1$s", <<ToJson([f |-> [file |-> file, prev |-> prev], t |-> [file |-> file, prev |-> prev'],
                                     e |-> last'.e, o |-> <<last'.ok>>])>>, Out)
====
