-------------------------------- MODULE Auth --------------------------------
(***************************************************************************)
(* Who is admitted.  A password file is a sequence of entries [u, p]: user *)
(* name and the password the entry was made for (the file holds a hash of  *)
(* it).  The broker reads it once; a later entry for the same user name    *)
(* replaces an earlier one.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

NoEntry  == "-no entry-"
NoUser   == "-no user name-"
Missing  == "-no password-"

RECURSIVE PwOf(_, _)
PwOf(file, u) == IF file = <<>> THEN NoEntry
                 ELSE LET n == Len(file) IN
                      IF file[n].u = u THEN file[n].p ELSE PwOf(SubSeq(file, 1, n - 1), u)

\* the decision on a CONNECT with user name u and password p
Decide(file, u, p) == u = NoUser \/ (p # Missing /\ PwOf(file, u) = p /\ p # NoEntry)

\* ---- the password tool, on the lines of the file
Has(file, u) == \E i \in DOMAIN file : file[i].u = u

\* set: every entry of u is replaced in place; without one, a new entry is appended
SetPw(file, u, p) == IF Has(file, u)
                     THEN [i \in DOMAIN file |-> IF file[i].u = u THEN [u |-> u, p |-> p] ELSE file[i]]
                     ELSE Append(file, [u |-> u, p |-> p])

\* delete: every entry of u is removed
RECURSIVE DelPw(_, _)
DelPw(file, u) == IF file = <<>> THEN <<>>
                  ELSE (IF Head(file).u = u THEN <<>> ELSE <<Head(file)>>) \o DelPw(Tail(file), u)
=============================================================================
