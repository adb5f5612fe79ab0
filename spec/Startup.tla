------------------------------- MODULE Startup -------------------------------
(***************************************************************************)
(* C17, C18: from the sources of the settings to a broker that serves on   *)
(* every listener, or to a process that has ended with a failure.          *)
(*                                                                         *)
(* A configuration c is a record                                           *)
(*   c.file   "ok", or what is wrong with the configuration file           *)
(*   c.lis    [env, dotenv, file |-> a list of addresses or Unset]         *)
(*   c.pw     [env, dotenv, file |-> <<a password file>> or Unset]         *)
(*   c.where  where the .env file is: the working directory or above       *)
(* An address is usable ("p1", "p2", ...) or not; the same usable address  *)
(* twice is not.  A password file is valid ("A", "B", ...) or not.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Configs, Usable, ValidPw, Out
Unset == <<"unset">>

VARIABLES c, st, bound, served
vars == <<c, st, bound, served>>

\* C17: the environment, then .env, then the file
Pick(src) == IF src.env # Unset THEN src.env ELSE IF src.dotenv # Unset THEN src.dotenv ELSE src.file
Listeners(x) == Pick(x.lis)
Passwords(x) == Pick(x.pw)

Init == /\ c \in Configs /\ st = "start" /\ bound = <<>> /\ served = FALSE

Settings == /\ st = "start"
            /\ st' = IF c.file # "ok" \/ Listeners(c) = Unset \/ Passwords(c) = Unset THEN "failed" ELSE "settings"
            /\ UNCHANGED <<c, bound, served>>
Open     == /\ st = "settings" /\ st' = (IF Passwords(c)[1] \in ValidPw THEN "binding" ELSE "failed")
            /\ UNCHANGED <<c, bound, served>>
CanBind(a) == a \in Usable /\ \A i \in DOMAIN bound : bound[i] # a
Bind     == /\ st = "binding" /\ Len(bound) < Len(Listeners(c))
            /\ LET a == Listeners(c)[Len(bound) + 1] IN
               IF CanBind(a) THEN bound' = Append(bound, a) /\ UNCHANGED st
               ELSE st' = "failed" /\ bound' = <<>>
            /\ UNCHANGED <<c, served>>
Up       == /\ st = "binding" /\ Len(bound) = Len(Listeners(c)) /\ st' = "up" /\ UNCHANGED <<c, bound, served>>
Serve    == /\ st = "up" /\ ~served /\ served' = TRUE /\ UNCHANGED <<c, st, bound>>
Next == Settings \/ Open \/ Bind \/ Up \/ Serve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Final == st = "failed" \/ served
\* every configuration with what becomes of it
Emit == IF Out = "" \/ ~Final THEN TRUE
        ELSE CSVWrite("%1$s", <<ToJson([c |-> c, st |-> st, bound |-> bound,
                                        pw |-> IF st = "up" THEN Passwords(c)[1] ELSE ""])>>, Out)

TypeOK == st \in {"start", "settings", "binding", "up", "failed"}
\* C18: a client is served only when all listeners are up; a start that fails has served nobody and binds nothing
AllOrNothing == /\ served => st = "up"
                /\ st = "up" => bound = Listeners(c) /\ Passwords(c)[1] \in ValidPw
                /\ st = "failed" => ~served /\ bound = <<>>
\* the outcome is a function of the effective settings alone
Good == /\ c.file = "ok" /\ Listeners(c) # Unset /\ Passwords(c)[1] \in ValidPw
        /\ \A i \in DOMAIN Listeners(c) : Listeners(c)[i] \in Usable /\ \A j \in 1..(i - 1) : Listeners(c)[j] # Listeners(c)[i]
Outcome == Final => (st = "up" <=> Good)
Decided == <>Final
\* C17: what a source says does not matter if one before it says something
Overrides == \A v \in {Unset, <<"other">>} :
    /\ (c.pw.env # Unset => Pick([c.pw EXCEPT !.dotenv = v, !.file = v]) = c.pw.env)
    /\ (c.pw.env = Unset /\ c.pw.dotenv # Unset => Pick([c.pw EXCEPT !.file = v]) = c.pw.dotenv)
    /\ (c.pw.env = Unset /\ c.pw.dotenv = Unset => Pick(c.pw) = c.pw.file)
\* settings are independent of each other, and of where .env lies
Independent == \A x \in {[env |-> <<"other">>, dotenv |-> Unset, file |-> Unset], c.pw}, w \in {"cwd", "above"} :
    Listeners([c EXCEPT !.pw = x, !.where = w]) = Listeners(c)
=============================================================================
