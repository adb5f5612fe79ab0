---- MODULE MC_startup ----
EXTENDS Startup, IOUtils
cOut == IF "MC_OUT" \in DOMAIN IOEnv THEN IOEnv.MC_OUT ELSE ""
cUsable == {"p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "i1", "six", "name"}
cValid == {"A", "B", "C", "empty"}
Src(e, d, f) == [env |-> e, dotenv |-> d, file |-> f]
\* C17: every combination of sources, each unset, good or bad
Sources == {[file |-> "ok", lis |-> Src(a, b, d), pw |-> Src(x, y, z), where |-> w] :
              a \in {Unset, <<"p1">>, <<"i1", "p1">>}, b \in {Unset, <<"p2">>, <<"p2", "i1">>}, d \in {Unset, <<"p3">>, <<"i1", "p3">>},
              x \in {Unset, <<"A">>}, y \in {Unset, <<"B">>}, z \in {Unset, <<"C">>}, w \in {"cwd", "above"}}
SourcesBad == {[file |-> "ok", lis |-> Src(a, b, d), pw |-> Src(x, y, z), where |-> w] :
              a \in {Unset, <<"p1">>, <<"busy">>, <<"blank">>}, b \in {Unset, <<"p2">>, <<"noport">>}, d \in {Unset, <<"p3">>, <<"foreign">>},
              x \in {Unset, <<"A">>, <<"missing">>, <<"blank">>}, y \in {Unset, <<"B">>, <<"badlast">>, <<"blank">>}, z \in {Unset, <<"C">>, <<"missing">>},
              w \in {"cwd", "above"}}
\* C18: every list of up to three addresses with every password file, and every broken configuration file
Bad   == {"busy", "foreign", "nonsense", "noport", "bigport"}
Items == {"p1", "p2", "i1"} \cup Bad
Lists == {<<a>> : a \in Items} \cup {<<a, b>> : a, b \in Items}
L3    == {q \in {<<a, b, d>> : a, b, d \in Items} : Cardinality({i \in 1..3 : q[i] \in Bad}) <= 1}
Nine  == <<"p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9">>
L9    == {Nine} \cup {[Nine EXCEPT ![i] = b] : i \in 1..9, b \in {"busy", "foreign"}} \cup {[Nine EXCEPT ![i] = "p1"] : i \in 2..9}
FileOnly(f, l, p) == [file |-> f, lis |-> Src(Unset, Unset, l), pw |-> Src(Unset, Unset, <<p>>), where |-> "cwd"]
Pws   == {"A", "empty", "missing", "badfirst", "badlast", "badmiddle", "directory", "notutf8"}
Faults == {FileOnly("ok", l, "A") : l \in Lists \cup L3 \cup L9}
          \cup {FileOnly("ok", l, p) : l \in {<<"p1">>, <<"p1", "p2">>, <<"p1", "busy">>, <<"busy">>}, p \in Pws}
          \cup {FileOnly(f, l, p) : f \in {"missing", "notoml", "nosection", "nokey", "wrongtype", "directory", "truncated"},
                                    l \in {<<"p1">>, <<"p1", "p2">>, <<"busy">>}, p \in {"A", "missing"}}
          \cup {FileOnly("ok", l, p) : l \in {<<"six", "p1">>, <<"p1", "six", "i1">>, <<"name">>, <<"p1", "name">>}, p \in {"A", "badlast"}}
====
