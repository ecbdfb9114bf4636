------------------------------- MODULE MC_Store -------------------------------
(* All sequences of assignments, protections and queries of bounded length.   *)
EXTENDS Store, TLC
CONSTANTS MaxOps, Dump
VARIABLES m, ops, ver
vars == <<m, ops, ver>>
Names == <<"Ct", "mass", "ustar", "zb">>       \* model state variables, in alphabetical order
Extra == {"xnew"}                              \* a variable added to the state later
Params == {"tstop", "zb_par"}
All == {Names[k] : k \in 1..Len(Names)} \cup Extra \cup Params \cup {"nothing"}
Init == /\ m = [s |-> Assign(New, [k \in 1..Len(Names) |-> <<Names[k], 0>>]), p |-> [k \in Params |-> 0]] /\ ops = <<>> /\ ver = 0
Log(o) == ops' = Append(ops, o) /\ ver' = ver + 1
V == ver + 1                                   \* every assignment brings a new value
Do ==
  \/ \E k \in All : m' = SetVar(m, k, V) /\ Log([op |-> "set", k |-> k, v |-> V])
  \/ \E i \in 0..5 : m' = SetVarIndex(m, Names, i, V) /\ ~Has(m.s, "xnew") /\ Log([op |-> "setindex", i |-> i, v |-> V])
  \/ \E k \in {"zb", "Ct", "xnew"} : m' = [m EXCEPT !.s = SetItem(@, k, V)] /\ Log([op |-> "item", k |-> k, v |-> V])
  \/ \E a \in {"zb", "Ct"}, b \in {"mass", "xnew", "zb"} : m' = [m EXCEPT !.s = Assign(@, <<<<a, V>>, <<b, V + 100>>>>)] /\ a # b /\ Log([op |-> "update", kv |-> <<<<a, V>>, <<b, V + 100>>>>])
  \/ \E k \in {"zb", "Ct", "mass", "xnew"} : m' = [m EXCEPT !.s = Protect(@, k)] /\ Log([op |-> "protect", k |-> k])
  \/ \E k \in {"zb", "Ct", "mass"} : m' = [m EXCEPT !.s = Release(@, k)] /\ Log([op |-> "release", k |-> k])
Next == Len(ops) < MaxOps /\ Do
Spec == Init /\ [][Next]_vars
View == <<m, Len(ops)>>

Last == ops'[Len(ops')]
\* a protected variable keeps its value whatever is assigned, until it is released
Protected == [][\A k \in DOMAIN m.s.val : (k \notin m.s.mut) => m'.s.val[k] = m.s.val[k]]_vars
\* other variables take the value of the last assignment
LastWins == [][(Last.op \in {"set", "item"} /\ Has(m.s, Last.k) /\ Last.k \in m.s.mut) => m'.s.val[Last.k] = Last.v]_vars
\* one assignment touches one name, and names never disappear
Frame == [][Last.op \in {"set", "item"} => \A k \in DOMAIN m.s.val \ {Last.k} : m'.s.val[k] = m.s.val[k]]_vars
Grows == [][DOMAIN m.s.val \subseteq DOMAIN m'.s.val /\ DOMAIN m'.p = DOMAIN m.p]_vars
Ignored == [][(Last.op = "set" /\ Last.k = "nothing") => m' = m]_vars
MutKnown == m.s.mut \subseteq DOMAIN m.s.val
DumpIt == (Dump /\ Len(ops) = MaxOps) => JAppend(JEnv("SCEN"), [ops |-> ops])
=============================================================================
