------------------------------ MODULE TraceLib ------------------------------
(* Judging recorded histories.  A trace module defines Judge(ev), the set of  *)
(* names of the property clauses the event violates, and Tags(ev), the names  *)
(* of the cases the event exercises; TraceNext walks the trace and reports    *)
(* every event (never stopping at the first bad one).                         *)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

Events  == JLoad(JEnv("TRACE"))
Verdict == JEnv("VERDICT")

Report(k, bad, tags) ==
    IF bad = {} /\ tags = {} THEN TRUE
    ELSE JAppend(Verdict, [idx |-> k, clauses |-> bad, tags |-> tags])

Finish(k) == IF k = Len(Events) THEN JAppend(Verdict, [done |-> k]) ELSE TRUE

\* a named clause: {name} when the condition fails
Clause(name, ok) == IF ok THEN {} ELSE {name}
Tag(name, yes)   == IF yes THEN {name} ELSE {}
=============================================================================
