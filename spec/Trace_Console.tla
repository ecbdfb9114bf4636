----------------------------- MODULE Trace_Console -----------------------------
(* Real commands and the files they leave, against the machine of files.       *)
EXTENDS Console, TraceLib
VARIABLE i

Prev(ev, k) == IF k = 1 THEN ev.first ELSE ev.steps[k - 1].fs
StepOk(ev, k) == LET s == ev.steps[k] IN
   Clause(SCat(s.c.do, ":outcome"), [fs |-> s.fs, ok |-> s.ok] \in After(Prev(ev, k), s.c)) \cup
   Clause("folder", s.ok => s.back) \cup Clause("ends", ~s.timeout)
Judge(ev) == IF ev.kind # "shell" THEN {SCat(ev.kind, ":unknown")}
             ELSE Clause("start", ev.first = Start) \cup (UNION {StepOk(ev, k) : k \in 1..Len(ev.steps)})
Tags(ev) == {SCat(ev.steps[k].c.do, IF ev.steps[k].c.do = "run" THEN SCat("-", ev.steps[k].c.how) ELSE "") : k \in 1..Len(ev.steps)}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
