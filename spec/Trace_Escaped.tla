--------------------------- MODULE Trace_Escaped ---------------------------
(* Exceptions that escaped from the code under test on valid input.           *)
EXTENDS TraceLib
VARIABLE i
Judge(ev) == Clause("no-exception", ev.exc = "")
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), {"escaped"})
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
