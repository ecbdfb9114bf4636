--------------------------------- MODULE Run ---------------------------------
(* A complete run of the model from a folder: parameters that were changed    *)
(* are written to the configuration file, hot start files replace single      *)
(* variables, a restart file replaces everything, a callback is called before *)
(* every step and may change the state, and a record is offered before the    *)
(* first and after every step.                                                *)
EXTENDS Num, Integers, Sequences, FiniteSets

Callbacks == {"none", "function", "string", "config", "missing"}
Restarts == {"none", "file", "missing"}
\* the run cannot start: the error that is raised
Error(o) == IF o.cfg = "missing" \/ o.cb = "missing" \/ o.restart = "missing" THEN "OSError" ELSE ""
\* where the value of a variable comes from when the first step starts
Source(o, v) == IF o.restart = "file" THEN "restart" ELSE IF v \in o.hot THEN "hotstart" ELSE "initial"
Called(o) == o.cb \in {"function", "string", "config"}
\* a run ends with the first step that passes the end of the simulation
More(t, tstop) == t \preceq tstop
=============================================================================
