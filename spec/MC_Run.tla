------------------------------- MODULE MC_Run -------------------------------
(* All runs over the options of a run and up to MaxSteps steps of any length. *)
EXTENDS Run, TLC
CONSTANTS MaxSteps, TStop, Dts, Dump
VARIABLES o, phase, src, t, calls, steps, offered, changed, folder
vars == <<o, phase, src, t, calls, steps, offered, changed, folder>>

Known == {"zb", "mass", "moist", "Ct"}
Options == [cfg : {"file", "missing"}, cb : Callbacks, restart : Restarts, hot : {{}, {"zb"}, {"mass", "moist"}, {"zb", "Ct", "unknown"}, {"unknown"}}, away : BOOLEAN, param : BOOLEAN]
Init == /\ o \in Options /\ (o.cfg = "missing" => o.cb = "none" /\ o.restart = "none" /\ o.hot = {} /\ ~o.param)
        /\ phase = "new" /\ src = [v \in Known |-> "none"] /\ t = 0 /\ calls = 0 /\ steps = 0 /\ offered = 0 /\ changed = FALSE
        /\ folder = IF o.away THEN "elsewhere" ELSE "model"
Fail == phase' = "failed" /\ UNCHANGED <<o, src, t, calls, steps, offered, changed, folder>>
Begin == /\ phase = "new" /\ o.cfg = "file"
         /\ folder' = "model" /\ changed' = o.param /\ phase' = "callback"
         /\ UNCHANGED <<o, src, t, calls, steps, offered>>
Parse == /\ phase = "callback" /\ o.cb # "missing" /\ phase' = "init"
         /\ UNCHANGED <<o, src, t, calls, steps, offered, changed, folder>>
Initialize == /\ phase = "init" /\ phase' = "hot" /\ src' = [v \in Known |-> "initial"]
              /\ UNCHANGED <<o, t, calls, steps, offered, changed, folder>>
HotStart == /\ phase = "hot" /\ phase' = "restart" /\ src' = [v \in Known |-> IF v \in o.hot THEN "hotstart" ELSE src[v]]
            /\ UNCHANGED <<o, t, calls, steps, offered, changed, folder>>
Restart == /\ phase = "restart" /\ o.restart # "missing" /\ phase' = "record"
           /\ src' = [v \in Known |-> IF o.restart = "file" THEN "restart" ELSE src[v]]
           /\ t' = IF o.restart = "file" THEN 2 ELSE 0
           /\ UNCHANGED <<o, calls, steps, offered, changed, folder>>
Record == /\ phase = "record" /\ offered' = offered + 1 /\ phase' = IF More(t, TStop) THEN "call" ELSE "end"
          /\ UNCHANGED <<o, src, t, calls, steps, changed, folder>>
Call == /\ phase = "call" /\ calls' = calls + (IF Called(o) THEN 1 ELSE 0) /\ phase' = "step"
        /\ UNCHANGED <<o, src, t, steps, offered, changed, folder>>
Step == /\ phase = "step" /\ steps < MaxSteps /\ \E d \in Dts : t' = t + d /\ steps' = steps + 1 /\ phase' = "record"
        /\ UNCHANGED <<o, src, calls, offered, changed, folder>>
End == /\ phase = "end" /\ phase' = "done" /\ folder' = (IF o.away THEN "elsewhere" ELSE "model")
       /\ UNCHANGED <<o, src, t, calls, steps, offered, changed>>
Next == Begin \/ Parse \/ Initialize \/ HotStart \/ Restart \/ Record \/ Call \/ Step \/ End
        \/ (phase = "new" /\ o.cfg = "missing" /\ Fail) \/ (phase = "callback" /\ o.cb = "missing" /\ Fail) \/ (phase = "restart" /\ o.restart = "missing" /\ Fail)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Loaded == phase \in {"record", "call", "step", "end", "done"} => \A v \in Known : src[v] = Source(o, v)
Counts == /\ (phase \in {"record", "call", "end", "done"} => calls = IF Called(o) THEN steps ELSE 0)
          /\ (phase \in {"call", "step", "end", "done"} => offered = steps + 1)
Fails == (phase = "failed" => Error(o) # "") /\ (phase = "done" => Error(o) = "")
Written == phase = "done" => changed = o.param
Home == phase \in {"new", "done"} => folder = IF o.away THEN "elsewhere" ELSE "model"
Ends == phase = "done" => ~More(t, TStop)
Answers == <>(phase \in {"done", "failed"} \/ steps = MaxSteps)
DumpIt == (Dump /\ phase \in {"done", "failed"}) => JAppend(JEnv("SCEN"), [opt |-> o])
=============================================================================
