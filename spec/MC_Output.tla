----------------------------- MODULE MC_Output ------------------------------
(* All runs, killed at any point, over output and restart intervals.  Buffered *)
(* is a design that keeps records in memory until the end: it loses records.  *)
EXTENDS Output, TLC
CONSTANTS MaxT, Intervals, Every, Buffered, Dump
VARIABLES c, t, phase, tout, trst, buffer, file, rfiles, written, at
vars == <<c, t, phase, tout, trst, buffer, file, rfiles, written, at>>

Init == /\ c \in [start : {0, 3}, interval : Intervals, every : Every, stop : {3, MaxT}]
        /\ t = c.start /\ phase = "write" /\ tout = 0 /\ trst = 0 /\ buffer = <<>> /\ file = <<>> /\ rfiles = <<>> /\ written = <<>> /\ at = "none"
\* the runner writes what is due at the present time
Write == /\ phase = "write"
         /\ written' = Append(written, t)
         /\ IF Due(t, tout, c.interval)
            THEN /\ tout' = t
                 /\ IF Buffered THEN buffer' = Append(buffer, t) /\ file' = file ELSE file' = Append(file, t) /\ buffer' = buffer
            ELSE UNCHANGED <<tout, buffer, file>>
         /\ IF DueRestart(t, trst, c.every) THEN trst' = t /\ rfiles' = Append(rfiles, t) ELSE UNCHANGED <<trst, rfiles>>
         /\ phase' = "written" /\ UNCHANGED <<c, t, at>>
Loop == /\ phase = "written" /\ phase' = (IF t <= c.stop THEN "callback" ELSE "end") /\ UNCHANGED <<c, t, tout, trst, buffer, file, rfiles, written, at>>
Callback == /\ phase = "callback" /\ phase' = "step" /\ UNCHANGED <<c, t, tout, trst, buffer, file, rfiles, written, at>>
Step == /\ phase = "step" /\ t' = t + 1 /\ phase' = "write" /\ UNCHANGED <<c, tout, trst, buffer, file, rfiles, written, at>>
End == /\ phase = "end" /\ phase' = "done" /\ file' = file \o buffer /\ buffer' = <<>> /\ UNCHANGED <<c, t, tout, trst, rfiles, written, at>>
\* the process is killed: what is in memory is lost
Kill == /\ phase \in {"callback", "step", "written", "write"} /\ at' = phase /\ phase' = "killed" /\ buffer' = <<>> /\ UNCHANGED <<c, t, tout, trst, file, rfiles, written>>
Next == Write \/ Loop \/ Callback \/ Step \/ End \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Write \/ Loop \/ Callback \/ Step \/ End)

Complete == (phase \in {"done", "killed"}) => file = Records(written, 0, c.interval)
Resumable == rfiles = Restarts(written, 0, c.every)
Ordered == \A k \in 1..(Len(file) - 1) : file[k] < file[k+1]
Tiles == \A k \in 1..Len(file) : /\ REq(Bounds(file, k)[2], file[k]) /\ (k > 1 => REq(Bounds(file, k)[1], Bounds(file, k-1)[2]))
\* at most the interval since the last record is lost
Recent == (~Buffered /\ phase = "killed" /\ Len(file) > 0) => (written[Len(written)] - file[Len(file)]) < c.interval
Stops == <>(phase \in {"done", "killed"})
DumpIt == (Dump /\ phase \in {"done", "killed"}) => JAppend(JEnv("SCEN"), [interval |-> c.interval, every |-> c.every, start |-> c.start, stop |-> c.stop, at |-> at, steps |-> t - c.start])
=============================================================================
