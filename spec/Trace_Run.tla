------------------------------ MODULE Trace_Run ------------------------------
(* Complete runs of the real runner, next to the same model stepped by hand.  *)
EXTENDS Run, TraceLib
VARIABLE i

SameNum(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a :
    /\ RAbs(a[k][1] -- b[k][1]) \preceq (("1e-9" ** RMax(a[k][2], b[k][2])) ++ "1e-300")
    /\ RClose(a[k][3], b[k][3], "1e-9") /\ REq(a[k][4], b[k][4])
SameFp(a, b) == SameNum(a.num, b.num) /\ a.txt = b.txt
Same(w, x, y) == Clause(SCat(w, ":time"), RClose(x.t, y.t, "1e-12")) \cup Clause(SCat(w, ":state"), SameFp(x.s, y.s)) \cup Clause(SCat(w, ":parameters"), SameFp(x.p, y.p))
                 \cup Clause(SCat(w, ":counters"), SameFp(x.c, y.c))

\* variables that no start file touches keep the value the configuration gives them
Untouched(ev) == \A k \in DOMAIN ev.hand.initial.num : (k \in DOMAIN ev.hot \/ ev.opt.restart = "file" \/ k \notin DOMAIN ev.calls[1].fp.s.num) \/
                    LET x == ev.hand.initial.num[k]  y == ev.calls[1].fp.s.num[k] IN RAbs(x[1] -- y[1]) \preceq (("1e-9" ** RMax(x[2], y[2])) ++ "1e-300")

Good(ev) ==
  LET o == [ev.opt EXCEPT !.hot = DOMAIN ev.hot]  h == ev.hand  n == Len(h.pre) IN
    \* hot start files hold the values, in any layout; a restart file overrides them
    (UNION {Clause("hot:values", Source(o, v) # "hotstart" \/ RSeqClose(h.loaded[v], ev.hot[v], "1e-12")) : v \in DOMAIN ev.hot}) \cup
    Clause("calls:number", Len(ev.calls) = IF Called(o) THEN n ELSE 0) \cup
    (IF Len(ev.calls) # n THEN {} ELSE
       UNION {Same("calls", ev.calls[k].fp, h.pre[k].fp) : k \in 1..n} \cup
       Clause("calls:begin", n > 0 => SameFp(ev.calls[1].fp.s, h.begin.s) /\ Untouched(ev)) \cup
       Clause("calls:before-end", \A k \in 1..n : More(ev.calls[k].t, ev.calls[k].tstop) /\ (k = 1 => REq(ev.calls[k].tstop, ev.tstop))) \cup
       Clause("calls:folder", \A k \in 1..n : ev.calls[k].cwd = ev.calls[1].cwd)) \cup
    Same("end", ev.got.final, h.final) \cup
    Clause("end:statistics", SameFp(ev.got.final.o, h.final.o)) \cup
    Clause("end:output", SameFp(ev.written, h.written)) \cup
    Clause("end:folder", ev.got.cwd) \cup
    \* changed parameters are written, after a copy of the configuration file is made
    Clause("parameters:backup", IF o.param THEN Len(ev.got.backup) = 1 /\ ev.got.backup[1] /\ ~ev.got.same ELSE Len(ev.got.backup) = 0 /\ ev.got.same)

JudgeRun(ev) ==
  IF ev.hand_exc # "" THEN Clause("hand:no-exception", FALSE)
  ELSE IF Error(ev.opt) # "" THEN Clause("error", ev.raised = Error(ev.opt))
  ELSE IF ev.exc # "" THEN Clause("no-exception", FALSE) ELSE Good(ev)
Judge(ev) == IF ev.kind # "run" THEN {SCat(ev.kind, ":unknown")} ELSE JudgeRun(ev)
Tags(ev) == {SCat("case-", ev.case), SCat("cb-", ev.opt.cb), SCat("restart-", ev.opt.restart), SCat("cfg-", ev.opt.cfg)} \cup Tag("param", ev.opt.param) \cup Tag("away", ev.opt.away)
            \cup {SCat("hot-", v) : v \in {ev.opt.hot[k] : k \in 1..Len(ev.opt.hot)}}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
