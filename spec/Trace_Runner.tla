---------------------------- MODULE Trace_Runner ----------------------------
(* Histories recorded from the real AeoLiSRunner.  Each history starts from   *)
(* Init0 and every recorded operation is matched with the corresponding       *)
(* action of Runner; the variables of the specification that the code exposes *)
(* (time, step, counters, statistics, netCDF records) are compared.           *)
EXTENDS Runner, TraceLib
VARIABLES h, k, st, bad

Close(x, y)  == RNear(x, y, "1e-9", "1e-12")
Close32(x, y) == RNear(x, y, "3e-7", "1e-9")
NVar == 4
SeqClose32(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Close32(x[i], y[i])

\* column i of variable v over the window
Col(win, v, i) == [j \in 1..Len(win) |-> win[j][v][i]]
\* cancellation in a one-pass variance is relative to the mean square
VarTol(w) == "1e-9" ** (RSum([j \in 1..Len(w) |-> w[j] ** w[j]]) ++ "1e-12")
StatOK(win, v, s, narrow) ==
    \A i \in 1..Len(s.v) :
        LET w == RForce(Col(win, v, i))
            e == Stat(w, s.name)
        IN (Len(w) > 0 \/ s.name \in {"avg", "sum", "var"}) =>
           IF s.name = "var" THEN RAbs(s.v[i] -- e) \preceq ((VarTol(w)) ++ ("4e-7" ** RAbs(e)))
           ELSE IF narrow THEN Close32(s.v[i], e) ELSE RNear(s.v[i], e, "1e-9", "1e-12")

JudgeUpdate(c, o) ==
    LET s2 == Update(c, st, o.arg, o.rate, o.dzb, o.grids) IN
    Clause("time:clock", Close(o.t, s2.t)) \cup
    Clause("time:strictly-increasing", st.t \prec o.t) \cup
    Clause("time:step", Close(o.dt, s2.dt)) \cup
    Clause("time:positive-and-at-most-requested",
           ~Skips(o.arg) => (o.dt \succ 0 /\ o.dt \preceq (Requested(c, o.arg) ** "1.000001"))) \cup
    Clause("time:cfl", (c.explicit /\ c.CFL \succ 0 /\ ~Skips(o.arg) /\ ~Stalled(c, o.arg, o.rate))
                        => ((o.dt ** o.rate) \preceq (R(c.CFL) ** "1.000001"))) \cup
    Clause("time:count", o.steps = s2.steps) \cup
    Clause("stat:window-length", o.n = Len(s2.win)) \cup
    Clause("stat:statistics-of-window",
           \A v \in 1..NVar : \A j \in 1..Len(o.stats[v]) : StatOK(s2.win, v, o.stats[v][j], FALSE))

JudgeWrite(c, o) ==
    LET s2 == Write(c, st)
        wrote == Due(c, st)
        nr == Len(s2.recs)
    IN Clause("sched:write-keeps-time", Close(o.t, st.t)) \cup
       Clause("sched:records", Len(o.nc.times) = nr /\ \A j \in 1..Len(o.nc.times) : j <= nr => Close(o.nc.times[j], s2.recs[j])) \cup
       Clause("sched:strictly-increasing", Increasing(o.nc.times)) \cup
       Clause("sched:time-bounds",
              /\ Len(o.nc.bounds) = Len(o.nc.times)
              /\ \A j \in 1..Len(o.nc.bounds) : LET b == TimeBounds(o.nc.times)[j] IN
                    Close32(o.nc.bounds[j][1], b[1]) /\ Close32(o.nc.bounds[j][2], b[2])) \cup
       Clause("sched:one-length", Len(o.nc.lens) = 1 /\ o.nc.lens[1] = Len(o.nc.times)) \cup
       Clause("sched:record-equals-state",
              wrote => \A v \in 1..NVar : Len(o.nc.last[v]) = 0 \/ SeqClose32(o.nc.last[v], o.grids[v])) \cup
       Clause("stat:record-equals-window-statistics",
              wrote => \A v \in 1..NVar : \A j \in 1..Len(o.nc.stat[v]) :
                          (Len(st.win) > 0) => StatOK(st.win, v, o.nc.stat[v][j], TRUE)) \cup
       Clause("stat:cleared-after-record", wrote => o.n = 0)

\* get_var of a statistic reports the statistic of the current window
JudgeGet(c, o) ==
    Clause("stat:get-var-answers", o.stat # "" => Len(o.v) > 0) \cup
    Clause("stat:get-var-statistic",
           (o.stat # "" /\ o.var # 0 /\ Len(o.v) > 0) => StatOK(st.win, o.var, [name |-> o.stat, v |-> o.v], FALSE))

Step(c, o) == CASE o.op = "update" -> Update(c, st, o.arg, o.rate, o.dzb, o.grids)
                [] o.op = "write"  -> Write(c, st)
                [] o.op = "get"    -> GetVar(st, o.clear)
                [] OTHER -> st
\* after a disagreement the history continues from the observed state
Resync(s, o) == IF o.op \in {"update"} THEN [s EXCEPT !.t = o.t, !.dt = o.dt, !.steps = o.steps,
                                             !.win = IF o.n = Len(s.win) THEN s.win ELSE <<>>]
                ELSE IF o.op = "write" THEN [s EXCEPT !.recs = o.nc.times]
                ELSE s
Judge(c, o) == IF o.exc /= "" THEN {"no-exception"} ELSE
               CASE o.op = "update" -> JudgeUpdate(c, o) [] o.op = "write" -> JudgeWrite(c, o)
                 [] o.op = "get" -> JudgeGet(c, o) [] OTHER -> {}

(* ---------------------------------------------------------- complete runs   *)
RECURSIVE RunTimes(_, _, _)
RunTimes(c, dts, j) == \* time levels t_0 .. t_j
    IF j = 0 THEN <<R(c.tstart)>>
    ELSE LET p == RunTimes(c, dts, j-1) IN Append(p, p[Len(p)] ++ (dts[j] ** c.accfac))
RECURSIVE Records(_, _, _, _)
Records(c, ts, j, tout) ==
    IF j > Len(ts) THEN <<>>
    ELSE LET due == ((ts[j] -- tout) \succeq c.interval) \/ REq(ts[j], 0)
         IN IF due THEN <<ts[j]>> \o Records(c, ts, j+1, ts[j]) ELSE Records(c, ts, j+1, tout)
JudgeRun(e) ==
    IF e.exc /= "" THEN {"no-exception"} ELSE
    LET n == Len(e.dts)
        ts == RForce(RunTimes(e.cfg, e.dts, n))
        rec == Records(e.cfg, ts, 1, R(0))
    IN Clause("time:run-clock", Close(e.t, ts[n+1])) \cup
       Clause("time:run-steps-positive", \A j \in 1..n : e.dts[j] \succ 0) \cup
       Clause("time:run-cfl", e.cfg.explicit => \A j \in 1..n : (e.dts[j] ** e.rates[j]) \preceq "1.000001") \cup
       Clause("time:run-covers-simulation",
              /\ n >= 1 /\ e.t \succ e.cfg.tstop /\ ts[n] \preceq e.cfg.tstop) \cup
       Clause("time:callback-once-per-step-at-start",
              Len(e.callbacks) = n /\ \A j \in 1..n : Close(e.callbacks[j], ts[j])) \cup
       Clause("sched:run-records", Len(rec) = Len(e.nc.times) /\ \A j \in 1..Len(rec) : Close(rec[j], e.nc.times[j])) \cup
       Clause("sched:one-length", Len(e.nc.lens) = 1 /\ e.nc.lens[1] = Len(e.nc.times))
IsRun(e) == "run" \in DOMAIN e
RunTags(e) == {"run", IF e.cfg.explicit THEN "run-explicit" ELSE "run-implicit"}
OpTags(c, o) == IF o.exc /= "" \/ o.op # "update" THEN {o.op}
                ELSE {IF Skips(o.arg) THEN "skip" ELSE IF Stalled(c, o.arg, o.rate) THEN "stalled" ELSE "step"} \cup
                     Tag("cfl-limited", ~Skips(o.arg) /\ CflBound(c, o.rate) \prec Requested(c, o.arg)) \cup
                     Tag("bed-change-limited", ~Skips(o.arg) /\ BedBound(c, st) \prec Requested(c, o.arg)) \cup
                     Tag("cleared", st.clear)

TraceInit == h = 1 /\ k = 0 /\ bad = {} /\ st = <<>>
E == Events[h]
TraceNext ==
    /\ h <= Len(Events)
    /\ IF IsRun(E) THEN /\ Report(h, JudgeRun(E), RunTags(E)) /\ Finish(h)
                        /\ h' = h + 1 /\ UNCHANGED <<k, st, bad>>
       ELSE IF k = 0 THEN k' = 1 /\ st' = Init0(E.cfg) /\ UNCHANGED <<h, bad>>
       ELSE IF k > Len(E.ops)
            THEN /\ Finish(h) /\ h' = h + 1 /\ k' = 0 /\ st' = <<>> /\ bad' = {}
       ELSE LET o == E.ops[k] IN
            /\ Report(h, Judge(E.cfg, o), OpTags(E.cfg, o))
            /\ st' = IF o.exc /= "" THEN st ELSE Resync(Step(E.cfg, o), o)
            /\ k' = k + 1 /\ UNCHANGED <<h, bad>>
=============================================================================
