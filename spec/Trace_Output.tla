---------------------------- MODULE Trace_Output ----------------------------
(* Output files, restart files and slices of records of the real model.       *)
EXTENDS Output, TraceLib
VARIABLE i

SeqSet(s) == {s[k] : k \in 1..Len(s)}
Requested(ev) == UNION {Names(ev.q[k].v, SeqSet(ev.q[k].stats)) : k \in 1..Len(ev.q)}
Times(times, bounds, ts, interval) == LET due == Records(ts, R(0), interval) IN
    Clause("records:times", RSeqClose(times, due, "1e-15")) \cup
    Clause("records:bounds", Len(bounds) = Len(times) /\ (Len(times) = Len(due) => \A k \in 1..Len(due) : RSeqClose(bounds[k], Bounds(due, k), "1e-15")))
JudgeLayout(ev) ==
  LET g == ev.got  sz == Sizes(ev.c) IN
    Clause("layout:dimensions", \A d \in DOMAIN sz : d \in DOMAIN g.dims /\ g.dims[d] = sz[d]) \cup
    Clause("layout:variables", DOMAIN g.var = (Standard \cup Requested(ev))) \cup
    Clause("layout:axes", \A k \in 1..Len(ev.q) : \A v \in Names(ev.q[k].v, SeqSet(ev.q[k].stats)) : v \in DOMAIN g.var => g.var[v].dims = Dims(ev.q[k].v)) \cup
    Clause("layout:units", \A k \in 1..Len(ev.q) : \A e \in SeqSet(ev.q[k].stats) \ {"var"} : LET v == CHOOSE v \in Names(ev.q[k].v, {e}) : TRUE IN
        v \in DOMAIN g.var => g.var[v].units = Units(ev.q[k].v)) \cup
    Clause("layout:coordinates", RSeqClose(g.co.x, ev.got.x, "1e-7") /\ RSeqClose(g.co.y, ev.got.y, "1e-7") /\
        RSeqClose(g.co.s, [k \in 1..sz.s |-> k - 1], "1e-12") /\ RSeqClose(g.co.n, [k \in 1..sz.n |-> k - 1], "1e-12") /\ RSeqClose(g.co.layers, [k \in 1..sz.layers |-> k - 1], "1e-12")) \cup
    Clause("layout:grain-sizes", RSeqClose(g.co.fractions, ev.size, "1e-7")) \cup
    Clause("layout:reference-date", g.var["time"].units = SCat("seconds since ", ev.refdate) /\ g.var["time_bounds"].units = SCat("seconds since ", ev.refdate)) \cup
    Times(g.times, g.bounds, g.t, ev.interval)
At(ts, t) == CHOOSE k \in 1..Len(ts) : REq(ts[k], t)
JudgeKill(ev) ==
  LET due == Records(ev.ts, R(0), ev.interval)  rst == Restarts(ev.ts, R(0), ev.every)  g == ev.got IN
    Clause("kill:as-planned", (ev.sc.at = "none") <=> (ev.ended = 0)) \cup
    Times(g.times, g.bounds, ev.ts, ev.interval) \cup
    Clause("records:values", Len(g.times) = Len(due) => \A v \in DOMAIN g.vals : /\ Len(g.vals[v]) = Len(due)
        /\ \A k \in 1..Len(due) : RSeqClose(g.vals[v][k], ev.ref[At(ev.ts, due[k])].o[v], "1e-6")) \cup
    Clause("restart:files", Len(ev.saved) = Len(rst) /\ \A k \in 1..Len(rst) : REq(ev.saved[k].t, rst[k])) \cup
    Clause("restart:values", Len(ev.saved) = Len(rst) => \A k \in 1..Len(rst) : \A v \in DOMAIN ev.saved[k].s : RSeqClose(ev.saved[k].s[v], ev.ref[At(ev.ts, rst[k])].s[v], "1e-12"))
JudgeDump(ev) == Clause("dump:starts-the-model", ev.shapes /\ RSeqClose(ev.got, ev.rec, "1e-12"))

Judge(ev) == IF ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "layout" -> JudgeLayout(ev) [] ev.kind = "kill" -> JudgeKill(ev) [] ev.kind = "dump" -> JudgeDump(ev)
Tags(ev) == {ev.kind} \cup IF ev.exc # "" THEN {"exception"} ELSE
   CASE ev.kind = "kill" -> {SCat("killed-", ev.sc.at), SCat("case-", ev.case)} \cup Tag("restart-files", Len(ev.saved) > 0)
     [] ev.kind = "dump" -> {SCat("dump-", ev.how)}
     [] OTHER -> Tag("two-dimensional", ev.c.ny > 1) \cup Tag("long-run", ev.got.t[1] \succ "16777216")
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
