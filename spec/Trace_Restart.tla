---------------------------- MODULE Trace_Restart ----------------------------
(* Interrupted and resumed runs of the real code against the uninterrupted run. *)
EXTENDS Restart, TraceLib
VARIABLE i

\* fingerprints: a weighted sum with its scale, a weighted count of non-finite numbers, the size
SameNum(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a :
    /\ RAbs(a[k][1] -- b[k][1]) \preceq (("1e-9" ** RMax(a[k][2], b[k][2])) ++ "1e-300")
    /\ RClose(a[k][3], b[k][3], "1e-9") /\ REq(a[k][4], b[k][4])
SameFp(a, b) == SameNum(a.num, b.num) /\ a.txt = b.txt
Compare(x, y) == Clause("time", RClose(x.t, y.t, "1e-12") /\ RClose(x.dt, y.dt, "1e-9")) \cup Clause("state", SameFp(x.s, y.s)) \cup Clause("previous-state", SameFp(x.l, y.l))
                 \cup Clause("parameters", SameFp(x.p, y.p)) \cup Clause("counters", SameFp(x.c, y.c))

Index(ref, t) == CHOOSE k \in 1..Len(ref) : RClose(ref[k].t, t, "1e-12")
Known(ref, t) == \E k \in 1..Len(ref) : RClose(ref[k].t, t, "1e-12")
KnownFile(ref, t) == \E k \in 1..Len(ref) : REq(RFloor(ref[k].t), t)
\* state of the walk: n (index in the reference, 0 when down), tr (time of the last restart file), bad
Walk(ev) ==
  LET f[k \in 0..Len(ev.ops)] ==
        IF k = 0 THEN [n |-> 1, tr |-> R(0), bad |-> {}, files |-> {}]
        ELSE LET q == f[k-1]  o == ev.ops[k] IN RForce(
          CASE o.op = "step" ->
                 IF o.exc # "" THEN [q EXCEPT !.bad = @ \cup {"step:no-exception"}]
                 ELSE LET t == o.post.t  due == DumpDue(ev.every, t, q.tr)
                          fs == IF due THEN q.files \cup {RToInt(t)} ELSE q.files
                      IN [n |-> q.n + 1, tr |-> IF due THEN R(t) ELSE q.tr, files |-> fs,
                          bad |-> q.bad \cup (IF q.n + 1 > Len(ev.ref) THEN {} ELSE Compare(o.post, ev.ref[q.n+1])) \cup
                                  Clause("restart-files", {RToInt(o.files[j]) : j \in 1..Len(o.files)} = fs)]
            [] o.op = "crash" -> [q EXCEPT !.n = 0]
            [] o.op = "start" -> [q EXCEPT !.n = 1, !.tr = R(0), !.bad = @ \cup Compare(o.post, ev.ref[1])]
            [] o.op = "resume" ->
                 IF o.exc # "" \/ ~o.ok THEN [q EXCEPT !.bad = @ \cup {"resume:accepted"}]
                 ELSE IF ~Known(ev.ref, o.tt) \/ ~REq(RFloor(o.tt), o.at) THEN [q EXCEPT !.bad = @ \cup {"restart-files"}]
                 ELSE LET j == Index(ev.ref, o.tt) IN [q EXCEPT !.n = j, !.tr = R(ev.ref[j].t), !.bad = @ \cup Compare(o.post, ev.ref[j])]
            [] o.op = "damaged" -> [q EXCEPT !.bad = @ \cup Clause("damaged-file-rejected", o.exc # "") \cup Compare(o.post, o.before)])
  IN f[Len(ev.ops)]

JudgeHistory(ev) == Walk(ev).bad \cup Clause("reference-files", \A j \in 1..Len(ev.dumps) : KnownFile(ev.ref, ev.dumps[j]))
JudgeRun(ev) ==
  IF Len(ev.runs) < 2 THEN {"run:wrote-restart-files"} ELSE
  LET a == ev.runs[1]  b == ev.runs[2]
      later == {j \in 1..Len(a.files) : a.files[j].at \succ b.at}
  IN Compare(a.final, b.final) \cup
     Clause("restart-files", {RToInt(a.files[j].at) : j \in later} = {RToInt(b.files[j].at) : j \in 1..Len(b.files)}) \cup
     UNION {UNION {Compare(a.files[j].im, b.files[k].im) : k \in {k \in 1..Len(b.files) : REq(b.files[k].at, a.files[j].at)}} : j \in later} \cup
     Clause("restart-file-names", \A j \in 1..Len(a.files) : REq(RFloor(a.files[j].im.t), a.files[j].at))

Judge(ev) == IF ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE IF ev.kind = "history" THEN JudgeHistory(ev) ELSE JudgeRun(ev)
Tags(ev) == {ev.kind} \cup IF ev.kind = "history" THEN UNION {{SCat("op-", ev.ops[j].op)} : j \in 1..Len(ev.ops)} ELSE {}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
