--------------------------- MODULE Trace_Isolation ---------------------------
(* Interleaved operations on several real models, each compared with the same *)
(* operations on a model that is alone in its process.                        *)
EXTENDS Isolation, TraceLib
VARIABLE i

SameNum(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a :
    /\ RAbs(a[k][1] -- b[k][1]) \preceq (("1e-9" ** RMax(a[k][2], b[k][2])) ++ "1e-300")
    /\ RClose(a[k][3], b[k][3], "1e-9") /\ REq(a[k][4], b[k][4])
SameFp(a, b) == SameNum(a.num, b.num) /\ a.txt = b.txt
Compare(x, y) == Clause("time", RClose(x.t, y.t, "1e-12")) \cup Clause("state", SameFp(x.s, y.s)) \cup Clause("parameters", SameFp(x.p, y.p))
                 \cup Clause("counters", SameFp(x.c, y.c)) \cup Clause("statistics", SameFp(x.o, y.o))

\* hash: of every model after every operation (0 when absent); solo: fingerprints of the lives of the models
JudgeSchedule(ev) ==
  LET n == Len(ev.ops)
      own(k) == {j \in 1..k : ev.ops[j].i = ev.ops[k].i}
      born(k) == CHOOSE j \in own(k) : ev.ops[j].op = "create" /\ \A l \in own(k) : l > j => ev.ops[l].op # "create"
      age(k) == Cardinality({j \in own(k) : j >= born(k)})
      life(k) == Cardinality({j \in own(k) : ev.ops[j].op = "create"})
  IN UNION {LET o == ev.ops[k] IN
       Clause("operation:no-exception", o.exc = "") \cup
       (IF o.exc # "" THEN {} ELSE
          LET alone == ev.solo[o.i][life(k)] IN
          IF alone.exc # "" \/ age(k) > Len(alone.fps) THEN {} ELSE Compare(o.fp, alone.fps[age(k)])) \cup
       \* the other models are not touched
       (IF k = 1 THEN {} ELSE Clause("others-untouched", \A m \in 1..Len(o.hash) : m = o.i \/ o.hash[m] = ev.ops[k-1].hash[m])) \cup
       Clause("defaults-kept", o.deflt = ev.deflt) : k \in 1..n} \cup
     UNION {UNION {LET a == ev.solo[m][l] IN
        Clause("alone:no-exception", a.exc = "") \cup
        (IF a.again.exc # "" THEN {} ELSE UNION {Clause("repeatable", Compare(a.fps[j], a.again.fps[j]) = {}) : j \in 1..Len(a.fps)}) : l \in 1..Len(ev.solo[m])} : m \in 1..Len(ev.solo)} \cup
     UNION {LET w == ev.written[m] IN Clause("output-file", SameFp(w.got, w.alone)) : m \in 1..Len(ev.written)}

Judge(ev) == IF ev.kind # "schedule" THEN {SCat(ev.kind, ":unknown")} ELSE JudgeSchedule(ev)
Tags(ev) == {ev.kind} \cup {SCat("op-", ev.ops[j].op) : j \in 1..Len(ev.ops)} \cup {SCat("case-", ev.ops[j].case) : j \in 1..Len(ev.ops)}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
