------------------------------ MODULE Trace_Grid ------------------------------
(* Grids of the real code, and pairs of simulations that differ by a symmetry. *)
EXTENDS Grid, TraceLib
VARIABLE i
NY(ev) == Len(ev.x)
NX(ev) == Len(ev.x[1])
P(ev, j, k) == <<ev.x[j][k], ev.y[j][k]>>
All(ev, Q(_, _)) == \A j \in 1..NY(ev) : \A k \in 1..NX(ev) : Q(j, k)
JudgeGrid(ev) ==
  LET o == P(ev, 1, 1)  s == P(ev, 1, 2)
      ds == Spacing(o, s)
      dn == IF NY(ev) = 1 THEN R(1) ELSE Spacing(o, P(ev, 2, 1))
  IN Clause("orientation", Aligns(ev.alpha, o, s)) \cup
     Clause("ds", All(ev, LAMBDA j, k : RNear(ev.ds[j][k], IF NY(ev) = 1 THEN R(IF k = 1 THEN ev.x[1][2] -- ev.x[1][1] ELSE ev.x[1][k] -- ev.x[1][k-1]) ELSE ds, "1e-9", 0))) \cup
     Clause("dn", All(ev, LAMBDA j, k : RNear(ev.dn[j][k], dn, "1e-9", 0))) \cup
     Clause("area", All(ev, LAMBDA j, k : RNear(ev.dsdn[j][k], ev.ds[j][k] ** ev.dn[j][k], "1e-12", 0) /\ RNear(ev.dsdni[j][k] ** ev.dsdn[j][k], 1, "1e-12", 0)))
\* a state turned by an angle: vectors turn, the grid turns around its centre, other fields stay
JudgeTurn(ev) ==
  LET c == <<RSum(RFlat(ev.x)) // (NX(ev) * NY(ev)), RSum(RFlat(ev.y)) // (NX(ev) * NY(ev))>>
      vec(a, b, a1, b1) == \A j \in 1..NY(ev) : \A k \in 1..NX(ev) :
          LET t == Turn(<<a[j][k], b[j][k]>>, ev.angle, <<0, 0>>) IN RClose(a1[j][k], t[1], "1e-9") /\ RClose(b1[j][k], t[2], "1e-9")
  IN Clause("turn:grid", All(ev, LAMBDA j, k : LET t == Turn(P(ev, j, k), ev.angle, c) IN RClose(ev.x1[j][k], t[1], "1e-9") /\ RClose(ev.y1[j][k], t[2], "1e-9"))) \cup
     Clause("turn:vectors", \A q \in 1..Len(ev.a) : vec(ev.a[q], ev.b[q], ev.a1[q], ev.b1[q])) \cup
     Clause("turn:direction", All(ev, LAMBDA j, k : RClose(ev.d1[j][k], ev.d[j][k] ++ ev.angle, "1e-12"))) \cup
     Clause("turn:scalars", RSeqClose(ev.z1, ev.z, "0"))
\* the same simulation, transformed: f and g are lists of fields
JudgeSame(ev) ==
  Clause("sym:exception", ev.exc1 = "") \cup
  (IF ev.exc1 # "" THEN {} ELSE
   Clause(SCat("sym:", ev.sym), \A q \in 1..Len(ev.f) : RSeqClose(ev.g[q], ev.f[q], "1e-9")) \cup
   Clause("sym:time", RClose(ev.t1, ev.t, "1e-12")))
\* after a step (or a skipped step) the grid and the wind are where they were
JudgeBack(ev) ==
  Clause("back:grid", RSeqClose(ev.x1, ev.x, "1e-9") /\ RSeqClose(ev.y1, ev.y, "1e-9")) \cup
  Clause("back:wind", RSeqClose(ev.u1, ev.u, "1e-8") /\ RSeqClose(ev.v1, ev.v, "1e-8"))
Judge(ev) == IF ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "grid" -> JudgeGrid(ev) [] ev.kind = "turn" -> JudgeTurn(ev) [] ev.kind = "sym" -> JudgeSame(ev) [] ev.kind = "back" -> JudgeBack(ev)
Tags(ev) == {ev.kind} \cup IF ev.exc # "" THEN {"exception"} ELSE
   CASE ev.kind = "sym" -> {SCat("sym-", ev.sym)} \cup Tag("eroded", ev.eroded) [] ev.kind = "back" -> Tag("skipped", ev.skipped) [] OTHER -> {}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
