---------------------------- MODULE Trace_Surface ----------------------------
(* Events recorded from the surface processes of the real code.               *)
EXTENDS Surface, TraceLib
VARIABLE i
W == INSTANCE Wind

N(g) == Len(g)
All2(g, P(_, _)) == \A j \in 1..Len(g) : \A k \in 1..Len(g[1]) : P(j, k)

JudgeNe(ev) ==
  LET exposed(j, k) == Exposed(ev.z0[j][k], ev.ne[j][k])
      nf == Len(ev.Cu[1][1])
  IN Clause("ne:finite", RSeqFinite(ev.z) /\ RSeqFinite(ev.Cu) /\ RSeqFinite(ev.pickup)) \cup
     Clause("ne:no-saturation-concentration", All2(ev.z, LAMBDA j, k : exposed(j, k) =>
         \A f \in 1..nf : REq(ev.Cu[j][k][f], 0) /\ REq(ev.Cuf[j][k][f], 0))) \cup
     Clause("ne:no-pickup", All2(ev.z, LAMBDA j, k : exposed(j, k) =>
         \A f \in 1..nf : ev.pickup[j][k][f] \preceq "1e-9")) \cup
     Clause("ne:not-below-the-layer", All2(ev.z, LAMBDA j, k : ev.z[j][k] \succeq (RMin(ev.z0[j][k], ev.ne[j][k]) -- "1e-8"))) \cup
     Clause("ne:exposed-cells-are-not-lowered", ~ev.ava => All2(ev.z, LAMBDA j, k : exposed(j, k) => ev.z[j][k] \succeq (ev.z0[j][k] -- "1e-9"))) \cup
     Clause("ne:covered-cells-move", TRUE)

JudgeMix(ev) ==
  IF ~ev.on THEN Clause("mix:off", RSeqClose(ev.m, ev.m0, "1e-14")) ELSE
  Clause("mix:as-specified", \A c \in 1..N(ev.m) : RSeqClose(ev.m[c], Mix(ev.m0[c], ev.thl[c], ev.fac ** ev.H[c]), "1e-10")) \cup
  Clause("mix:conserves-fractions", \A c \in 1..N(ev.m) : \A f \in 1..Len(ev.m[c][1]) :
      RNear(ColumnMass(ev.m[c], f), ColumnMass(ev.m0[c], f), "1e-12", "1e-9")) \cup
  Clause("mix:non-negative", \A c \in 1..N(ev.m) : \A l \in 1..Len(ev.m[c]) : \A f \in 1..Len(ev.m[c][l]) : ev.m[c][l][f] \succeq 0) \cup
  Clause("mix:below-the-disturbance", \A c \in 1..N(ev.m) : \A l \in 2..Len(ev.m[c]) :
      (Cum(ev.thl[c], l) \succ (ev.fac ** ev.H[c])) => RSeqClose(ev.m[c][l], ev.m0[c][l], "1e-14"))

JudgeWet(ev) ==
  IF ~ev.on THEN Clause("wet:off", RSeqClose(ev.z, ev.zi, "1e-14")) ELSE
  Clause("wet:as-specified", All2(ev.z, LAMBDA j, k : RClose(ev.z[j][k], WetReset(ev.zi[j][k], ev.z0[j][k], ev.zs[j][k], ev.dt, ev.T), "1e-11"))) \cup
  Clause("wet:dry-cells-stay", All2(ev.z, LAMBDA j, k : ~Wet(ev.zi[j][k], ev.zs[j][k]) => REq(ev.z[j][k], ev.zi[j][k]))) \cup
  Clause("wet:between", All2(ev.z, LAMBDA j, k : RAbs(ev.z[j][k] -- ev.z0[j][k]) \preceq (RAbs(ev.zi[j][k] -- ev.z0[j][k]) ++ "1e-12"))) \cup
  Clause("wet:water-level-stays", RSeqClose(ev.zs, ev.zs1, "1e-14"))

JudgeAvg(ev) ==
  LET span == ev.dt ** ev.acc IN
  Clause("avg:change", All2(ev.z, LAMBDA j, k : RClose(ev.dz[j][k], ev.z[j][k] -- ev.zl[j][k], "1e-12"))) \cup
  Clause("avg:yearly", All2(ev.z, LAMBDA j, k : RNear(ev.year[j][k], Yearly(ev.dz[j][k], span), "1e-10", "1e-12"))) \cup
  Clause("avg:moving-average", All2(ev.z, LAMBDA j, k : RNear(ev.avg[j][k], Average(ev.al[j][k], ev.dz[j][k], span, ev.period), "1e-10", "1e-12"))) \cup
  Clause("avg:vegetation", RSeqClose(ev.veg, ev.year, "1e-12"))

Tide(ev) == R(W!Circular(ev.t, ev.tt, ev.tv))
Row(ev, j) == [x |-> ev.x[j], toe |-> ev.toe, slope |-> ev.slope, Cs |-> ev.Cs, eta |-> ev.eta[j], sigma |-> ev.sigma[j], R |-> ev.R[j],
               tide |-> Tide(ev), Tp |-> R(W!Circular(ev.t, ev.wt, ev.wT)), dt |-> ev.dt]
JudgeDune(ev) ==
  Clause("dune:as-specified", \A j \in 1..N(ev.z) :
      LET d == Row(ev, j)  z0 == ev.z0[j] IN
      IF ~Collides(d) THEN RSeqClose(ev.z[j], z0, "1e-13")
      ELSE LET V == Volumes(d, z0)  imp == R(Impact(d))
               best == RMinSeq([k \in 1..Len(V) |-> RAbs(V[k] -- imp)])
           \* any number of cells whose volume is as close as the closest
           IN \E n \in 0..(Len(V)-1) : RAbs(V[n+1] -- imp) \preceq (best ++ ("1e-9" ** (R(1) ++ RAbs(imp)))) /\ RSeqClose(ev.z[j], Eroded(d, z0, n), "1e-9")) \cup
  Clause("dune:only-above-the-toe", \A j \in 1..N(ev.z) : ~(Twl(ev.R[j], Tide(ev)) \succ ev.toe) => RSeqClose(ev.z[j], ev.z0[j], "1e-13")) \cup
  Clause("dune:never-raises", All2(ev.z, LAMBDA j, k : ev.z[j][k] \preceq (ev.z0[j][k] ++ "1e-12"))) \cup
  Clause("dune:beach-stays", \A j \in 1..N(ev.z) : \A k \in 1..Len(ev.z[1]) : k < ToeCell(Row(ev, j), ev.z0[j]) => REq(ev.z[j][k], ev.z0[j][k]))

Judge(ev) == IF ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "ne" -> JudgeNe(ev) [] ev.kind = "mix" -> JudgeMix(ev) [] ev.kind = "wet" -> JudgeWet(ev)
     [] ev.kind = "avg" -> JudgeAvg(ev) [] ev.kind = "dune" -> JudgeDune(ev)
Tags(ev) == {ev.kind} \cup IF ev.exc # "" THEN {"exception"} ELSE
   CASE ev.kind = "ne" -> Tag("exposed", \E j \in 1..Len(ev.z) : \E k \in 1..Len(ev.z[1]) : Exposed(ev.z0[j][k], ev.ne[j][k])) \cup
                          Tag("eroding", \E j \in 1..Len(ev.z) : \E k \in 1..Len(ev.z[1]) : ev.z[j][k] \prec (ev.z0[j][k] -- "1e-6"))
     [] ev.kind = "mix" -> Tag("deep", \E c \in 1..N(ev.m) : (ev.fac ** ev.H[c]) \succ RSum(ev.thl[c]))
     [] ev.kind = "wet" -> Tag("long-step", ev.dt \succ ev.T)
     [] ev.kind = "dune" -> Tag("retreat", ~RSeqClose(ev.z, ev.z0, "1e-9")) \cup Tag("full-step", ev.full)
     [] OTHER -> {}

TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
