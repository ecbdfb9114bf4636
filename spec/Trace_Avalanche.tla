--------------------------- MODULE Trace_Avalanche ---------------------------
(* Events recorded from the avalanching of real beds: single slides and       *)
(* complete avalanches.                                                       *)
EXTENDS Avalanche, TraceLib
VARIABLE i

TanDeg(a) == RTan(a ** "0.017453292519943295")
Same(z1, z2, tol) == RSeqClose(z1, z2, tol)
All(z, P(_, _)) == \A j \in 1..AJ(z) : \A k \in 1..AI(z) : P(j, k)
\* no sand can reach the outermost cells: everything within reach of them stays still
Judge(ev) ==
  IF ev.exc # "" THEN {"no-exception"} ELSE
  IF ~RSeqFinite(ev.z) THEN {"finite"} ELSE
  LET ts == TanDeg(ev.ts)  td == TanDeg(ev.td)
      m0 == MaxSlope(ev.z0, ev.ds, ev.dn)
      go == ev.on /\ m0 \succ ts
      floor(j, k) == ev.z[j][k] \succeq (ev.ne[j][k] -- "1e-9")
      \* what still stands steeper than the dynamic angle is held by the non-erodible layer
      rest(j, k)  == Slope(ev.z, ev.ds, ev.dn, j, k) \preceq (td ++ "1e-3") \/ ev.z[j][k] \preceq (ev.ne[j][k] ++ "0.001")
      edge(j, k)  == Inside(ev.z, j, k) \/ REq(ev.z[j][k], ev.z0[j][k])
  IN Clause("gentle-beds-stay", ~go => Same(ev.z0, ev.z, "1e-12")) \cup
     Clause("boundary-cells-stay", All(ev.z, edge)) \cup
     Clause("not-below-the-non-erodible-layer", All(ev.z, floor)) \cup
     Clause("no-new-peak", RMaxSeq(RFlat(ev.z)) \preceq (RMaxSeq(RFlat(ev.z0)) ++ "1e-9")) \cup
     Clause("no-new-pit", RMinSeq(RFlat(ev.z)) \succeq (RMinSeq(RFlat(ev.z0)) -- "1e-9")) \cup
     Clause("sand-only-leaves", Volume(ev.z) \preceq (Volume(ev.z0) ++ "1e-9")) \cup
     Clause("comes-to-rest", (go /\ ev.n >= 1000) => All(ev.z, rest)) \cup
     Clause("sand-is-conserved", (go /\ ev.n <= 4) =>
        LET RECURSIVE out(_, _)
            out(z, n) == IF n = 0 \/ MaxSlope(z, ev.ds, ev.dn) \prec td THEN R(0)
                         ELSE Lost(z, ev.ne, ev.ds, ev.dn, td) ++ out(RForce(Slide(z, ev.ne, ev.ds, ev.dn, td)), n - 1)
        IN RNear(Volume(ev.z0) -- Volume(ev.z), out(ev.z0, ev.n), "1e-9", "1e-9")) \cup
     Clause("island-is-conserved", ev.island => RNear(Volume(ev.z0), Volume(ev.z), "1e-9", "1e-9")) \cup
     Clause("slides-as-specified", (go /\ ev.n <= 4) => Same(ev.z, Settle(ev.z0, ev.ne, ev.ds, ev.dn, ts, td, ev.n), "1e-9"))

Tags(ev) == IF ev.exc # "" THEN {"exception"} ELSE
   LET go == ev.on /\ MaxSlope(ev.z0, ev.ds, ev.dn) \succ TanDeg(ev.ts) IN
   {SCat("rows-", IStr(Len(ev.z0)))} \cup Tag("slides", go) \cup Tag("rest", ~go) \cup Tag("complete", go /\ ev.n >= 1000) \cup
   Tag("island", ev.island /\ go) \cup
   Tag("floor-touched", \E j \in 1..AJ(ev.z) : \E k \in 1..AI(ev.z) : ev.z[j][k] \prec (ev.ne[j][k] ++ "0.001"))

TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
