----------------------------- MODULE Trace_Bed -----------------------------
(* Events recorded from aeolis.bed.update, one per grid cell and call.        *)
EXTENDS BedExchange, TraceLib
VARIABLE i

Judge(ev) ==
  IF ev.exc /= "" THEN {"no-exception"} ELSE
  LET sc  == Scale0(ev.m, ev.pk)
      tol == R("1e-6") ++ (ev.eps // sc)
      exp == Exchange(ev.m, ev.pk, ev.gd)
      dz  == IF ev.bedupdate THEN BedRise(ev.pk, ev.rho) ELSE R(0)
  IN Clause("finite", RSeqFinite(ev.post)) \cup
     Clause("bed-level-follows-net-deposit", RNear(ev.zb[2] -- ev.zb[1], dz, "1e-9", "1e-10")) \cup
     Clause("water-level-moves-with-bed", RNear(ev.zs[2] -- ev.zs[1], IF ev.tide THEN dz ELSE R(0), "1e-9", "1e-10")) \cup
     Clause("layer-totals-kept", LayerTotalsKept(ev.m, ev.post, tol, sc)) \cup
     Clause("column-balance", ColumnBalance(ev.m, ev.post, ev.pk, ev.gd, tol, sc)) \cup
     Clause("non-negative", Affordable(ev.m, ev.pk) => NonNegative(ev.post, ev.eps ++ ("1e-9" ** sc))) \cup
     Clause("exchange-matches-specification",
            \A l \in 1..Len(exp) : \A f \in 1..Len(exp[l]) : Within(exp[l][f], ev.post[l][f], tol, sc))

Tags(ev) ==
  IF ev.exc /= "" THEN {"exception"} ELSE
  {Sign(ev.pk), ev.variant} \cup
  Tag("buried", ~(RNeg(Total(ev.pk)) \prec Total(ev.m[1]))) \cup
  Tag("gross-erosion-in-net-deposition",
      Sign(ev.pk) = "deposition" /\ \E f \in 1..Len(ev.pk) : ev.pk[f] \succ 0)

TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
