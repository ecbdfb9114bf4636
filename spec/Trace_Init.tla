------------------------------ MODULE Trace_Init ------------------------------
(* Models started by the real code, one event per configuration.              *)
EXTENDS Init, TraceLib
VARIABLE i

Seq0(n, v) == [k \in 1..n |-> R(v)]
Cells(ev) == ev.g.d.ny * ev.g.d.nx
Expand(s, n) == [k \in 1..(Len(s) * n) |-> s[((k - 1) \div n) + 1]]
SameAs(got, want) == RSeqClose(got, want, "1e-12")
MassOf(ev) == RForce(RFlat([y \in 1..ev.g.d.ny |-> [x \in 1..ev.g.d.nx |-> [l \in 1..ev.g.d.nl |-> [f \in 1..ev.g.d.nf |-> Mass(ev.g, ev.g.d, y, x, l, f)]]]]))
ThickOf(ev) == RFlat([k \in 1..Cells(ev) |-> [l \in 1..ev.g.d.nl |-> R(Thickness(ev.g, l))]])
\* one cover that is not a number means no vegetation
Veg(ev) == IF Len(ev.g.veg) = 0 \/ RIsNaN(ev.g.veg[1]) THEN Seq0(Cells(ev), 0) ELSE [k \in 1..Cells(ev) |-> R(Cover(ev.g.veg[k]))]
Like(got, given, default) == IF Len(given) = 0 THEN \A k \in 1..Len(got) : REq(got[k], default) ELSE SameAs(got, given)
Shapes(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Len(a[k]) = Len(b[k]) /\ \A j \in 1..Len(a[k]) : REq(a[k][j], b[k][j])

Started(ev) == LET w == ev.got  g == ev.g  v == w.v  n == Cells(ev) IN
  Clause("time", REq(w.t, g.tstart)) \cup
  Clause("size", w.nx = g.d.nx - 1 /\ w.ny = g.d.ny - 1 /\ w.nf = g.d.nf) \cup
  Clause("grid", SameAs(v.x, g.x) /\ SameAs(v.y, g.y)) \cup
  Clause("bed", SameAs(v.zb, g.bed) /\ SameAs(v.zb0, g.bed)) \cup
  Clause("non-erodible", IF Len(g.ne) = 0 THEN \A k \in 1..n : RIsNaN(v.zne[k]) ELSE SameAs(v.zne, g.ne)) \cup
  Clause("dry", SameAs(v.zdry, Seq0(n, "0.05"))) \cup
  Clause("thickness", SameAs(v.thlyr, ThickOf(ev))) \cup
  Clause("mass", SameAs(v.mass, MassOf(ev))) \cup
  Clause("threshold", Like(v.uth, IF Len(g.threshold) = 0 THEN <<>> ELSE Expand(g.threshold, g.d.nf), 0)) \cup
  (UNION {Clause("masks", Like(w.mask[k], g[k], 1)) : k \in DOMAIN w.mask}) \cup
  Clause("vegetation", \E c \in {RForce(Veg(ev))} : SameAs(v.rhoveg, c) /\ SameAs(v.hveg, RForce([k \in 1..n |-> Height(g, c[k])]))
                         /\ \A k \in 1..n : REq(v.germinate[k], IF c[k] \succ 0 THEN 1 ELSE 0) /\ REq(v.lateral[k], 0)) \cup
  Clause("fences", Like(v.fence_height, g.fence, 0) /\ (w.has_fence => SameAs(w.fence.fence_base, g.bed) /\ SameAs(w.fence.fence_top, RForce([k \in 1..n |-> g.bed[k] ++ g.fence[k]])))) \cup
  Clause("wind", Len(w.wind) = Len(g.wind) /\ \A k \in 1..Len(g.wind) : REq(w.wind[k][1], g.wind[k][1]) /\ REq(w.wind[k][2], g.wind[k][2]) /\ RClose(w.wind[k][3], Direction(g.conv, g.wind[k][3]), "1e-12")) \cup
  Clause("zero", w.other = <<>>) \cup
  Clause("shapes", Shapes(w.shapes, w.want) /\ Shapes(w.dims, w.want)) \cup
  Clause("previous", Shapes(w.previous, w.want))

Stepped(ev) == Clause("step:shapes", Shapes(ev.step.shapes, ev.got.want)) \cup Clause("step:previous", Shapes(ev.step.previous, ev.got.want))
               \cup Clause("step:finite", ev.step.finite) \cup Clause("step:time", ev.step.t \succ ev.g.tstart)

JudgeInit(ev) ==
  LET f == ev.opt.fault IN
  IF f \in AtStart THEN Clause("refused:at-start", ev.raised = Refusal(f))
  ELSE IF ev.exc # "" THEN Clause("no-exception", FALSE)
  ELSE Started(ev) \cup (IF f = "none" THEN (IF ev.stepexc # "" THEN Clause("step:no-exception", FALSE) ELSE Stepped(ev)) ELSE Clause("refused:at-step", ev.stepraised = Refusal(f)))
Judge(ev) == IF ev.kind # "init" THEN {SCat(ev.kind, ":unknown")} ELSE JudgeInit(ev)
Tags(ev) == {SCat("fault-", ev.opt.fault), SCat("comp-", ev.opt.comp), SCat("conv-", ev.opt.conv)} \cup Tag("whole", ev.opt.whole) \cup Tag("2d", ev.g.d.ny > 1)
            \cup Tag("fence", Len(ev.g.fence) > 0) \cup Tag("veg", Len(ev.g.veg) > 0) \cup Tag("ne", Len(ev.g.ne) > 0) \cup Tag("threshold", Len(ev.g.threshold) > 0)
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
