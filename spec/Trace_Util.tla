------------------------------ MODULE Trace_Util ------------------------------
(* Shared functions of the real code against their closed forms.              *)
EXTENDS Util, TraceLib
VARIABLE i

Ok(ev) == Clause(SCat(ev.kind, ":no-exception"), ev.exc = "")
Same(got, want, tol) == \E w \in {RForce(want)} : RSeqClose(got, w, tol)
\* at the moment a series starts again the last and the first value are both right up to rounding
Repeats(got, t, xp, fp) == \/ RClose(got, Circular(t, xp, fp), "1e-9")
                           \/ \E p \in {R(Phase(t, xp) -- xp[1])} : (p \preceq "1e-8" \/ p \succeq (Period(xp) -- "1e-8")) /\ (RClose(got, fp[1], "1e-6") \/ RClose(got, fp[Len(fp)], "1e-6"))
JudgeCircular(ev) == Clause("circular:value", Len(ev.got) = Len(ev.t) /\ \A k \in 1..Len(ev.t) : Repeats(ev.got[k], ev.t[k], ev.xp, ev.fp))
                     \cup Clause("circular:kept", ev.kept)
                     \cup Clause("circular:within", \A k \in 1..Len(ev.got) : ev.got[k] \succeq (RMinSeq(ev.fp) -- "1e-9") /\ ev.got[k] \preceq (RMaxSeq(ev.fp) ++ "1e-9"))
Column(fp, j) == [k \in 1..Len(fp) |-> fp[k][j]]
JudgeArray(ev) == Clause("array:value", Len(ev.got) = Len(ev.t) /\ \A k \in 1..Len(ev.t) : Len(ev.got[k]) = Len(ev.fp[1]) /\ \A j \in 1..Len(ev.fp[1]) :
                     IF ev.circ THEN Repeats(ev.got[k][j], ev.t[k], ev.xp, Column(ev.fp, j)) ELSE RClose(ev.got[k][j], Linear(ev.t[k], ev.xp, Column(ev.fp, j)), "1e-9"))
JudgeNormal(ev) == Clause("normal:shape", ev.shape) \cup Clause("normal:kept", ev.kept)
                   \cup Clause("normal:value", Len(ev.got) = Len(ev.x) /\ \A k \in 1..Len(ev.x) : Same(ev.got[k], IF ev.has_ref THEN Share(ev.x[k], ev.ref[k], ev.fill) ELSE Normal(ev.x[k], ev.fill), "1e-9"))
                   \cup Clause("normal:sum", ev.has_ref \/ \A k \in 1..Len(ev.got) : REq(RSum(ev.x[k]), 0) \/ RClose(RSum(ev.got[k]), 1, "1e-6"))
SameN(x, y) == (RIsNaN(x) /\ RIsNaN(y)) \/ REq(x, y)
JudgeTidy(ev) == Clause("tidy:value", Len(ev.got) = Len(ev.x) /\ \A k \in 1..Len(ev.x) : SameN(ev.got[k], Tidy(ev.x[k], ev.err, ev.repl)))
JudgeMask(ev) == Clause("mask:shape", ev.shape) \cup Clause("mask:kept", ev.kept)
                 \cup Clause("mask:value", Same(ev.got, [k \in 1..Len(ev.x) |-> Masked(ev.x[k], ev.m[MaskOf(k, ev.n)])], "1e-12"))
JudgeTurn(ev) == Clause("turn:shape", ev.shape) \cup Clause("turn:kept", ev.kept)
                 \cup Clause("turn:value", Len(ev.gx) = Len(ev.x) /\ \A k \in 1..Len(ev.x) : Same(<<ev.gx[k], ev.gy[k]>>, Turn(<<ev.x[k], ev.y[k]>>, ev.alpha, ev.o), "1e-9"))
JudgeSize(ev) == Clause("size:kept", ev.kept) \cup Clause("size:mean", Same(ev.mean, [k \in 1..Len(ev.mass) |-> Mean(ev.d, ev.mass[k])], "1e-9"))
                 \cup Clause("size:percent", Len(ev.got) = Len(ev.per) /\ \A q \in 1..Len(ev.per) : \A k \in 1..Len(ev.mass) : RNear(ev.got[q][k], Size(ev.d, ev.mass[k], ev.per[q]), "1e-9", "1e-15"))
NoneSize(w) == CASE w \in {"none", "empty"} -> 0 [] w \in {"list", "tuple", "array"} -> 2 [] w = "range" -> 3 [] OTHER -> 1
JudgeKind(ev) == Clause("kind:iterable", ev.iterable = Iterable(ev.what)) \cup Clause("kind:indexed", ev.what \in {"scalar", "zero"} \/ ev.indexed = Indexed(ev.what))
                 \cup Clause("kind:make", ev.what \in {"dict", "set"} \/ (ev.isarray /\ ev.ndim = 1 /\ ev.size = NoneSize(ev.what)))
JudgeText(ev) == Clause("text:value", CASE ev.what = "int" -> REq(ev.back, ev.value)
                                        [] ev.what = "float" -> RAbs(ev.back -- ev.value) \preceq (IF ev.value \prec 1 THEN "5.01e-7" ELSE "5.01e-3")
                                        [] ev.what = "true" -> ev.text = "T" [] ev.what = "false" -> ev.text = "F" [] ev.what = "none" -> ev.text = "<novalue>" [] ev.what = "str" -> ev.text = "name"
                                        [] ev.what = "list" -> ev.text = "1 2 3" [] ev.what = "mixed" -> ev.text = "T <novalue> x" [] ev.what = "empty" -> ev.text = ""
                                        [] ev.what = "array" -> ev.text = "1.00 0.500000")
Judge(ev) == IF ev.exc # "" THEN Ok(ev)
             ELSE CASE ev.kind = "circular" -> JudgeCircular(ev) [] ev.kind = "array" -> JudgeArray(ev) [] ev.kind = "normal" -> JudgeNormal(ev) [] ev.kind = "tidy" -> JudgeTidy(ev)
                    [] ev.kind = "mask" -> JudgeMask(ev) [] ev.kind = "turn" -> JudgeTurn(ev) [] ev.kind = "size" -> JudgeSize(ev) [] ev.kind = "kind" -> JudgeKind(ev) [] ev.kind = "text" -> JudgeText(ev)
                    [] OTHER -> {SCat(ev.kind, ":unknown")}
Tags(ev) == {ev.kind} \cup (IF ev.kind = "mask" THEN {SCat("mask-", ev.how)} ELSE {})
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
