----------------------------- MODULE Trace_Store -----------------------------
(* Histories of assignments, protections and queries of the real model.       *)
EXTENDS Store, TraceLib
VARIABLE i
Names == <<"Ct", "mass", "ustar", "zb">>
Pars == {"tstop", "zb_par"}
M0 == [s |-> Assign(New, [k \in 1..Len(Names) |-> <<Names[k], R(0)>>]), p |-> [k \in Pars |-> R(0)]]
Do(m, o) ==
  CASE o.op = "set" -> SetVar(m, o.k, R(o.v))
    [] o.op = "setindex" -> SetVarIndex(m, Names, o.i, R(o.v))
    [] o.op = "item" -> [m EXCEPT !.s = SetItem(@, o.k, R(o.v))]
    [] o.op = "update" -> [m EXCEPT !.s = Assign(@, [j \in 1..Len(o.kv) |-> <<o.kv[j][1], R(o.kv[j][2])>>])]
    [] o.op = "protect" -> [m EXCEPT !.s = Protect(@, o.k)]
    [] o.op = "release" -> [m EXCEPT !.s = Release(@, o.k)]
Eq(x, y) == IF RStr(x) = RStr(y) THEN TRUE ELSE RFinite(x) /\ RFinite(y) /\ RClose(x, y, "1e-12")
Scaled(ev, k, v) == IF k \in {"Ct", "Cu"} THEN v // ev.accfac ELSE v
Bad(ev, m, o) == LET post == o.post IN
  Clause("store:no-exception", o.exc = "") \cup
  Clause("store:values", \A k \in DOMAIN post.raw : IF Has(m.s, k) THEN Eq(post.raw[k], m.s.val[k]) ELSE post.raw[k] = "none") \cup
  Clause("store:parameters", \A k \in Pars : Eq(post.par[k], m.p[k])) \cup
  Clause("store:parameter-of-the-same-name", Eq(post.twin, ev.twin)) \cup
  Clause("store:protection", {post.mut[j] : j \in 1..Len(post.mut)} = m.s.mut) \cup
  Clause("bmi:get-var", \A k \in DOMAIN post.got : IF Has(m.s, k) THEN Eq(post.got[k], Scaled(ev, k, m.s.val[k])) ELSE IF k \in Pars THEN Eq(post.got[k], m.p[k]) ELSE post.got[k] = "none") \cup
  Clause("bmi:count", post.count = ev.count + (IF Has(m.s, "xnew") THEN 1 ELSE 0)) \cup
  (IF o.op = "setindex" THEN Clause("bmi:name", o.name = (IF o.i < 4 THEN Names[o.i+1] ELSE "-1")) ELSE {})
Walk(ev) ==
  LET f[k \in 0..Len(ev.ops)] == IF k = 0 THEN [m |-> M0, bad |-> {}]
        ELSE LET q == f[k-1]  m == Do(q.m, ev.ops[k]) IN RForce([m |-> m, bad |-> q.bad \cup Bad(ev, m, ev.ops[k])])
  IN f[Len(ev.ops)].bad

Ints(s) == [j \in 1..Len(s) |-> RToInt(s[j])]
JudgeShape(ev) == IF ev.exc # "" THEN {"shape:no-exception"} ELSE UNION {LET h == ev.hist[k] IN
  Clause("bmi:times", REq(h.cur, h.t) /\ REq(h.start, ev.tstart) /\ REq(h.end, ev.tstop)) \cup
  Clause("bmi:names", h.count = h.keys /\ \A j \in 1..Len(h.names) : h.names[j] = IF j <= Len(h.sorted) THEN h.sorted[j] ELSE "-1") \cup
  Clause("bmi:unknown", h.none[1] = "None" /\ \A j \in 2..4 : h.none[j] = "-1") \cup
  Clause("bmi:shape-rank-type", \A j \in 1..Len(h.q) : Ints(h.q[j].shape) = Ints(h.q[j].size) /\ h.q[j].rank = Len(h.q[j].size) /\ h.q[j].type = "double") \cup
  Clause("bmi:declared-dimensions", \A j \in 1..Len(h.q) : h.q[j].dims = <<>> \/ h.q[j].size = <<>> \/
        Ints(h.q[j].size) = [d \in 1..Len(h.q[j].dims) |-> RToInt(ev.dim[h.q[j].dims[d]])]) : k \in 1..Len(ev.hist)}
Judge(ev) == CASE ev.kind = "store" -> Walk(ev) [] ev.kind = "shape" -> JudgeShape(ev)
               [] ev.kind = "err" -> Clause("bmi:not-implemented", ev.raised = "NotImplementedError")
               [] ev.kind = "fresh" -> Clause("store:mutable-by-default", ev.exc = "" /\ REq(ev.v, 2))
Tags(ev) == {ev.kind} \cup IF ev.kind = "store" THEN UNION {{SCat("op-", ev.ops[j].op)} : j \in 1..Len(ev.ops)} ELSE {}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
