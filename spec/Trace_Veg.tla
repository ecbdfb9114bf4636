------------------------------ MODULE Trace_Veg ------------------------------
(* Events recorded from the vegetation of the real code.                      *)
EXTENDS Veg, TraceLib
VARIABLE i

N(g) == Len(g)
All2(g, P(_, _)) == \A j \in 1..Len(g) : \A k \in 1..Len(g[1]) : P(j, k)
Some2(g, P(_, _)) == \E j \in 1..Len(g) : \E k \in 1..Len(g[1]) : P(j, k)

JudgeInit(ev) ==
  LET void == ~RFinite(ev.v[1][1]) IN
  Clause("veg:initial-cover", All2(ev.v, LAMBDA j, k : LET r == IF void THEN R(0) ELSE Cover0(ev.v[j][k]) IN
     RClose(ev.r[j][k], r, "1e-12") /\ RClose(ev.h[j][k], HeightOf(r, ev.hmax), "1e-12") /\ REq(ev.germ[j][k], IF r \succ 0 THEN 1 ELSE 0) /\ REq(ev.lat[j][k], 0)))

\* the number of successes among n trials with probability p is within 6 standard deviations and 12 (Bernstein: exp(-18))
Plausible(x, n, p) == LET pp == RMin(1, p) IN
    IF REq(pp, 0) THEN x = 0 ELSE IF REq(pp, 1) THEN x = n ELSE RAbs(x -- (n ** pp)) \preceq (("6" ** RSqrt((n ** pp) ** (R(1) -- pp))) ++ 12)
JudgeGerm(ev) ==
  LET cells == (1..N(ev.r)) \X (1..Len(ev.r[1]))
      bare == {w \in cells : REq(ev.b.r[w[1]][w[2]], 0)}
      able == {w \in bare : ev.dz[w[1]][w[2]] \succeq 0}
      more == [j \in 1..N(ev.r) |-> [k \in 1..Len(ev.r[1]) |-> More(ev.b.r, j, k)]]
      M == RForce(more)
      free(x) == {w \in cells : M[w[1]][w[2]] = x /\ REq(ev.b.lat[w[1]][w[2]], 0)}
  IN Clause("veg:plants-keep-their-roots", \A w \in cells : ev.b.r[w[1]][w[2]] \succ 0 => REq(ev.germ[w[1]][w[2]], 1)) \cup
     Clause("veg:no-germination-in-eroding-cells", \A w \in bare \ able : REq(ev.germ[w[1]][w[2]], 0)) \cup
     Clause("veg:germination-probability", Plausible(Cardinality({w \in able : REq(ev.germ[w[1]][w[2]], 1)}), Cardinality(able), PerStep(ev.pg, ev.span))) \cup
     Clause("veg:expands-from-higher-cover", \A w \in cells : (REq(ev.b.lat[w[1]][w[2]], 0) /\ M[w[1]][w[2]] = 0) => REq(ev.lat[w[1]][w[2]], 0)) \cup
     Clause("veg:expansion-probability", \A x \in 1..4 : Plausible(Cardinality({w \in free(x) : REq(ev.lat[w[1]][w[2]], 1)}), Cardinality(free(x)), R(x) ** PerCell(ev.pl, ev.span, ev.dx))) \cup
     Clause("veg:flags", \A w \in cells : (REq(ev.germ[w[1]][w[2]], 0) \/ REq(ev.germ[w[1]][w[2]], 1)) /\ (REq(ev.lat[w[1]][w[2]], 0) \/ REq(ev.lat[w[1]][w[2]], 1)) /\
         ev.lat[w[1]][w[2]] \succeq ev.b.lat[w[1]][w[2]]) \cup
     Clause("veg:cover-unchanged", RSeqClose(ev.r, ev.b.r, "1e-15") /\ RSeqClose(ev.h, ev.b.h, "1e-15"))

At(b, ev, j, k) == [h |-> R(b.h[j][k]), r |-> R(b.r[j][k]), germ |-> R(b.germ[j][k]), lat |-> R(b.lat[j][k]), dz |-> R(ev.dz[j][k]), z |-> R(ev.z[j][k]), zs |-> R(ev.zs[j][k])]
JudgeGrow(ev) ==
  LET c(j, k) == At(ev.b, ev, j, k)
      G == RForce([j \in 1..N(ev.r) |-> [k \in 1..Len(ev.r[1]) |-> Grow(ev.q, c(j, k), ev.span)]])
  IN Clause("veg:height", All2(ev.r, LAMBDA j, k : RClose(ev.h[j][k], G[j][k].h, "1e-10"))) \cup
     Clause("veg:cover", All2(ev.r, LAMBDA j, k : RClose(ev.r[j][k], G[j][k].r, "1e-10"))) \cup
     Clause("veg:bounds", All2(ev.r, LAMBDA j, k : ev.h[j][k] \succeq 0 /\ ev.h[j][k] \preceq (ev.q.hmax ++ "1e-12") /\ ev.r[j][k] \succeq 0 /\ ev.r[j][k] \preceq ("1" ++ "1e-12"))) \cup
     Clause("veg:drowned", All2(ev.r, LAMBDA j, k : Drowned(ev.q, c(j, k)) => REq(ev.h[j][k], 0) /\ REq(ev.r[j][k], 0) /\ REq(ev.germ[j][k], 0) /\ REq(ev.lat[j][k], 0))) \cup
     Clause("veg:nothing-from-nothing", All2(ev.r, LAMBDA j, k : (REq(ev.b.r[j][k], 0) /\ ~Rooted(c(j, k))) => REq(ev.r[j][k], 0))) \cup
     Clause("veg:roots-die-with-the-plant", All2(ev.r, LAMBDA j, k : IF REq(ev.r[j][k], 0) THEN REq(ev.germ[j][k], 0) /\ REq(ev.lat[j][k], 0)
                                                     ELSE REq(ev.germ[j][k], ev.b.germ[j][k]) /\ REq(ev.lat[j][k], ev.b.lat[j][k])))

JudgeShelter(ev) ==
  LET F == Factor(ev.r, ev.rough, ev.sigma)
      red(k) == Okin(ev.x[1], ev.h[1], ev.east, ev.c1, ev.r0, k)
      exp(j, k) == IF ev.okin THEN OkinStar(ev.b.ustar[j][k], red(k)) ELSE ev.b.ustar[j][k] ** F[j][k]
      rat(j, k, f, v) == IF REq(ev.b.ustar[j][k], 0) THEN R(0) ELSE (ev.ustar[j][k] ** f) // ev.b.ustar[j][k]
  IN (IF ev.okin /\ ev.across THEN {} ELSE
     Clause("veg:sheltered-shear", All2(ev.r, LAMBDA j, k : RClose(ev.ustar[j][k], exp(j, k), "1e-10")))) \cup
     Clause("veg:never-more-wind", All2(ev.r, LAMBDA j, k : ev.ustar[j][k] \preceq (RMax(ev.b.ustar[j][k], IF ev.okin THEN "0.01" ELSE "0") ++ "1e-10"))) \cup
     Clause("veg:keeps-the-direction", All2(ev.r, LAMBDA j, k : RClose(ev.s[j][k], rat(j, k, ev.b.s[j][k], 0), "1e-10") /\ RClose(ev.n[j][k], rat(j, k, ev.b.n[j][k], 0), "1e-10"))) \cup
     Clause("veg:stress-follows", All2(ev.r, LAMBDA j, k : ev.b.ustar[j][k] \succ 0 =>
          LET t == ev.rhoa ** (ev.ustar[j][k] ** ev.ustar[j][k]) IN RClose(ev.tau[j][k], t, "1e-9") /\
          RClose(ev.taus[j][k] ** ev.ustar[j][k], t ** ev.s[j][k], "1e-9") /\ RClose(ev.taun[j][k] ** ev.ustar[j][k], t ** ev.n[j][k], "1e-9"))) \cup
     Clause("veg:bare-ground-is-not-sheltered", All2(ev.r, LAMBDA j, k : (~Some2(ev.r, LAMBDA a, b : ev.r[a][b] \succ 0) /\ ev.b.ustar[j][k] \succ "0.01") => RClose(ev.ustar[j][k], ev.b.ustar[j][k], "1e-10")))

JudgeRun(ev) ==
  Clause("veg:bounds", All2(ev.r, LAMBDA j, k : ev.h[j][k] \succeq 0 /\ ev.h[j][k] \preceq (ev.hmax ++ "1e-12") /\ ev.r[j][k] \succeq 0 /\ ev.r[j][k] \preceq ("1" ++ "1e-12"))) \cup
  Clause("veg:drowned", All2(ev.r, LAMBDA j, k : (~((ev.z[j][k] ++ "0.01") \succeq ev.zs[j][k]) \/ ev.z[j][k] \prec ev.zmin) => REq(ev.h[j][k], 0) /\ REq(ev.r[j][k], 0))) \cup
  Clause("veg:nothing-from-nothing", All2(ev.r, LAMBDA j, k : (REq(ev.b.r[j][k], 0) /\ REq(ev.germ[j][k], 0) /\ REq(ev.lat[j][k], 0)) => REq(ev.r[j][k], 0))) \cup
  Clause("veg:dead-cells-stay-dead", ev.none => All2(ev.r, LAMBDA j, k : REq(ev.b.r[j][k], 0) => REq(ev.r[j][k], 0)))

Judge(ev) == IF "exc" \in DOMAIN ev /\ ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "vinit" -> JudgeInit(ev) [] ev.kind = "germ" -> JudgeGerm(ev) [] ev.kind = "grow" -> JudgeGrow(ev)
     [] ev.kind = "shelter" -> JudgeShelter(ev) [] ev.kind = "vrun" -> JudgeRun(ev)
Tags(ev) == {ev.kind} \cup IF "exc" \in DOMAIN ev /\ ev.exc # "" THEN {"exception"} ELSE
   CASE ev.kind = "shelter" -> Tag("okin", ev.okin) \cup Tag("bare", ~Some2(ev.r, LAMBDA j, k : ev.r[j][k] \succ 0))
     [] ev.kind = "grow" -> Tag(ev.q.method, TRUE) \cup Tag("drowned", Some2(ev.r, LAMBDA j, k : Drowned(ev.q, At(ev.b, ev, j, k)))) \cup
                            Tag("buried", Some2(ev.r, LAMBDA j, k : ev.b.r[j][k] \succ 0 /\ REq(ev.r[j][k], 0) /\ ~Drowned(ev.q, At(ev.b, ev, j, k))))
     [] ev.kind = "vrun" -> Tag("died", Some2(ev.r, LAMBDA j, k : ev.b.r[j][k] \succ 0 /\ REq(ev.r[j][k], 0))) \cup
                            Tag("born", Some2(ev.r, LAMBDA j, k : ev.r[j][k] \succ 0 /\ REq(ev.b.r[j][k], 0)))
     [] OTHER -> {}

TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
