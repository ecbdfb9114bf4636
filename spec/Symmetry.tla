------------------------------ MODULE Symmetry ------------------------------
(* Descriptions of one and the same case.  A map turns a case into an         *)
(* equivalent one (other time origin, other order or division of the grain    *)
(* fractions, other records of the same time series, other convention of the  *)
(* wind direction, more rows of an alongshore uniform beach, other output) and *)
(* says what every state of the other run is in terms of the state of this    *)
(* one.  Both runs proceed in lockstep.                                       *)
(*                                                                            *)
(* A case: ts, us, ds  records of time, wind speed and wind direction         *)
(*         conv        convention of the direction                            *)
(*         rows, cols  grid                                                   *)
(*         sizes, dist grain sizes and shares                                 *)
(*         full        mass of a full layer    t0 start time                  *)
(*         watch       what is looked at after a step                         *)
(* A state: t, C[j][i][f] sediment in the air, m[j][i][l][f] in the bed,      *)
(*         log[k] what was seen                                               *)
EXTENDS Num, Integers, Sequences
LOCAL INSTANCE Wind
LOCAL INSTANCE Transport
LOCAL INSTANCE BedExchange

(* ----------------------------------------------------------------- the maps *)
\* op: name; a: number; o, share: fraction f of the other case is share[f] of fraction o[f]
Map(op, a, o, share) == [op |-> op, a |-> a, o |-> o, share |-> share]
\* (an absent fraction is not listed last: what is left over would be offered to it)
FractionMaps == {<<<<1, 2, 2>>, <<R(1), R("0.3"), R("0.7")>>>>, <<<<1, 1, 2, 2>>, <<R("0.2"), R("0.8"), R("0.5"), R("0.5")>>>>, <<<<1, 2, 2>>, <<R(1), R(0), R(1)>>>>,
                 <<<<2, 1>>, <<R(1), R(1)>>>>, <<<<1, 1, 2>>, <<R("0.5"), R("0.5"), R(1)>>>>, <<<<1, 2, 1>>, <<R("0.25"), R(1), R("0.75")>>>>,
                 <<<<1, 1, 2>>, <<R(1), R(0), R(1)>>>>, <<<<2, 1, 2>>, <<R("0.4"), R(1), R("0.6")>>>>, <<<<2, 1, 2, 1>>, <<R("0.5"), R("0.1"), R("0.5"), R("0.9")>>>>}
Maps == {Map("shift", a, <<>>, <<>>) : a \in {77, 3600, 259200}}
        \cup {Map("fractions", 0, q[1], q[2]) : q \in FractionMaps}
        \cup {Map(op, 0, <<>>, <<>>) : op \in {"repeat", "refine", "convention", "observe", "explicit"}}
        \cup {Map("rows", n, <<>>, <<>>) : n \in {2, 3}}
\* fractions are served in the order of the list (ascending grain size): where the bed runs out of one of them what is left
\* over is offered to those that follow.  The order is free as long as no fraction is exhausted.
Ordered(p) == p.op # "fractions" \/ \A f \in 2..Len(p.o) : p.o[f-1] <= p.o[f]
KeepsOrder(ps) == \A k \in 1..Len(ps) : Ordered(ps[k])
Kinds == {"shift", "fractions", "repeat", "refine", "convention", "observe", "explicit", "rows"}

Midway(c) == \* every pair of records of the same direction gets a record in between
    LET n == Len(c.ts)
        two(k) == k < n /\ REq(c.ds[k], c.ds[k+1])
        F[k \in 1..n] == LET one == [t |-> R(c.ts[k]), u |-> R(c.us[k]), d |-> R(c.ds[k])]
                             mid == [t |-> "0.5" ** (c.ts[k] ++ c.ts[k+1]), u |-> "0.5" ** (c.us[k] ++ c.us[k+1]), d |-> R(c.ds[k])]
                             s == IF two(k) THEN <<one, mid>> ELSE <<one>>
                         IN IF k = 1 THEN s ELSE F[k-1] \o s
        q == F[n]
    IN [c EXCEPT !.ts = [k \in 1..Len(q) |-> q[k].t], !.us = [k \in 1..Len(q) |-> q[k].u], !.ds = [k \in 1..Len(q) |-> q[k].d]]
Twice(c) ==
    LET n == Len(c.ts)  per == (c.ts[n] -- c.ts[1]) ++ 1 IN
    [c EXCEPT !.ts = [k \in 1..2*n |-> IF k <= n THEN R(c.ts[k]) ELSE c.ts[k-n] ++ per],
              !.us = [k \in 1..2*n |-> IF k <= n THEN c.us[k] ELSE c.us[k-n]], !.ds = [k \in 1..2*n |-> IF k <= n THEN c.ds[k] ELSE c.ds[k-n]]]
Apply(p, c) ==
    CASE p.op = "shift"  -> [c EXCEPT !.t0 = @ ++ p.a, !.ts = [k \in 1..Len(@) |-> @[k] ++ p.a]]
      [] p.op = "fractions" -> [c EXCEPT !.sizes = [f \in 1..Len(p.o) |-> @[p.o[f]]], !.dist = [f \in 1..Len(p.o) |-> @[p.o[f]] ** p.share[f]]]
      [] p.op = "repeat" -> Twice(c)
      [] p.op = "refine" -> Midway(c)
      [] p.op = "convention" -> [c EXCEPT !.conv = IF @ = "nautical" THEN "cartesian" ELSE "nautical", !.ds = [k \in 1..Len(@) |-> R(270) -- @[k]]]
      [] p.op = "rows"   -> [c EXCEPT !.rows = @ * p.a]
      [] p.op = "observe" -> [c EXCEPT !.watch = ~@]
      [] OTHER -> c

(* --------------------------------------------------------------- the process *)
T == 1
Dt == R("0.5")
Start(c) == [t |-> R(c.t0), log |-> <<>>, short |-> FALSE,
             C |-> [j \in 1..c.rows |-> [i \in 1..c.cols |-> [f \in 1..Len(c.sizes) |-> R(0)]]],
             m |-> [j \in 1..c.rows |-> [i \in 1..c.cols |-> [l \in 1..2 |-> [f \in 1..Len(c.sizes) |-> c.full ** c.dist[f]]]]]]
\* capacity of the wind for a fraction
Capacity(c, u, f) == RMax(0, u -- c.sizes[f])
\* how a design finds the share of a fraction in the exchange: what a fraction cannot supply is left to those that follow
RECURSIVE Serve(_, _, _, _, _)
Serve(w, Cu, C, top, f) ==
    IF f > Len(w) THEN w
    ELSE LET r == RForce(Renormalize(w, f))
             l == R(IF Cu[f] \succ 0 THEN LimitWeight(r[f], Cu[f], C[f], T, Dt, top[f]) ELSE r[f])
         IN Serve([r EXCEPT ![f] = l], Cu, C, top, f + 1)
Weights(design, c, C, Cu, top) ==
    IF design = "order" THEN \* what lies first in the list is taken first
         [f \in 1..Len(top) |-> IF f = 1 THEN R(1) ELSE R("0.5")]
    ELSE Serve(InitialWeights(1, C, Cu, top), Cu, C, top, 1)
Move(design, c, s) ==
    LET u  == R(Circular(s.t, c.ts, c.us))
        d  == R(Direction(s.t, c.ts, [k \in 1..Len(c.ds) |-> Nautical(c.ds[k], c.conv)]))
        us == R(Along(u, d, <<1, 0>>))
        un == R(Along(u, d, <<0, 1>>))
        G(x) == [j \in 1..c.rows |-> [i \in 1..c.cols |-> x]]
        nf == Len(c.sizes)
        Cu == RForce([f \in 1..nf |-> Capacity(c, u, f)])
        skip == design = "zero" /\ REq(s.t, 0)
        q == RForce([j \in 1..c.rows |-> [i \in 1..c.cols |->
               LET w == RForce(Weights(design, c, s.C[j][i], Cu, s.m[j][i][1])) IN
               [f \in 1..nf |->
                 IF i = 1 \/ skip THEN [C |-> R(0), pk |-> R(0)]
                 ELSE IF i = c.cols THEN [C |-> s.C[j][i-1][f], pk |-> R(0)]
                 ELSE LET F == [jj \in 1..c.rows |-> [ii \in 1..c.cols |-> s.C[jj][ii][f]]]
                          pk == Pickup(w[f], Cu[f], s.C[j][i][f], T, Dt, s.m[j][i][1][f])
                      IN [C |-> RMax(0, (s.C[j][i][f] -- (Dt ** CellDiv(F, G(us), G(un), G(40), 40, j, i))) ++ pk), pk |-> pk]]]])
        short == \E j \in 1..c.rows, i \in 2..(c.cols - 1) : ~RSeqClose(Weights(design, c, s.C[j][i], Cu, s.m[j][i][1]), InitialWeights(1, s.C[j][i], Cu, s.m[j][i][1]), "1e-12")
    IN [t |-> s.t ++ Dt ** 7200, short |-> s.short \/ short, log |-> IF c.watch THEN Append(s.log, u) ELSE s.log,
        C |-> [j \in 1..c.rows |-> [i \in 1..c.cols |-> [f \in 1..nf |-> q[j][i][f].C]]],
        m |-> RForce([j \in 1..c.rows |-> [i \in 1..c.cols |-> Exchange(s.m[j][i], [f \in 1..nf |-> q[j][i][f].pk], c.dist)]])]

(* ------------------------------------------------- what the other run must be *)
Image(p, s) ==
    CASE p.op = "shift" -> [s EXCEPT !.t = @ ++ p.a]
      [] p.op = "fractions" ->
           [s EXCEPT !.C = [j \in 1..Len(@) |-> [i \in 1..Len(@[1]) |-> [f \in 1..Len(p.o) |-> @[j][i][p.o[f]] ** p.share[f]]]],
                     !.m = [j \in 1..Len(@) |-> [i \in 1..Len(@[1]) |-> [l \in 1..Len(@[1][1]) |-> [f \in 1..Len(p.o) |-> @[j][i][l][p.o[f]] ** p.share[f]]]]]]
      [] p.op = "rows" -> LET n == Len(s.C) IN
           [s EXCEPT !.C = [j \in 1..(n * p.a) |-> @[1 + ((j - 1) % n)]], !.m = [j \in 1..(n * p.a) |-> @[1 + ((j - 1) % n)]]]
      [] OTHER -> s
\* composition, first map first
RECURSIVE ApplyAll(_, _)
ApplyAll(ps, c) == IF ps = <<>> THEN c ELSE ApplyAll(Tail(ps), Apply(Head(ps), c))
RECURSIVE ImageAll(_, _)
ImageAll(ps, s) == IF ps = <<>> THEN s ELSE ImageAll(Tail(ps), Image(Head(ps), s))
\* maps that can follow each other: every kind once; fraction maps describe two fractions
Composable(ps) == \A k, l \in 1..Len(ps) : k # l => ps[k].op # ps[l].op

(* ------------------------------------- real runs: quantities of one fraction *)
\* quantities that are divided with the fraction; all others belong to its grain size
Shared == {"Ct", "mass", "pickup", "w", "w_init", "w_air", "w_bed", "q", "qs", "qn"}
\* factor of a statistic of a quantity when the quantity is multiplied by a share
Factor(v, stat, share) == IF v \in Shared THEN (IF stat = "var" THEN share ** share ELSE R(share)) ELSE R(1)
=============================================================================
