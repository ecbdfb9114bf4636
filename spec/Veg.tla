--------------------------------- MODULE Veg ---------------------------------
(* Vegetation: germination, lateral expansion, growth and death of plants and *)
(* the shelter they give.                                                     *)
EXTENDS Num, Integers, Sequences

VYear == "31557600"
Cover0(r) == IF RFinite(r) THEN RMax(0, r) ELSE R(0)
HeightOf(r, hmax) == hmax ** RSqrt(r)
CoverOf(h, hmax) == (h // hmax) ** (h // hmax)

(* ----------------------------------------------- germination and expansion *)
\* probability per time step of an event with a probability p per year
PerStep(p, span) == R(1) -- RPow(R(1) -- p, span // VYear)
\* per metre of boundary
PerCell(p, span, dx) == R(1) -- RPow(R(1) -- PerStep(p, span), R(1) // dx)
\* number of neighbours with more cover
More(g, j, k) ==
    LET nj == Len(g)  nk == Len(g[1])
        up(a, b) == IF a \in 1..nj /\ b \in 1..nk /\ g[a][b] \succ g[j][k] THEN 1 ELSE 0
    IN up(j-1, k) + up(j+1, k) + up(j, k-1) + up(j, k+1)

(* ------------------------------------------------------------------- growth *)
\* q: V (vertical growth), hmax, opt, gamma, tveg (days), vgam, rmax, method, tide, zmin; span: seconds
\* c: h, r (height and cover), germ, lat, dz (yearly bed level change), z, zs
Rooted(c) == ~REq(c.germ, 0) \/ ~REq(c.lat, 0)
Burial(q, c) == RAbs(c.dz -- q.opt) ** q.gamma
GrowthRate(q, c) == IF Rooted(c) /\ q.V \succ 0 THEN (q.V ** (R(1) -- (c.h // q.hmax))) -- Burial(q, c) ELSE R(0)
DensityRate(q, c, r) == IF Rooted(c) /\ q.V \succ 0
    THEN ((q.rmax -- r) // (q.tveg // 365)) -- ((q.vgam // q.hmax) ** Burial(q, c)) ELSE R(0)
Grown(q, c, span) ==
    IF q.method = "orig"
    THEN LET h == RMax(0, RMin(q.hmax, c.h ++ ((GrowthRate(q, c) ** span) // VYear))) IN [h |-> h, r |-> CoverOf(h, q.hmax)]
    ELSE LET r0 == RMin(c.r, q.rmax)
             r == IF r0 \preceq 0 THEN R(0) ELSE RMin(q.rmax, RMax(0, r0 ++ ((DensityRate(q, c, r0) ** span) // VYear)))
         IN [h |-> HeightOf(r, q.hmax), r |-> r]
\* vegetation dies under water and below the lowest elevation
Drowned(q, c) == (q.tide /\ ~((c.z ++ "0.01") \succeq c.zs)) \/ c.z \prec q.zmin
Grow(q, c, span) ==
    LET v == Grown(q, c, span)
        alive == ~Drowned(q, c)
        keep == IF alive /\ ~REq(v.r, 0) THEN R(1) ELSE R(0)
    IN [h |-> IF alive THEN v.h ELSE R(0), r |-> IF alive THEN v.r ELSE R(0), germ |-> keep ** c.germ, lat |-> keep ** c.lat]

(* ------------------------------------------------------------------- shelter *)
\* Raupach (1993), smoothened by a normal distribution over the cells
Raupach(r, rough) == R(1) // RSqrt(R(1) ++ (rough ** r))
Radius(sg) == RToInt((sg ** 4) ++ "0.5")
Wgt(sg) == LET n == Radius(sg)  e == RForce([i \in 1..(2*n+1) |-> RExp(RNeg(R((i-n-1)*(i-n-1)) // ("2" ** (sg ** sg))))])  t == RSum(e)
           IN RForce([i \in 1..(2*n+1) |-> e[i] // t])
Mirror(i, n) == LET m == (((i - 1) % (2*n)) + 2*n) % (2*n) IN IF m < n THEN m + 1 ELSE 2*n - m
Smooth1(v, w) == LET n == Len(v)  m == (Len(w) - 1) \div 2 IN
    RForce([k \in 1..n |-> RDot(w, [i \in 1..Len(w) |-> v[Mirror(k + i - m - 1, n)]])])
Smooth(g, sg) == LET w == Wgt(sg)
                     cols == RForce([k \in 1..Len(g[1]) |-> Smooth1([j \in 1..Len(g) |-> g[j][k]], w)])
                 IN RForce([j \in 1..Len(g) |-> Smooth1([k \in 1..Len(g[1]) |-> cols[k][j]], w)])
Factor(g, rough, sg) == IF sg \succ "1e-15" THEN Smooth([j \in 1..Len(g) |-> [k \in 1..Len(g[1]) |-> Raupach(g[j][k], rough)]], sg)
                        ELSE [j \in 1..Len(g) |-> [k \in 1..Len(g[1]) |-> Raupach(g[j][k], rough)]]
\* Okin (2008): every plant shelters the cells within 20 heights downwind; reductions add up
OkinOne(d, h, c1, r0) == IF d \succeq 0 /\ (d // h) \prec 20
                         THEN LET red == R(1) -- (r0 ++ ((R(1) -- r0) ** (R(1) -- RExp(RNeg((d ** c1) // h))))) IN
                              IF red \prec "0.00001" THEN R(0) ELSE RMin(1, red)
                         ELSE R(0)
Okin(x, h, east, c1, r0, k) ==
    RMin(1, RSum([i \in 1..Len(x) |-> IF h[i] \succ 0 THEN OkinOne(IF east THEN x[k] -- x[i] ELSE x[i] -- x[k], h[i], c1, r0) ELSE R(0)]))
OkinStar(us, red) == RMax("0.01", us ** (R(1) -- red))
=============================================================================
