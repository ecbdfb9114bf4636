------------------------------- MODULE WindGen -------------------------------
(* The wind generator: a Markov chain on classes of wind speed whose          *)
(* stationary distribution is the Weibull distribution; within a class the    *)
(* speed is drawn uniformly.                                                  *)
EXTENDS Num, Integers, Sequences, FiniteSets

Bin(g) == g.max // g.n
Centre(g, j) == (R(j) -- "0.5") ** Bin(g)
\* probability of the classes
Density(g, u) == LET sc == (g.scale ** g.mean) // RSqrt(Pi) IN ((g.shape // sc) ** RPow(u // sc, g.shape -- 1)) ** RExp(RNeg(RPow(u // sc, g.shape)))
Weibull(g) == LET f == RForce([j \in 1..g.n |-> Density(g, Centre(g, j))])  t == RForce(RSum(f)) IN RForce([j \in 1..g.n |-> f[j] // t])
\* transition probabilities from cumulative rows
Row(cum, k) == [j \in 1..Len(cum[k]) |-> IF j = 1 THEN R(cum[k][1]) ELSE cum[k][j] -- cum[k][j-1]]
\* the next class for a random number: the first one whose cumulative probability exceeds it
NextClass(cum, k, r) == CHOOSE j \in 1..Len(cum[k]) : r \prec cum[k][j] /\ \A l \in 1..(j-1) : cum[k][l] \preceq r
Speed(g, j, r) == (R(j - 1) ++ r) ** Bin(g)
\* number of speeds of a series: one at the start and one per (partial) time step
Length(g, duration) == LET q == duration // g.dt IN 1 + RToInt(RFloor(q)) + IF REq(q, RFloor(q)) THEN 0 ELSE 1
=============================================================================
