---------------------------- MODULE Trace_WindGen ----------------------------
(* Chains of real wind generators, series drawn from them, files and their use *)
(* as wind input.                                                             *)
EXTENDS WindGen, TraceLib
VARIABLE i

Matrix(n, cum) == RForce([k \in 1..n |-> RForce(Row(cum, k))])
Chain(g, cum) ==
  Clause("chain:classes", Len(cum) = g.n /\ \A k \in 1..Len(cum) : Len(cum[k]) = g.n) \cup
  (IF Len(cum) # g.n \/ \E k \in 1..Len(cum) : Len(cum[k]) # g.n THEN {} ELSE
   LET w == Weibull(g)  m == Matrix(g.n, cum) IN
     Clause("chain:probabilities", \A k \in 1..g.n : RClose(cum[k][g.n], 1, "1e-9") /\ \A j \in 1..g.n : m[k][j] \succeq "-1e-12") \cup
     Clause("chain:reaches-all", \A k, j \in 1..g.n : w[j] \preceq "1e-6" \/ m[k][j] \succ 0) \cup
     Clause("chain:balance", \A k, j \in 1..g.n : RNear(w[k] ** m[k][j], w[j] ** m[j][k], "0", "1e-8")) \cup
     Clause("chain:stationary", \A j \in 1..g.n : RNear(RSum([k \in 1..g.n |-> w[k] ** m[k][j]]), w[j], "0", "1e-8")) \cup
     \* closer classes are favoured: the ratio to the stationary probabilities decreases with distance
     Clause("chain:local", \A k, j \in 1..g.n : (j = k \/ w[j] \preceq "1e-5" \/ w[k] \preceq "1e-5") \/ (m[k][j] // w[j]) \prec (m[k][k] // w[k]) \/ (m[j][k] // w[k]) \prec (m[j][j] // w[j])))

Series(g, cum, s) ==
  LET n == Len(s.u) IN
    Clause("series:length", n = Length(g, s.duration) /\ Len(s.t) = n) \cup
    Clause("series:times", \A k \in 1..Len(s.t) : RClose(s.t[k], R(k - 1) ** g.dt, "1e-12")) \cup
    Clause("series:range", \A k \in 1..n : s.u[k] \succeq 0 /\ s.u[k] \preceq g.max) \cup
    Clause("series:items", n > 0 => REq(s.item[1], s.u[1]) /\ REq(s.item[2], s.u[n])) \cup
    (IF Len(s.r1) # n \/ Len(s.r2) # n \/ Len(s.states) # n THEN Clause("series:recorded", FALSE) ELSE
       Clause("series:randoms", \A k \in 1..n : s.r1[k] \succeq 0 /\ s.r1[k] \prec 1 /\ s.r2[k] \succeq 0 /\ s.r2[k] \prec 1) \cup
       Clause("series:varies", n > 3 => \E k \in 2..n : ~REq(s.r1[k], s.r1[1]) /\ ~REq(s.r2[k], s.r2[1])) \cup
       UNION {LET from == IF k = 1 THEN 1 ELSE s.states[k-1]  to == NextClass(cum, from, s.r1[k]) IN
          Clause("series:class", s.states[k] = to) \cup Clause("series:speed", RClose(s.u[k], Speed(g, to, s.r2[k]), "1e-9")) : k \in 1..n})

File(g, f, n) == Clause("file:rows", Len(f) = n /\ n > 0) \cup Clause("file:columns", \A k \in 1..Len(f) : Len(f[k]) = 3) \cup
  (IF \E k \in 1..Len(f) : Len(f[k]) # 3 THEN {} ELSE
     Clause("file:times", \A k \in 1..Len(f) : RClose(f[k][1], R(k - 1) ** g.dt, "1e-12")) \cup Clause("file:direction", \A k \in 1..Len(f) : REq(f[k][3], 0)) \cup
     Clause("file:range", \A k \in 1..Len(f) : f[k][2] \succeq 0 /\ f[k][2] \preceq g.max))

\* linear interpolation in the file
At(f, t) == LET L == {k \in 1..(Len(f) - 1) : f[k][1] \preceq t}  k == IF L = {} THEN 1 ELSE CHOOSE k \in L : \A l \in L : l <= k
                x == (t -- f[k][1]) // (f[k+1][1] -- f[k][1]) IN f[k][2] ++ (x ** (f[k+1][2] -- f[k][2]))
\* the model turns winds of exactly zero degrees a hundredth of a degree
Used(f, u) == Clause("use:table", Len(u.table) = Len(f) /\ \A k \in 1..Len(f) : RClose(u.table[k][1], f[k][1], "1e-12") /\ RClose(u.table[k][2], f[k][2], "1e-12") /\ RNear(u.table[k][3], 0, "0", "0.0101")) \cup
  UNION {LET s == u.steps[k] IN Clause("use:direction", RNear(s.udir, 0, "0", "0.0101")) \cup
           \* the wind of a step is that of its begin
           Clause("use:speed", RClose(s.uw, At(f, IF k = 1 THEN 0 ELSE u.steps[k-1].t), "1e-6")) : k \in 1..Len(u.steps)}

JudgeChain(ev) ==
  Clause("no-exception", ev.exc = "") \cup
  (IF ev.cum = <<>> THEN {} ELSE
   LET bad == Chain(ev.g, ev.cum) IN bad \cup
     (IF "chain:classes" \in bad \/ "chain:probabilities" \in bad THEN {} ELSE
      UNION {Series(ev.g, ev.cum, ev.runs[k]) : k \in 1..Len(ev.runs)}) \cup
     (IF ev.exc # "" \/ Len(ev.runs) = 0 THEN {} ELSE
       LET s == ev.runs[Len(ev.runs)] IN File(ev.g, ev.file, Len(s.u)) \cup
         Clause("file:values", Len(ev.file) = Len(s.u) /\ \A k \in 1..Len(s.u) : RClose(ev.file[k][2], s.u[k], "1e-12")) \cup
         (IF Len(s.u) <= 2 \/ ~ev.hasused THEN {} ELSE Used(ev.file, ev.used))))
JudgeCommand(ev) ==
  Clause("command:no-exception", ev.exc = "") \cup
  (IF ev.exc # "" THEN {} ELSE File(ev.g, ev.file, Length(ev.g, ev.duration)) \cup
     Clause("command:says", {"min", "mean", "max"} \subseteq DOMAIN ev.said) \cup
     (IF ~({"min", "mean", "max"} \subseteq DOMAIN ev.said) \/ Len(ev.file) = 0 THEN {} ELSE
       LET u == RForce([k \in 1..Len(ev.file) |-> ev.file[k][2]]) IN
         Clause("command:min", RNear(ev.said.min, RMinSeq(u), "0", "0.00051")) \cup Clause("command:max", RNear(ev.said.max, RMaxSeq(u), "0", "0.00051")) \cup
         Clause("command:mean", RNear(ev.said.mean, RSum(u) // Len(u), "0", "0.00051"))))
Judge(ev) == CASE ev.kind = "chain" -> JudgeChain(ev) [] ev.kind = "command" -> JudgeCommand(ev) [] OTHER -> {SCat(ev.kind, ":unknown")}
Tags(ev) == {ev.kind} \cup (IF ev.kind = "chain" THEN Tag("used", ev.hasused) \cup Tag("one-class", ev.g.n = 1) \cup Tag("wide-classes", Bin(ev.g) \succ 1) ELSE {})
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
