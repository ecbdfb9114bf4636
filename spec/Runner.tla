------------------------------- MODULE Runner -------------------------------
(* The model runner: time stepping, output schedule, output statistics.       *)
(*                                                                            *)
(* State st:                                                                  *)
(*   t      simulation time            dt     last time step                  *)
(*   steps  number of executed steps   tout   time of the last output record  *)
(*   clear  statistics are to be cleared before the next step                 *)
(*   win    grids of all steps since the statistics were last cleared         *)
(*   recs   times of the records written so far                               *)
(*   dzb    largest magnitude of the bed level change of the last step        *)
(* Configuration c: dt, accfac, interval, explicit, CFL, maxdz.               *)
EXTENDS Num, Integers, Sequences

NoLimit == 999
Init0(c) == [t |-> R(c.tstart), dt |-> R(0), steps |-> 0, tout |-> R(0), clear |-> FALSE,
             win |-> <<>>, recs |-> <<>>, dzb |-> R(0)]

(* -------------------------------------------------------------- time step   *)
Skips(arg)    == arg \prec (0 - 1)
Stalled(c, arg, rate) == ~Skips(arg) /\ c.explicit /\ c.CFL \succ 0 /\ ~(rate \succ 0)
Requested(c, arg) == IF arg \succ 0 THEN R(arg) ELSE R(c.dt)

\* rate: max|us|/ds + max|un|/dn, the Courant number per second
CflBound(c, rate) == IF c.explicit /\ c.CFL \succ 0 /\ rate \succ 0 THEN R(c.CFL) // rate ELSE R("Infinity")
BedBound(c, st) ==
    IF REq(c.maxdz, NoLimit) \/ REq(st.dzb, 0) \/ ~(st.dt \succ 0) THEN R("Infinity")
    ELSE (st.dt ** c.maxdz) // st.dzb
TimeStep(c, st, arg, rate) ==
    IF Skips(arg) THEN R(arg)
    ELSE IF Stalled(c, arg, rate) THEN RMin(Requested(c, arg), 1)
    ELSE RMin(Requested(c, arg), RMin(CflBound(c, rate), BedBound(c, st)))
Advance(c, arg, dt) == IF Skips(arg) THEN RAbs(arg) ELSE dt ** c.accfac

(* --------------------------------------------------------------- actions    *)
\* one call of update(arg); rate and dzb come from the environment, grids is
\* what the step leaves behind
Update(c, st, arg, rate, dzb, grids) ==
    LET dt   == TimeStep(c, st, arg, rate)
        runs == ~Skips(arg) /\ ~Stalled(c, arg, rate)
        win0 == IF st.clear \/ Skips(st.dt) THEN <<>> ELSE st.win
    IN [st EXCEPT !.t = @ ++ Advance(c, arg, dt), !.dt = dt,
                  !.steps = @ + (IF runs THEN 1 ELSE 0),
                  !.clear = FALSE,
                  !.win = Append(win0, grids),
                  !.dzb = IF runs THEN R(dzb) ELSE @]
Due(c, st) == ((st.t -- st.tout) \succeq c.interval) \/ REq(st.t, 0)
Write(c, st) ==
    IF Due(c, st) THEN [st EXCEPT !.recs = Append(@, st.t), !.tout = st.t, !.win = <<>>]
    ELSE st
\* a reading that asks for clearing is heeded, whatever is read after it
GetVar(st, clear) == [st EXCEPT !.clear = @ \/ clear]

(* ------------------------------------------------------------- statistics   *)
(* Definitions on a window w of numbers.                                      *)
Avg(w)  == IF Len(w) > 0 THEN RSum(w) // Len(w) ELSE R(0)
Var(w)  == IF Len(w) > 1
           THEN LET m == Avg(w) IN RSum([k \in 1..Len(w) |-> (w[k] -- m) ** (w[k] -- m)]) // (Len(w) - 1)
           ELSE R(0)
Stat(w, name) == CASE name = "avg" -> Avg(w) [] name = "sum" -> RSum(w)
                   [] name = "var" -> Var(w) [] name = "min" -> RMinSeq(w) [] name = "max" -> RMaxSeq(w)
(* Accumulators, as an implementation may keep them.                          *)
Acc0 == [n |-> 0, sum |-> R(0), sq |-> R(0), min |-> R("Infinity"), max |-> R("-Infinity")]
AccAdd(a, v) == [n |-> a.n + 1, sum |-> a.sum ++ v, sq |-> a.sq ++ (v ** v),
                 min |-> RMin(a.min, v), max |-> RMax(a.max, v)]
AccStat(a, name) == CASE name = "avg" -> IF a.n > 0 THEN a.sum // a.n ELSE R(0)
                      [] name = "sum" -> a.sum
                      [] name = "var" -> IF a.n > 1 THEN (a.sq -- ((a.sum ** a.sum) // a.n)) // (a.n - 1) ELSE R(0)
                      [] name = "min" -> a.min [] name = "max" -> a.max
StatNames == {"avg", "sum", "var", "min", "max"}

(* -------------------------------------------------- invariants of histories *)
TimeBounds(recs) == [k \in 1..Len(recs) |-> <<IF k = 1 THEN R(0) ELSE recs[k-1], recs[k]>>]
Increasing(s) == \A k \in 1..(Len(s)-1) : s[k] \prec s[k+1]
Spaced(s, d)  == \A k \in 1..(Len(s)-1) : (s[k+1] -- s[k]) \succeq d
=============================================================================
