--------------------------- MODULE Trace_Symmetry ---------------------------
(* A real run and the real run of an equivalent description.                  *)
EXTENDS Symmetry, TraceLib
VARIABLE i

\* weighted sums: <<sum, scale, sum over what is not a number, size>>
Same(got, want, share, tol, eps) ==
    /\ RAbs(got[1] -- (share ** want[1])) \preceq ((tol ** (share ** want[2])) ++ eps)
    /\ RClose(got[3], want[3], "1e-9") /\ REq(got[4], want[4])
Has(maps, op) == \E k \in 1..Len(maps) : maps[k].op = op
The(maps, op) == maps[CHOOSE k \in 1..Len(maps) : maps[k].op = op]
\* positions on the grid, and what depends on the distance between rows
Place == {"y", "dn", "dsdn", "dsdni"}
\* a quantity q of the one run, w of the other: x[row][fraction]
Rates == {"dzbavg", "dzbveg", "dzbyear"}
SameQuantity(maps, q, w, tol) ==
    LET fr == Has(maps, "fractions")  p == The(maps, "fractions")
        n == Len(q.x)  r == IF Has(maps, "rows") THEN The(maps, "rows").a + 1 ELSE 1
        eps == IF q.v \in Shared THEN R("1e-9")
               ELSE IF q.v \in Rates THEN R("1e-6") \* metres per year of a pickup that small
               ELSE R("1e-12")
        shares == fr /\ Len(q.x[1]) = 2       \* given per fraction
    IN /\ Len(w.x) = n * r
       /\ \A j \in 1..Len(w.x) : LET a == q.x[1 + ((j - 1) % n)] b == w.x[j] IN
            IF shares THEN /\ Len(b) = Len(p.o)
                           /\ \A f \in 1..Len(b) : \/ REq(p.share[f], 0) /\ (q.v \in Shared => RAbs(b[f][1]) \preceq "1e-15")
                                                   \/ ~REq(p.share[f], 0) /\ Same(b[f], a[p.o[f]], Factor(q.v, q.stat, p.share[f]), tol, eps)
            ELSE Len(a) = Len(b) /\ \A f \in 1..Len(b) : Same(b[f], a[f], R(1), tol, eps)
Names(s) == {SCat(s[k].v, SCat(".", s[k].stat)) : k \in 1..Len(s)}
Find(s, q) == {k \in 1..Len(s) : s[k].v = q.v /\ s[k].stat = q.stat}
Compare(maps, what, s1, s2, tol) ==
    Clause(SCat(what, ":same-quantities"), Names(s1) = Names(s2)) \cup
    UNION {IF Has(maps, "rows") /\ s1[k].v \in Place THEN {}
           ELSE UNION {Clause(SCat(what, SCat(":", s1[k].v)), SameQuantity(maps, s1[k], s2[l], tol)) : l \in Find(s2, s1[k])} : k \in 1..Len(s1)}
Later(maps) == IF Has(maps, "shift") THEN R(The(maps, "shift").a) ELSE R(0)

\* where the bed runs out of a fraction the weights follow the iterates of the solver, which are not those of the divided fraction
Unclear(ev) == Has(ev.maps, "fractions") /\ (ev.one.short \/ ev.two.short)

Judge(ev) ==
    IF ev.kind # "twin" THEN {"unknown"} ELSE
    Clause("no-exception", ev.exc = "") \cup Clause("other:no-exception", ev.exc2 = "") \cup
    (IF ev.exc # "" \/ ev.exc2 # "" \/ Unclear(ev) THEN {} ELSE
       UNION {LET a == ev.one.pics[k]  b == ev.two.pics[k] IN
              Clause("time", RClose(b.t, a.t ++ Later(ev.maps), "1e-12")) \cup Clause("time-step", RClose(b.dt, a.dt, "1e-9")) \cup
              Compare(ev.maps, "state", a.s, b.s, "1e-8") \cup
              (IF Has(ev.maps, "observe") THEN {} ELSE Compare(ev.maps, "statistics", a.o, b.o, "1e-8")) : k \in 1..Len(ev.one.pics)} \cup
       \* what is observed is free; the first record covers the time since time zero
       (IF Has(ev.maps, "observe") THEN {}
        ELSE Clause("output:times", LET D == Later(ev.maps) p == ev.one.disk q == ev.two.disk IN
                     /\ Len(p.t) = Len(q.t) /\ \A k \in 1..Len(p.t) : RClose(q.t[k], p.t[k] ++ D, "1e-12")
                     /\ Len(p.bounds) = Len(q.bounds) /\ \A k \in 2..Len(p.bounds) : RClose(q.bounds[k], p.bounds[k] ++ D, "1e-12")) \cup
             Compare(ev.maps, "output", ev.one.disk.s, ev.two.disk.s, "1e-5")))
Tags(ev) == (IF ev.exc = "" THEN {SCat(IF ev.one.short THEN "short-" ELSE "ample-", IF KeepsOrder(ev.maps) THEN "ordered" ELSE "reordered")} ELSE {}) \cup
            {SCat("case-", ev.case), SCat("solver-", ev.solver)} \cup {SCat("map-", ev.maps[k].op) : k \in 1..Len(ev.maps)}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
