--------------------------------- MODULE Util ---------------------------------
(* Series, distributions, masks and rotations that all processes share.       *)
EXTENDS Num, Integers, Sequences, FiniteSets

\* position of the last record at or before x (x within the records)
At(x, xp) == CHOOSE k \in 1..Len(xp) : xp[k] \preceq x /\ (k = Len(xp) \/ x \prec xp[k + 1])
Linear(x, xp, fp) == IF x \preceq xp[1] THEN R(fp[1])
                     ELSE IF x \succeq xp[Len(xp)] THEN R(fp[Len(fp)])
                     ELSE LET k == At(x, xp) IN fp[k] ++ ((fp[k + 1] -- fp[k]) ** ((x -- xp[k]) // (xp[k + 1] -- xp[k])))
\* a series starts again one second after its last record
Period(xp) == (xp[Len(xp)] -- xp[1]) ++ 1
Phase(x, xp) == xp[1] ++ RMod(x -- xp[1], Period(xp))
Circular(x, xp, fp) == Linear(Phase(x, xp), xp, fp)

\* every row gets the sum one; rows without a sum get the fill value
Share(row, ref, fill) == [k \in 1..Len(row) |-> IF REq(ref[k], 0) THEN R(fill) ELSE row[k] // ref[k]]
Normal(row, fill) == Share(row, [k \in 1..Len(row) |-> RSum(row)], fill)

\* negative values smaller than the error are replaced
Tidy(x, err, repl) == IF x \prec 0 /\ x \succ RNeg(err) THEN R(repl) ELSE R(x)

\* complex mask: factor and shift, repeated for the last n values of every cell
Masked(x, m) == (x ** m[1]) ++ m[2]
MaskOf(k, n) == ((k - 1) \div n) + 1

\* rotation over alpha degrees around an origin (clockwise)
Turn(p, alpha, o) == LET a == alpha ** (Pi // 180)  dx == p[1] -- o[1]  dy == p[2] -- o[2] IN
                     << (dx ** RCos(a)) ++ (dy ** RSin(a)) ++ o[1], ((dy ** RCos(a)) -- (dx ** RSin(a))) ++ o[2] >>
Dist2(p, q) == ((p[1] -- q[1]) ** (p[1] -- q[1])) ++ ((p[2] -- q[2]) ** (p[2] -- q[2]))

\* grain sizes of a mixture: cumulative share in percent at the size of every fraction, from zero
Cumul(mass) == [k \in 1..(Len(mass) + 1) |-> IF k = 1 THEN R(0) ELSE R(100) ** (RSum(SubSeq(mass, 1, k - 1)) // RSum(mass))]
Size(d, mass, percent) == LET c == Cumul(mass)  g == [k \in 1..(Len(d) + 1) |-> IF k = 1 THEN R(0) ELSE R(d[k - 1])] IN Linear(percent, c, g)
Mean(d, mass) == RDot(d, mass) // RSum(mass)

\* whether a value can be iterated, counts as array
Iterable(kind) == kind \in {"list", "tuple", "array", "empty", "dict", "range", "set"}
Indexed(kind) == kind \in {"list", "tuple", "array", "empty", "dict", "range"}
=============================================================================
