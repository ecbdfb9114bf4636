--------------------------------- MODULE Grid ---------------------------------
(* Rectangular grids: orientation, spacing, and the symmetries of the plane   *)
(* under which the model may not change its answer.                           *)
EXTENDS Num, Integers, Sequences

\* clockwise rotation of <<x, y>> by a (degrees) around o
Turn(v, deg, o) ==
    LET a == (deg ** Pi) // 180  x == v[1] -- o[1]  y == v[2] -- o[2] IN
    <<o[1] ++ ((x ** RCos(a)) ++ (y ** RSin(a))), o[2] ++ ((y ** RCos(a)) -- (x ** RSin(a)))>>
Norm(v) == RSqrt((v[1] ** v[1]) ++ (v[2] ** v[2]))
Minus(a, b) == <<a[1] -- b[1], a[2] -- b[2]>>
\* corners of the first cell: origin o, next column s, next row n
Spacing(o, c) == Norm(Minus(c, o))
\* the angle by which a grid has to be turned clockwise for its rows to run east
Aligns(deg, o, s) == LET v == Turn(Minus(s, o), deg, <<0, 0>>) IN v[1] \succ 0 /\ RAbs(v[2]) \preceq ("1e-9" ** v[1])

\* the mirror image of a field along the rows, of a direction in an east-west axis
Mirror(f) == [j \in 1..Len(f) |-> f[Len(f) + 1 - j]]
MirrorDir(d) == R(180) -- d
=============================================================================
