--------------------------------- MODULE Init ---------------------------------
(* The state a model starts with, as its configuration determines it.         *)
EXTENDS Num, Integers, Sequences, FiniteSets

\* position of a value in a list of values of all cells, layers and fractions
Flat(d, y, x, l, f) == (((y - 1) * d.nx + (x - 1)) * d.nl + (l - 1)) * d.nf + f
\* kg/m2 in a layer of thickness th
Full(c, th) == c.rhog ** (R(1) -- c.porosity) ** th
Share(g, f) == g[f] // RSum(g)
\* comp = "one": one distribution for all layers; "layers": one per layer; "cells": masses given
Thickness(c, l) == IF Len(c.thickness) = 1 THEN c.thickness[1] ELSE c.thickness[l]
Mass(c, d, y, x, l, f) == CASE c.comp = "one" -> Full(c, Thickness(c, l)) ** Share(c.dist[1], f)
                            [] c.comp = "layers" -> Full(c, Thickness(c, l)) ** Share(c.dist[l], f)
                            [] c.comp = "cells" -> R(c.cells[Flat(d, y, x, l, f)])
\* vegetation: negative covers are none, the height follows from the cover
Cover(v) == RMax(v, 0)
Height(c, v) == c.hveg_max ** RSqrt(Cover(v))
\* wind directions in the nautical convention, avoiding winds exactly along the grid
Direction(conv, a) == IF conv = "nautical" THEN (IF REq(a, 0) THEN R("0.01") ELSE R(a)) ELSE (IF REq(a, 270) THEN R("-0.01") ELSE R(270) -- a)

\* configurations that are refused, at the start or at the first step
Faults == {"none", "no-xgrid", "no-bed", "no-ygrid", "no-ygrid-ny", "wind-columns", "wind-row", "tide-columns", "meteo-columns", "dist-name", "dist-layers", "convention", "no-config",
           "scheme", "transport", "moisture", "moist-process", "lateral", "lateral-uniform", "offshore", "onshore", "offshore-circular", "onshore-circular", "solver", "groundwater"}
AtStart == {"no-xgrid", "no-bed", "no-ygrid", "no-ygrid-ny", "wind-columns", "wind-row", "tide-columns", "meteo-columns", "dist-name", "dist-layers", "convention", "no-config"}
Refusal(f) == CASE f = "none" -> "" [] f = "no-config" -> "OSError" [] f \in {"lateral-uniform", "offshore-circular", "onshore-circular"} -> "NotImplementedError" [] OTHER -> "ValueError"
=============================================================================
