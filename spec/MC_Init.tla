------------------------------- MODULE MC_Init -------------------------------
(* All small configurations: composition of the bed per cell, layer, fraction *)
EXTENDS Init, TLC
CONSTANTS MaxN, NShares, Dump
VARIABLES opt, phase, mass
vars == <<opt, phase, mass>>

Shares == LET all == << <<1>>, <<1, 3>>, <<"0.01", 2, 1>>, <<"0.2", "0.3", "0.5">> >> IN {all[k] : k \in 1..NShares}
Dims == [ny : {1, MaxN + 1}, nx : {MaxN}, nl : 1..MaxN, nf : 1..MaxN]
Options == [d : Dims, comp : {"one", "layers", "cells"}, whole : BOOLEAN, thick : {"one", "list"}, fault : Faults, conv : {"nautical", "cartesian"}]
c(o, g) == [rhog |-> 2650, porosity |-> "0.4", thickness |-> IF o.thick = "one" THEN <<"0.01">> ELSE [l \in 1..o.d.nl |-> R(l) ** "0.01"], comp |-> o.comp,
            dist |-> [l \in 1..o.d.nl |-> [f \in 1..o.d.nf |-> g[((l + f) % Len(g)) + 1]]], cells |-> [k \in 1..(o.d.ny * o.d.nx * o.d.nl * o.d.nf) |-> k]]
Valid(o) == /\ (o.comp = "layers" => o.d.nl > 1 /\ o.d.nf > 1) /\ (o.whole => o.comp # "layers")
            /\ (o.fault = "dist-layers" => o.comp = "layers") /\ (o.fault = "dist-name" => o.comp = "one") /\ (o.fault \in {"no-ygrid", "no-ygrid-ny"} => o.d.ny > 1)
            /\ (o.fault \in {"lateral", "lateral-uniform"} => o.d.ny > 1)
Init0 == /\ opt \in {o \in Options : Valid(o)} /\ phase = "new" /\ mass = <<>>
Start == /\ phase = "new"
         /\ IF opt.fault \in AtStart THEN phase' = "refused" /\ UNCHANGED mass
            ELSE phase' = "ready" /\ \E g \in Shares : mass' = RForce([y \in 1..opt.d.ny |-> [x \in 1..opt.d.nx |-> [l \in 1..opt.d.nl |-> [f \in 1..opt.d.nf |-> Mass(c(opt, g), opt.d, y, x, l, f)]]]])
         /\ UNCHANGED opt
Step == /\ phase = "ready" /\ phase' = (IF opt.fault = "none" THEN "stepped" ELSE "refused") /\ UNCHANGED <<opt, mass>>
Next == Start \/ Step
Spec == Init0 /\ [][Next]_vars
\* layers are full, whatever the composition
FullLayers == (phase \in {"ready", "stepped"} /\ opt.comp # "cells") => \A y \in 1..opt.d.ny, x \in 1..opt.d.nx, l \in 1..opt.d.nl :
      LET k == c(opt, <<1>>) IN RClose(RSum(mass[y][x][l]), Full(k, Thickness(k, l)), "1e-9")
\* given masses are used one by one
Given == (phase = "ready" /\ opt.comp = "cells") => /\ REq(RSum(RFlat(mass)), RSum([k \in 1..(opt.d.ny * opt.d.nx * opt.d.nl * opt.d.nf) |-> k]))
                                                     /\ REq(mass[1][1][1][1], 1) /\ REq(mass[opt.d.ny][opt.d.nx][opt.d.nl][opt.d.nf], opt.d.ny * opt.d.nx * opt.d.nl * opt.d.nf)
Positive == \A m \in {RFlat(mass)} : \A k \in 1..Len(m) : m[k] \succeq 0
Refused == (phase = "refused") => Refusal(opt.fault) # ""
Accepted == (phase = "stepped") => Refusal(opt.fault) = ""
Cartesian == \A a \in {0, 45, 90, 180, 270, 360} : RAbs(RSin((R(270) -- a) ** (Pi // 180)) -- RSin(Direction("cartesian", a) ** (Pi // 180))) \preceq "1e-3"
DumpIt == (Dump /\ phase \in {"stepped", "refused"}) => JAppend(JEnv("SCEN"), [opt |-> opt])
=============================================================================
