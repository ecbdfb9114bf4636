---------------------------- MODULE MC_Isolation ----------------------------
EXTENDS Isolation, TLC
CONSTANTS N, NCfg, MaxOps, Shared, Dump
VARIABLES ref, heap, hist, cfg, ops
vars == <<ref, heap, hist, cfg, ops>>

Defaults == 0       \* the address of the shared defaults
Absent == 0
Models == 1..N
StateAt(i) == 2 * i - 1
ParamAt(i) == 2 * i
Init == /\ ref = [i \in Models |-> [state |-> 0, param |-> 0]] /\ heap = [a \in 0..(2 * N) |-> <<>>]
        /\ hist = [i \in Models |-> <<>>] /\ cfg = [i \in Models |-> Absent] /\ ops = <<>>
Log(i, o, c) == ops' = Append(ops, [i |-> i, op |-> o, c |-> c])
\* models are created in order; one can be created again (its name is bound to a new model)
Create(i, c) == /\ \A j \in 1..(i-1) : cfg[j] # Absent
                /\ (Dump => cfg[i] = Absent \/ (Len(hist[i]) > 4 /\ Len(ops) < MaxOps - 4))
                /\ cfg' = [cfg EXCEPT ![i] = c] /\ hist' = [hist EXCEPT ![i] = <<>>]
                /\ LET a == IF Shared THEN Defaults ELSE ParamAt(i) IN
                   /\ ref' = [ref EXCEPT ![i] = [state |-> StateAt(i), param |-> a]]
                   /\ heap' = [heap EXCEPT ![StateAt(i)] = <<>>, ![a] = <<ToString(c)>>]
                /\ Log(i, "create", c)
Act(i, o) == /\ cfg[i] # Absent /\ May(hist[i], o)
             /\ (Dump /\ o = "param" => Cardinality({k \in 1..Len(hist[i]) : hist[i][k] = "param"}) < 1)
             /\ hist' = [hist EXCEPT ![i] = Append(@, o)]
             /\ LET s == ref[i].state  p == ref[i].param IN
                heap' = CASE o = "init"  -> [heap EXCEPT ![s] = <<[o |-> "init", p |-> heap[p]]>>]
                          [] o = "step"  -> [heap EXCEPT ![s] = Append(@, [o |-> "step", p |-> heap[p]])]
                          [] o = "poke"  -> [heap EXCEPT ![s] = Append(@, [o |-> "poke", p |-> <<>>])]
                          [] o = "param" -> [heap EXCEPT ![p] = Append(@, "param")]
             /\ Log(i, o, cfg[i]) /\ UNCHANGED <<ref, cfg>>
Next == Len(ops) < MaxOps /\ \E i \in Models : (\E c \in 1..NCfg : Create(i, c)) \/ (\E o \in Ops : Act(i, o))
Spec == Init /\ [][Next]_vars
View == <<ref, heap, hist, cfg, Len(ops)>>

Independent == \A i \in Models : cfg[i] # Absent => LET q == Alone(cfg[i], hist[i]) IN heap[ref[i].state] = q.state /\ heap[ref[i].param] = q.param
DefaultsKept == heap[Defaults] = <<>>
Determined == \A i, j \in Models : (cfg[i] # Absent /\ cfg[i] = cfg[j] /\ hist[i] = hist[j]) => heap[ref[i].state] = heap[ref[j].state]
DumpIt == (Dump /\ Len(ops) = MaxOps) => JAppend(JEnv("SCEN"), [ops |-> ops])
=============================================================================
