------------------------------ MODULE MC_Runner ------------------------------
(* All histories of update / write / get_var of bounded length over small     *)
(* configurations and environments.                                           *)
EXTENDS Runner, FiniteSets, TLC
CONSTANTS MaxOps, Dump
VARIABLES c, st, acc, ops

Configs == [tstart : {0, 5}, dt : {2}, accfac : {1, 3}, interval : {4},
            explicit : BOOLEAN, CFL : {1}, maxdz : {999, 1}]
Args  == {-3, -1, 1, 3}
Rates == {"0", "0.125", "2"}
Dzbs  == {0, 2}
vars == <<c, st, acc, ops>>

Init == c \in Configs /\ st = Init0(c) /\ acc = Acc0 /\ ops = <<>>
DoUpdate(a, r, d) ==
    /\ st' = Update(c, st, a, r, d, Len(ops) % 3)
    /\ acc' = AccAdd(IF st.clear \/ Skips(st.dt) THEN Acc0 ELSE acc, Len(ops) % 3)
    /\ ops' = Append(ops, [op |-> "update", arg |-> a, rate |-> r])
\* the runner writes at most once per time level
DoWrite == /\ st.recs # <<>> => ~REq(st.recs[Len(st.recs)], st.t)
           /\ st' = Write(c, st)
           /\ acc' = IF Due(c, st) THEN Acc0 ELSE acc
           /\ ops' = Append(ops, [op |-> "write"])
DoGet(b) == st' = GetVar(st, b) /\ acc' = acc /\ ops' = Append(ops, [op |-> "get", clear |-> b])
Next == /\ Len(ops) < MaxOps /\ UNCHANGED c
        /\ \/ \E a \in Args, r \in Rates, d \in Dzbs :
                /\ (Skips(a) \/ ~c.explicit) => (r = "2")
                /\ (REq(c.maxdz, NoLimit)) => (d = 0)
                /\ DoUpdate(a, r, d)
           \/ DoWrite
           \/ \E b \in BOOLEAN : DoGet(b)
Spec == Init /\ [][Next]_vars
View == <<c, st, acc, Len(ops)>>

Last == ops'[Len(ops')]
TimeAdvances == [][ Last.op = "update" => st.t \prec st'.t ]_vars
StepBounded  == [][ (Last.op = "update" /\ ~Skips(Last.arg)) =>
                        /\ st'.dt \succ 0 /\ st'.dt \preceq Requested(c, Last.arg)
                        /\ (c.explicit => (st'.dt ** Last.rate) \preceq c.CFL)
                        /\ ((c.maxdz # 999 /\ st.dt \succ 0 /\ ~Stalled(c, Last.arg, Last.rate))
                              => ((st'.dt ** st.dzb) // st.dt) \preceq c.maxdz) ]_vars
RecordsOrdered == Increasing(st.recs) /\ Spaced(st.recs, c.interval)
NoRecordMissed == [][ Last.op = "write" => ((st'.t -- st'.tout) \prec c.interval) ]_vars
RequestHeeded  == [][ (st.clear /\ Last.op # "update") => st'.clear ]_vars
LastRecord     == st.recs # <<>> => st.recs[Len(st.recs)] = st.tout
StatsMatch     == \A s \in StatNames : (Len(st.win) > 0) => RNear(Stat(st.win, s), AccStat(acc, s), "1e-9", "1e-9")
CountMatches   == acc.n = Len(st.win)
DumpIt == (Dump /\ Len(ops) = MaxOps) => JAppend(JEnv("SCEN"), [cfg |-> c, ops |-> ops])
=============================================================================
