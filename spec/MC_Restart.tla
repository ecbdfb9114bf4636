----------------------------- MODULE MC_Restart -----------------------------
(* Crashes at any point, resumption from any restart file, damaged files.     *)
EXTENDS Restart, TLC
CONSTANTS NSteps, Every, MaxCrash, MaxOps, Fields, Dump
VARIABLES c, env, p, tr, files, crashes, ops
vars == <<c, env, p, tr, files, crashes, ops>>

Configs == [tstart : {0, 5}, dt : {2}, accfac : {1, 3}, interval : {4}, explicit : {TRUE}, CFL : {1}, maxdz : {999, 1}]
\* wind and bed changes as functions of time: what the steps see
Envs == [1..2 -> {[rate |-> "0.25", dzb |-> 2], [rate |-> "2", dzb |-> 0], [rate |-> "0", dzb |-> 0]}]
At(e, t) == e[1 + (RToInt(t) % 2)]
Step(e, st) == LET v == At(e, st.t) IN [Update(c, st, 0 - 1, v.rate, v.dzb, 0) EXCEPT !.win = <<>>]

\* the run without interruptions
Ref == LET f[k \in 0..NSteps] == IF k = 0 THEN Init0(c) ELSE LET q == f[k-1] IN RForce(Step(env, q)) IN f
Calls(st) == CHOOSE k \in 0..NSteps : REq(Ref[k].t, st.t)
Keep(f) == [x \in DOMAIN f |-> IF x \in Fields THEN f[x] ELSE Saved(Init0(c))[x]]

Init == /\ c \in Configs /\ env \in Envs /\ p = Init0(c) /\ tr = R(0) /\ files = <<>> /\ crashes = 0 /\ ops = <<>>
Log(o) == ops' = Append(ops, o)
DoStep == /\ Up(p) /\ Calls(p) < NSteps
          /\ \E q \in {RForce(Step(env, p))} :
               /\ p' = q
               /\ IF DumpDue(Every, q.t, tr) THEN /\ files' = Append(SelectSeq(files, LAMBDA f : ~REq(f.t, q.t)), Keep(Saved(q))) /\ tr' = R(q.t)
                  ELSE UNCHANGED <<files, tr>>
          /\ Log([op |-> "step"]) /\ UNCHANGED <<c, env, crashes>>
DoCrash == /\ Up(p) /\ crashes < MaxCrash /\ (Dump => Calls(p) > 1) /\ p' = Down /\ crashes' = crashes + 1 /\ Log([op |-> "crash"]) /\ UNCHANGED <<c, env, tr, files>>
DoResume == /\ ~Up(p)
            /\ \/ \E k \in 1..Len(files) : p' = Loaded(c, files[k]) /\ tr' = R(files[k].t) /\ Log([op |-> "resume", t |-> files[k].t, k |-> k])
               \/ (Dump => Len(files) = 0) /\ p' = Init0(c) /\ tr' = R(0) /\ Log([op |-> "start"])
               \/ p' = p /\ tr' = tr /\ ops # <<>> /\ ops[Len(ops)].op # "damaged" /\ Log([op |-> "damaged"])     \* rejected
            /\ UNCHANGED <<c, env, files, crashes>>
Next == Len(ops) < MaxOps /\ (DoStep \/ DoCrash \/ DoResume)
Spec == Init /\ [][Next]_vars
View == <<c, env, p, tr, files, crashes, Len(ops)>>

Same(a, b) == REq(a.t, b.t) /\ REq(a.dt, b.dt) /\ a.steps = b.steps /\ REq(a.dzb, b.dzb)
OnTrack == Up(p) => \E k \in 0..NSteps : Same(p, Ref[k])
FilesOnTrack == \A i \in 1..Len(files) : \E k \in 1..NSteps : Same(files[i], Ref[k])
\* no restart file exists at a time at which the uninterrupted run writes none
RefDumps == LET f[k \in 0..NSteps] == IF k = 0 THEN [tr |-> R(0), ts |-> {}]
                 ELSE LET q == f[k-1] IN IF DumpDue(Every, Ref[k].t, q.tr) THEN [tr |-> Ref[k].t, ts |-> q.ts \cup {k}] ELSE q
            IN f[NSteps].ts
SameSchedule == \A i \in 1..Len(files) : \E k \in RefDumps : REq(Ref[k].t, files[i].t)
DumpIt == (Dump /\ Len(ops) = MaxOps) => JAppend(JEnv("SCEN"), [every |-> Every, ops |-> ops])
=============================================================================
