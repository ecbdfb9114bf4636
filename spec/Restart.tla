------------------------------- MODULE Restart -------------------------------
(* Restart files: a run that is interrupted anywhere and resumed from any     *)
(* restart file continues as if it had not been interrupted.                  *)
(*                                                                            *)
(* The process is a runner state (module Runner) or "down"; files maps the    *)
(* number of steps at which a restart file was written to what it holds.      *)
EXTENDS Runner, FiniteSets

Down == [down |-> TRUE]
Up(p) == "t" \in DOMAIN p
\* everything that the following steps depend on
Saved(st) == [t |-> st.t, dt |-> st.dt, steps |-> st.steps, dzb |-> st.dzb]
Loaded(c, f) == [Init0(c) EXCEPT !.t = f.t, !.dt = f.dt, !.steps = f.steps, !.dzb = f.dzb]
\* a restart file is due when the restart interval has passed since the last one
DumpDue(every, t, tr) == every \succ 0 /\ (t -- tr) \succeq every
=============================================================================
