------------------------------ MODULE Isolation ------------------------------
(* Several models in one process.  A model owns the cells of a heap: what its *)
(* state holds and what its parameters hold; creating a model copies the      *)
(* shared defaults.  The content of a cell is the history of what happened to *)
(* it, so that a model that is alone determines what each cell should hold.   *)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

Ops == {"init", "step", "poke", "param"}
\* a model alone: configuration and the operations on it -> the contents of its cells
Alone(cfg, h) ==
    LET f[k \in 0..Len(h)] ==
          IF k = 0 THEN [state |-> <<>>, param |-> <<ToString(cfg)>>]
          ELSE LET q == f[k-1] IN
               CASE h[k] = "init"  -> [q EXCEPT !.state = <<[o |-> "init", p |-> q.param]>>]
                 [] h[k] = "step"  -> [q EXCEPT !.state = Append(@, [o |-> "step", p |-> q.param])]
                 [] h[k] = "poke"  -> [q EXCEPT !.state = Append(@, [o |-> "poke", p |-> <<>>])]
                 [] h[k] = "param" -> [q EXCEPT !.param = Append(@, "param")]
    IN f[Len(h)]
\* operations that make sense after a history
Ready(h) == \E k \in 1..Len(h) : h[k] = "init"
May(h, o) == IF o \in {"step", "poke"} THEN Ready(h) ELSE IF o = "init" THEN ~Ready(h) ELSE TRUE
=============================================================================
