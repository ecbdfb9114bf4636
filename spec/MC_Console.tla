------------------------------ MODULE MC_Console ------------------------------
EXTENDS Console, TLC
CONSTANTS MaxOps, Dump
VARIABLES fs, hist, ok, before
vars == <<fs, hist, ok, before>>
Init0 == fs = Start /\ hist = <<>> /\ ok = TRUE /\ before = Start
Do(c) == \E a \in After(fs, c) : fs' = a.fs /\ ok' = a.ok /\ before' = fs /\ hist' = Append(hist, c)
Next == Len(hist) < MaxOps /\ \E c \in Commands \cup UserActs : Do(c)
Spec == Init0 /\ [][Next]_vars
Last == hist[Len(hist)]
Changed == {f \in Files : fs[f] # before[f]}
Touches(c) == CASE c.do = "run" -> {"nc", "log"} [] c.do = "wind" -> {"wind"} [] c.do = "examples" -> {"ex1", "ex2"} [] c.do \in {"edit-ex1", "remove-ex1"} -> {"ex1"} [] c.do = "remove-ex2" -> {"ex2"}
                [] c.do \in {"other-cfg", "remove-cfg"} -> {"cfg"} [] c.do = "own-nc" -> {"nc"} [] c.do = "own-wind" -> {"wind"} [] OTHER -> {}
\* commands change their own files only
OwnFiles == hist # <<>> => Changed \subseteq Touches(Last)
OthersKept == fs.other = "mine"
\* what the user made of an example survives all commands
MineKept == (hist # <<>> /\ Last.do = "examples") => \A e \in {"ex1", "ex2"} : before[e] # "none" => fs[e] = before[e]
\* a successful run leaves the result of the present configuration, whatever was there
Fresh == (hist # <<>> /\ Last.do = "run" /\ ok) => fs.nc = Result(fs.cfg, Last.how)
FailKeeps == (hist # <<>> /\ ~ok /\ Last.do # "examples" /\ Last.do # "run") => fs = before
DumpIt == (Dump /\ Len(hist) = MaxOps) => JAppend(JEnv("SCEN"), [hist |-> hist])
=============================================================================
