-------------------------------- MODULE Console --------------------------------
(* The command line as a machine over the user's files.  A file has a token   *)
(* that stands for its content: cfg "c1"/"c2", results of a run "r:<cfg>:<how>",*)
(* examples "ex" as in the package, "mine" what the user made of a file.       *)
EXTENDS Num, Integers, Sequences, FiniteSets

Files == {"cfg", "nc", "log", "wind", "ex1", "ex2", "other"}
How == {"plain", "callback", "restart", "no-callback", "no-restart"}
Commands == [do : {"run"}, how : How, from : {"here", "folder"}] \cup
            [do : {"wind", "examples", "old-run", "old-wind", "unknown", "no-argument", "help"}, how : {"plain"}, from : {"here"}]
UserActs == [do : {"edit-ex1", "remove-ex1", "remove-ex2", "other-cfg", "remove-cfg", "own-nc", "own-wind"}, how : {"plain"}, from : {"here"}]

Result(cfg, how) == SCat(SCat(SCat("r:", cfg), ":"), how)
\* what may be true after a command: the files and whether it reports success
Run(fs, how) == IF fs.cfg = "none" THEN {[fs |-> fs, ok |-> FALSE]}
                ELSE IF how \in {"no-callback", "no-restart"}
                     \* refused before any step; the output file may have been started
                     THEN {[fs |-> [fs EXCEPT !.nc = n, !.log = "log"], ok |-> FALSE] : n \in {fs.nc, "empty"}}
                     ELSE {[fs |-> [fs EXCEPT !.nc = Result(fs.cfg, how), !.log = "log"], ok |-> TRUE]}
Examples(fs) == IF fs.ex1 = "none" /\ fs.ex2 = "none" THEN {[fs |-> [fs EXCEPT !.ex1 = "ex", !.ex2 = "ex"], ok |-> TRUE]}
                \* existing examples are never overwritten
                ELSE {[fs |-> fs, ok |-> FALSE]} \cup (IF fs.ex1 = "none" THEN {[fs |-> [fs EXCEPT !.ex1 = "ex"], ok |-> FALSE]} ELSE {}) \cup (IF fs.ex2 = "none" THEN {[fs |-> [fs EXCEPT !.ex2 = "ex"], ok |-> FALSE]} ELSE {})
User(fs, do) == CASE do = "edit-ex1" -> [fs EXCEPT !.ex1 = IF fs.ex1 = "none" THEN "none" ELSE "mine"]
                  [] do = "remove-ex1" -> [fs EXCEPT !.ex1 = "none"] [] do = "remove-ex2" -> [fs EXCEPT !.ex2 = "none"]
                  [] do = "other-cfg" -> [fs EXCEPT !.cfg = IF fs.cfg = "c1" THEN "c2" ELSE "c1"] [] do = "remove-cfg" -> [fs EXCEPT !.cfg = "none"]
                  [] do = "own-nc" -> [fs EXCEPT !.nc = "mine"] [] do = "own-wind" -> [fs EXCEPT !.wind = "mine"]
After(fs, c) == CASE c.do = "run" -> Run(fs, c.how)
                  [] c.do = "wind" -> {[fs |-> [fs EXCEPT !.wind = "series"], ok |-> TRUE]}
                  [] c.do = "examples" -> Examples(fs)
                  [] c.do = "help" -> {[fs |-> fs, ok |-> TRUE]}
                  [] c.do \in {"old-run", "old-wind", "unknown", "no-argument"} -> {[fs |-> fs, ok |-> FALSE]}
                  [] OTHER -> {[fs |-> User(fs, c.do), ok |-> TRUE]}
Start == [cfg |-> "c1", nc |-> "none", log |-> "none", wind |-> "none", ex1 |-> "none", ex2 |-> "none", other |-> "mine"]
=============================================================================
