----------------------------- MODULE Trace_Config -----------------------------
(* Configuration files read, written and checked by the real code.            *)
EXTENDS Config, TraceLib
VARIABLE i

Num(t) == t.t \in {"int", "float", "bool"}
Val(t) == IF t.t = "bool" THEN (IF t.v = "T" THEN R(1) ELSE R(0)) ELSE R(t.v)
SameScalar(a, b) == a.t = b.t /\ IF a.t \in {"int", "float"} THEN REq(a.v, b.v) ELSE a.v = b.v
\* the elements of a list share a type: numbers, or texts when one of them is a text
Word(w, s) == IF s.t \in {"int", "float"} THEN TRUE ELSE IF s.t = "bool" THEN w = (IF s.v = "T" THEN "True" ELSE "False") ELSE IF s.t = "none" THEN w \in {"None", ""} ELSE w = s.v
SameList(got, exp) ==
    /\ Len(got) = Len(exp)
    /\ \A k \in 1..Len(exp) :
         IF got[k].t = "str" /\ exp[k].t # "str" THEN (\E j \in 1..Len(exp) : exp[j].t = "str") /\ Word(got[k].v, exp[k])
         ELSE IF Num(got[k]) /\ Num(exp[k]) THEN REq(Val(got[k]), Val(exp[k])) ELSE SameScalar(got[k], exp[k])
\* an array read from a file: shape and complex values (a list when it is a row)
SameArray(got, f) == IF got.t = "list" THEN Len(f.shape) = 1 /\ \A k \in 1..Len(got.v) : REq(got.v[k].v, f.v[1][k])
                     ELSE got.t = "array" /\ RSeqClose(got.shape, f.shape, "0") /\ RSeqClose(got.v, f.v, "1e-15")
Same(got, exp) == IF exp.t = "list" THEN got.t = "list" /\ SameList(got.v, exp.v) ELSE IF exp.t = "array" THEN SameArray(got, exp) ELSE SameScalar(got, exp)
AsList(e) == IF e.t = "list" THEN e ELSE [t |-> "list", v |-> <<e>>]

JudgeVal(ev) == UNION {LET c == ev.cases[k]  e == Parse(c.text, {}) IN
    Clause("parse:value", Same(c.got, e)) \cup Clause("parse:forced-list", Same(c.many, AsList(e))) : k \in 1..Len(ev.cases)}

Falsy(e) == e.t = "none" \/ (e.t \in {"int", "float"} /\ REq(e.v, 0)) \/ (e.t = "bool" /\ e.v = "F")
FromFile(ev, got, f) == IF f \in DOMAIN ev.table THEN SameArray(got, ev.table[f]) ELSE got.t = "str" /\ got.v = f
JudgeRead(ev) ==
  LET files == {ev.files[k] : k \in 1..Len(ev.files)}
      s == Settings(ev.lines, files)
      given(k) == k \in DOMAIN s
  IN Clause("read:values", \A k \in DOMAIN s : k \in DOMAIN ev.got /\ LET g == ev.got[k]  e == s[k] IN
        IF k \in {"output_file"} THEN TRUE
        ELSE IF k = "h" /\ Falsy(e) THEN IF ev.z.t = "none" THEN TRUE ELSE Same(g, ev.z)
        ELSE IF k = "nsavetimes" /\ Falsy(e) THEN REq(g.v, RFloor(ev.dzb // ev.dt))
        ELSE IF k \in {"grain_size", "grain_dist"} THEN (ev.defaults => (g.t = "list" \/ (e.t = "file" /\ g.t = "array") \/ e.t = "none"))
        ELSE IF e.t = "file" THEN FromFile(ev, g, e.v)
        ELSE Same(g, e)) \cup
     (IF ev.defaults THEN Clause("read:defaults", \A k \in 1..Len(ev.all) : ev.all[k] \in DOMAIN ev.got \cup {ev.rest[j] : j \in 1..Len(ev.rest)}) \cup
                          Clause("read:defaults-kept", {ev.rest[j] : j \in 1..Len(ev.rest)} = {ev.same[j] : j \in 1..Len(ev.same)}) \cup
                          (IF ~given("h") THEN Clause("read:derived", Same(ev.got["h"], ev.z)) ELSE {}) \cup
                          (IF ~given("output_file") THEN Clause("read:output-file", ev.got["output_file"].v = "case.nc") ELSE {})
      ELSE Clause("read:nothing-else", DOMAIN ev.got \subseteq DOMAIN s /\ ev.rest = <<>>)) \cup
     Clause("read:defaults-untouched", ev.intact)
JudgeWrite(ev) == Clause("write:names", DOMAIN ev.p = DOMAIN ev.q) \cup Clause("write:values", \A k \in DOMAIN ev.p \cap DOMAIN ev.q : Same(ev.q[k], ev.p[k]))
JudgeParams(ev) == Clause("params:written-when-changed", ev.same = ~ev.changed) \cup Clause("params:backup", ev.backup = IF ev.changed THEN <<TRUE>> ELSE <<>>) \cup
    (IF ev.changed THEN Clause("params:values", \A k \in DOMAIN ev.p : Same(ev.q[k], ev.p[k])) ELSE {})
JudgeCheck(ev) == Clause("check:valid", ev.exc = (IF Valid(ev.c) THEN "" ELSE "ValueError"))
JudgeBackup(ev) == Clause("backup:all-kept", Len(ev.kept) = ev.n /\ \A k \in 1..ev.n : REq(ev.kept[k], k - 1))

Judge(ev) == IF ev.kind \notin {"check", "miss", "val"} /\ ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "val" -> JudgeVal(ev) [] ev.kind = "read" -> JudgeRead(ev) [] ev.kind = "write" -> JudgeWrite(ev) [] ev.kind = "params" -> JudgeParams(ev)
     [] ev.kind = "check" -> JudgeCheck(ev) [] ev.kind = "miss" -> Clause("read:missing-file", ev.raised \in {"OSError", "IOError", "FileNotFoundError"}) [] ev.kind = "backup" -> JudgeBackup(ev)
Tags(ev) == {ev.kind} \cup (IF ev.kind = "check" THEN Tag("invalid", ~Valid(ev.c)) ELSE {}) \cup
   (IF ev.kind = "val" THEN {SCat("type-", Parse(ev.cases[k].text, {}).t) : k \in 1..Len(ev.cases)} ELSE {})
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
