-------------------------------- MODULE Store --------------------------------
(* The model state and the Basic Model Interface: named variables that can be *)
(* protected against assignment, parameters, and the queries on them.         *)
EXTENDS Num, Integers, Sequences, FiniteSets

\* s: [val: name -> value, mut: names that can be assigned]
New == [val |-> <<>>, mut |-> {}]
Has(s, k) == k \in DOMAIN s.val
SetItem(s, k, v) ==
    IF Has(s, k) /\ k \notin s.mut THEN s
    ELSE [val |-> [x \in DOMAIN s.val \cup {k} |-> IF x = k THEN v ELSE s.val[x]], mut |-> s.mut \cup {k}]
\* several assignments, kv: a sequence of <<name, value>>
RECURSIVE SetItems(_, _, _)
SetItems(s, kv, i) == IF i > Len(kv) THEN s ELSE SetItems(SetItem(s, kv[i][1], kv[i][2]), kv, i + 1)
Assign(s, kv) == SetItems(s, kv, 1)
Protect(s, k) == [s EXCEPT !.mut = @ \ {k}]
Release(s, k) == [s EXCEPT !.mut = @ \cup {k}]

\* the interface: variables shadow parameters, unknown names are ignored
SetVar(m, k, v) == IF Has(m.s, k) THEN [m EXCEPT !.s = SetItem(@, k, v)]
                   ELSE IF k \in DOMAIN m.p THEN [m EXCEPT !.p[k] = v] ELSE m
GetVar(m, k) == IF Has(m.s, k) THEN m.s.val[k] ELSE IF k \in DOMAIN m.p THEN m.p[k] ELSE "none"
\* names: the names in alphabetical order, as a sequence; the index starts at zero
NameAt(names, k) == IF k < Len(names) THEN names[k+1] ELSE "none"
SetVarIndex(m, names, k, v) == IF k < Len(names) THEN SetVar(m, names[k+1], v) ELSE m
=============================================================================
