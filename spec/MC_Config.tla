------------------------------ MODULE MC_Config ------------------------------
(* All short texts over an alphabet of significant characters.                *)
EXTENDS Config, TLC
CONSTANTS Alphabet, MaxLen, Dump
VARIABLE text
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text

Files == {"a"}
P == Parse(text, Files)
Types == {"bool", "int", "float", "none", "file", "str", "list"}
Total == P.t \in Types /\ (P.t = "list" => Len(P.v) > 1 /\ \A k \in 1..Len(P.v) : P.v[k].t \in Types \ {"list"})
\* comments and white space around do not matter
Comment == Parse(text \o <<"%", "1", "=">>, Files) = P
Padding == Parse(<<" ", "\t">> \o text \o <<" ">>, Files) = P
\* numbers are read exactly; what is read as an integer is a number without point or exponent
Numbers == /\ (P.t \in {"int", "float"} => RFinite(P.v))
           /\ (P.t = "int" => ~Has(Before(text, "%"), ".") /\ ~Has(Before(text, "%"), "e") /\ REq(RToInt(P.v), P.v))
\* doubling the white space changes nothing
Double == Parse(RForce(LET f[k \in 0..Len(text)] == IF k = 0 THEN <<>> ELSE f[k-1] \o (IF text[k] \in White THEN <<text[k], " ">> ELSE <<text[k]>>) IN f[Len(text)]), Files) = P
\* a list is the list of its words
Lists == P.t = "list" => P.v = [k \in 1..Len(Words(Trim(Before(text, "%")))) |-> Parse(Words(Trim(Before(text, "%")))[k], Files)]
Line == LET l == <<"k", " ", "=">> \o text  s == Settings(<<l>>, Files) IN IF ~Has(text, "=") THEN DOMAIN s = {"k"} /\ s["k"] = P ELSE TRUE
LastWins == LET l == <<"k", "=">> \o text  m == <<"k", "=", "7">> IN Settings(<<l, m>>, Files)["k"].v = R(7) /\ (~Has(text, "=") => Settings(<<m, l>>, Files)["k"] = P)
DumpIt == Dump => JAppend(JEnv("SCEN"), text)
=============================================================================
