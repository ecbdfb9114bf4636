-------------------------------- MODULE Config --------------------------------
(* The configuration file: what a line means, how values are written.        *)
(* Text is a sequence of one-character strings.                               *)
EXTENDS Num, Integers, Sequences, FiniteSets

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
White == {" ", "\t", "\r"}
Join(cs) == LET f[k \in 0..Len(cs)] == IF k = 0 THEN "" ELSE SCat(f[k-1], cs[k]) IN f[Len(cs)]
Has(cs, c) == \E k \in 1..Len(cs) : cs[k] = c
First(cs, c) == CHOOSE k \in 1..Len(cs) : cs[k] = c /\ \A j \in 1..(k-1) : cs[j] # c
Before(cs, c) == IF Has(cs, c) THEN SubSeq(cs, 1, First(cs, c) - 1) ELSE cs
After(cs, c) == SubSeq(cs, First(cs, c) + 1, Len(cs))
Trim(cs) == LET solid == {k \in 1..Len(cs) : cs[k] \notin White} IN
    IF solid = {} THEN <<>>
    ELSE SubSeq(cs, CHOOSE k \in solid : \A j \in solid : k <= j, CHOOSE k \in solid : \A j \in solid : k >= j)
\* words separated by white space
Words(cs) == LET f[k \in 0..Len(cs)] == IF k = 0 THEN [done |-> <<>>, cur |-> <<>>]
                   ELSE LET q == f[k-1] IN
                        IF cs[k] \in White THEN IF q.cur = <<>> THEN q ELSE [done |-> Append(q.done, q.cur), cur |-> <<>>]
                        ELSE [q EXCEPT !.cur = Append(@, cs[k])]
                 q == f[Len(cs)]
             IN IF q.cur = <<>> THEN q.done ELSE Append(q.done, q.cur)

(* ------------------------------------------------------------------ numbers *)
Unsigned(cs) == IF Len(cs) > 0 /\ cs[1] = "-" THEN Tail(cs) ELSE cs
AllDigits(cs) == \A k \in 1..Len(cs) : cs[k] \in Digit
IsInt(cs) == LET u == Unsigned(cs) IN Len(u) > 0 /\ AllDigits(u)
\* digits with at most one point and at least one digit, and an optional exponent
Mantissa(cs) == LET pts == {k \in 1..Len(cs) : cs[k] = "."} IN
    Cardinality(pts) <= 1 /\ Cardinality(pts) < Len(cs) /\ \A k \in 1..Len(cs) : cs[k] \in Digit \cup {"."}
Exponent(cs) == LET u == IF Len(cs) > 0 /\ cs[1] \in {"-", "+"} THEN Tail(cs) ELSE cs IN Len(u) > 0 /\ AllDigits(u)
IsFloat(cs) == LET u == Unsigned(cs)
                   es == {k \in 1..Len(u) : u[k] \in {"e", "E"}}
               IN \/ Mantissa(u)
                  \/ \E k \in es : Mantissa(SubSeq(u, 1, k - 1)) /\ Exponent(SubSeq(u, k + 1, Len(u)))

(* ------------------------------------------------------------------- values *)
\* files: the names of the files that exist
Scalar(cs, files) ==
    CASE cs = <<"T">> -> [t |-> "bool", v |-> "T"]
      [] cs = <<"F">> -> [t |-> "bool", v |-> "F"]
      [] IsInt(cs) -> [t |-> "int", v |-> R(Join(cs))]
      [] IsFloat(cs) -> [t |-> "float", v |-> R(Join(cs))]
      [] cs = <<>> \/ cs = <<"N", "o", "n", "e">> -> [t |-> "none", v |-> ""]
      [] OTHER -> IF Join(cs) \in files THEN [t |-> "file", v |-> Join(cs)] ELSE [t |-> "str", v |-> Join(cs)]
Parse(text, files) ==
    LET cs == Trim(Before(text, "%"))
        ws == Words(cs)
    IN IF Len(ws) > 1 THEN [t |-> "list", v |-> [k \in 1..Len(ws) |-> Scalar(ws[k], files)]] ELSE Scalar(cs, files)

(* -------------------------------------------------------------------- lines *)
IsSetting(line) == Has(line, "=") /\ LET l == Trim(line) IN l[1] # "%"
Key(line) == Join(Trim(Before(line, "=")))
Value(line, files) == Parse(Before(After(line, "="), "="), files)
\* the last setting of a name counts
Settings(lines, files) ==
    LET ix == {k \in 1..Len(lines) : IsSetting(lines[k])}
        keys == {Key(lines[k]) : k \in ix}
    IN [x \in keys |-> LET last == CHOOSE k \in ix : Key(lines[k]) = x /\ \A j \in ix : Key(lines[j]) = x => j <= k IN Value(lines[last], files)]

(* ----------------------------------------------------------------- validity *)
\* files of the configuration: [dim |-> number of dimensions, cols |-> columns] or [dim |-> 0] when absent
Table(f, n) == f.dim = 0 \/ (f.dim = 2 /\ f.cols >= n)
Valid(c) == c.x.dim > 0 /\ c.bed.dim > 0 /\ (c.ny > 0 => c.y.dim > 0) /\ Table(c.wind, 3) /\ Table(c.tide, 2) /\ Table(c.meteo, 6)
=============================================================================
