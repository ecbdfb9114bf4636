--------------------------------- MODULE Num ---------------------------------
(* Real arithmetic and JSON input/output for the AeoLiS specifications.       *)
(*                                                                            *)
(* The operators denote the obvious operations on the real numbers; a number  *)
(* may be written as an integer (2), as a decimal string ("0.05") or be a     *)
(* value read from a trace.  TLC evaluates them with the Java class           *)
(* java/tlc2/module/Num.java (IEEE-754 doubles carried by RealValue), so the  *)
(* right-hand sides below are never evaluated: they only declare the arity.   *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

R(a)        == a            \* the real denoted by a
RAdd(a, b)  == CHOOSE x : x = <<a, b>>
RSub(a, b)  == CHOOSE x : x = <<a, b>>
RMul(a, b)  == CHOOSE x : x = <<a, b>>
RDiv(a, b)  == CHOOSE x : x = <<a, b>>
RLt(a, b)   == CHOOSE x : x = <<a, b>>
RLe(a, b)   == CHOOSE x : x = <<a, b>>
REq(a, b)   == CHOOSE x : x = <<a, b>>
RNeg(a)     == CHOOSE x : x = a
RAbs(a)     == CHOOSE x : x = a
RMin(a, b)  == CHOOSE x : x = <<a, b>>
RMax(a, b)  == CHOOSE x : x = <<a, b>>
RSqrt(a)    == CHOOSE x : x = a
RPow(a, b)  == CHOOSE x : x = <<a, b>>
RExp(a)     == CHOOSE x : x = a
RLog(a)     == CHOOSE x : x = a
RSin(a)     == CHOOSE x : x = a
RCos(a)     == CHOOSE x : x = a
RTan(a)     == CHOOSE x : x = a
RAtan(a)    == CHOOSE x : x = a
RAtan2(a,b) == CHOOSE x : x = <<a, b>>
RTanh(a)    == CHOOSE x : x = a
RErf(a)     == CHOOSE x : x = a      \* error function
RFloor(a)   == CHOOSE x : x = a
RMod(a, b)  == CHOOSE x : x = <<a, b>>
RFinite(a)  == CHOOSE x : x = a
RIsNaN(a)   == CHOOSE x : x = a
RToInt(a)   == CHOOSE x : x = a      \* truncation to an integer

RClose(a, b, tol)      == CHOOSE x : x = <<a, b, tol>>      \* |a-b| <= tol*max(1,|a|,|b|)
RNear(a, b, rel, abs)  == CHOOSE x : x = <<a, b, rel, abs>> \* |a-b| <= rel*(|a|+|b|)+abs

RSum(s)     == CHOOSE x : x = s      \* sum of a sequence
RMinSeq(s)  == CHOOSE x : x = s
RMaxSeq(s)  == CHOOSE x : x = s
RDot(s, t)  == CHOOSE x : x = <<s, t>>
RFlat(s)    == CHOOSE x : x = s      \* nested sequences of numbers -> flat sequence
RSeqClose(s, t, tol) == CHOOSE x : x = <<s, t, tol>>  \* same shape, every number RClose
RSeqFinite(s) == CHOOSE x : x = s
RForce(s)   == s
RStr(a)     == CHOOSE x : x = a
IStr(a)     == CHOOSE x : x = a
SCat(a, b)  == CHOOSE x : x = <<a, b>>

JLoad(path)      == CHOOSE x : x = path
JEnv(name)       == CHOOSE x : x = name
JAppend(path, v) == CHOOSE x : x = <<path, v>>

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
Pi == RAtan2(0, -1)
a \prec b   == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b   == RLt(b, a)
a \succeq b == RLe(b, a)

=============================================================================
