-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact rational numbers as strings "p" or "p/q" in lowest terms (or      *)
(* "nan", "inf", "-inf"), so that the specification can compute on the     *)
(* exact values of the doubles openscm works with.  The operators are      *)
(* implemented by java/NumOps.java (loaded as a TLC operator override);    *)
(* the definitions here only declare them.  MC_Num tests the laws used.    *)
(* Numbers may also be given as TLC integers or decimal strings; results   *)
(* are always normalised strings.                                          *)
(***************************************************************************)
LOCAL Undef(x) == CHOOSE y \in {} : y = x

N(a)         == Undef(a)        \* normalise
NAdd(a, b)   == Undef(a)
NSub(a, b)   == Undef(a)
NMul(a, b)   == Undef(a)
NDiv(a, b)   == Undef(a)
NNeg(a)      == Undef(a)
NAbs(a)      == Undef(a)
NLe(a, b)    == Undef(a)
NLt(a, b)    == Undef(a)
NEq(a, b)    == Undef(a)
NSum(s)      == Undef(s)        \* of a sequence
NMaxAbs(s)   == Undef(s)        \* of a sequence, ignoring NaN
NFloor(a)    == Undef(a)
NInt(a)      == Undef(a)        \* as a TLC integer
NIsInt(a)    == Undef(a)
NClose(a, b, scale, tol) == Undef(a)  \* |a-b| <= tol * max(|a|,|b|,scale)
NLog2(a)     == Undef(a)
NSqrt(a)     == Undef(a)
NDouble(a)   == Undef(a)        \* nearest double
NRound(a)    == Undef(a)        \* to 240 bits, if longer
NShow(a)     == Undef(a)        \* decimal, for messages
Chars(s)     == Undef(s)        \* code points of a string
Str(cs)      == Undef(cs)       \* and back
Cat(a, b)    == Undef(a)        \* concatenation of two strings

NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NMax(a, b) == IF NLe(b, a) THEN a ELSE b
NNaN(a) == a = "nan"
=============================================================================
