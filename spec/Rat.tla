------------------------------- MODULE Rat -------------------------------
(***************************************************************************)
(* Exact rational arithmetic of unbounded size.                            *)
(*                                                                         *)
(* A rational is an Int or a canonical string "n/d".  TLC's own integers   *)
(* are 32 bit, and every IEEE double is a rational with a 53-bit numerator *)
(* and a power-of-two denominator, so the numbers the implementation       *)
(* computes are carried into the specification as exact rationals and are  *)
(* compared with exact specification values; the only tolerance is the one *)
(* written in a clause.                                                    *)
(*                                                                         *)
(* The definitions below give the meaning; TLC evaluates the Java override *)
(* in java/Rat.java (as it does for Integers, Sequences, ...).  "nan",     *)
(* "inf", "-inf" are not rationals: RFin is FALSE for them, arithmetic on  *)
(* them gives "nan" and every comparison with them is FALSE.               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Undef == CHOOSE x : x \notin STRING     \* never evaluated: overridden

RFin(a)        == Undef   \* a denotes a rational
RAdd(a, b)     == Undef   \* a + b
RSub(a, b)     == Undef   \* a - b
RMul(a, b)     == Undef   \* a * b
RDiv(a, b)     == Undef   \* a / b, "nan" when b = 0
RNeg(a)        == Undef   \* -a
RAbs(a)        == Undef   \* |a|
REq(a, b)      == Undef   \* a = b
RLe(a, b)      == Undef   \* a <= b
RLt(a, b)      == Undef   \* a < b
RFloor(a)      == Undef   \* greatest integer <= a
RRound(a)      == Undef   \* nearest integer, ties to even
RClose(a,b,t)  == Undef   \* |a - b| <= t
RNear(a,b,t)   == Undef   \* |a - b| <= t * max(1, |b|)
RSqrt(a)       == Undef   \* square root: exact for squares of rationals, else to 60 digits
RShort(a)      == Undef   \* nearest number of 128 significant binary digits (keeps long computations short;
                          \* the relative error, 3e-39, is far below every tolerance)
RSum(s)        == Undef   \* sum of a sequence
RMaxOf(s)      == Undef   \* greatest element of a sequence
RMinOf(s)      == Undef   \* least element of a sequence
RDot(s, t)     == Undef   \* sum over i of s[i]*t[i]; "nan" when the lengths differ
--------------------------------------------------------------------------
RMin(a, b)   == IF RLe(a, b) THEN a ELSE b
RMax(a, b)   == IF RLe(a, b) THEN b ELSE a
RClip(x,a,b) == RMax(a, RMin(x, b))
RSq(a)       == RMul(a, a)
\* truncation toward zero, as a cast of a float to an integer does
RTrunc(a)    == IF RLt(a, 0) THEN RNeg(RFloor(RNeg(a))) ELSE RFloor(a)
==========================================================================
