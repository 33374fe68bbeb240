------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Elementary functions of rationals, to about 25 digits for arguments of  *)
(* moderate size.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

Pi == "3141592653589793238462643383279502884197/1000000000000000000000000000000000000000"
Rad(deg) == RShort(RDiv(RMul(deg, Pi), 180))

\* ---- natural logarithm of a positive number
Ln2 == "693147180559945309417232121458176568/1000000000000000000000000000000000000"
RECURSIVE Odd(_, _, _, _)
\* z + z^3/3 s + z^5/5 s^2 ..., zz = s z^2
Odd(z, zz, i, n) == IF i > n THEN 0 ELSE RAdd(RDiv(z, (2 * i) + 1), Odd(RShort(RMul(z, zz)), zz, i + 1, n))
LnNear(m) == LET z == RShort(RDiv(RSub(m, 1), RAdd(m, 1))) IN RShort(RMul(2, Odd(z, RShort(RMul(z, z)), 0, 13)))
RECURSIVE Ln(_)
Ln(x) == IF RLt("4/3", x) THEN RAdd(Ln2, Ln(RDiv(x, 2))) ELSE IF RLt(x, "2/3") THEN RSub(Ln(RMul(x, 2)), Ln2) ELSE LnNear(x)

\* ---- exponential of a small number
RECURSIVE ExpTail(_, _, _, _)
ExpTail(x, t, i, n) == IF i > n THEN 0 ELSE RAdd(t, ExpTail(x, RShort(RDiv(RMul(t, x), i)), i + 1, n))
ExpSmall(x) == RShort(ExpTail(x, 1, 1, 16))

\* ---- circular functions
RECURSIVE Alt(_, _, _, _)
\* t - t s/(i (i+1)) + ..., s = x^2
Alt(t, s, i, n) == IF i > n THEN 0 ELSE RAdd(t, Alt(RShort(RDiv(RNeg(RMul(t, s)), i * (i + 1))), s, i + 2, n))
Sin(x) == RShort(Alt(x, RShort(RMul(x, x)), 2, 32))
Cos(x) == RShort(Alt(1, RShort(RMul(x, x)), 1, 32))
RECURSIVE AtanOf(_, _)
AtanOf(x, k) == IF k = 0 THEN Odd(x, RNeg(RShort(RMul(x, x))), 0, 16)
                ELSE RMul(2, AtanOf(RShort(RDiv(x, RAdd(1, RShort(RSqrt(RShort(RAdd(1, RMul(x, x)))))))), k - 1))
Atan(x) == RShort(AtanOf(x, 3))
Atanh(x) == RDiv(Ln(RDiv(RAdd(1, x), RSub(1, x))), 2)
=============================================================================
