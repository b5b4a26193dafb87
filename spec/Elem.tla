-------------------------------- MODULE Elem --------------------------------
(* Elementary functions on Fix numbers, and complex numbers <<re, im>>.      *)
EXTENDS Fix

TERMS == 38                                  \* Taylor terms for |z| <= 1/4

\* the least k with |x| <= 2^k / 4
RECURSIVE HalvingsFrom(_, _)
HalvingsFrom(x, k) == IF FLe(FMul(FInt(4), x), One) THEN k
                      ELSE HalvingsFrom(FMul(x, Half), k + 1)

RECURSIVE ExpTaylor(_, _, _)
ExpTaylor(x, n, acc) ==                      \* Horner: 1 + x/1 (1 + x/2 (1 + ...))
  IF n = 0 THEN acc
  ELSE ExpTaylor(x, n - 1, TLCEval(FAdd(One, FDiv(FMul(x, acc), FInt(n)))))
RECURSIVE SquareTimes(_, _)
SquareTimes(v, k) == IF k = 0 THEN v ELSE SquareTimes(TLCEval(FMul(v, v)), k - 1)
RECURSIVE HalveTimes(_, _)
HalveTimes(v, k) == IF k = 0 THEN v ELSE HalveTimes(TLCEval(FMul(v, Half)), k - 1)

\* e^x; for very negative x compute 1/e^{-x}
FExp(x) == IF Sgn(x) = 0 THEN One
           ELSE LET p == TLCEval(FAbs(x))
                    k == TLCEval(HalvingsFrom(p, 0))
                    e == TLCEval(SquareTimes(ExpTaylor(HalveTimes(p, k), TERMS, One), k))
                IN IF Sgn(x) > 0 THEN e ELSE FDiv(One, e)

\* ln(m) for m near 1, by 2 atanh((m-1)/(m+1))
RECURSIVE AtanhFrom(_, _, _, _)
AtanhFrom(z2, pw, n, acc) ==
  IF Sgn(pw) = 0 THEN acc
  ELSE AtanhFrom(z2, TLCEval(FMul(pw, z2)), n + 2, TLCEval(FAdd(acc, FDiv(pw, FInt(n)))))
Atanh(z) == AtanhFrom(FMul(z, z), z, 1, Zero)
LnNear1(m) == FMul(Two, Atanh(FDiv(FSub(m, One), FAdd(m, One))))
LN2 == TLCEval(LnNear1(Two))
RECURSIVE LnScaled(_, _)
LnScaled(x, k) ==                            \* x * 2^k
  IF FLt(FMul(FInt(3), One), FMul(Two, x)) THEN LnScaled(TLCEval(FMul(x, Half)), k + 1)
  ELSE IF FLt(FMul(FInt(4), x), FInt(3)) THEN LnScaled(TLCEval(FMul(x, Two)), k - 1)
  ELSE FAdd(LnNear1(x), FMul(FInt(k), LN2))
FLn(x) == LnScaled(x, 0)                     \* x > 0

\* pi = 16 atan(1/5) - 4 atan(1/239)
RECURSIVE AtanFrom(_, _, _, _)
AtanFrom(z2, pw, n, acc) ==
  IF Sgn(pw) = 0 THEN acc
  ELSE AtanFrom(z2, TLCEval(FNeg(FMul(pw, z2))), n + 2, TLCEval(FAdd(acc, FDiv(pw, FInt(n)))))
Atan(z) == AtanFrom(FMul(z, z), z, 1, Zero)
PI == TLCEval(FSub(FMul(FInt(16), Atan(FRat(1, 5))), FMul(FInt(4), Atan(FRat(1, 239)))))
TWOPI == TLCEval(FMul(Two, PI))

\* ---------------------------------------------------------------- complex
CReal(x)   == <<x, Zero>>
CZero      == <<Zero, Zero>>
COne       == <<One, Zero>>
CAdd(u, v) == <<FAdd(u[1], v[1]), FAdd(u[2], v[2])>>
CSub(u, v) == <<FSub(u[1], v[1]), FSub(u[2], v[2])>>
CMul(u, v) == <<FSub(FMul(u[1], v[1]), FMul(u[2], v[2])), FAdd(FMul(u[1], v[2]), FMul(u[2], v[1]))>>
CScale(x, u) == <<FMul(x, u[1]), FMul(x, u[2])>>
CConj(u)   == <<u[1], FNeg(u[2])>>
CAbs2(u)   == FAdd(FSq(u[1]), FSq(u[2]))
CDiv(u, v) == LET d == TLCEval(CAbs2(v)) w == TLCEval(CMul(u, CConj(v)))
              IN <<FDiv(w[1], d), FDiv(w[2], d)>>
CIsZero(u) == Sgn(u[1]) = 0 /\ Sgn(u[2]) = 0

RECURSIVE CExpTaylor(_, _, _)
CExpTaylor(z, n, acc) ==
  IF n = 0 THEN acc
  ELSE CExpTaylor(z, n - 1,
         TLCEval(LET w == CMul(z, acc) IN <<FAdd(One, FDiv(w[1], FInt(n))), FDiv(w[2], FInt(n))>>))
RECURSIVE CSquareTimes(_, _)
CSquareTimes(v, k) == IF k = 0 THEN v ELSE CSquareTimes(TLCEval(CMul(v, v)), k - 1)
\* cos b + i sin b
CIS(b) == IF Sgn(b) = 0 THEN COne
          ELSE LET k == TLCEval(HalvingsFrom(FAbs(b), 0))
               IN CSquareTimes(CExpTaylor(<<Zero, HalveTimes(b, k)>>, TERMS, COne), k)
CExp(z) == IF Sgn(z[2]) = 0 THEN CReal(FExp(z[1])) ELSE CScale(FExp(z[1]), CIS(z[2]))
FCos(x) == CIS(x)[1]
FSin(x) == CIS(x)[2]
=============================================================================
