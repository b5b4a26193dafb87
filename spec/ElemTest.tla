---- MODULE ElemTest ----
EXTENDS Elem
VARIABLE n
Init == n = -40
Next == n < 40 /\ n' = n + 1
Tol == Eps10(45)
X == FRat(n * 7 + 1, 3)
OK == /\ Near(FMul(FExp(X), FExp(FNeg(X))), One, Eps10(15))
      /\ Near(FLn(FExp(FRat(n, 5))), FRat(n, 5), Tol)
      /\ Near(FAdd(FSq(FCos(X)), FSq(FSin(X))), One, Tol)
      /\ (n = -40 => PrintT(<<PI, LN2, FCos(PI), FExp(One)>>))
      /\ (n = -40 => Near(FCos(PI), FInt(-1), Tol) /\ Near(FSin(PI), Zero, Tol))
====
