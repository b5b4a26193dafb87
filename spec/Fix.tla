-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Signed binary fixed-point numbers with 192 fractional bits.             *)
(*                                                                         *)
(* A number is the tuple <<s, m1, m2, ..., mk>>: s in {-1,0,1} is the sign  *)
(* and m1..mk are the little-endian base-4096 digits of                    *)
(* floor(|x| * 2^192), with mk # 0.  Zero is <<0>>.  Every finite IEEE      *)
(* double of magnitude >= 2^-139 is represented exactly, so what the        *)
(* implementation returned is compared as it is, not as it prints.          *)
(*                                                                         *)
(* The definitions below are the meaning.  TLC replaces the operators        *)
(* named F* by /verif/java/Fix.java (java.math.BigInteger) for speed;         *)
(* FixTest.tla re-checks, in TLC, that each replacement agrees with the       *)
(* definition R* it stands for.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

BASE  == 4096
FRACL == 16                      \* fractional limbs

\* ---------------------------------------------------------- magnitudes
\* A magnitude is a little-endian sequence of limbs without leading zeros.
RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a
           ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1
                ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagAddFrom(_, _, _, _, _)
MagAddFrom(a, b, i, carry, acc) ==
  IF i > MaxI(Len(a), Len(b)) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET s == Limb(a, i) + Limb(b, i) + carry
       IN  MagAddFrom(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
MagAdd(a, b) == MagAddFrom(a, b, 1, 0, <<>>)

\* requires a >= b
RECURSIVE MagSubFrom(_, _, _, _, _)
MagSubFrom(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN Norm(acc)
  ELSE LET s == Limb(a, i) - Limb(b, i) - borrow
       IN  MagSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0,
                      Append(acc, IF s < 0 THEN s + BASE ELSE s))
MagSub(a, b) == MagSubFrom(a, b, 1, 0, <<>>)

\* a * d for a single limb d
RECURSIVE MagMulSmallFrom(_, _, _, _, _)
MagMulSmallFrom(a, d, i, carry, acc) ==
  IF i > Len(a) THEN Norm(IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET p == a[i] * d + carry
       IN  MagMulSmallFrom(a, d, i + 1, p \div BASE, Append(acc, p % BASE))
MagMulSmall(a, d) == MagMulSmallFrom(a, d, 1, 0, <<>>)

Shift(a, n) == IF a = <<>> THEN a ELSE [i \in 1..n |-> 0] \o a

RECURSIVE MagMulFrom(_, _, _, _)
MagMulFrom(a, b, i, acc) ==
  IF i > Len(b) THEN Norm(acc)
  ELSE MagMulFrom(a, b, i + 1, MagAdd(acc, Shift(MagMulSmall(a, b[i]), i - 1)))
MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MagMulFrom(a, b, 1, <<>>)

\* the largest digit d with d*b <= r
RECURSIVE QuoDigit(_, _, _, _)
QuoDigit(r, b, lo, hi) ==            \* invariant: lo*b <= r < hi*b
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN  IF MagCmp(MagMulSmall(b, mid), r) <= 0 THEN QuoDigit(r, b, mid, hi)
           ELSE QuoDigit(r, b, lo, mid)

RECURSIVE MagDivFrom(_, _, _, _, _)
MagDivFrom(a, b, i, r, q) ==         \* schoolbook, from the top limb down
  IF i = 0 THEN Norm(q)
  ELSE LET r1 == Norm(<<a[i]>> \o r)
           d  == QuoDigit(r1, b, 0, BASE)
       IN  MagDivFrom(a, b, i - 1, MagSub(r1, MagMulSmall(b, d)), <<d>> \o q)
MagDiv(a, b) == MagDivFrom(a, b, Len(a), <<>>, <<>>)

\* floor(sqrt(a)) by bisection on the bits of the root, top limb first
RECURSIVE SqrtDigit(_, _, _, _, _)
SqrtDigit(a, i, top, lo, hi) ==      \* top: the limbs above limb i of the root
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
           c   == Norm([j \in 1..(i-1) |-> 0] \o <<mid>> \o top)
       IN  IF MagCmp(MagMul(c, c), a) <= 0 THEN SqrtDigit(a, i, top, mid, hi)
           ELSE SqrtDigit(a, i, top, lo, mid)
RECURSIVE SqrtFrom(_, _, _)
SqrtFrom(a, i, top) ==
  IF i = 0 THEN Norm(top)
  ELSE SqrtFrom(a, i - 1, <<SqrtDigit(a, i, top, 0, BASE)>> \o top)
MagSqrt(a) == IF a = <<>> THEN a ELSE SqrtFrom(a, (Len(a) + 1) \div 2, <<>>)

DropLow(a, n) == IF Len(a) <= n THEN <<>> ELSE SubSeq(a, n + 1, Len(a))

\* ---------------------------------------------------------- reference ops
Mk(s, m)  == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
Sgn(x)    == x[1]
Mag(x)    == Tail(x)

RNeg(x)   == IF Sgn(x) = 0 THEN x ELSE <<-Sgn(x)>> \o Mag(x)
RAdd(x, y) ==
  IF Sgn(x) = 0 THEN y ELSE IF Sgn(y) = 0 THEN x
  ELSE IF Sgn(x) = Sgn(y) THEN Mk(Sgn(x), MagAdd(Mag(x), Mag(y)))
  ELSE IF MagCmp(Mag(x), Mag(y)) >= 0 THEN Mk(Sgn(x), MagSub(Mag(x), Mag(y)))
  ELSE Mk(Sgn(y), MagSub(Mag(y), Mag(x)))
RMul(x, y) == IF Sgn(x) = 0 \/ Sgn(y) = 0 THEN <<0>>
              ELSE Mk(Sgn(x) * Sgn(y), DropLow(MagMul(Mag(x), Mag(y)), FRACL))
RDiv(x, y) == IF Sgn(x) = 0 THEN <<0>>       \* y # 0; truncates toward zero
              ELSE Mk(Sgn(x) * Sgn(y), MagDiv(Shift(Mag(x), FRACL), Mag(y)))
RCmp(x, y) == IF Sgn(x) # Sgn(y) THEN (IF Sgn(x) > Sgn(y) THEN 1 ELSE -1)
              ELSE Sgn(x) * MagCmp(Mag(x), Mag(y))
RSqrt(x)   == IF Sgn(x) = 0 THEN x ELSE Mk(1, MagSqrt(Shift(Mag(x), FRACL)))

RECURSIVE IntLimbs(_)
IntLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o IntLimbs(n \div BASE)
RInt(n) == IF n = 0 THEN <<0>>
           ELSE Mk(IF n < 0 THEN -1 ELSE 1,
                   Shift(IntLimbs(IF n < 0 THEN -n ELSE n), FRACL))

RECURSIVE RDotFrom(_, _, _, _)
RDotFrom(u, v, i, acc) == IF i > Len(u) THEN acc
                          ELSE RDotFrom(u, v, i + 1, RAdd(acc, RMul(u[i], v[i])))
RDot(u, v) == RDotFrom(u, v, 1, <<0>>)
RMatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                    RDot(A[i], [k \in 1..Len(B) |-> B[k][j]])]]

\* ---------------------------------------------------------- operators used
\* by every other module (TLC replaces these by Fix.java)
FNeg(x)    == RNeg(x)
FAdd(x, y) == RAdd(x, y)
FSub(x, y) == RAdd(x, RNeg(y))
FMul(x, y) == RMul(x, y)
FDiv(x, y) == RDiv(x, y)
FCmp(x, y) == RCmp(x, y)
FSqrt(x)   == RSqrt(x)
FInt(n)    == RInt(n)
FDot(u, v) == RDot(u, v)
FMatMul(A, B) == RMatMul(A, B)

\* ---------------------------------------------------------- derived
Zero == <<0>>
One  == FInt(1)
Two  == FInt(2)
Half == FDiv(FInt(1), FInt(2))
FLt(x, y) == FCmp(x, y) < 0
FLe(x, y) == FCmp(x, y) <= 0
FAbs(x)   == IF Sgn(x) < 0 THEN FNeg(x) ELSE x
FMax(x, y) == IF FLt(x, y) THEN y ELSE x
FRat(p, q) == FDiv(FInt(p), FInt(q))
FSq(x) == FMul(x, x)
RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN One ELSE FMul(x, FPow(x, n - 1))
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN One ELSE FMul(FInt(10), Pow10(n - 1))
Eps10(n) == FDiv(One, Pow10(n))            \* 10^-n

\* What the harness logs for a non-finite double.
IsNum(x) == Len(x) > 0 /\ x[1] \in {-1, 0, 1}
NegInf == <<-3>>
PosInf == <<3>>
NaNV   == <<2>>

FSum(s) == LET RECURSIVE Go(_, _)
               Go(i, acc) == IF i > Len(s) THEN acc ELSE Go(i + 1, FAdd(acc, s[i]))
           IN Go(1, Zero)
\* |x - y| <= tol
Near(x, y, tol) == IsNum(x) /\ FLe(FAbs(FSub(x, y)), tol)
=============================================================================
