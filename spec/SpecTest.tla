------------------------------ MODULE SpecTest ------------------------------
(* Design-level agreement inside the specification: for every kernel family    *)
(* and composite, the state-space model reproduces the documented covariance   *)
(* function, is stationary (Lyapunov), and its integrals agree with the         *)
(* term-wise antiderivatives.                                                 *)
EXTENDS SSM
R(p, q) == FRat(p, q)
Leaf(f, p, o) == [op |-> "leaf", fam |-> f, p |-> p, ord |-> o, name |-> f]
Leaves == << Leaf("Constant", <<R(7,5)>>, 0), Leaf("Exp", <<R(3,2), R(7,5)>>, 0), Leaf("Matern32", <<R(3,2), R(7,5)>>, 0),
             Leaf("Matern52", <<R(3,2), R(7,5)>>, 0), Leaf("SHO", <<R(2,1), R(1,2), R(6,5)>>, 0),
             Leaf("SHO", <<R(2,1), R(7,2), R(6,5)>>, 0), Leaf("SHO", <<R(2,1), R(1,5), R(6,5)>>, 0),
             Leaf("Cosine", <<R(5,2), R(6,5)>>, 0), Leaf("ExpSineSquared", <<R(5,2), R(1,1), R(6,5)>>, 3), Leaf("Matern72", <<R(3,2), R(7,5)>>, 0) >>
Sum(a, b) == [op |-> "sum", l |-> a, r |-> b]
Prod(a, b) == [op |-> "prod", l |-> a, r |-> b]
Sc(c, a) == [op |-> "scale", c |-> c, k |-> a]
Mat3 == << <<R(1,1), R(2,1), R(0,1)>>, <<R(0,1), R(1,1), R(-1,1)>>, <<R(0,1), R(0,1), R(1,1)>> >>
Basis(M, k) == [op |-> "basis", M |-> M, W |-> Inv(M), k |-> k, name |-> "basis"]
Ks == Leaves \o << Basis(Mat3, Leaves[4]), Sum(Basis(Mat3, Sum(Leaves[2], Leaves[5])), Leaves[3]),  Sum(Leaves[3], Leaves[6]), Prod(Leaves[2], Leaves[8]), Prod(Leaves[8], Leaves[8]), Sc(R(9,4), Sum(Leaves[3], Prod(Leaves[5], Leaves[2]))) >>
Lags == << R(0,1), R(1,100), R(3,7), R(12,1) >>
VARIABLES i, j
Init == i \in 1..Len(Ks) /\ j \in 1..Len(Lags)
Next == UNCHANGED <<i, j>>
Tol == Eps10(30)
CovOK == LET m == ModelOf(Ks[i]) T == Terms(Ks[i]) A == Trans(m, Lags[j]) IN
   /\ Near(Quad(m.H, MMul(A, m.P), m.H), K(T, Lags[j]), Tol)
   /\ FLe(MaxAbs(Lyap(m)), Tol)
SubVecOf(B, n) == SubSeq(B[n + 1], 1, n)
IntOK == LET m == ModelOf(Ks[i]) T == Terms(Ks[i]) B == AugTrans(m, Lags[j]) n == Len(m.F)
             Q == AugNoise(m, Lags[j]) q == ProcNoise(m, Trans(m, Lags[j]))
             bar == SubVecOf(B, n) IN
   /\ Near(FDot(bar, MVec(m.P, m.H)), G1(T, Lags[j]), Tol)
   /\ FLe(MaxAbs(MSub(SubMat(Q, 1, n, 1, n), q)), Tol)
   \* variance of the integral of f over [0, dt]: prior state + noise = 2 G2
   /\ Near(FAdd(Quad(bar, m.P, bar), Q[n + 1][n + 1]), FMul(Two, G2(T, Lags[j])), Tol)
\* rows of the derivatives see the derivatives of the covariance function
DTerm(t) == << Term(CMul(t.c, t.l), t.n, t.l) >> \o (IF t.n = 0 THEN <<>> ELSE << Term(CScale(FInt(t.n), t.c), t.n - 1, t.l) >>)
RECURSIVE DTerms(_, _)
DTerms(T, q) == IF q > Len(T) THEN <<>> ELSE DTerm(T[q]) \o DTerms(T, q + 1)
RECURSIVE DN(_, _)
DN(T, n) == IF n = 0 THEN T ELSE DN(TLCEval(DTerms(T, 1)), n - 1)
Companions == {3, 4, 5, 6, 7, 10}
RowOK == i \in Companions =>
  LET m == ModelOf(Ks[i]) T == Terms(Ks[i]) n == Len(m.F) A == Trans(m, Lags[j]) IN
  \* cov(x^(a)(t + tau), x^(b)(t)) = (-1)^b k^(a + b)(tau), as far as k is differentiable
  \A a, b \in 0..(n - 1) :
     (Sgn(Lags[j]) > 0 \/ a + b <= 2 * n - 2) =>
     LET c == K(DN(T, a + b), Lags[j])
         o(r) == [t |-> Zero, d |-> Zero, h |-> UnitRow(n, r + 1)] IN
     /\ Near(CovOf(m, [o(a) EXCEPT !.t = Lags[j]], o(b)), IF b % 2 = 0 THEN c ELSE FNeg(c), Tol)
     /\ Near(CovOf(m, o(b), [o(a) EXCEPT !.t = Lags[j]]), IF b % 2 = 0 THEN c ELSE FNeg(c), Tol)
=============================================================================
