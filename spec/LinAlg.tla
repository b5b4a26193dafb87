------------------------------- MODULE LinAlg -------------------------------
(* Vectors and matrices (sequences of rows) of Fix numbers.                  *)
EXTENDS Elem

VAdd(u, v)   == TLCEval([i \in 1..Len(u) |-> FAdd(u[i], v[i])])
VSub(u, v)   == TLCEval([i \in 1..Len(u) |-> FSub(u[i], v[i])])
VScale(c, u) == TLCEval([i \in 1..Len(u) |-> FMul(c, u[i])])
ZeroVec(n)   == TLCEval([i \in 1..n |-> Zero])

MAdd(A, B)   == TLCEval([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MSub(A, B)   == TLCEval([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MScale(c, A) == TLCEval([i \in 1..Len(A) |-> VScale(c, A[i])])
MT(A)        == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MMul(A, B)   == FMatMul(A, B)
MVec(A, v)   == TLCEval([i \in 1..Len(A) |-> FDot(A[i], v)])
Quad(u, A, v) == FDot(u, MVec(A, v))                   \* u' A v
Ident(n)     == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
ZeroMat(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> Zero]])
DiagMat(v)   == TLCEval([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE Zero]])
Outer(u, v)  == TLCEval([i \in 1..Len(u) |-> VScale(u[i], v)])
BlockDiag(A, B) ==
  LET n == Len(A) m == Len(A[1]) p == Len(B) q == Len(B[1]) IN
  TLCEval([i \in 1..(n + p) |-> [j \in 1..(m + q) |->
     IF i <= n /\ j <= m THEN A[i][j] ELSE IF i > n /\ j > m THEN B[i - n][j - m] ELSE Zero]])
BlockDiagZ(A, n) == IF n = 0 THEN A ELSE BlockDiag(A, ZeroMat(n, n))
Kron(A, B) ==
  LET p == Len(B) q == Len(B[1]) IN
  TLCEval([i \in 1..(Len(A) * p) |-> [j \in 1..(Len(A[1]) * q) |->
     FMul(A[((i - 1) \div p) + 1][((j - 1) \div q) + 1], B[((i - 1) % p) + 1][((j - 1) % q) + 1])]])
SubMat(A, r1, r2, c1, c2) ==
  TLCEval([i \in 1..(r2 - r1 + 1) |-> [j \in 1..(c2 - c1 + 1) |-> A[r1 + i - 1][c1 + j - 1]]])

MaxAbsV(v) == LET RECURSIVE Go(_, _) Go(i, m) == IF i > Len(v) THEN m ELSE Go(i + 1, TLCEval(FMax(m, FAbs(v[i])))) IN Go(1, Zero)
MaxAbs(A)  == LET RECURSIVE Go(_, _) Go(i, m) == IF i > Len(A) THEN m ELSE Go(i + 1, TLCEval(FMax(m, MaxAbsV(A[i])))) IN Go(1, Zero)
NormInf(A) == LET RECURSIVE Go(_, _)
                  Go(i, m) == IF i > Len(A) THEN m
                              ELSE Go(i + 1, TLCEval(FMax(m, FSum([j \in 1..Len(A[i]) |-> FAbs(A[i][j])]))))
              IN Go(1, Zero)

\* Matrix exponential: scaling, Taylor (Horner), squaring
RECURSIVE ExpmTaylor(_, _, _)
ExpmTaylor(A, n, acc) == IF n = 0 THEN acc
  ELSE ExpmTaylor(A, n - 1, MAdd(Ident(Len(A)), MScale(FRat(1, n), MMul(A, acc))))
RECURSIVE MSquareTimes(_, _)
MSquareTimes(A, k) == IF k = 0 THEN A ELSE MSquareTimes(MMul(A, A), k - 1)
RECURSIVE MHalveTimes(_, _)
MHalveTimes(A, k) == IF k = 0 THEN A ELSE MHalveTimes(MScale(Half, A), k - 1)
Expm(A) == LET k == TLCEval(HalvingsFrom(NormInf(A), 0))
           IN MSquareTimes(ExpmTaylor(MHalveTimes(A, k), TERMS, Ident(Len(A))), k)

\* A = L D L' for symmetric positive definite A: rows of (strictly lower) L, and D
RECURSIVE LDLRow(_, _, _, _, _)
LDLRow(a, L, D, j, w) ==            \* w[j] = L[i][j] D[j]
  IF j = Len(L) + 1 THEN w
  ELSE LDLRow(a, L, D, j + 1,
         TLCEval(Append(w, FSub(a[j], IF j = 1 THEN Zero ELSE FDot(w, SubSeq(L[j], 1, j - 1))))))
RECURSIVE LDLFrom(_, _, _)
LDLFrom(A, L, D) ==
  LET i == Len(L) + 1 IN
  IF i > Len(A) THEN [L |-> L, D |-> D]
  ELSE LET w == TLCEval(LDLRow(A[i], L, D, 1, <<>>))
           r == TLCEval([j \in 1..(i - 1) |-> FDiv(w[j], D[j])])
           d == TLCEval(FSub(A[i][i], IF i = 1 THEN Zero ELSE FDot(w, r)))
       IN LDLFrom(A, TLCEval(Append(L, r)), TLCEval(Append(D, d)))
LDL(A) == LDLFrom(A, <<>>, <<>>)

\* L^{-1} b
RECURSIVE FwdFrom(_, _, _)
FwdFrom(L, b, x) ==
  LET i == Len(x) + 1 IN
  IF i > Len(b) THEN x
  ELSE FwdFrom(L, b, TLCEval(Append(x, FSub(b[i], IF i = 1 THEN Zero ELSE FDot(SubSeq(L[i], 1, i - 1), x)))))
Fwd(f, b) == FwdFrom(f.L, b, <<>>)
\* L'^{-1} b
RECURSIVE BackFrom(_, _, _, _)
BackFrom(L, b, i, x) ==
  IF i = 0 THEN x
  ELSE BackFrom(L, b, i - 1,
         TLCEval([x EXCEPT ![i] = FSub(b[i], FSum([k \in 1..(Len(b) - i) |-> FMul(L[i + k][i], x[i + k])]))]))
SolveLDL(f, b) == LET u == TLCEval(Fwd(f, b))
                  IN BackFrom(f.L, TLCEval([i \in 1..Len(b) |-> FDiv(u[i], f.D[i])]), Len(b), ZeroVec(Len(b)))
\* sum_i u_i v_i / D_i
WDot(f, u, v) == FDot(u, TLCEval([i \in 1..Len(v) |-> FDiv(v[i], f.D[i])]))
LogDet(f) == FSum(TLCEval([i \in 1..Len(f.D) |-> FLn(f.D[i])]))

\* X with A X = B, for A symmetric positive definite
SolveSPD(A, B) == LET f == TLCEval(LDL(A)) bt == MT(B)
                  IN MT([j \in 1..Len(bt) |-> SolveLDL(f, bt[j])])

\* general inverse: Gauss-Jordan with partial pivoting
RECURSIVE GJ(_, _, _)
GJ(A, B, c) ==
  IF c > Len(A) THEN B
  ELSE LET n == Len(A)
           p == CHOOSE r \in c..n : \A q \in c..n : FLe(FAbs(A[q][c]), FAbs(A[r][c]))
           sw(M) == [M EXCEPT ![c] = M[p], ![p] = M[c]]
           A1 == sw(A) B1 == sw(B)
           iv == TLCEval(FDiv(One, A1[c][c]))
           rA == VScale(iv, A1[c]) rB == VScale(iv, B1[c])
           el(M, row) == TLCEval([r \in 1..n |-> IF r = c THEN row ELSE VSub(M[r], VScale(A1[r][c], row))])
       IN GJ(el(A1, rA), el(B1, rB), c + 1)
Inv(A) == GJ(A, Ident(Len(A)), 1)
=============================================================================
