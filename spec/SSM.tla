-------------------------------- MODULE SSM --------------------------------
(***************************************************************************)
(* The linear time-invariant state-space model of every kernel:             *)
(*    dx = F x dt + L dw,   E[dw dw'] = Qc dt,   f(t) = H x(t),               *)
(*    x stationary with covariance Pinf.                                    *)
(* An integrated kernel is the pair [x; z_1 .. z_m] where z_i accumulates     *)
(* f from the last start of an exposure of instrument i.                     *)
(***************************************************************************)
EXTENDS Cov

Rows(s) == s
ColVec(v) == TLCEval([i \in 1..Len(v) |-> <<v[i]>>])
FZ == Zero

Companion(c) ==                        \* last row c, ones above the diagonal
  LET n == Len(c) IN TLCEval([i \in 1..n |-> IF i = n THEN c ELSE
                       [j \in 1..n |-> IF j = i + 1 THEN One ELSE Zero]])
UnitRow(n, i) == TLCEval([j \in 1..n |-> IF j = i THEN One ELSE Zero])

Model(F, L, Qc, H, P) == [F |-> F, L |-> L, Qc |-> Qc, H |-> H, P |-> P]

CosModel(om, q) == Model(<< <<Zero, FNeg(om)>>, <<om, Zero>> >>, Ident(2), ZeroMat(2, 2), UnitRow(2, 1), MScale(q, Ident(2)))

RECURSIVE ESSModel(_, _, _, _, _)
ESSModel(period, gamma, s2, J, j) ==
  LET m == CosModel(TLCEval(FMul(FInt(j), FDiv(TWOPI, period))), TLCEval(FMul(s2, ESSCoef(gamma, j))))
  IN IF j = J - 1 THEN m ELSE
     LET r == ESSModel(period, gamma, s2, J, j + 1) IN
     Model(BlockDiag(m.F, r.F), BlockDiag(m.L, r.L), BlockDiag(m.Qc, r.Qc), m.H \o r.H, BlockDiag(m.P, r.P))

LeafModel(k) ==
  LET p == k.p
      fam == BaseFam(k.fam)
      s2 == FSq(p[Len(p)])
  IN CASE fam = "Constant" -> Model(<<<<Zero>>>>, <<<<One>>>>, <<<<Zero>>>>, <<One>>, <<<<s2>>>>)
       [] fam = "Exp" -> LET a == FDiv(One, p[1]) IN
            Model(<<<<FNeg(a)>>>>, <<<<One>>>>, <<<<FMul(Two, FMul(a, s2))>>>>, <<One>>, <<<<s2>>>>)
       [] fam = "Matern32" -> LET a == FDiv(FSqrt(FInt(3)), p[1]) IN
            Model(Companion(<<FNeg(FSq(a)), FNeg(FMul(Two, a))>>), ColVec(<<Zero, One>>),
                  <<<<FMul(FInt(4), FMul(FPow(a, 3), s2))>>>>, UnitRow(2, 1),
                  DiagMat(<<s2, FMul(s2, FSq(a))>>))
       [] fam = "Matern52" -> LET a == FDiv(FSqrt(FInt(5)), p[1])
                                  b == FDiv(FMul(s2, FSq(a)), FInt(3)) IN
            Model(Companion(<<FNeg(FPow(a, 3)), FNeg(FMul(FInt(3), FSq(a))), FNeg(FMul(FInt(3), a))>>),
                  ColVec(<<Zero, Zero, One>>),
                  <<<<FDiv(FMul(FInt(16), FMul(FPow(a, 5), s2)), FInt(3))>>>>, UnitRow(3, 1),
                  << <<s2, Zero, FNeg(b)>>, <<Zero, b, Zero>>, <<FNeg(b), Zero, FMul(s2, FPow(a, 4))>> >>)
       [] fam = "Matern72" -> LET a == FDiv(FSqrt(FInt(7)), p[1])
                                  b == FDiv(FMul(s2, FSq(a)), FInt(5)) c == FMul(b, FSq(a)) IN
            Model(Companion(<<FNeg(FPow(a, 4)), FNeg(FMul(FInt(4), FPow(a, 3))), FNeg(FMul(FInt(6), FSq(a))), FNeg(FMul(FInt(4), a))>>),
                  ColVec(<<Zero, Zero, Zero, One>>),
                  <<<<FDiv(FMul(FInt(32), FMul(FPow(a, 7), s2)), FInt(5))>>>>, UnitRow(4, 1),
                  << <<s2, Zero, FNeg(b), Zero>>, <<Zero, b, Zero, FNeg(c)>>, <<FNeg(b), Zero, c, Zero>>,
                     <<Zero, FNeg(c), Zero, FMul(s2, FPow(a, 6))>> >>)
       [] fam = "SHO" -> LET w == p[1] q == p[2] IN
            Model(Companion(<<FNeg(FSq(w)), FNeg(FDiv(w, q))>>), ColVec(<<Zero, One>>),
                  <<<<FDiv(FMul(Two, FMul(FPow(w, 3), s2)), q)>>>>, UnitRow(2, 1),
                  DiagMat(<<s2, FMul(s2, FSq(w))>>))
       [] fam = "Cosine" -> CosModel(FDiv(TWOPI, p[1]), s2)
       [] fam = "ExpSineSquared" -> ESSModel(p[1], p[2], s2, IF k.ord = 0 THEN AutoOrder(p[2]) ELSE k.ord, 0)

LQL(m) == MMul(MMul(m.L, m.Qc), MT(m.L))
\* what an observation of the process sees of the state.  An "obs" node has a table of rows
\* (a + b t), one for every flag that an observation can carry.
RECURSIVE HasRows(_)
HasRows(k) == CASE k.op = "leaf" -> FALSE [] k.op = "obs" -> TRUE
                [] k.op \in {"scale", "basis", "int"} -> HasRows(k.k) [] OTHER -> HasRows(k.l) \/ HasRows(k.r)
\* what the model of k becomes in the basis M x of its state (W = M^-1)
Rebased(m, M, W) ==
  Model(MMul(MMul(M, m.F), W), MMul(M, m.L), m.Qc, MVec(MT(W), m.H), MMul(MMul(M, m.P), MT(M)))
RECURSIVE ModelOf(_)                  \* the latent (instantaneous) model
ModelOf(k) ==
  CASE k.op = "leaf"  -> TLCEval(LeafModel(k))
    [] k.op = "scale" -> LET m == ModelOf(k.k) IN Model(m.F, m.L, MScale(k.c, m.Qc), m.H, MScale(k.c, m.P))
    [] k.op = "basis" -> TLCEval(Rebased(ModelOf(k.k), k.M, k.W))
    [] k.op = "int" -> ModelOf(k.k)
    [] k.op = "obs" -> [ModelOf(k.k) EXCEPT !.H = k.rows[1].a]
    [] k.op = "sum"   -> LET a == ModelOf(k.l) b == ModelOf(k.r) IN
         Model(BlockDiag(a.F, b.F), BlockDiag(a.L, b.L), BlockDiag(a.Qc, b.Qc), a.H \o b.H, BlockDiag(a.P, b.P))
    [] k.op = "prod"  -> LET a == ModelOf(k.l) b == ModelOf(k.r) n == Len(a.F) m == Len(b.F) IN
         Model(MAdd(Kron(a.F, Ident(m)), Kron(Ident(n), b.F)), Ident(n * m),
               MAdd(Kron(LQL(a), b.P), Kron(a.P, LQL(b))), Kron(<<a.H>>, <<b.H>>)[1], Kron(a.P, b.P))

Trans(m, dt) == Expm(MScale(dt, m.F))
\* process noise accumulated over dt (equal to the Van Loan integral when F P + P F' + L Qc L' = 0)
ProcNoise(m, A) == MSub(m.P, MMul(MMul(A, m.P), MT(A)))
Lyap(m) == MAdd(MAdd(MMul(m.F, m.P), MMul(m.P, MT(m.F))), LQL(m))

(***************************************************************************)
(* The integrated model.  Exact augmented transition and process noise of    *)
(* [x; z] with dz = H x dt.  Phibar = INT_0^dt e^{Fs} ds and the noise         *)
(* covariances come from exponentials of block matrices:                      *)
(*    E_a = [[F,0],[H,0]],  Q_a = INT_0^dt e^{E_a s} (LQL,0;0,0) e^{E_a' s} ds  *)
(***************************************************************************)
AugF(m) == LET n == Len(m.F) h == IF "hi" \in DOMAIN m THEN m.hi ELSE m.H IN
  TLCEval([i \in 1..(n + 1) |-> IF i <= n THEN m.F[i] \o <<Zero>> ELSE h \o <<Zero>>])
AugLQL(m) == BlockDiag(LQL(m), <<<<Zero>>>>)
\* INT_0^dt e^{Es} W e^{E's} ds, from exp([[ -E, W ], [ 0, E' ]] dt) = [[., G],[0, V]]: V' G
VanLoanStep(E, W, dt) ==
  LET n == Len(E)
      C == TLCEval([i \in 1..(2 * n) |-> [j \in 1..(2 * n) |->
              IF i <= n THEN (IF j <= n THEN FNeg(E[i][j]) ELSE W[i][j - n])
              ELSE (IF j <= n THEN Zero ELSE E[j - n][i - n])]])
      X == Expm(MScale(dt, C))
      A == MT(SubMat(X, n + 1, 2 * n, n + 1, 2 * n))
  IN TLCEval([A |-> A, Q |-> MMul(A, SubMat(X, 1, n, n + 1, 2 * n))])
\* (A, Q)(2d) from (A, Q)(d): the fast modes of -E never grow by more than e
RECURSIVE VLDouble(_, _)
VLDouble(s, k) == IF k = 0 THEN s ELSE
  VLDouble(TLCEval([A |-> MMul(s.A, s.A), Q |-> MAdd(s.Q, MMul(MMul(s.A, s.Q), MT(s.A)))]), k - 1)
VanLoan(E, W, dt) ==
  LET k == TLCEval(HalvingsFrom(FMul(NormInf(E), dt), 0))
  IN VLDouble(VanLoanStep(E, W, HalveTimes(dt, k)), k)
VanLoanQ(E, W, dt) == VanLoan(E, W, dt).Q
AugTrans(m, dt) == Expm(MScale(dt, AugF(m)))
AugNoise(m, dt) == VanLoanQ(AugF(m), AugLQL(m), dt)

\* spread the single accumulator over nz instruments (all integrate the same f)
SpreadA(A, nz) == LET n == Len(A) - 1 IN
  TLCEval([i \in 1..(n + nz) |-> [j \in 1..(n + nz) |->
     IF i <= n THEN (IF j <= n THEN A[i][j] ELSE Zero)
     ELSE (IF j <= n THEN A[n + 1][j] ELSE IF i = j THEN One ELSE Zero)]])
SpreadQ(Q, nz) == LET n == Len(Q) - 1 idx(i) == IF i <= n THEN i ELSE n + 1 IN
  TLCEval([i \in 1..(n + nz) |-> [j \in 1..(n + nz) |-> Q[idx(i)][idx(j)]]])

(***************************************************************************)
(* Covariance of the latent state x(t) (with its derivatives) with an          *)
(* observation o, from the model's own F, H, Pinf.                            *)
(***************************************************************************)
Abar(m, s) ==                              \* INT_0^s e^{F r} dr
  LET n == Len(m.F)
      C == TLCEval([i \in 1..(2 * n) |-> [j \in 1..(2 * n) |->
              IF i <= n THEN (IF j <= n THEN m.F[i][j] ELSE IF j - n = i THEN One ELSE Zero) ELSE Zero]])
  IN IF Sgn(s) = 0 THEN ZeroMat(n, n) ELSE SubMat(Expm(MScale(s, C)), 1, n, n + 1, 2 * n)
\* INT_a^b cov(x(t), f(s)) ds for a <= b
StateInt(m, t, a, b) ==
  LET PH == MVec(m.P, m.H) IN
  IF FLe(b, t) THEN MVec(MSub(Abar(m, FSub(t, a)), Abar(m, FSub(t, b))), PH)
  ELSE IF FLe(t, a) THEN MVec(m.P, MVec(MT(MSub(Abar(m, FSub(b, t)), Abar(m, FSub(a, t)))), m.H))
  ELSE VAdd(MVec(Abar(m, FSub(t, a)), PH), MVec(m.P, MVec(MT(Abar(m, FSub(b, t))), m.H)))
\* the row of an observation of kernel k with a flag at time t
RECURSIVE RowAt(_, _, _)
RowAt(k, flag, t) ==
  CASE k.op = "leaf"  -> LeafModel(k).H
    [] k.op \in {"scale", "int"} -> RowAt(k.k, flag, t)
    [] k.op = "basis" -> MVec(MT(k.W), RowAt(k.k, flag, t))
    [] k.op = "obs"   -> VAdd(k.rows[flag + 1].a, VScale(t, k.rows[flag + 1].b))
    [] k.op = "sum"   -> RowAt(k.l, flag, t) \o RowAt(k.r, flag, t)
    [] k.op = "prod"  -> Kron(<<RowAt(k.l, flag, t)>>, <<RowAt(k.r, flag, t)>>)[1]
\* an observation [t, d] sees the process itself, [t, d, h] the functional h of the state
HasRow(o) == "h" \in DOMAIN o
StateCovRow(m, t, s, h) ==
  IF FLe(s, t) THEN MVec(Trans(m, FSub(t, s)), MVec(m.P, h))
  ELSE MVec(m.P, MVec(MT(Trans(m, FSub(s, t))), h))
\* A mixed sum of integrated and instantaneous kernels: a datum is the average of the integrated
\* part over the exposure plus the instantaneous part as it is when the exposure ends.
\* Its observations are [t, d, hi, hs], rows of the two parts of the state.
HasMix(o) == "hi" \in DOMAIN o
StateCovObs(m, t, o) ==
  IF HasMix(o) THEN
    VAdd(StateCovRow(m, t, OEnd(o), o.hs),
         IF Instant(o) THEN StateCovRow(m, t, o.t, o.hi)
         ELSE VScale(FDiv(One, o.d), StateInt([m EXCEPT !.H = o.hi], t, OStart(o), OEnd(o))))
  ELSE IF Instant(o) THEN StateCovRow(m, t, o.t, IF HasRow(o) THEN o.h ELSE m.H)
  ELSE VScale(FDiv(One, o.d), StateInt(m, t, OStart(o), OEnd(o)))
\* covariance of two observations: of the process, from its covariance function (T its terms; for
\* a mixed sum, the terms of its two parts), or of functionals of the state, from its model (T the model)
CovOf(T, o, p) ==
  CASE HasRow(o) -> FDot(o.h, StateCovObs(T, o.t, p))
    [] HasMix(o) -> FAdd(CovObs(T.i, o, p), K(T.s, FAbs(FSub(OEnd(o), OEnd(p)))))
    [] OTHER -> CovObs(T, o, p)
\* which coordinates of the state belong to integrated parts
RECURSIVE IntMask(_)
IntMask(k) == CASE k.op = "leaf" -> [i \in 1..Len(LeafModel(k).F) |-> IsIntFam(k.fam)]
                [] k.op = "int"  -> [i \in 1..Len(ModelOf(k).F) |-> TRUE]
                [] k.op = "sum"  -> IntMask(k.l) \o IntMask(k.r)
                [] k.op = "prod" -> [i \in 1..Len(ModelOf(k).F) |-> FALSE]
                [] OTHER -> IntMask(k.k)
Mixed(k) == LET b == IntMask(k) IN TRUE \in {b[i] : i \in 1..Len(b)} /\ FALSE \in {b[i] : i \in 1..Len(b)}
RowPart(k, which) == LET b == IntMask(k) h == ModelOf(k).H IN TLCEval([i \in 1..Len(h) |-> IF b[i] = which THEN h[i] ELSE Zero])
MixModel(k) == TLCEval(ModelOf(k) @@ [hi |-> RowPart(k, TRUE), hs |-> RowPart(k, FALSE)])
RECURSIVE MixTerms(_)
MixTerms(k) ==
  CASE k.op = "sum" -> LET a == MixTerms(k.l) b == MixTerms(k.r) IN [i |-> a.i \o b.i, s |-> a.s \o b.s]
    [] k.op = "scale" /\ Mixed(k.k) -> LET a == MixTerms(k.k)
            sc(T) == TLCEval([j \in 1..Len(T) |-> Term(CScale(k.c, T[j].c), T[j].n, T[j].l)]) IN [i |-> sc(a.i), s |-> sc(a.s)]
    [] OTHER -> IF IntMask(k)[1] THEN [i |-> Terms(k), s |-> <<>>] ELSE [i |-> <<>>, s |-> Terms(k)]
\* what CovOf needs of a kernel, and observations as it needs them.  x[3] is the flag.
CtxOf(k) == IF HasRows(k) THEN ModelOf(k) ELSE IF Mixed(k) THEN MixTerms(k) ELSE Terms(k)
ObsOf(k, x) ==
  IF HasRows(k) THEN TLCEval([i \in 1..Len(x) |-> [t |-> x[i][1], d |-> Zero, h |-> RowAt(k, IF Len(x[i]) > 2 THEN x[i][3] ELSE 0, x[i][1])]])
  ELSE IF Mixed(k) THEN LET hi == RowPart(k, TRUE) hs == RowPart(k, FALSE) IN
       TLCEval([i \in 1..Len(x) |-> [t |-> x[i][1], d |-> x[i][2], hi |-> hi, hs |-> hs]])
  ELSE TLCEval([i \in 1..Len(x) |-> [t |-> x[i][1], d |-> x[i][2]]])
=============================================================================
