-------------------------------- MODULE Cov --------------------------------
(***************************************************************************)
(* The documented covariance functions of smolgp, as sums of terms          *)
(*                                                                         *)
(*      k(tau) = Re SUM_j  c_j tau^{n_j} exp(l_j tau),     tau >= 0         *)
(*                                                                         *)
(* over complex c_j, l_j closed under conjugation, so that sums of kernels   *)
(* are concatenations and products are pairwise products.  This is           *)
(* independent of any state-space representation.                            *)
(*                                                                         *)
(* A kernel is a record: [op |-> "leaf", fam, p, ord, name] with p the        *)
(* parameters in the constructor's order, [op |-> "sum"|"prod", l, r],        *)
(* or [op |-> "scale", c, k].  Three more nodes describe what users write:     *)
(* [op |-> "basis", M, W, k] a model given by its matrices, those of k in        *)
(* another basis of the state (W the inverse of M); [op |-> "int", k] the        *)
(* generic integrated model over k; [op |-> "obs", rows, k] a wrapper that        *)
(* observes other linear functionals of the state of k (its covariance is in       *)
(* SSM).                                                                     *)
(***************************************************************************)
EXTENDS LinAlg

Term(c, n, l) == [c |-> c, n |-> n, l |-> l]
RTerm(x, n, lam) == Term(CReal(x), n, CReal(lam))

\* modified Bessel function I_j(x) = SUM (x/2)^{2k+j} / (k! (k+j)!)
RECURSIVE BesselFrom(_, _, _, _, _)
BesselFrom(h2, j, k, t, acc) ==
  IF Sgn(t) = 0 THEN acc
  ELSE BesselFrom(h2, j, k + 1, TLCEval(FDiv(FMul(t, h2), FInt((k + 1) * (k + 1 + j)))), TLCEval(FAdd(acc, t)))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN One ELSE FMul(FInt(n), Fact(n - 1))
BesselI(j, x) == LET h == FMul(x, Half) IN BesselFrom(FSq(h), j, 0, TLCEval(FDiv(FPow(h, j), Fact(j))), Zero)

\* the documented automatic order of ExpSineSquared, from ell = sqrt(2 / gamma)
AutoOrder(gamma) == LET ell == FSqrt(FDiv(Two, gamma)) IN
  IF FLe(One, ell) THEN 4 ELSE IF FLe(Half, ell) THEN 6 ELSE IF FLe(FRat(1, 4), ell) THEN 8 ELSE 16

SHOTerms(w, q, s) ==
  LET s2  == FSq(s)
      a   == FNeg(FDiv(w, FMul(Two, q)))                             \* -w / 2q
      eta == FSqrt(FAbs(FSub(One, FDiv(One, FMul(FInt(4), FSq(q))))))
      h   == FMul(Half, s2)
      f   == FDiv(One, FMul(FMul(Two, eta), q))                      \* 1 / (2 eta q)
      ew  == FMul(eta, w)
  IN CASE FCmp(q, Half) = 0 -> << RTerm(s2, 0, FNeg(w)), RTerm(FMul(s2, w), 1, FNeg(w)) >>
       [] FLt(Half, q) -> << Term(<<h, FNeg(FMul(h, f))>>, 0, <<a, ew>>),
                             Term(<<h, FMul(h, f)>>, 0, <<a, FNeg(ew)>>) >>
       [] OTHER -> << RTerm(FMul(h, FAdd(One, f)), 0, FAdd(a, ew)),
                      RTerm(FMul(h, FSub(One, f)), 0, FSub(a, ew)) >>

CosPair(c, om) == << Term(CReal(FMul(Half, c)), 0, <<Zero, om>>), Term(CReal(FMul(Half, c)), 0, <<Zero, FNeg(om)>>) >>

ESSCoef(gamma, j) ==                       \* c_j I_j(gamma/2) / e^{gamma/2}
  LET x == FMul(gamma, Half) IN
  FDiv(FMul(IF j = 0 THEN One ELSE Two, BesselI(j, x)), FExp(x))
RECURSIVE ESSFrom(_, _, _, _, _)
ESSFrom(period, gamma, s2, J, j) ==
  IF j >= J THEN <<>>
  ELSE LET c == TLCEval(FMul(s2, ESSCoef(gamma, j)))
           om == TLCEval(FMul(FInt(j), FDiv(TWOPI, period)))
       IN (IF j = 0 THEN << RTerm(c, 0, Zero) >> ELSE CosPair(c, om))
          \o ESSFrom(period, gamma, s2, J, j + 1)

BaseFam(fam) == CASE fam = "IntegratedSHO" -> "SHO" [] fam = "IntegratedExp" -> "Exp"
                  [] fam = "IntegratedMatern32" -> "Matern32" [] fam = "IntegratedMatern52" -> "Matern52"
                  [] fam = "IntegratedCosine" -> "Cosine" [] OTHER -> fam
IsIntFam(fam) == BaseFam(fam) # fam

LeafTerms(k) ==
  LET p == k.p
      fam == BaseFam(k.fam)
      s2 == FSq(p[Len(p)])                     \* sigma is the last parameter
      lam(num) == FDiv(FSqrt(FInt(num)), p[1])
  IN CASE fam = "Constant" -> << RTerm(s2, 0, Zero) >>
       [] fam = "Exp"      -> << RTerm(s2, 0, FNeg(FDiv(One, p[1]))) >>
       [] fam = "Matern32" -> LET f == TLCEval(lam(3)) IN << RTerm(s2, 0, FNeg(f)), RTerm(FMul(s2, f), 1, FNeg(f)) >>
       [] fam = "Matern52" -> LET f == TLCEval(lam(5)) IN
                              << RTerm(s2, 0, FNeg(f)), RTerm(FMul(s2, f), 1, FNeg(f)),
                                 RTerm(FDiv(FMul(s2, FSq(f)), FInt(3)), 2, FNeg(f)) >>
       [] fam = "Matern72" -> LET f == TLCEval(lam(7)) IN
                              << RTerm(s2, 0, FNeg(f)), RTerm(FMul(s2, f), 1, FNeg(f)),
                                 RTerm(FDiv(FMul(FMul(Two, s2), FSq(f)), FInt(5)), 2, FNeg(f)),
                                 RTerm(FDiv(FMul(s2, FPow(f, 3)), FInt(15)), 3, FNeg(f)) >>
       [] fam = "SHO"      -> SHOTerms(p[1], p[2], p[3])
       [] fam = "Cosine"   -> CosPair(s2, FDiv(TWOPI, p[1]))
       [] fam = "ExpSineSquared" -> ESSFrom(p[1], p[2], s2, IF k.ord = 0 THEN AutoOrder(p[2]) ELSE k.ord, 0)

RECURSIVE Terms(_)
Terms(k) ==
  CASE k.op = "leaf"  -> TLCEval(LeafTerms(k))
    [] k.op \in {"basis", "int"} -> Terms(k.k)
    [] k.op = "sum"   -> Terms(k.l) \o Terms(k.r)
    [] k.op = "scale" -> LET T == Terms(k.k) IN
                         TLCEval([i \in 1..Len(T) |-> Term(CScale(k.c, T[i].c), T[i].n, T[i].l)])
    [] k.op = "prod"  -> LET A == Terms(k.l) B == Terms(k.r) nb == Len(B) IN
                         TLCEval([i \in 1..(Len(A) * nb) |->
                            LET a == A[((i - 1) \div nb) + 1] b == B[((i - 1) % nb) + 1]
                            IN Term(CMul(a.c, b.c), a.n + b.n, CAdd(a.l, b.l))])

\* ------------------------------------------------ values of k and its integrals
KTerm(t, tau) == LET e == TLCEval(CMul(t.c, CExp(CScale(tau, t.l)))) IN FMul(FPow(tau, t.n), e[1])
K(T, tau) == FSum(TLCEval([i \in 1..Len(T) |-> KTerm(T[i], tau)]))

\* I_n(tau) = INT_0^tau s^n e^{l s} ds, given e = e^{l tau}
RECURSIVE IntPow(_, _, _, _)
IntPow(n, l, e, tau) ==
  IF CIsZero(l) THEN CReal(FDiv(FPow(tau, n + 1), FInt(n + 1)))
  ELSE IF n = 0 THEN CDiv(CSub(e, COne), l)
  ELSE TLCEval(CDiv(CSub(CScale(FPow(tau, n), e), CScale(FInt(n), IntPow(n - 1, l, e, tau))), l))
G1Term(t, tau) == LET e == TLCEval(CExp(CScale(tau, t.l))) IN CMul(t.c, IntPow(t.n, t.l, e, tau))[1]
G2Term(t, tau) == LET e == TLCEval(CExp(CScale(tau, t.l)))
                      v == TLCEval(CSub(CScale(tau, IntPow(t.n, t.l, e, tau)), IntPow(t.n + 1, t.l, e, tau)))
                  IN CMul(t.c, v)[1]
G1(T, tau) == FSum(TLCEval([i \in 1..Len(T) |-> G1Term(T[i], tau)]))     \* INT_0^tau k
G2(T, tau) == FSum(TLCEval([i \in 1..Len(T) |-> G2Term(T[i], tau)]))     \* INT_0^tau (tau-s) k(s) ds
SI1(T, x) == IF Sgn(x) < 0 THEN FNeg(G1(T, FNeg(x))) ELSE G1(T, x)
SI2(T, x) == G2(T, FAbs(x))

\* An observation is [t, d]: the value at t if d = 0, else the average over [t-d/2, t+d/2]
OStart(o) == FSub(o.t, FMul(Half, o.d))
OEnd(o)   == FAdd(o.t, FMul(Half, o.d))
Instant(o) == Sgn(o.d) = 0
CovObs(T, o, p) ==
  CASE Instant(o) /\ Instant(p) -> K(T, FAbs(FSub(o.t, p.t)))
    [] Instant(o) /\ ~Instant(p) ->
         FDiv(FSub(SI1(T, FSub(OEnd(p), o.t)), SI1(T, FSub(OStart(p), o.t))), p.d)
    [] ~Instant(o) /\ Instant(p) ->
         FDiv(FSub(SI1(T, FSub(OEnd(o), p.t)), SI1(T, FSub(OStart(o), p.t))), o.d)
    [] OTHER ->
         FDiv(FSub(FAdd(SI2(T, FSub(OEnd(o), OStart(p))), SI2(T, FSub(OStart(o), OEnd(p)))),
                   FAdd(SI2(T, FSub(OStart(o), OStart(p))), SI2(T, FSub(OEnd(o), OEnd(p))))),
              FMul(o.d, p.d))
=============================================================================
