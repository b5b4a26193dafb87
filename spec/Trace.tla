-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance of a recorded session with the specification.                 *)
(*                                                                         *)
(* IOEnv.TRACE names a file with one JSON record per public API call that     *)
(* the harness made on the real code: which call, with which arguments, and    *)
(* what came back.  The state of this specification is the state of the        *)
(* session as the user sees it: the GP that was built (covariance, observation  *)
(* functionals, noise) and the data it was conditioned on, if any.  Every        *)
(* action is total: a reply the specification does not allow is printed as a     *)
(* FAIL line, and the session continues with the specification's own state.      *)
(***************************************************************************)
EXTENDS DenseGP, Names, Json, IOUtils, SequencesExt

Ev == ndJsonDeserialize(IOEnv.TRACE)
Has(e, f) == f \in DOMAIN e

\* ------------------------------------------------- comparing a reply
\* the least n >= -40 such that |e| <= 10^n s, at most 60
RECURSIVE MagFrom(_, _, _)
MagFrom(e, b, n) == IF FLe(e, b) THEN n ELSE IF n >= 60 THEN 60 ELSE MagFrom(e, TLCEval(FMul(FInt(10), b)), n + 1)
Mag10(e, s) == MagFrom(FAbs(e), TLCEval(FMul(Eps10(40), s)), -40)
BAD == 99
RAISED == 98
SHAPE == 97
MaxOf(s) == LET RECURSIVE Go(_, _) Go(i, m) == IF i > Len(s) THEN m ELSE Go(i + 1, MaxI(m, s[i])) IN Go(1, -40)

Num(x, ref, sc) == IF ~IsNum(x) THEN BAD ELSE Mag10(FSub(x, ref), sc)
\* a scalar, vector or matrix reply [s |-> shape, v |-> flattened values]
Arr(ret, shape, refs, sc) ==
  IF ret.s # shape THEN SHAPE ELSE MaxOf(TLCEval([i \in 1..Len(refs) |-> Num(ret.v[i], refs[i], sc)]))
Scalar(ret, ref, sc) == Arr(ret, <<>>, <<ref>>, sc)
Vec(ret, refs, sc) == Arr(ret, <<Len(refs)>>, refs, sc)
Flat(M) == LET n == Len(M) m == Len(M[1]) IN TLCEval([i \in 1..(n * m) |-> M[((i - 1) \div m) + 1][((i - 1) % m) + 1]])
Mat(ret, M, sc) == Arr(ret, <<Len(M), Len(M[1])>>, Flat(M), sc)
AllNum(ret) == \A i \in 1..Len(ret.v) : IsNum(ret.v[i])

\* a verdict: <<clause, magnitude of the error, allowed magnitude>>
V(clause, n, tol) == <<clause, n, tol>>
Raised(e) == e.exc # ""

\* ------------------------------------------------- the session state
NoGP == [on |-> FALSE]
Obs(x) == TLCEval([i \in 1..Len(x) |-> [t |-> x[i][1], d |-> x[i][2]]])
\* the size of the observed quantities: their largest prior variance
PriorVar(k, T, o) == IF HasRows(k) \/ Mixed(k) THEN MaxAbsV(TLCEval([i \in 1..Len(o) |-> CovOf(T, o[i], o[i])])) ELSE K(T, Zero)
MkGP(e) ==
  LET T == CtxOf(e.k) o == ObsOf(e.k, e.obs) IN
  TLCEval([on |-> TRUE, k |-> e.k, ni |-> e.ni, int |-> e.int, T |-> T, obs |-> o, inst |-> e.inst, noise |-> e.noise, tol |-> e.tol,
           f |-> Factor(T, o, e.noise), sd2 |-> PriorVar(e.k, T, o), names |-> PartNames(e.k),
           mu |-> e.mu, cond |-> FALSE, y |-> <<>>])
\* the mean function: a polynomial in the time of the coordinate (an exposure's midpoint)
RECURSIVE Poly(_, _, _)
Poly(c, t, n) == IF n > Len(c) THEN Zero ELSE FAdd(c[n], FMul(t, Poly(c, t, n + 1)))
Mu(S, t) == Poly(S.mu, t, 1)
Resid(S, y) == IF S.mu = <<>> THEN y ELSE TLCEval([i \in 1..Len(y) |-> FSub(y[i], Mu(S, S.obs[i].t))])
FitOf(S, y) == Fit(S.T, S.obs, S.f, Resid(S, y))
\* scale of means: the size of the data or of the process
MeanScale(S, y) == FMax(MaxAbsV(y), FSqrt(S.sd2))

IndexOf(n, ns) == IF Mem(n, ns) THEN CHOOSE i \in 1..Len(ns) : ns[i] = n ELSE 0
RECURSIVE CompTerms(_, _, _)
CompTerms(S, comp, i) ==
  IF i > Len(comp) THEN <<>> ELSE
  LET j == IndexOf(comp[i], S.names) IN (IF j = 0 THEN <<>> ELSE Terms(Parts(S.k)[j])) \o CompTerms(S, comp, i + 1)
RECURSIVE CompMix(_, _, _)
CompMix(S, comp, i) ==
  IF i > Len(comp) THEN [i |-> <<>>, s |-> <<>>] ELSE
  LET j == IndexOf(comp[i], S.names) a == MixTerms(Parts(S.k)[j]) b == CompMix(S, comp, i + 1) IN [i |-> a.i \o b.i, s |-> a.s \o b.s]
TermsFor(S, comp) == IF comp = <<>> \/ HasRows(S.k) THEN S.T
                     ELSE IF Mixed(S.k) THEN TLCEval(CompMix(S, comp, 1)) ELSE TLCEval(CompTerms(S, comp, 1))
\* a component of what functionals of the state see: their rows on its part of the state
RECURSIVE MaskFrom(_, _, _)
MaskFrom(ps, i, keep) == IF i > Len(ps) THEN <<>> ELSE
  LET n == Len(ModelOf(ps[i]).F) IN [a \in 1..n |-> i \in keep] \o MaskFrom(ps, i + 1, keep)
ObsFor(S, comp, os) ==
  IF comp = <<>> \/ ~HasRows(S.k) THEN os
  ELSE LET mask == TLCEval(MaskFrom(Parts(S.k), 1, {IndexOf(comp[i], S.names) : i \in 1..Len(comp)}))
       IN TLCEval([i \in 1..Len(os) |-> [os[i] EXCEPT !.h = [a \in 1..Len(mask) |-> IF mask[a] THEN os[i].h[a] ELSE Zero]]])

\* mean and variance replies at observations os; the mean function belongs to the whole
\* process (comp = <<>>), not to a component, and may be left out of the reply
MVM(S, e, y, Tc, os, tag, whole) ==
  LET fit == FitOf(S, y)
      p == TLCEval([i \in 1..Len(os) |-> Post(fit, Tc, os[i])])
  IN << V(tag \o "mean", Vec(e.mean, TLCEval([i \in 1..Len(os) |-> IF whole THEN FAdd(p[i].m, Mu(S, os[i].t)) ELSE p[i].m]), MeanScale(S, y)), S.tol),
        V(tag \o "var", Vec(e.var, TLCEval([i \in 1..Len(os) |-> p[i].v]), S.sd2), S.tol) >>
MV(S, e, y, Tc, os, tag) == MVM(S, e, y, Tc, os, tag, FALSE)

\* latent-state coordinates in the implementation's state vector
RECURSIVE StateSize(_, _)
StateSize(k, ni) ==
  CASE k.op = "leaf" -> Len(ModelOf(k).F) + (IF IsIntFam(k.fam) THEN ni ELSE 0)
    [] k.op = "sum" -> StateSize(k.l, ni) + StateSize(k.r, ni)
    [] k.op = "prod" -> Len(ModelOf(k).F)
    [] k.op \in {"scale", "basis", "obs"} -> StateSize(k.k, ni)
    [] k.op = "int" -> Len(ModelOf(k).F) + ni
RECURSIVE XIdx(_, _, _)
XIdx(k, ni, off) ==
  CASE k.op = "leaf" -> [i \in 1..Len(ModelOf(k).F) |-> off + i]
    [] k.op = "sum" -> XIdx(k.l, ni, off) \o XIdx(k.r, ni, off + StateSize(k.l, ni))
    [] k.op = "prod" -> [i \in 1..Len(ModelOf(k).F) |-> off + i]
    [] k.op \in {"scale", "basis", "obs"} -> XIdx(k.k, ni, off)
    [] k.op = "int" -> [i \in 1..Len(ModelOf(k).F) |-> off + i]
\* Parts with the offset of their block: <<part, offset>>
RECURSIVE PartOffs(_, _, _)
PartOffs(k, ni, off) == IF k.op = "sum" THEN PartOffs(k.l, ni, off) \o PartOffs(k.r, ni, off + StateSize(k.l, ni))
                        ELSE << <<k, off>> >>

\* ------------------------------------------------- one action per API call
\* each returns [S |-> session state after, v |-> verdicts]
R(S, v) == [S |-> S, v |-> v]

DoGP(e) == R(MkGP(e), << V("construct", IF Raised(e) THEN RAISED ELSE -40, 0) >>)

\* a GP that is not conditioned yet: its mean is the prior mean
DoPrior(S, e) ==
  R(S, << V("prior.mean", IF Raised(e) THEN RAISED ELSE
        LET m == TLCEval([i \in 1..Len(S.obs) |-> Mu(S, S.obs[i].t)]) IN Vec(e.mean, m, FMax(FSqrt(S.sd2), MaxAbsV(m))), -13),
        V("prior.size", IF Raised(e) THEN RAISED ELSE IF e.n = Len(S.obs) THEN -40 ELSE 0, -1) >>)

DoLogp(S, e) ==
  R(S, << V("logp", IF Raised(e) THEN RAISED ELSE
        LET fit == FitOf(S, e.y) IN Scalar(e.lp, LogProb(fit), LogProbScale(fit)), S.tol) >>)

\* condition: the log-probability, and a GP whose loc/variance are the posterior at the data
DoCond(S, e) ==
  LET SN == [S EXCEPT !.cond = TRUE, !.y = e.y] IN
  IF Raised(e) THEN R(SN, << V("condition", RAISED, 0) >>) ELSE
  LET fit == FitOf(S, e.y) IN
  R(SN, << V("condition.logp", Scalar(e.lp, LogProb(fit), LogProbScale(fit)), S.tol) >>
        \o MVM(S, e, e.y, S.T, S.obs, "condition.", e.withmean))

\* condition(y, X_test [, component]): the posterior at X_test
DoCondX(S, e) ==
  LET SN == IF e.keep THEN [S EXCEPT !.cond = TRUE, !.y = e.y] ELSE S IN
  IF Raised(e) THEN R(SN, << V("conditionX", RAISED, 0) >>) ELSE
  LET fit == FitOf(S, e.y) IN
  R(SN, << V("conditionX.logp", Scalar(e.lp, LogProb(fit), LogProbScale(fit)), S.tol) >>
       \o MVM(S, e, e.y, TermsFor(S, e.comp), ObsFor(S, e.comp, ObsOf(S.k, e.X)), "conditionX.", e.comp = <<>> /\ e.withmean))

\* predict: at X_test (or at the data), for the whole process or some components,
\* from the conditioned state or from the y passed along
DoPred(S, e) ==
  IF Raised(e) THEN R(S, << V(e.tag, RAISED, 0) >>) ELSE
  R(S, MVM(S, e, IF e.y = <<>> THEN S.y ELSE e.y, TermsFor(S, e.comp),
           ObsFor(S, e.comp, IF e.atdata THEN S.obs ELSE ObsOf(S.k, e.X)), e.tag \o ".", e.comp = <<>>))
\* predict with a user-defined observation model h: posterior of h . x(t)
DoPredH(S, e) ==
  IF Raised(e) THEN R(S, << V(e.tag, RAISED, 0) >>) ELSE
  LET fit == FitOf(S, IF e.y = <<>> THEN S.y ELSE e.y)  m == ModelOf(S.k)
      ts == IF e.atdata THEN [i \in 1..Len(S.obs) |-> S.obs[i].t] ELSE [i \in 1..Len(e.X) |-> e.X[i][1]]
      p == TLCEval([i \in 1..Len(ts) |-> PostLin(fit, Len(S.obs), m, ts[i], e.h)])
      v == Quad(e.h, m.P, e.h)
  IN R(S, << V(e.tag \o ".mean", Vec(e.mean, TLCEval([i \in 1..Len(ts) |-> p[i].m]), FMax(MaxAbsV(S.y), FSqrt(v))), S.tol),
             V(e.tag \o ".var", Vec(e.var, TLCEval([i \in 1..Len(ts) |-> p[i].v]), v), S.tol) >>)

\* every component by name, at the data or at X_test: the list of names, and each posterior
DoComps(S, e) ==
  IF Raised(e) THEN R(S, << V(e.tag, RAISED, 0) >>) ELSE
  LET got == TLCEval([i \in 1..Len(e.comps) |-> e.comps[i].name])
      os == IF e.atdata THEN S.obs ELSE ObsOf(S.k, e.X)
      RECURSIVE Go(_)
      Go(i) == IF i > Len(e.comps) THEN <<>> ELSE
               (IF Mem(got[i], S.names) THEN MV(S, e.comps[i], S.y, TermsFor(S, <<got[i]>>), ObsFor(S, <<got[i]>>, os), e.tag \o ".") ELSE <<>>)
               \o Go(i + 1)
  IN R(S, << V(e.tag \o ".names", IF got = S.names THEN -40 ELSE BAD, 0) >> \o Go(1))

\* ---- full states
\* scale of the entries of a state vector: prior standard deviations
StateVerdict(S, fit, n, t, ret, idx, off, tag) ==
  \* ret.m / ret.P: flattened reply of one state of dimension ret.n; coordinates idx
  LET m == ModelOf(S.k)  p == PostState(fit, n, m, t)  d == Len(m.F)
      sd == TLCEval([a \in 1..d |-> FSqrt(m.P[a][a])])
      ms == FDiv(MeanScale(S, S.y), FSqrt(S.sd2))      \* how many prior sds the data reach
      em == TLCEval([a \in 1..d |-> Num(ret.m[idx[a]], p.m[a], FMul(FMax(One, ms), sd[a]))])
      eP == TLCEval([a \in 1..(d * d) |-> LET r == ((a - 1) \div d) + 1 c == ((a - 1) % d) + 1 IN
               Num(ret.P[(idx[r] - 1) * ret.n + idx[c]], p.P[r][c], FMul(sd[r], sd[c]))])
  IN << V(tag \o ".mean", MaxOf(em), S.tol), V(tag \o ".cov", MaxOf(eP), S.tol) >>

\* return_full_state at X_test: the joint posterior of the state vector
DoPredState(S, e) ==
  IF Raised(e) THEN R(S, << V(e.tag, RAISED, 0) >>) ELSE
  LET n == StateSize(S.k, S.ni) idx == XIdx(S.k, S.ni, 0) fit == FitOf(S, S.y) M == Len(e.X)
      shapeOK == e.m.s = <<M, n>> /\ e.P.s = <<M, n, n>>
      RECURSIVE Go(_)
      Go(i) == IF i > M THEN <<>> ELSE
        StateVerdict(S, fit, Len(S.obs), e.X[i][1],
          [n |-> n, m |-> SubSeq(e.m.v, (i - 1) * n + 1, i * n), P |-> SubSeq(e.P.v, (i - 1) * n * n + 1, i * n * n)],
          idx, 0, e.tag) \o Go(i + 1)
  IN R(S, << V(e.tag \o ".shape", IF shapeOK THEN -40 ELSE SHAPE, 0) >> \o (IF shapeOK THEN Go(1) ELSE <<>>))

\* ---- the states of the filter and smoother
\* Events of the timeline: for instantaneous data the observations themselves; for
\* exposures every start and end, ends before starts at equal times.
StartsEnds(S) ==
  LET N == Len(S.obs) IN
  TLCEval([j \in 1..(2 * N) |-> LET o == S.obs[((j - 1) \div 2) + 1] IN
     IF j % 2 = 1 THEN [t |-> OStart(o), o |-> (j - 1) \div 2, s |-> 0]
     ELSE [t |-> OEnd(o), o |-> (j - 1) \div 2, s |-> 1]])
Timeline(S) ==
  IF ~S.int THEN TLCEval([j \in 1..Len(S.obs) |-> [t |-> S.obs[j].t, o |-> j - 1, s |-> 1]])
  ELSE StartsEnds(S)
EvBefore(a, b) == FLt(a.t, b.t) \/ (FCmp(a.t, b.t) = 0 /\ a.s > b.s)
DoStates(S, e) ==
  IF Raised(e) THEN R(S, << V("states", RAISED, 0) >>) ELSE
  LET TL == Timeline(S)  nK == Len(TL)
      \* the order in which data complete, as the reply has it (ties are free)
      ends == SelectSeq(TLCEval([i \in 1..nK |-> <<e.stateid.i[i], e.obsid.i[i]>>]), LAMBDA x : x[1] = 1)
      perm == TLCEval([i \in 1..Len(ends) |-> ends[i][2] + 1])
      so == TLCEval([i \in 1..Len(perm) |-> S.obs[perm[i]]])
      sn == TLCEval([i \in 1..Len(perm) |-> S.noise[perm[i]]])
      ry == Resid(S, S.y)
      sy == TLCEval([i \in 1..Len(perm) |-> ry[perm[i]]])
      SN == [S EXCEPT !.obs = so]
      fit == Fit(S.T, so, Factor(S.T, so, sn), sy)
      n == StateSize(S.k, S.ni)  idx == XIdx(S.k, S.ni, 0)
      kshape == e.t.s = <<nK>> /\ e.obsid.s = <<nK>> /\ e.stateid.s = <<nK>> /\ e.instid.s = <<Len(S.obs)>>
      sshape == \A x \in {e.mp, e.mf, e.ms} : x.s = <<nK, n>>
      pshape == \A x \in {e.Pp, e.Pf, e.Ps} : x.s = <<nK, n, n>>
      obsAt(i) == e.obsid.i[i]
      stAt(i) == e.stateid.i[i]
      at(i) == CHOOSE j \in 1..nK : TL[j].o = obsAt(i) /\ TL[j].s = stAt(i)
      legal == /\ \A i \in 1..nK : \E j \in 1..nK : TL[j].o = obsAt(i) /\ TL[j].s = stAt(i)
               /\ \A i, j \in 1..nK : i # j => <<obsAt(i), stAt(i)>> # <<obsAt(j), stAt(j)>>
      timesOK == \A i \in 1..nK : Num(e.t.v[i], TL[at(i)].t, FMax(One, FAbs(TL[at(i)].t))) <= -14
      orderOK == \A i \in 1..(nK - 1) : ~EvBefore(TL[at(i + 1)], TL[at(i)])
      instOK == e.instid.i = S.inst
      meta == kshape /\ legal
      done(i) == Cardinality({j \in 1..i : stAt(j) = 1})       \* data complete up to and including event i
      own(i) == IF stAt(i) = 1 THEN 1 ELSE 0
      slice(x, i) == SubSeq(x.v, (i - 1) * n + 1, i * n)
      sliceP(x, i) == SubSeq(x.v, (i - 1) * n * n + 1, i * n * n)
      RECURSIVE Go(_)
      Go(i) == IF i > nK THEN <<>> ELSE
        (StateVerdict(SN, fit, done(i) - own(i), TL[at(i)].t, [n |-> n, m |-> slice(e.mp, i), P |-> sliceP(e.Pp, i)], idx, 0, "states.predicted")
         \o StateVerdict(SN, fit, done(i), TL[at(i)].t, [n |-> n, m |-> slice(e.mf, i), P |-> sliceP(e.Pf, i)], idx, 0, "states.filtered")
         \o StateVerdict(SN, fit, Len(so), TL[at(i)].t, [n |-> n, m |-> slice(e.ms, i), P |-> sliceP(e.Ps, i)], idx, 0, "states.smoothed"))
        \o Go(i + 1)
  IN R(S, << V("states.meta.shape", IF kshape THEN -40 ELSE SHAPE, 0),
             V("states.shape", IF sshape /\ pshape THEN -40 ELSE SHAPE, 0) >>
          \o (IF ~kshape THEN <<>> ELSE << V("states.meta.labels", IF legal THEN -40 ELSE BAD, 0) >>)
          \o (IF ~meta THEN <<>> ELSE << V("states.meta.times", IF timesOK THEN -40 ELSE BAD, 0),
                                         V("states.meta.order", IF orderOK THEN -40 ELSE BAD, 0),
                                         V("states.meta.instid", IF instOK THEN -40 ELSE BAD, 0) >>)
          \o (IF meta /\ sshape /\ pshape /\ e.full THEN Go(1) ELSE <<>>))

\* ---- covariances are covariances, whatever the data and however small the noise
\* no pivot of the elimination of A falls below zero
RECURSIVE PivotsOK(_, _, _)
PivotsOK(A, L, D) ==
  LET i == Len(L) + 1 IN
  IF i > Len(A) THEN TRUE
  ELSE LET w == TLCEval(LDLRow(A[i], L, D, 1, <<>>))
           r == TLCEval([j \in 1..(i - 1) |-> FDiv(w[j], D[j])])
           d == TLCEval(FSub(A[i][i], IF i = 1 THEN Zero ELSE FDot(w, r)))
       IN IF FLt(Zero, d) THEN PivotsOK(A, TLCEval(Append(L, r)), TLCEval(Append(D, d))) ELSE FALSE
\* least e such that A + 10^e I is positive definite
RECURSIVE PSDMag(_, _)
PSDMag(A, e) == IF e > 0 THEN BAD
  ELSE IF PivotsOK(TLCEval([a \in 1..Len(A) |-> [A[a] EXCEPT ![a] = FAdd(@, Eps10(0 - e))]]), <<>>, <<>>) THEN e ELSE PSDMag(A, e + 1)
\* how far a exceeds b, in units of sc
Excess(a, b, sc) == IF FLe(a, b) THEN -40 ELSE Mag10(FSub(a, b), sc)
DoValid(S, e) ==
  IF Raised(e) THEN R(S, << V("valid", RAISED, 0) >>) ELSE
  LET m == ModelOf(S.k)  n == StateSize(S.k, S.ni)  idx == XIdx(S.k, S.ni, 0)  d == Len(m.F)
      sd == TLCEval([a \in 1..d |-> FSqrt(m.P[a][a])])
      cnt(r) == r.s[1]
      okshape(r) == Len(r.s) = 3 /\ r.s[2] = n /\ r.s[3] = n
      nm(r, i) == TLCEval([a \in 1..d |-> [b \in 1..d |->
                    FDiv(r.v[(i - 1) * n * n + (idx[a] - 1) * n + idx[b]], FMul(sd[a], sd[b]))]])
      asym(A) == MaxOf(TLCEval([q \in 1..(d * d) |-> LET a == ((q - 1) \div d) + 1 b == ((q - 1) % d) + 1 IN Mag10(FSub(A[a][b], A[b][a]), One)]))
      over(A, B) == MaxOf(TLCEval([a \in 1..d |-> Excess(A[a][a], B[a][a], One)]))
      I == TLCEval(Ident(d))
      one(r, i, nme) == LET A == nm(r, i) IN
         << V("valid." \o nme \o ".symmetric", asym(A), e.tol), V("valid." \o nme \o ".psd", PSDMag(A, -16), e.tol),
            V("valid." \o nme \o ".below.prior", over(A, I), e.tol) >>
      RECURSIVE Go(_, _, _)
      Go(r, i, nme) == IF i > cnt(r) THEN <<>> ELSE one(r, i, nme) \o Go(r, i + 1, nme)
      part(r, nme) == IF ~okshape(r) THEN << V("valid." \o nme, SHAPE, 0) >> ELSE IF ~AllNum(r) THEN << V("valid." \o nme, BAD, 0) >> ELSE Go(r, 1, nme)
      fine == \A r \in {e.Pp, e.Pf, e.Ps} : okshape(r) /\ AllNum(r)
      \* more data never make the process less certain
      RECURSIVE Mono(_)
      Mono(i) == IF i > cnt(e.Ps) THEN <<>> ELSE
         << V("valid.filtered.below.predicted", over(nm(e.Pf, i), nm(e.Pp, i)), e.tol),
            V("valid.smoothed.below.filtered", over(nm(e.Ps, i), nm(e.Pf, i)), e.tol) >> \o Mono(i + 1)
      vars(r, nme) == IF ~AllNum(r) THEN << V("valid." \o nme, BAD, 0) >> ELSE
         << V("valid." \o nme, MaxOf(TLCEval([i \in 1..Len(r.v) |-> MaxI(Excess(r.v[i], S.sd2, S.sd2), Excess(Zero, r.v[i], S.sd2))])), e.tol) >>
  IN R(S, part(e.Pp, "predicted") \o part(e.Pf, "filtered") \o part(e.Ps, "smoothed") \o part(e.Pt, "test")
          \o (IF fine /\ cnt(e.Pp) = cnt(e.Pf) /\ cnt(e.Pf) = cnt(e.Ps) THEN Mono(1) ELSE << V("valid.states", BAD, 0) >>)
          \o vars(e.var, "variance.data") \o vars(e.vt, "variance.test"))

\* ---- kernels on their own
DoEval(S, e) ==              \* k(x1, x2) for every pair of the two lists: the Gram matrix
  IF Raised(e) THEN R(S, << V("evaluate", RAISED, 0) >>) ELSE
  LET T == CtxOf(e.k) A == ObsOf(e.k, e.X1) B == ObsOf(e.k, e.X2) v == PriorVar(e.k, T, A \o B)
      M == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B) |-> CovOf(T, A[i], B[j])]])
  IN R(S, << V(e.tag, Mat(e.g, M, v), e.tol) >>)
DoDiag(S, e) ==              \* the diagonal k(x, x)
  IF Raised(e) THEN R(S, << V("evaluate_diag", RAISED, 0) >>) ELSE
  LET T == CtxOf(e.k) A == ObsOf(e.k, e.X1) IN
  R(S, << V("evaluate_diag", Vec(e.g, TLCEval([i \in 1..Len(A) |-> CovOf(T, A[i], A[i])]), PriorVar(e.k, T, A)), e.tol) >>)

\* S(w) = (1/2pi) INT k(tau) e^{-i w tau} d tau = (1/pi) Re SUM_j INT_0^oo c tau^n e^{(l - iw) tau}
\*      = (1/pi) Re SUM c n! / (iw - l)^{n+1}, for decaying terms, over both signs of w
RECURSIVE CPow(_, _)
CPow(z, n) == IF n = 0 THEN COne ELSE TLCEval(CMul(z, CPow(z, n - 1)))
PSD(T, w) ==
  LET part(sw) == FSum(TLCEval([j \in 1..Len(T) |->
        CDiv(CScale(Fact(T[j].n), T[j].c), CPow(<<FNeg(T[j].l[1]), FSub(sw, T[j].l[2])>>, T[j].n + 1))[1]]))
  IN FDiv(FMul(Half, FAdd(part(w), part(FNeg(w)))), PI)
\* the same from a model: S(w) = (1/2pi) v* LQL v with (F' + iw) v = h
PSDModel(m, w) ==
  LET Ft == MT(m.F) n == Len(m.F)
      u == MVec(Inv(MAdd(MMul(Ft, Ft), MScale(FSq(w), Ident(n)))), m.H)
      re == MVec(Ft, u) im == VScale(w, u) W == LQL(m)
  IN FDiv(FAdd(Quad(re, W, re), Quad(im, W, im)), TWOPI)
DoPSD(S, e) ==
  IF Raised(e) THEN R(S, << V("psd", RAISED, 0) >>) ELSE
  LET T == CtxOf(e.k) r == TLCEval([i \in 1..Len(e.w) |-> IF HasRows(e.k) THEN PSDModel(T, e.w[i]) ELSE PSD(T, e.w[i])]) IN
  R(S, << V("psd", Vec(e.g, r, MaxAbsV(r)), e.tol) >>)

\* documented kernel k(tau) = sigma^2 exp(-gamma sin^2(pi tau / period)): the model may differ from
\* it by no more than it says (and round-off)
DoBound(S, e) ==
  IF Raised(e) THEN R(S, << V("bound", RAISED, 0) >>) ELSE
  LET p == e.k.p s2 == FSq(p[3])
      ex(t) == LET sn == FSin(FDiv(FMul(PI, t), p[1])) IN FMul(s2, FExp(FNeg(FMul(p[2], FSq(sn)))))
      err == TLCEval([i \in 1..Len(e.lags) |-> FAbs(FSub(e.g.v[i], ex(e.lags[i])))])
      shapeOK == e.g.s = <<Len(e.lags)>> /\ e.b.s = <<>>
  IN R(S, << V("bound", IF ~shapeOK THEN SHAPE ELSE IF ~AllNum(e.g) \/ ~AllNum(e.b) THEN BAD
                        ELSE MaxOf(TLCEval([i \in 1..Len(e.lags) |-> Excess(err[i], e.b.v[1], s2)])), e.tol),
             \* and not vacuously: no more than twice the variance of the process
             V("bound.useful", IF ~shapeOK \/ ~AllNum(e.b) THEN BAD ELSE Excess(e.b.v[1], FMul(Two, s2), s2), e.tol) >>)

\* the helpers: integrals of matrix exponentials for any F, L, Qc, dt
DoHelpers(S, e) ==
  IF Raised(e) THEN R(S, << V("helpers", RAISED, 0) >>) ELSE
  LET n == Len(e.F)
      W == MMul(MMul(e.L, e.Qc), MT(e.L))
      I == Ident(n) Z == ZeroMat(n, n) Ft == MT(e.F)
      blk(X, a, b) == SubMat(X, (a - 1) * n + 1, a * n, (b - 1) * n + 1, b * n)
      row(A, B, C, D) == TLCEval([i \in 1..n |-> A[i] \o B[i] \o C[i] \o D[i]])
      big == Expm(MScale(e.dt, row(MScale(FNeg(One), e.F), I, Z, Z) \o row(Z, MScale(FNeg(One), e.F), W, Z)
                               \o row(Z, Z, Ft, I) \o row(Z, Z, Z, Z)))
      Q == VanLoanQ(e.F, W, e.dt)
      sc(M) == FMax(MaxAbs(M), Eps10(30))
      rel(nm, M) == V("helpers." \o nm, Mat(e.m[nm], M, sc(M)), e.tol)
      top == sc(big)
      sub(nm, a, b) == V("helpers.VanLoan." \o nm, Mat(e.m[nm], blk(big, a, b), top), e.tol)
  IN R(S, << rel("Q", Q), rel("Phibar", Abar([F |-> e.F], e.dt)) >>
          \o (IF ~e.full THEN <<>> ELSE
              << sub("F1", 1, 1), sub("G1", 1, 2), sub("H1", 1, 3), sub("K1", 1, 4), sub("F2", 2, 2), sub("G2", 2, 3),
                 sub("H2", 2, 4), sub("F3", 3, 3), sub("G3", 3, 4), sub("F4", 4, 4) >>))

\* the matrices of the state-space model
RelMat(ret, M) == Mat(ret, M, FMax(MaxAbs(M), Eps10(30)))
\* compare in units of the prior: entry (a,b) scaled by sd_a sd_b (cov) or sd_a/sd_b (maps)
ScaledMat(ret, M, sc) ==
  IF ret.s # <<Len(M), Len(M[1])>> THEN SHAPE
  ELSE LET m == Len(M[1]) IN MaxOf(TLCEval([a \in 1..(Len(M) * m) |->
     LET r == ((a - 1) \div m) + 1 c == ((a - 1) % m) + 1 IN Num(ret.v[a], M[r][c], sc[r][c])]))
CovScale(sd) == TLCEval([a \in 1..Len(sd) |-> [b \in 1..Len(sd) |-> FMul(sd[a], sd[b])]])
MapScale(sd) == TLCEval([a \in 1..Len(sd) |-> [b \in 1..Len(sd) |-> FDiv(sd[a], sd[b])]])
DoMats(S, e) ==
  IF Raised(e) THEN R(S, << V("matrices", RAISED, 0) >>) ELSE
  LET m == ModelOf(e.k)
      sd == TLCEval([a \in 1..Len(m.F) |-> FSqrt(m.P[a][a])])
      dt == FSub(e.x2, e.x1)
      A == Trans(m, dt)
      Q == ProcNoise(m, A)
      fs == FMax(MaxAbs(m.F), One)
      cs == CovScale(sd) msc == MapScale(sd)
      fsc == TLCEval([a \in 1..Len(sd) |-> [b \in 1..Len(sd) |-> FMul(fs, msc[a][b])]])
      qsc == TLCEval([a \in 1..Len(sd) |-> [b \in 1..Len(sd) |-> FMul(fs, cs[a][b])]])
      Has1(n) == n \in DOMAIN e.m
      C(n, ref, sc) == IF Has1(n) THEN << V("matrices." \o n, ScaledMat(e.m[n], ref, sc), e.tol) >> ELSE <<>>
  IN R(S, C("F", m.F, fsc) \o C("P", m.P, cs) \o C("LQL", LQL(m), qsc)
          \o C("H", <<m.H>>, <<[a \in 1..Len(sd) |-> One]>>)
          \o C("A", A, msc) \o C("Q", Q, cs) \o C("Qvl", Q, cs)
          \o (IF Has1("dim") THEN << V("matrices.dim", IF e.m.dim.i = Len(m.F) THEN -40 ELSE BAD, 0) >> ELSE <<>>))

\* the augmented matrices of an integrated kernel leaf with ni instruments
DoIntMats(S, e) ==
  IF Raised(e) THEN R(S, << V("intmatrices", RAISED, 0) >>) ELSE
  LET m == ModelOf(e.k) n == Len(m.F) N == n + e.ni
      dt == FSub(e.x2, e.x1)
      A == SpreadA(AugTrans(m, dt), e.ni)
      Q == SpreadQ(AugNoise(m, dt), e.ni)
      s == FMax(dt, Eps10(30))
      \* natural scales: sd of x, and sd(f) * dt for the accumulators
      sd == TLCEval([a \in 1..N |-> IF a <= n THEN FSqrt(m.P[a][a]) ELSE FMul(s, FSqrt(Quad(m.H, m.P, m.H)))])
      ones(k2) == TLCEval([a \in 1..k2 |-> One])
      RM == TLCEval([a \in 1..N |-> [b \in 1..N |-> IF a = b /\ a # n + 1 + e.inst THEN One ELSE Zero]])
      HL == TLCEval([a \in 1..N |-> IF a <= n THEN m.H[a] ELSE Zero])
      HI == TLCEval([a \in 1..N |-> IF a = n + 1 + e.inst THEN FDiv(One, e.d) ELSE Zero])
      C(nm, ref, sc) == IF nm \in DOMAIN e.m THEN << V("intmatrices." \o nm, ScaledMat(e.m[nm], ref, sc), e.tol) >> ELSE <<>>
      \* rates are measured in the largest entry of F, as in DoMats
      fs == FMax(MaxAbs(m.F), One)
      qs == TLCEval([a \in 1..N |-> [b \in 1..N |-> FMul(fs, FMul(sd[a], sd[b]))]])
  IN R(S, C("A", A, MapScale(sd)) \o C("Q", Q, CovScale(sd)) \o C("LQL", BlockDiagZ(LQL(m), e.ni), qs) \o C("Qnum", Q, CovScale(sd))
          \o C("R", RM, TLCEval([a \in 1..N |-> ones(N)]))
          \o C("Hi", <<HI>>, <<TLCEval([a \in 1..N |-> FDiv(One, e.d)])>>) \o C("Hl", <<HL>>, <<ones(N)>>) \o C("Hp", <<HL>>, <<ones(N)>>)
          \o (IF "F" \in DOMAIN e.m THEN << V("intmatrices.F", RelMat(e.m.F, TLCEval([a \in 1..N |-> [b \in 1..N |->
                   IF a <= n THEN (IF b <= n THEN m.F[a][b] ELSE Zero) ELSE IF b <= n THEN m.H[b] ELSE Zero]])), e.tol) >> ELSE <<>>)
          \o (IF "Px" \in DOMAIN e.m THEN << V("intmatrices.P", ScaledMat(e.m.Px, m.P, CovScale(SubSeq(sd, 1, n))), e.tol) >> ELSE <<>>)
          \o (IF "dim" \in DOMAIN e.m THEN << V("intmatrices.dim", IF e.m.dim.i = N THEN -40 ELSE BAD, 0) >> ELSE <<>>))

\* two replies that the specification says are the same call (jit, vmap, repetition, another
\* object with the same content): equal up to round-off
DoSame(S, e) ==
  IF Raised(e) THEN R(S, << V(e.tag, RAISED, 0) >>) ELSE
  R(S, << V(e.tag, IF e.a.s # e.b.s THEN SHAPE ELSE IF ~AllNum(e.b) THEN BAD ELSE
       Arr(e.a, e.b.s, e.b.v, FMax(MaxAbsV(e.b.v), Eps10(30))), e.tol) >>)

\* a call that must be rejected with an error rather than answered
DoReject(S, e) == R(S, << V(e.tag, IF Raised(e) THEN -40 ELSE BAD, 0) >>)
\* the log-probability of impossible data (not a number, infinite) or of a matrix that is no
\* covariance is minus infinity: never NaN, never plus infinity
DoImpossible(S, e) ==
  R(S, << V("impossible", IF Raised(e) THEN RAISED ELSE IF e.lp.v = << <<-3>> >> THEN -40 ELSE BAD, 0) >>)
\* the names of the components
DoNames(S, e) ==
  IF Raised(e) THEN R(S, << V("names", RAISED, 0) >>) ELSE
  R(S, << V("names.unique", IF Distinct(e.names) THEN -40 ELSE BAD, 0),
          V("names.exact", IF e.names = PartNames(e.k) THEN -40 ELSE BAD, 0) >>)

\* derivatives of the log-probability with respect to parameters, noise or data, against
\* central differences of the specification's own log-probability (step 2^-60 of the parameter)
RECURSIVE WithLeafParam(_, _, _, _)
RECURSIVE NLeaves(_)
NLeaves(k) == CASE k.op \in {"leaf", "basis"} -> 1 [] k.op = "scale" -> 1 + NLeaves(k.k) [] k.op \in {"obs", "int"} -> NLeaves(k.k) [] OTHER -> NLeaves(k.l) + NLeaves(k.r)
\* leaf j (1-based, left to right; a scale counts before its body), parameter q set to x
WithLeafParam(k, j, q, x) ==
  CASE k.op = "leaf" -> IF j = 1 THEN [k EXCEPT !.p = [@ EXCEPT ![q] = x]] ELSE k
    [] k.op \in {"obs", "int"} -> [k EXCEPT !.k = WithLeafParam(k.k, j, q, x)]
    [] k.op = "scale" -> IF j = 1 THEN [k EXCEPT !.c = x] ELSE [k EXCEPT !.k = WithLeafParam(k.k, j - 1, q, x)]
    [] OTHER -> LET n == NLeaves(k.l) IN
                IF j <= n THEN [k EXCEPT !.l = WithLeafParam(k.l, j, q, x)]
                ELSE [k EXCEPT !.r = WithLeafParam(k.r, j - n, q, x)]
LPAt(k, obs, noise, y0, mu) == LET y == Resid([mu |-> mu, obs |-> obs], y0) IN LET T == CtxOf(k) IN LogProb(Fit(T, obs, Factor(T, obs, noise), y))
Diff(hi, lo, h) == FDiv(FSub(hi, lo), FMul(Two, h))
DoGrad(S, e) ==
  IF Raised(e) THEN R(S, << V(e.tag, RAISED, 0) >>) ELSE
  LET H == Eps10(17)
      one(w, g) ==
        LET h == FMul(H, w.x)
            lp(x) == IF w.kind = "param" THEN LPAt(WithLeafParam(S.k, w.leaf, w.q, x), S.obs, S.noise, e.y, S.mu)
                     ELSE IF w.kind = "noise" THEN LPAt(S.k, S.obs, [S.noise EXCEPT ![w.q] = x], e.y, S.mu)
                     ELSE IF w.kind = "y" THEN LPAt(S.k, S.obs, S.noise, [e.y EXCEPT ![w.q] = x], S.mu)
                     ELSE IF w.kind = "texp" THEN LPAt(S.k, [S.obs EXCEPT ![w.q] = [@ EXCEPT !.d = x]], S.noise, e.y, S.mu)
                     ELSE LPAt(S.k, [S.obs EXCEPT ![w.q] = [@ EXCEPT !.t = x]], S.noise, e.y, S.mu)
            ref == Diff(lp(FAdd(w.x, h)), lp(FSub(w.x, h)), h)
            fit == FitOf(S, e.y)
        IN Num(g, ref, FDiv(LogProbScale(fit), FAbs(w.x)))
  IN R(S, << V(e.tag, MaxOf(TLCEval([i \in 1..Len(e.wrt) |-> one(e.wrt[i], e.g.v[i])])), S.tol) >>)

Judge(S, e) ==
  CASE e.ev = "gp"     -> DoGP(e)
    [] e.ev = "logp"   -> DoLogp(S, e)
    [] e.ev = "cond"   -> DoCond(S, e)
    [] e.ev = "condx"  -> DoCondX(S, e)
    [] e.ev = "prior"  -> DoPrior(S, e)
    [] e.ev = "pred"   -> DoPred(S, e)
    [] e.ev = "predh"  -> DoPredH(S, e)
    [] e.ev = "comps"  -> DoComps(S, e)
    [] e.ev = "pstate" -> DoPredState(S, e)
    [] e.ev = "states" -> DoStates(S, e)
    [] e.ev = "valid"  -> DoValid(S, e)
    [] e.ev = "eval"   -> DoEval(S, e)
    [] e.ev = "diag"   -> DoDiag(S, e)
    [] e.ev = "psd"    -> DoPSD(S, e)
    [] e.ev = "bound"  -> DoBound(S, e)
    [] e.ev = "helpers" -> DoHelpers(S, e)
    [] e.ev = "mats"   -> DoMats(S, e)
    [] e.ev = "imats"  -> DoIntMats(S, e)
    [] e.ev = "same"   -> DoSame(S, e)
    [] e.ev = "reject" -> DoReject(S, e)
    [] e.ev = "impossible" -> DoImpossible(S, e)
    [] e.ev = "names"  -> DoNames(S, e)
    [] e.ev = "grad"   -> DoGrad(S, e)

\* several live GPs: a slot is a GP object (and the data it is conditioned on); "use" turns
\* to another slot, "share" puts the same GP object, unconditioned, in the current slot
VARIABLES i, S, cur, slots
Say(e, v) == \A j \in 1..Len(v) :
   PrintT(<<IF v[j][2] > v[j][3] THEN "FAIL" ELSE "OK", i, v[j][1], v[j][2], v[j][3]>>)
NSlots == 4
Init == i = 1 /\ S = NoGP /\ cur = 1 /\ slots = [j \in 1..NSlots |-> NoGP]
Reply == /\ Ev[i].ev \notin {"use", "share"}
         /\ LET r == TLCEval(Judge(S, Ev[i])) IN /\ Say(Ev[i], r.v)
                                                 /\ S' = r.S
         /\ UNCHANGED <<cur, slots>>
Use == /\ Ev[i].ev = "use"
       /\ slots' = [slots EXCEPT ![cur] = S] /\ cur' = Ev[i].slot /\ S' = slots'[cur']
Share == /\ Ev[i].ev = "share" /\ S' = [slots[Ev[i].slot] EXCEPT !.cond = FALSE, !.y = <<>>] /\ UNCHANGED <<cur, slots>>
Next == /\ i <= Len(Ev)
        /\ Reply \/ Use \/ Share
        /\ i' = i + 1
Done == i = Len(Ev) + 1 => PrintT(<<"DONE", Len(Ev)>>)
=============================================================================
