------------------------------- MODULE DenseGP -------------------------------
(* The meaning of a GP regression: dense multivariate-normal algebra.         *)
EXTENDS SSM

Gram(T, obs) ==
  LET n == Len(obs)
      low == TLCEval([i \in 1..n |-> [j \in 1..i |-> CovOf(T, obs[i], obs[j])]])
  IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j <= i THEN low[i][j] ELSE low[j][i]]])

\* the factored data covariance K + N
Factor(T, obs, noise) ==
  LET G == Gram(T, obs)
  IN LDL(TLCEval([i \in 1..Len(obs) |-> [G[i] EXCEPT ![i] = FAdd(@, noise[i])]]))
\* and the whitened data
Fit(T, obs, f, y) == TLCEval([T |-> T, obs |-> obs, f |-> f, uy |-> Fwd(f, y)])

QuadForm(fit) == WDot(fit.f, fit.uy, fit.uy)
LogProb(fit) ==
  FNeg(FMul(Half, FSum(<< QuadForm(fit), LogDet(fit.f), FMul(FInt(Len(fit.obs)), FLn(TWOPI)) >>)))
LogProbScale(fit) == FSum(<< FInt(Len(fit.obs)), QuadForm(fit), FAbs(LogDet(fit.f)) >>)

\* Posterior of a functional of the process given the first n observations:
\* c is its covariance with every observation, v its prior variance.  (The first
\* n entries of L^{-1} c depend on the first n observations only.)
PostGiven(fit, n, c, v) ==
  IF n = 0 THEN [m |-> Zero, v |-> v]
  ELSE LET u == TLCEval(SubSeq(Fwd(fit.f, c), 1, n))
           w == TLCEval([i \in 1..n |-> FDiv(u[i], fit.f.D[i])])
       IN TLCEval([m |-> FDot(w, SubSeq(fit.uy, 1, n)), v |-> FSub(v, FDot(u, w))])

\* posterior of the observation o of a process with terms Tc: fit.T for the whole
\* process, or the terms of some of its (independent) components
Post(fit, Tc, o) ==
  PostGiven(fit, Len(fit.obs), TLCEval([i \in 1..Len(fit.obs) |-> CovOf(Tc, o, fit.obs[i])]), CovOf(Tc, o, o))
\* posterior of h . x(t) for the state x of model m
PostLin(fit, n, m, t, h) ==
  PostGiven(fit, n, TLCEval([i \in 1..Len(fit.obs) |-> FDot(h, StateCovObs(m, t, fit.obs[i]))]), Quad(h, m.P, h))
\* posterior mean vector and covariance matrix of x(t) given the first n data
PostState(fit, n, m, t) ==
  LET N == Len(fit.obs) d == Len(m.F)
      C == TLCEval([i \in 1..N |-> StateCovObs(m, t, fit.obs[i])])
      U == TLCEval([a \in 1..d |-> SubSeq(Fwd(fit.f, [i \in 1..N |-> C[i][a]]), 1, n)])
      W == TLCEval([a \in 1..d |-> [i \in 1..n |-> FDiv(U[a][i], fit.f.D[i])]])
  IN IF n = 0 THEN [m |-> ZeroVec(d), P |-> m.P]
     ELSE TLCEval([m |-> [a \in 1..d |-> FDot(W[a], SubSeq(fit.uy, 1, n))],
                   P |-> [a \in 1..d |-> [b \in 1..d |-> FSub(m.P[a][b], FDot(U[a], W[b]))]]])
=============================================================================
