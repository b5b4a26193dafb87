------------------------------ MODULE Estimator ------------------------------
(***************************************************************************)
(* The recursive estimator: a Kalman filter over a timeline of events, and a   *)
(* backward pass (modified Bryson-Frazier: it inverts innovation variances      *)
(* only, so it is defined for coinciding events too).                          *)
(*                                                                         *)
(* An event is [t, kind, h, r, y, z]:                                         *)
(*   kind = "obs":   h . X(t) is observed as y with noise variance r            *)
(*   kind = "reset": coordinate z of X is set to zero (an exposure begins)      *)
(*   kind = "none":  nothing                                                  *)
(* The state X is the latent x followed by one accumulator per instrument       *)
(* (no accumulators when the data are instantaneous).                          *)
(***************************************************************************)
EXTENDS DenseGP, SequencesExt, FiniteSets

\* transition and noise of X over dt
StepA(m, nz, dt) == IF nz = 0 THEN Trans(m, dt) ELSE SpreadA(AugTrans(m, dt), nz)
StepQ(m, nz, dt, A) == IF nz = 0 THEN ProcNoise(m, A) ELSE SpreadQ(AugNoise(m, dt), nz)

Prior(m, nz, t) == LET d == Len(m.F) IN
  TLCEval([t |-> t, m |-> ZeroVec(d + nz), P |-> BlockDiagZ(m.P, nz)])

\* one forward step: propagate to the event, then apply it.  Record everything the
\* backward pass needs.
Forward(m, nz, s, ev) ==
  LET dt == FSub(ev.t, s.t)
      n == Len(s.m)
      A == TLCEval(IF Sgn(dt) = 0 THEN Ident(n) ELSE StepA(m, nz, dt))
      Q == TLCEval(IF Sgn(dt) = 0 THEN ZeroMat(n, n) ELSE StepQ(m, nz, dt, A))
      mp == MVec(A, s.m)
      Pp == MAdd(MMul(MMul(A, s.P), MT(A)), Q)
  IN CASE ev.kind = "none" -> TLCEval([t |-> ev.t, A |-> A, mp |-> mp, Pp |-> Pp, m |-> mp, P |-> Pp, S |-> Zero, v |-> Zero, K |-> ZeroVec(n), ev |-> ev])
       [] ev.kind = "reset" ->
            LET mr == [mp EXCEPT ![ev.z] = Zero]
                Pr == [a \in 1..n |-> [b \in 1..n |-> IF a = ev.z \/ b = ev.z THEN Zero ELSE Pp[a][b]]]
            IN TLCEval([t |-> ev.t, A |-> A, mp |-> mp, Pp |-> Pp, m |-> mr, P |-> Pr, S |-> Zero, v |-> Zero, K |-> ZeroVec(n), ev |-> ev])
       [] ev.kind = "obs" ->
            LET Ph == MVec(Pp, ev.h)
                S == TLCEval(FAdd(FDot(ev.h, Ph), ev.r))
                v == TLCEval(FSub(ev.y, FDot(ev.h, mp)))
                Kg == TLCEval(VScale(FDiv(One, S), Ph))
            IN TLCEval([t |-> ev.t, A |-> A, mp |-> mp, Pp |-> Pp, m |-> VAdd(mp, VScale(v, Kg)),
                        P |-> MSub(Pp, Outer(Kg, Ph)), S |-> S, v |-> v, K |-> Kg, ev |-> ev])
RECURSIVE FilterFrom(_, _, _, _, _)
FilterFrom(m, nz, evs, j, acc) ==
  IF j > Len(evs) THEN acc
  ELSE FilterFrom(m, nz, evs, j + 1,
         TLCEval(Append(acc, Forward(m, nz, IF j = 1 THEN Prior(m, nz, evs[1].t) ELSE acc[j - 1], evs[j]))))
Filter(m, nz, evs) == FilterFrom(m, nz, evs, 1, <<>>)

ObsIdx(flt) == SelectSeq([j \in 1..Len(flt) |-> j], LAMBDA j : flt[j].ev.kind = "obs")
FilterLogProb(flt) ==
  LET term(s) == FSum(<< FDiv(FSq(s.v), s.S), FLn(s.S), FLn(TWOPI) >>)
      ix == ObsIdx(flt)
  IN FNeg(FMul(Half, FSum(TLCEval([j \in 1..Len(ix) |-> term(flt[ix[j]])]))))

\* the backward pass: [l, L] just after event j (hat), from those just before event j+1 (tilde)
Before(s, hat) ==
  LET n == Len(s.m) IN
  CASE s.ev.kind = "none" -> hat
    [] s.ev.kind = "reset" ->
         TLCEval([l |-> [hat.l EXCEPT ![s.ev.z] = Zero],
                  L |-> [a \in 1..n |-> [b \in 1..n |-> IF a = s.ev.z \/ b = s.ev.z THEN Zero ELSE hat.L[a][b]]]])
    [] s.ev.kind = "obs" ->
         LET h == s.ev.h
             C == MSub(Ident(n), Outer(s.K, h))
         IN TLCEval([l |-> VSub(MVec(MT(C), hat.l), VScale(FDiv(s.v, s.S), h)),
                     L |-> MAdd(MMul(MMul(MT(C), hat.L), C), MScale(FDiv(One, s.S), Outer(h, h)))])
Carry(A, tilde) == TLCEval([l |-> MVec(MT(A), tilde.l), L |-> MMul(MMul(MT(A), tilde.L), A)])
\* hats of all events, last first built
RECURSIVE BackFilter(_, _, _)
BackFilter(flt, j, acc) ==                     \* acc: hats of events j+1..
  IF j = 0 THEN acc
  ELSE LET n == Len(flt[1].m)
           hat == IF j = Len(flt) THEN [l |-> ZeroVec(n), L |-> ZeroMat(n, n)]
                  ELSE Carry(flt[j + 1].A, Before(flt[j + 1], acc[1]))
       IN BackFilter(flt, j - 1, TLCEval(<<hat>> \o acc))
Back(flt) == BackFilter(flt, Len(flt), <<>>)
Smoothed(s, hat) == TLCEval([m |-> VSub(s.m, MVec(s.P, hat.l)),
                             P |-> MSub(s.P, MMul(MMul(s.P, hat.L), s.P))])
\* smoothed state just before event s is applied (for starts: before the reset)
SmoothedBefore(s, hat) == LET b == Before(s, hat) IN
  TLCEval([m |-> VSub(s.mp, MVec(s.Pp, b.l)), P |-> MSub(s.Pp, MMul(MMul(s.Pp, b.L), s.Pp))])

\* posterior of X at any time t: j is the number of events at or before t
QueryAt(m, nz, flt, hats, t) ==
  LET n == Len(flt[1].m)
      j == Cardinality({a \in 1..Len(flt) : FLe(flt[a].t, t)})
      from == IF j = 0 THEN Prior(m, nz, t) ELSE flt[j]
      f == Forward(m, nz, from, [t |-> t, kind |-> "none"])
      bk == IF j = Len(flt) THEN [l |-> ZeroVec(n), L |-> ZeroMat(n, n)]
            ELSE LET nx == flt[j + 1] dt == FSub(nx.t, t) IN
                 Carry(IF Sgn(dt) = 0 THEN Ident(n) ELSE StepA(m, nz, dt), Before(nx, hats[j + 1]))
  IN TLCEval([m |-> VSub(f.m, MVec(f.P, bk.l)), P |-> MSub(f.P, MMul(MMul(f.P, bk.L), f.P))])

\* ------------------------------------------------- timelines
HLatent(m, nz) == TLCEval(m.H \o ZeroVec(nz))
HAccum(m, nz, i, d) == TLCEval([a \in 1..(Len(m.H) + nz) |-> IF a = Len(m.H) + i + 1 THEN FDiv(One, d) ELSE Zero])
\* the events of one observation [t, d, i] of value y
ObsEvent(m, nz, o, r, y) == [t |-> OEnd(o), kind |-> "obs", r |-> r, y |-> y,
                             h |-> IF Instant(o) THEN HLatent(m, nz)
                                   ELSE IF HasMix(o) THEN VAdd(o.hs \o ZeroVec(nz), HAccum(m, nz, o.i, o.d))
                                   ELSE HAccum(m, nz, o.i, o.d)]
StartEvent(m, o) == [t |-> OStart(o), kind |-> "reset", z |-> Len(m.H) + o.i + 1]
Before2(a, b) == FLt(a.t, b.t) \/ (FCmp(a.t, b.t) = 0 /\ a.kind = "obs" /\ b.kind = "reset")
Events(m, nz, obs, noise, y) ==
  LET N == Len(obs)
      all == TLCEval([j \in 1..(2 * N) |-> IF j <= N THEN ObsEvent(m, nz, obs[j], noise[j], y[j]) ELSE StartEvent(m, obs[j - N])])
      keep == IF nz = 0 THEN SubSeq(all, 1, N) ELSE all
  IN SortSeq(keep, Before2)
=============================================================================
