----------------------------- MODULE MCExposure -----------------------------
(***************************************************************************)
(* The timeline of exposures.  Instruments open and close their shutters on a   *)
(* shared clock; each instrument has at most one exposure open; an exposure       *)
(* that ends when it begins is an instantaneous observation.  Every schedule of    *)
(* up to MaxObs exposures of NInst instruments within MaxT ticks is a behaviour;    *)
(* for each the recursive estimator over start/end events (accumulator reset at     *)
(* the start, observed at the end) must agree with exact integration of the         *)
(* covariance function.  Finished schedules are also printed (SCN lines): the        *)
(* harness replays each on the real code.                                         *)
(***************************************************************************)
EXTENDS Estimator, Json
CONSTANTS MaxObs, NInst, MaxT, KSet, Emit, Check
Leaf(f, p, o) == [op |-> "leaf", fam |-> f, p |-> p, ord |-> o, name |-> f]
R0(p, q) == FRat(p, q)
Kernels == << Leaf("IntegratedExp", <<R0(3,2), R0(7,5)>>, 0), Leaf("IntegratedSHO", <<R0(2,1), R0(3,1), R0(6,5)>>, 0),
              Leaf("IntegratedMatern32", <<R0(3,2), R0(7,5)>>, 0), Leaf("IntegratedSHO", <<R0(2,1), R0(1,5), R0(6,5)>>, 0),
              \* generic integrated models: of a sum, and of a model in another basis of its state
              [op |-> "int", name |-> "int", k |-> [op |-> "sum", l |-> Leaf("Exp", <<R0(3,2), R0(7,5)>>, 0), r |-> Leaf("Matern32", <<R0(2,1), One>>, 0)]],
              [op |-> "int", name |-> "int", k |-> [op |-> "basis", name |-> "b", k |-> Leaf("SHO", <<R0(2,1), R0(3,1), R0(6,5)>>, 0),
                 M |-> << <<One, Two>>, <<One, FInt(3)>> >>, W |-> << <<FInt(3), FInt(-2)>>, <<FInt(-1), One>> >>]],
              \* mixed sums
              [op |-> "sum", l |-> Leaf("IntegratedMatern32", <<R0(3,2), R0(7,5)>>, 0), r |-> Leaf("Exp", <<R0(1,2), One>>, 0)],
              [op |-> "scale", c |-> R0(9,4), k |-> [op |-> "sum", l |-> Leaf("SHO", <<R0(2,1), R0(3,1), R0(6,5)>>, 0), r |-> Leaf("IntegratedExp", <<R0(3,2), R0(7,5)>>, 0)]] >>
Models == TLCEval([j \in 1..Len(Kernels) |-> IF Mixed(Kernels[j]) THEN MixModel(Kernels[j]) ELSE ModelOf(Kernels[j])])
Ts == TLCEval([j \in 1..Len(Kernels) |-> CtxOf(Kernels[j])])
Insts == 0..(NInst - 1)

VARIABLES clock, open, done        \* open[i]: start tick of instrument i's exposure, or -1
vars == <<clock, open, done>>
Init == clock = 0 /\ open = [i \in Insts |-> -1] /\ done = <<>>
NOpen == Cardinality({i \in Insts : open[i] >= 0})
Busy == done # <<>> \/ NOpen > 0
Room == Len(done) + NOpen < MaxObs
\* instruments appear in order, so that schedules are not repeated under renaming
Seen == {open[i] >= 0 : i \in Insts}
Used(i) == open[i] >= 0 \/ \E j \in 1..Len(done) : done[j].i = i
MayUse(i) == Used(i) \/ \A j \in Insts : j < i => Used(j)
Begin(i) == /\ Room /\ open[i] < 0 /\ MayUse(i)
            /\ open' = [open EXCEPT ![i] = clock] /\ UNCHANGED <<clock, done>>
End(i) == /\ open[i] >= 0 /\ open[i] < clock
          /\ done' = Append(done, [s |-> open[i], e |-> clock, i |-> i])
          /\ open' = [open EXCEPT ![i] = -1] /\ UNCHANGED clock
Snap(i) == /\ Room /\ open[i] < 0 /\ MayUse(i)
           /\ done' = Append(done, [s |-> clock, e |-> clock, i |-> i]) /\ UNCHANGED <<clock, open>>
Tick == Busy /\ clock < MaxT /\ clock' = clock + 1 /\ UNCHANGED <<open, done>>
Next == Tick \/ \E i \in Insts : Begin(i) \/ End(i) \/ Snap(i)

Finished == NOpen = 0 /\ done # <<>> /\ \E j \in 1..Len(done) : done[j].e = clock
\* a zero-length exposure inside its own instrument's open exposure cannot happen here
OneAtATime == \A a, b \in 1..Len(done) : (a # b /\ done[a].i = done[b].i) => (done[a].e <= done[b].s \/ done[b].e <= done[a].s)

Data == TLCEval([j \in 1..Len(done) |->
   [t |-> FMul(Half, FInt(done[j].s + done[j].e)), d |-> FInt(done[j].e - done[j].s), i |-> done[j].i]])
DataFor(k) == IF "hi" \in DOMAIN Models[k]
  THEN TLCEval([j \in 1..Len(Data) |-> Data[j] @@ [hi |-> Models[k].hi, hs |-> Models[k].hs]]) ELSE Data
Ys == TLCEval([j \in 1..Len(done) |-> FRat(((7 * j) % 5) - 2, 3)])
Ns == TLCEval([j \in 1..Len(done) |-> FRat(j, 10)])
Tol == Eps10(25)
NearV(u, v) == FLe(MaxAbsV(VSub(u, v)), Tol)
NearM(A, B) == FLe(MaxAbs(MSub(A, B)), Tol)
Agrees ==
  (Check /\ Finished) =>
  \A k \in KSet :
  LET m == Models[k]  N == Len(done)  d == Len(m.F)
      data == DataFor(k)
      fit == Fit(Ts[k], data, Factor(Ts[k], data, Ns), Ys)
      flt == Filter(m, NInst, Events(m, NInst, data, Ns, Ys))
      hats == Back(flt)
      Q == TLCEval(<< FInt(-1), Half, FRat(MaxT, 2), FInt(MaxT + 1) >>)
  IN /\ Near(FilterLogProb(flt), LogProb(fit), Tol)
     /\ \A j \in 1..N :                    \* smoothed average over each exposure, at its end
          LET o == data[j] p == Post(fit, Ts[k], o)
              at == CHOOSE a \in 1..Len(flt) : flt[a].ev.kind = "obs" /\ flt[a].ev.y = Ys[j] /\ flt[a].ev.r = Ns[j]
              sm == Smoothed(flt[at], hats[at]) h == flt[at].ev.h
          IN Near(FDot(h, sm.m), p.m, Tol) /\ Near(Quad(h, sm.P, h), p.v, Tol)
     /\ \A j \in 1..Len(Q) :
          LET p == PostState(fit, N, m, Q[j]) q == QueryAt(m, NInst, flt, hats, Q[j]) IN
          NearV(p.m, SubSeq(q.m, 1, d)) /\ NearM(p.P, SubMat(q.P, 1, d, 1, d))
EmitScn == (Emit /\ Finished) => PrintT("SCN " \o ToJson(done))
=============================================================================
