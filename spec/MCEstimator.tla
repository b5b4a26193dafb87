---------------------------- MODULE MCEstimator ----------------------------
(***************************************************************************)
(* The estimator as a state machine over every short history of data, against  *)
(* the definition (dense conditioning).  At each step the next observation      *)
(* arrives after one of Gaps with one of Values; at any point the history can     *)
(* be smoothed and queried.                                                   *)
(***************************************************************************)
EXTENDS Estimator
CONSTANTS MaxN, GapSet
Leaf(f, p, o) == [op |-> "leaf", fam |-> f, p |-> p, ord |-> o, name |-> f]
R0(p, q) == FRat(p, q)
Kernels == << Leaf("Exp", <<R0(3,2), R0(7,5)>>, 0), Leaf("Matern32", <<R0(3,2), R0(7,5)>>, 0),
              Leaf("SHO", <<R0(2,1), R0(1,2), R0(6,5)>>, 0), Leaf("SHO", <<R0(2,1), R0(1,5), R0(6,5)>>, 0),
              [op |-> "sum", l |-> Leaf("Matern52", <<R0(3,2), R0(7,5)>>, 0), r |-> Leaf("Cosine", <<R0(5,2), R0(6,5)>>, 0)],
              [op |-> "scale", c |-> R0(9,4), k |-> [op |-> "prod", l |-> Leaf("SHO", <<R0(2,1), R0(3,1), R0(6,5)>>, 0),
                                                    r |-> Leaf("Exp", <<R0(3,2), R0(7,5)>>, 0)]] >>
Gaps == << Zero, Half, FInt(3) >>
Values == << FInt(-1), FInt(2) >>
Noises == << FRat(1, 10), One >>
Models == TLCEval([j \in 1..Len(Kernels) |-> ModelOf(Kernels[j])])
Ts == TLCEval([j \in 1..Len(Kernels) |-> Terms(Kernels[j])])

VARIABLES k, hist          \* kernel, and the data so far: [t, y, r]
Init == k \in 1..Len(Kernels) /\ hist = <<>>
Arrive == /\ Len(hist) < MaxN
          /\ \E g \in GapSet, v \in 1..Len(Values) :
               hist' = Append(hist, [t |-> IF hist = <<>> THEN One ELSE FAdd(hist[Len(hist)].t, Gaps[g]),
                                     y |-> Values[v], r |-> Noises[1 + (Len(hist) % 2)]])
          /\ UNCHANGED k
Next == Arrive

Tol == Eps10(25)
Data == TLCEval([j \in 1..Len(hist) |-> [t |-> hist[j].t, d |-> Zero, i |-> 0]])
Ys == [j \in 1..Len(hist) |-> hist[j].y]
Ns == [j \in 1..Len(hist) |-> hist[j].r]
Queries == TLCEval(<< Zero, One, FRat(5, 4), FRat(3, 2), FInt(4), FInt(9) >>)
NearV(u, v) == FLe(MaxAbsV(VSub(u, v)), Tol)
NearM(A, B) == FLe(MaxAbs(MSub(A, B)), Tol)
Agrees ==
  hist # <<>> =>
  LET m == Models[k]  N == Len(hist)
      fit == Fit(Ts[k], Data, Factor(Ts[k], Data, Ns), Ys)
      flt == Filter(m, 0, Events(m, 0, Data, Ns, Ys))
      hats == Back(flt)
  IN /\ Near(FilterLogProb(flt), LogProb(fit), Tol)
     /\ \A j \in 1..N :
          LET p == PostState(fit, j, m, hist[j].t) s == PostState(fit, N, m, hist[j].t) q == PostState(fit, j - 1, m, hist[j].t)
              sm == Smoothed(flt[j], hats[j]) IN
          /\ NearV(p.m, flt[j].m) /\ NearM(p.P, flt[j].P)
          /\ NearV(q.m, flt[j].mp) /\ NearM(q.P, flt[j].Pp)
          /\ NearV(s.m, sm.m) /\ NearM(s.P, sm.P)
     /\ \A j \in 1..Len(Queries) :
          LET p == PostState(fit, N, m, Queries[j]) q == QueryAt(m, 0, flt, hats, Queries[j]) o == Post(fit, Ts[k], [t |-> Queries[j], d |-> Zero]) IN
          /\ NearV(p.m, q.m) /\ NearM(p.P, q.P)
          /\ Near(FDot(m.H, q.m), o.m, Tol) /\ Near(Quad(m.H, q.P, m.H), o.v, Tol)
          \* conditioning never increases the variance, and never makes it negative
          /\ FLe(o.v, FAdd(K(Ts[k], Zero), Tol)) /\ FLe(FNeg(Tol), o.v)
=============================================================================
