------------------------------- MODULE MCUser -------------------------------
(***************************************************************************)
(* What users write themselves: a model given by its matrices in any basis of     *)
(* its state ("basis"), and a wrapper that observes other functionals of the        *)
(* state, chosen by a flag of each datum and possibly changing with time ("obs"),    *)
(* alone and inside sums, products and scales.  An expression is built by Leaf /       *)
(* Basis / Obs / Scale / Add / Mul, then data with flags arrive; the estimator that     *)
(* knows matrices only must agree with dense conditioning, and with the covariance       *)
(* function of the expression without the wrapper where the datum sees the process.       *)
(***************************************************************************)
EXTENDS Estimator, Json
CONSTANTS Fams, Seconds, MaxWraps, MaxN, GapSet, NFlags, Emit, Check
Leaf(f, p, o) == [op |-> "leaf", fam |-> f, p |-> p, ord |-> o, name |-> f]
R0(p, q) == FRat(p, q)
Leaves == << Leaf("Exp", <<R0(3,2), R0(7,5)>>, 0), Leaf("Matern32", <<R0(3,2), R0(7,5)>>, 0), Leaf("Matern52", <<R0(3,2), R0(6,5)>>, 0),
             Leaf("SHO", <<R0(2,1), R0(1,2), R0(6,5)>>, 0), Leaf("SHO", <<R0(2,1), R0(7,2), R0(6,5)>>, 0),
             Leaf("SHO", <<R0(2,1), R0(1,5), R0(6,5)>>, 0), Leaf("Cosine", <<R0(5,2), R0(6,5)>>, 0) >>
\* some invertible integer matrix of any size: ones on and above the diagonal, twos beside it
MatOf(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE IF j = i + 1 THEN Two ELSE IF i = j + 1 /\ i = n THEN FInt(-1) ELSE Zero]])
RowsOf(k) ==
  LET m == ModelOf(k) n == Len(m.F) d == IF n > 1 THEN 2 ELSE 1 IN
  << [a |-> m.H, b |-> ZeroVec(n)],                                       \* the process
     [a |-> UnitRow(n, d), b |-> ZeroVec(n)],                              \* a derivative
     [a |-> VAdd(VScale(R0(1, 2), m.H), UnitRow(n, d)), b |-> VScale(R0(1, 4), m.H)] >>   \* a drifting mixture
RECURSIVE Kern(_)
Kern(x) == CASE x.op = "leaf" -> Leaves[x.j]
             [] x.op = "scale" -> [op |-> "scale", c |-> R0(9, 4), k |-> Kern(x.k)]
             [] x.op = "basis" -> LET k == Kern(x.k) M == MatOf(Len(ModelOf(k).F)) IN [op |-> "basis", M |-> M, W |-> Inv(M), k |-> k, name |-> "User"]
             [] x.op = "obs" -> LET k == Kern(x.k) IN [op |-> "obs", rows |-> RowsOf(k), k |-> k, name |-> "Seen"]
             [] OTHER -> [op |-> x.op, l |-> Kern(x.l), r |-> Kern(x.r)]
RECURSIVE Plain(_)                     \* without the wrappers
Plain(k) == CASE k.op = "leaf" -> k [] k.op \in {"basis", "obs"} -> Plain(k.k)
              [] k.op = "scale" -> [k EXCEPT !.k = Plain(@)] [] OTHER -> [k EXCEPT !.l = Plain(@), !.r = Plain(@)]
RECURSIVE Wraps(_)
Wraps(x) == CASE x.op = "leaf" -> 0 [] x.op \in {"scale", "basis", "obs"} -> 1 + Wraps(x.k) [] OTHER -> Wraps(x.l) + Wraps(x.r)
RECURSIVE NL(_)
NL(x) == CASE x.op = "leaf" -> 1 [] x.op \in {"scale", "basis", "obs"} -> NL(x.k) [] OTHER -> NL(x.l) + NL(x.r)
RECURSIVE Sees(_)
Sees(x) == CASE x.op = "leaf" -> FALSE [] x.op = "obs" -> TRUE [] x.op \in {"scale", "basis"} -> Sees(x.k) [] OTHER -> Sees(x.l) \/ Sees(x.r)

VARIABLES x, hist
Init == \E j \in Fams : x = [op |-> "leaf", j |-> j] /\ hist = <<>>
Build == hist = <<>>
Wrap(o) == /\ Build /\ Wraps(x) < MaxWraps /\ x.op # o /\ (o = "obs" => ~Sees(x))
           /\ x' = [op |-> o, k |-> x] /\ UNCHANGED hist
Combine(o) == /\ Build /\ NL(x) < 2 /\ Wraps(x) > 0
              /\ \E j \in Seconds : x' = [op |-> o, l |-> x, r |-> [op |-> "leaf", j |-> j]]
              /\ UNCHANGED hist
User == Wraps(x) > 0
Arrive == /\ User /\ Len(hist) < MaxN
          /\ \E g \in GapSet, f \in (IF Sees(x) THEN 0..(NFlags - 1) ELSE {0}) :
               hist' = Append(hist, [g |-> g, f |-> f])
          /\ UNCHANGED x
Next == (\E o \in {"scale", "basis", "obs"} : Wrap(o)) \/ (\E o \in {"sum", "prod"} : Combine(o)) \/ Arrive

Gaps == << Zero, Half, FInt(3) >>
RECURSIVE TimeOf(_)
TimeOf(j) == IF j = 1 THEN One ELSE FAdd(TimeOf(j - 1), Gaps[hist[j].g])
Tol == Eps10(25)
Ys == TLCEval([j \in 1..Len(hist) |-> FRat(((7 * j) % 5) - 2, 3)])
Ns == TLCEval([j \in 1..Len(hist) |-> FRat(j, 10)])
NearV(u, v) == FLe(MaxAbsV(VSub(u, v)), Tol)
NearM(A, B) == FLe(MaxAbs(MSub(A, B)), Tol)
Agrees ==
  (Check /\ Len(hist) = MaxN) =>
  LET k == Kern(x) m == ModelOf(k) T == CtxOf(k) N == Len(hist)
      raw == TLCEval([j \in 1..N |-> <<TimeOf(j), Zero, hist[j].f>>])
      data == ObsOf(k, raw)
      fit == Fit(T, data, Factor(T, data, Ns), Ys)
      evs == TLCEval([j \in 1..N |-> [t |-> data[j].t, kind |-> "obs", r |-> Ns[j], y |-> Ys[j], h |-> IF HasRow(data[j]) THEN data[j].h ELSE m.H]])
      flt == Filter(m, 0, evs)
      hats == Back(flt)
      T0 == Terms(Plain(k))
      Q == TLCEval(<< Zero, FRat(5, 4), FInt(9) >>)
  IN /\ NearM(Lyap(m), ZeroMat(Len(m.F), Len(m.F)))
     /\ Near(FilterLogProb(flt), LogProb(fit), Tol)
     /\ \A a, b \in 1..N : Near(CovOf(T, data[a], data[b]), CovOf(T, data[b], data[a]), Tol)
     /\ \A a, b \in 1..N : (hist[a].f = 0 /\ hist[b].f = 0) =>      \* flag 0 sees the process
          Near(CovOf(T, data[a], data[b]), K(T0, FAbs(FSub(data[a].t, data[b].t))), Tol)
     /\ \A j \in 1..N :
          LET p == PostState(fit, j, m, data[j].t) s == PostState(fit, N, m, data[j].t) sm == Smoothed(flt[j], hats[j]) IN
          NearV(p.m, flt[j].m) /\ NearM(p.P, flt[j].P) /\ NearV(s.m, sm.m) /\ NearM(s.P, sm.P)
     /\ \A j \in 1..Len(Q) :
          LET p == PostState(fit, N, m, Q[j]) q == QueryAt(m, 0, flt, hats, Q[j]) IN NearV(p.m, q.m) /\ NearM(p.P, q.P)
EmitScn == (Emit /\ Len(hist) = MaxN) => PrintT("SCN " \o ToJson([x |-> x, h |-> hist]))
=============================================================================
