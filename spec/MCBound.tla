------------------------------- MODULE MCBound -------------------------------
(* The quasi-periodic kernel as a growing series: behaviours add one periodic  *)
(* term at a time to the state-space form of sigma^2 exp(-gamma sin^2(pi t/P)). *)
(* On each: the variance of the terms left out bounds the error at every lag, *)
(* is attained at lag zero, and decreases to nothing; the state-space form of  *)
(* what is there is that partial sum.                                          *)
EXTENDS SSM, TLC, Json
CONSTANTS MaxOrder, Emit
Gammas == << FRat(1, 20), One, FInt(8), FInt(40) >>
Period == FRat(5, 2)
Lags == << Zero, FRat(1, 7), FRat(5, 4), FRat(5, 3), FInt(9) >>
VARIABLES g, n, left           \* which gamma, terms there, variance left out
vars == <<g, n, left>>
W(j) == TLCEval(ESSCoef(Gammas[g], j))
Init == g \in 1..Len(Gammas) /\ n = 1 /\ left = FSub(One, W(0))
AddTerm == n < MaxOrder /\ n' = n + 1 /\ left' = TLCEval(FSub(left, W(n))) /\ UNCHANGED g
Next == AddTerm
Exact(t) == LET s == FSin(FDiv(FMul(PI, t), Period)) IN FExp(FNeg(FMul(Gammas[g], FSq(s))))
Kern == [op |-> "leaf", fam |-> "ExpSineSquared", p |-> <<Period, Gammas[g], One>>, ord |-> n, name |-> "ESS"]
T == TLCEval(Terms(Kern))
Slack == Eps10(30)
Below(a, b) == FLe(a, FAdd(b, Slack))
Bounded  == \A i \in 1..Len(Lags) : Below(FAbs(FSub(K(T, Lags[i]), Exact(Lags[i]))), left)
Attained == FLe(FAbs(FSub(FSub(Exact(Zero), K(T, Zero)), left)), Slack)
Positive == Below(Zero, left)
\* the bound is the sum of the variances of the terms left out
RECURSIVE TailFrom(_, _)
TailFrom(j, m) == IF j >= m THEN Zero ELSE FAdd(W(j), TailFrom(j + 1, m))
IsTail   == n = MaxOrder => Below(left, TailFrom(n, n + 90)) /\ Below(TailFrom(n, n + 90), left)
\* the linear model of the partial sum has that covariance, and no noise
Linear   == n <= 4 => LET m == ModelOf(Kern) IN
   \A i \in 1..Len(Lags) : FLe(FAbs(FSub(Quad(m.H, MMul(Trans(m, Lags[i]), m.P), m.H), K(T, Lags[i]))), Slack)
Shrinks == [][FLe(left', left)]_vars
EmitScn == Emit => PrintT("SCN " \o ToJson([g |-> g, n |-> n]))
=============================================================================
