----------------------------- MODULE MCAlgebra -----------------------------
(***************************************************************************)
(* Every kernel expression over the leaf families with up to MaxLeaves leaves,   *)
(* built on a stack by Push / Add / Mul / Scale.  For each complete expression:    *)
(* the state-space model reproduces the covariance function of the algebra          *)
(* (sums add, products multiply, a scale multiplies), it is stationary, and          *)
(* transitions compose; expressions are printed for replay on the real code.         *)
(***************************************************************************)
EXTENDS SSM, Json
CONSTANTS MaxLeaves, MaxScale, Fams, Emit, Check, MaxDim
Leaf(f, p, o) == [op |-> "leaf", fam |-> f, p |-> p, ord |-> o, name |-> f]
R0(p, q) == FRat(p, q)
Sym == << "Constant", "Exp", "Matern32", "Matern52", "SHOcrit", "SHOunder", "SHOover", "Cosine", "ESS" >>
\* parameters vary with the position of the leaf, so that no two leaves are alike
LeafOf(j, pos) ==
  LET s == R0(6 + pos, 5) x == R0(2 + pos, 2) IN
  CASE Sym[j] = "Constant" -> Leaf("Constant", <<s>>, 0) [] Sym[j] = "Exp" -> Leaf("Exp", <<x, s>>, 0)
    [] Sym[j] = "Matern32" -> Leaf("Matern32", <<x, s>>, 0) [] Sym[j] = "Matern52" -> Leaf("Matern52", <<x, s>>, 0)
    [] Sym[j] = "SHOcrit" -> Leaf("SHO", <<x, R0(1,2), s>>, 0) [] Sym[j] = "SHOunder" -> Leaf("SHO", <<x, R0(3,1), s>>, 0)
    [] Sym[j] = "SHOover" -> Leaf("SHO", <<x, R0(1,4), s>>, 0) [] Sym[j] = "Cosine" -> Leaf("Cosine", <<x, s>>, 0)
    [] Sym[j] = "ESS" -> Leaf("ExpSineSquared", <<x, R0(1,1), s>>, 2)
\* an expression is [op, j] / [op, l, r] / [op, k]; its kernel numbers leaves from pos
RECURSIVE NL(_)
NL(x) == CASE x.op = "leaf" -> 1 [] x.op = "scale" -> NL(x.k) [] OTHER -> NL(x.l) + NL(x.r)
RECURSIVE Kern(_, _)
Kern(x, pos) ==
  CASE x.op = "leaf" -> LeafOf(x.j, pos)
    [] x.op = "scale" -> [op |-> "scale", c |-> R0(9, 4), k |-> Kern(x.k, pos)]
    [] OTHER -> [op |-> x.op, l |-> Kern(x.l, pos), r |-> Kern(x.r, pos + NL(x.l))]
RECURSIVE Dim(_)
Dim(x) == CASE x.op = "leaf" -> (CASE Sym[x.j] \in {"Constant", "Exp"} -> 1 [] Sym[x.j] = "Matern52" -> 3 [] Sym[x.j] = "ESS" -> 4 [] OTHER -> 2)
            [] x.op = "scale" -> Dim(x.k) [] x.op = "sum" -> Dim(x.l) + Dim(x.r) [] OTHER -> Dim(x.l) * Dim(x.r)
RECURSIVE NS(_)
NS(x) == CASE x.op = "leaf" -> 0 [] x.op = "scale" -> 1 + NS(x.k) [] OTHER -> NS(x.l) + NS(x.r)

VARIABLE st                                       \* the stack
Leaves == LET RECURSIVE Go(_) Go(i) == IF i > Len(st) THEN 0 ELSE NL(st[i]) + Go(i + 1) IN Go(1)
Init == st = <<>>
Top == st[Len(st)]
Push == Leaves < MaxLeaves /\ \E j \in Fams : st' = Append(st, [op |-> "leaf", j |-> j])
Bin(o) == Len(st) >= 2 /\ st' = Append(SubSeq(st, 1, Len(st) - 2), [op |-> o, l |-> st[Len(st) - 1], r |-> Top])
ScaleTop == /\ Len(st) >= 1 /\ Top.op # "scale" /\ NS(Top) < MaxScale
            /\ st' = [st EXCEPT ![Len(st)] = [op |-> "scale", k |-> Top]]
Next == Push \/ Bin("sum") \/ Bin("prod") \/ ScaleTop

Complete == Len(st) = 1
Lags == TLCEval(<< Zero, R0(3, 7), FInt(5) >>)
Tol == Eps10(25)
NearM(A, B) == FLe(MaxAbs(MSub(A, B)), Tol)
AlgebraOK ==
  (Check /\ Complete /\ Dim(Top) <= MaxDim) =>
  LET k == Kern(Top, 1) m == ModelOf(k) T == Terms(k) IN
  /\ NearM(Lyap(m), ZeroMat(Len(m.F), Len(m.F)))
  /\ \A j \in 1..Len(Lags) :
       LET A == Trans(m, Lags[j]) IN
       /\ Near(Quad(m.H, MMul(A, m.P), m.H), K(T, Lags[j]), Tol)
       /\ k.op = "sum" => Near(K(T, Lags[j]), FAdd(K(Terms(k.l), Lags[j]), K(Terms(k.r), Lags[j])), Tol)
       /\ k.op = "prod" => Near(K(T, Lags[j]), FMul(K(Terms(k.l), Lags[j]), K(Terms(k.r), Lags[j])), Tol)
       \* semigroup, and noise accumulates consistently
       /\ LET B == Trans(m, Lags[2]) C == Trans(m, FAdd(Lags[j], Lags[2])) IN
          /\ NearM(MMul(B, A), C)
          /\ NearM(ProcNoise(m, C), MAdd(MMul(MMul(B, ProcNoise(m, A)), MT(B)), ProcNoise(m, B)))
EmitScn == (Emit /\ Complete) => PrintT("SCN " \o ToJson(Top))
=============================================================================
