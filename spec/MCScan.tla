------------------------------- MODULE MCScan -------------------------------
(***************************************************************************)
(* The parallel estimator: filtering and smoothing as associative combinations    *)
(* (Sarkka & Garcia-Fernandez).  A behaviour combines adjacent elements in any      *)
(* order - any schedule a parallel scan may choose, for any number of elements -     *)
(* and every schedule must end in the same element, the one the sequential            *)
(* estimator computes.                                                          *)
(***************************************************************************)
EXTENDS Estimator
CONSTANTS N, KSet, DSet
Leaf(f, p, o) == [op |-> "leaf", fam |-> f, p |-> p, ord |-> o, name |-> f]
R0(p, q) == FRat(p, q)
Kernels == << Leaf("Exp", <<R0(3,2), R0(7,5)>>, 0), Leaf("Matern32", <<R0(3,2), R0(7,5)>>, 0),
              Leaf("IntegratedExp", <<R0(3,2), R0(7,5)>>, 0), Leaf("IntegratedSHO", <<R0(2,1), R0(3,1), R0(6,5)>>, 0) >>
NZ(k) == IF IsIntFam(Kernels[k].fam) THEN 2 ELSE 0
Models == TLCEval([j \in 1..Len(Kernels) |-> ModelOf(Kernels[j])])
\* two data sets: [t, d, i]
O(t, d, i) == [t |-> t, d |-> d, i |-> i]
DataSets == << << O(Zero, Zero, 0), O(Half, Zero, 0), O(Half, Zero, 0), O(FInt(4), Zero, 0), O(FInt(5), Zero, 0) >>,
               << O(Half, One, 0), O(FInt(1), One, 1), O(FInt(2), Zero, 0), O(FInt(3), One, 1), O(FInt(6), Half, 0) >> >>
Obs(k, n) == SubSeq(DataSets[IF NZ(k) = 0 THEN 1 ELSE 2], 1, n)
Ys == TLCEval([j \in 1..5 |-> FRat(((7 * j) % 5) - 2, 3)])
Ns == TLCEval([j \in 1..5 |-> FRat(j, 10)])
Evs(k, n) == Events(Models[k], NZ(k), Obs(k, n), SubSeq(Ns, 1, n), SubSeq(Ys, 1, n))

\* the generic element of event j >= 2 from transition A and noise Q, and the first element
Elem2(ev, A, Q) ==
  LET n == Len(A) I == Ident(n) IN
  CASE ev.kind = "reset" ->
        LET R == [a \in 1..n |-> [b \in 1..n |-> IF a = b /\ a # ev.z THEN One ELSE Zero]] IN
        [A |-> MMul(R, A), b |-> ZeroVec(n), C |-> MMul(MMul(R, Q), R), e |-> ZeroVec(n), J |-> ZeroMat(n, n)]
    [] ev.kind = "obs" ->
        LET Qh == MVec(Q, ev.h) S == TLCEval(FAdd(FDot(ev.h, Qh), ev.r)) Kg == VScale(FDiv(One, S), Qh)
            IKH == MSub(I, Outer(Kg, ev.h)) Ah == MVec(MT(A), ev.h)
        IN [A |-> MMul(IKH, A), b |-> VScale(ev.y, Kg), C |-> MMul(IKH, Q),
            e |-> VScale(FDiv(ev.y, S), Ah), J |-> MScale(FDiv(One, S), Outer(Ah, Ah))]
Elem1(ev, P) == LET n == Len(P) x == Elem2(ev, Ident(n), P) IN
  [A |-> ZeroMat(n, n), b |-> x.b, C |-> x.C, e |-> ZeroVec(n), J |-> ZeroMat(n, n)]
FiltElems(k, n) ==
  LET evs == Evs(k, n) m == Models[k] nz == NZ(k) IN
  TLCEval([j \in 1..Len(evs) |->
     IF j = 1 THEN Elem1(evs[1], Prior(m, nz, evs[1].t).P)
     ELSE LET dt == FSub(evs[j].t, evs[j - 1].t)
              A == IF Sgn(dt) = 0 THEN Ident(Len(m.F) + nz) ELSE StepA(m, nz, dt)
              Q == IF Sgn(dt) = 0 THEN ZeroMat(Len(m.F) + nz, Len(m.F) + nz) ELSE StepQ(m, nz, dt, A)
          IN Elem2(evs[j], A, Q)])
FComb(p, q) ==
  LET n == Len(p.b)
      M == Inv(MAdd(Ident(n), MMul(p.C, q.J)))
      AM == MMul(q.A, M)
      AN == MMul(MT(p.A), MT(M))           \* (I + J C)^{-1} is the transpose, C and J being symmetric
  IN TLCEval([A |-> MMul(AM, p.A), b |-> VAdd(MVec(AM, VAdd(p.b, MVec(p.C, q.e))), q.b),
      C |-> MAdd(MMul(MMul(AM, p.C), MT(q.A)), q.C),
      e |-> VAdd(MVec(AN, VSub(q.e, MVec(q.J, p.b))), p.e), J |-> MAdd(MMul(MMul(AN, q.J), p.A), p.J)])

VARIABLES k, n, els, lo               \* els: elements still to combine; lo[j]: first event els[j] covers
vars == <<k, n, els, lo>>
Init == /\ k \in KSet /\ n \in DSet /\ els = FiltElems(k, n) /\ lo = [j \in 1..Len(els) |-> j]
Combine(j) == /\ els' = SubSeq(els, 1, j - 1) \o <<FComb(els[j], els[j + 1])>> \o SubSeq(els, j + 2, Len(els))
              /\ lo' = SubSeq(lo, 1, j) \o SubSeq(lo, j + 2, Len(lo))
              /\ UNCHANGED <<k, n>>
Next == \E j \in 1..(Len(els) - 1) : Combine(j)
View == <<k, n, lo>>
Tol == Eps10(25)
NearV(u, v) == FLe(MaxAbsV(VSub(u, v)), Tol)
NearM(A, B) == FLe(MaxAbs(MSub(A, B)), Tol)
\* the first element always is the filtering distribution at the last event it covers
Scan ==
  LET flt == Filter(Models[k], NZ(k), Evs(k, n))
      last == IF Len(els) = 1 THEN Len(flt) ELSE lo[2] - 1
  IN NearV(els[1].b, flt[last].m) /\ NearM(els[1].C, flt[last].P)
\* every element is what any other way of combining the same events gives
RECURSIVE Fold(_, _)
Fold(e, acc) == IF e = <<>> THEN acc ELSE Fold(Tail(e), FComb(acc, Head(e)))
Assoc ==
  LET base == FiltElems(k, n)
      hi(j) == IF j = Len(els) THEN Len(base) ELSE lo[j + 1] - 1
      same(p, q) == NearM(p.A, q.A) /\ NearV(p.b, q.b) /\ NearM(p.C, q.C) /\ NearV(p.e, q.e) /\ NearM(p.J, q.J)
  IN \A j \in 1..Len(els) : same(els[j], Fold(SubSeq(base, lo[j] + 1, hi(j)), base[lo[j]]))
=============================================================================
