------------------------------ MODULE MCNaming ------------------------------
(***************************************************************************)
(* Every kernel expression of up to MaxLeaves leaves whose leaves carry names     *)
(* from NameSet (chosen to collide with generated names), with sums, products       *)
(* and scales: the generated component names are distinct, keep every name that       *)
(* occurs once, and number repeats from left to right.                              *)
(***************************************************************************)
EXTENDS Names, Json
CONSTANTS MaxLeaves, NameSet, Ops, Emit
VARIABLE st
RECURSIVE NL(_)
NL(x) == CASE x.op = "leaf" -> 1 [] x.op = "scale" -> NL(x.k) [] OTHER -> NL(x.l) + NL(x.r)
RECURSIVE NS(_)
NS(x) == CASE x.op = "leaf" -> 0 [] x.op = "scale" -> 1 + NS(x.k) [] OTHER -> NS(x.l) + NS(x.r)
Leaves == LET RECURSIVE Go(_) Go(i) == IF i > Len(st) THEN 0 ELSE NL(st[i]) + Go(i + 1) IN Go(1)
Top == st[Len(st)]
Init == st = <<>>
Push == Leaves < MaxLeaves /\ \E n \in NameSet : st' = Append(st, [op |-> "leaf", name |-> n])
Bin(o) == Len(st) >= 2 /\ st' = Append(SubSeq(st, 1, Len(st) - 2), [op |-> o, l |-> st[Len(st) - 1], r |-> Top])
ScaleTop == Len(st) >= 1 /\ NS(Top) = 0 /\ st' = [st EXCEPT ![Len(st)] = [op |-> "scale", k |-> Top]]
Next == Push \/ ("sum" \in Ops /\ Bin("sum")) \/ ("prod" \in Ops /\ Bin("prod")) \/ ("scale" \in Ops /\ ScaleTop)
Complete == Len(st) = 1
NamesOK ==
  Complete =>
  LET ps == Parts(Top) ns == [i \in 1..Len(ps) |-> NameOf(ps[i])] u == Unique(ns) IN
  /\ Distinct(u) /\ Len(u) = Len(ns)
  /\ \A i \in 1..Len(ns) : Count(ns[i], ns) = 1 => u[i] = ns[i]
  /\ \A i \in 1..Len(ns) : Count(ns[i], ns) > 1 => (u[i] # ns[i] /\ \E j \in 1..(2 * Len(ns)) : u[i] = ns[i] \o "_" \o ToString(j))
  /\ Unique(u) = u
EmitScn == (Emit /\ Complete) => PrintT("SCN " \o ToJson(Top))
=============================================================================
