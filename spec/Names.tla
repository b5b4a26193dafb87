------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names and addressing of the components of a kernel.  A component is a     *)
(* maximal subtree that is not a sum; a product, a scaled kernel, or a leaf    *)
(* is one component.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE NameOf(_)
NameOf(k) == CASE k.op \in {"leaf", "basis", "int", "obs"} -> k.name
               [] k.op = "prod"  -> "Product(" \o NameOf(k.l) \o ", " \o NameOf(k.r) \o ")"
               [] k.op = "scale" -> "Scale(" \o NameOf(k.k) \o ")"
               [] k.op = "sum"   -> "Sum(" \o NameOf(k.l) \o ", " \o NameOf(k.r) \o ")"

RECURSIVE Parts(_)                       \* the components, left to right
Parts(k) == IF k.op = "sum" THEN Parts(k.l) \o Parts(k.r) ELSE <<k>>

Mem(x, s) == \E i \in 1..Len(s) : s[i] = x
Count(x, s) == LET RECURSIVE Go(_)
                   Go(i) == IF i > Len(s) THEN 0 ELSE (IF s[i] = x THEN 1 ELSE 0) + Go(i + 1)
               IN Go(1)

\* The unique names of components with names ns: a name that occurs once stays;
\* the j-th occurrence of a repeated name becomes name_j, skipping names in use.
RECURSIVE FreshFrom(_, _, _)
FreshFrom(name, j, taken) ==
  IF Mem(name \o "_" \o ToString(j), taken) THEN FreshFrom(name, j + 1, taken)
  ELSE <<name \o "_" \o ToString(j), j>>
UsedOf(used, name) == IF \E i \in 1..Len(used) : used[i][1] = name
                      THEN used[CHOOSE i \in 1..Len(used) : used[i][1] = name /\
                                 \A h \in (i + 1)..Len(used) : used[h][1] # name][2] ELSE 0
RECURSIVE UniqueFrom(_, _, _, _, _)
UniqueFrom(ns, i, taken, used, acc) ==
  IF i > Len(ns) THEN acc
  ELSE IF Count(ns[i], ns) = 1 THEN UniqueFrom(ns, i + 1, taken, used, Append(acc, ns[i]))
  ELSE LET f == FreshFrom(ns[i], UsedOf(used, ns[i]) + 1, taken)
       IN UniqueFrom(ns, i + 1, Append(taken, f[1]), Append(used, <<ns[i], f[2]>>), Append(acc, f[1]))
Unique(ns) == UniqueFrom(ns, 1, ns, <<>>, <<>>)

PartNames(k) == LET ps == Parts(k) IN Unique([i \in 1..Len(ps) |-> NameOf(ps[i])])
Distinct(ns) == \A i, j \in 1..Len(ns) : ns[i] = ns[j] => i = j
=============================================================================
