----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Every sequence of up to MaxCalls calls on NGP live GP objects.  The only        *)
(* state a GP has is which data it was conditioned on, if any; conditioning           *)
(* returns a new GP and leaves the old one usable, and no call changes what            *)
(* another call returns.  Each call's meaning (what it must return) is determined       *)
(* by the configuration of its object and that state alone.  Conditioning (at the        *)
(* data or at test points) may be asked of a GP that is itself conditioned: it starts     *)
(* again from the prior.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxCalls, NGP, NY, Emit
VARIABLES calls, cond      \* cond[g]: data of the last conditioning of g (0: none) and where it answers by itself
None == [y |-> 0, at |-> "none"]
Init == calls = <<>> /\ cond = [g \in 1..NGP |-> None]
Call(c) == calls' = Append(calls, c)
Is(g) == cond[g].y > 0
\* "on": whether the prior GP is asked, or the conditioned one
Ons(g) == IF Is(g) THEN {"prior", "cond"} ELSE {"prior"}
Logp(g, y, on) == Call([op |-> "logp", g |-> g, y |-> y, on |-> on]) /\ UNCHANGED cond
Cond(g, y, on) == Call([op |-> "cond", g |-> g, y |-> y, on |-> on]) /\ cond' = [cond EXCEPT ![g] = [y |-> y, at |-> "data"]]
CondX(g, y, on) == Call([op |-> "condx", g |-> g, y |-> y, on |-> on]) /\ cond' = [cond EXCEPT ![g] = [y |-> y, at |-> "test"]]
PredY(g, y) == Call([op |-> "predy", g |-> g, y |-> y, on |-> "prior"]) /\ UNCHANGED cond
Read(g, o) == Call([op |-> o, g |-> g, y |-> cond[g].y, on |-> "cond"]) /\ UNCHANGED cond
Pred(g) == Is(g) /\ Read(g, "pred")
Data(g) == cond[g].at = "data" /\ Read(g, "data")
Comps(g) == cond[g].at = "data" /\ Read(g, "comps")
Next == /\ Len(calls) < MaxCalls
        /\ \E g \in 1..NGP : \/ Pred(g) \/ Data(g) \/ Comps(g)
                             \/ \E y \in 1..NY : PredY(g, y) \/ \E on \in Ons(g) : Logp(g, y, on) \/ Cond(g, y, on) \/ CondX(g, y, on)
\* what the k-th call means does not depend on the calls between the conditioning it uses and itself
RECURSIVE LastCond(_, _)
LastCond(j, g) == IF j = 0 THEN 0 ELSE IF calls[j].op \in {"cond", "condx"} /\ calls[j].g = g THEN calls[j].y ELSE LastCond(j - 1, g)
Meaning == \A j \in 1..Len(calls) : calls[j].op \in {"pred", "data", "comps"} => calls[j].y = LastCond(j - 1, calls[j].g)
CondIs == \A g \in 1..NGP : cond[g].y = LastCond(Len(calls), g)
EmitScn == (Emit /\ Len(calls) = MaxCalls) => PrintT("SCN " \o ToJson(calls))
=============================================================================
