------------------------------ MODULE FixTest ------------------------------
(* The replacements F* agree with the definitions R* they stand for, on a    *)
(* pseudo-random walk of operands plus corner values.                        *)
EXTENDS Fix
CONSTANT Steps
VARIABLES n, a, b, r

RECURSIVE Rnd(_, _)
Rnd(seed, k) == IF k = 0 THEN <<>> ELSE <<seed % BASE>> \o Rnd((seed * 103 + 12345) % 1000003, k - 1)
Num(seed) == Mk(IF seed % 2 = 0 THEN 1 ELSE -1, Norm(Rnd((seed * 79 + 13) % 1000003, seed % 23)))
Corner == << <<0>>, RInt(1), RInt(-1), RInt(4095), RInt(4096), RInt(-16777216), <<1, 1>>, <<-1, 1>>,
             <<1, 4095, 4095>>, RInt(2147483647) >>
Pick(seed) == IF seed % 5 = 0 THEN Corner[(seed % 10) + 1] ELSE Num(seed)
Init == n = 0 /\ a = <<0>> /\ b = <<0>> /\ r = 17
Next == /\ n < Steps /\ n' = n + 1 /\ r' = (r * 1009 + 77) % 1000003
        /\ a' = Pick(r') /\ b' = Pick((r' * 31 + 5) % 1000003)
Spec == Init /\ [][Next]_<<n, a, b, r>>
Agree == /\ FNeg(a) = RNeg(a) /\ FAdd(a, b) = RAdd(a, b) /\ FSub(a, b) = RAdd(a, RNeg(b))
         /\ FMul(a, b) = RMul(a, b) /\ FCmp(a, b) = RCmp(a, b)
         /\ (Sgn(b) # 0 => FDiv(a, b) = RDiv(a, b))
         /\ FSqrt(IF Sgn(a) < 0 THEN RNeg(a) ELSE a) = RSqrt(IF Sgn(a) < 0 THEN RNeg(a) ELSE a)
         /\ FInt(r) = RInt(r) /\ FInt(-r) = RInt(-r)
         /\ FDot(<<a, b>>, <<b, b>>) = RDot(<<a, b>>, <<b, b>>)
         /\ FMatMul(<<<<a, b>>, <<b, a>>>>, <<<<b, a>>, <<a, a>>>>) = RMatMul(<<<<a, b>>, <<b, a>>>>, <<<<b, a>>, <<a, a>>>>)
=============================================================================
