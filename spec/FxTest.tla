------------------------------ MODULE FxTest ------------------------------
(* The native versions of Fx agree with the definitions in FxPure.         *)
EXTENDS Fx
VARIABLE i, j
Samples == <<Zero, NaN, FI(1), FI(-1), FI(7), FI(2147483647), <<1, 1>>, <<-1, 9999>>,
  <<1, 3333, 3333, 3333>>, <<-1, 5897, 5926, 1415, 3>>, <<1, 0, 0, 5000>>,
  <<1, 1234, 5678, 9012, 3456, 7890, 12>>, <<-1, 1, 0, 0, 0, 1>>, <<1, 0, 0, 0, 0, 1>>,
  <<1, 9999, 9999, 9999>>, <<-1, 9999, 9999, 9999, 9999>>, <<1, 17, 4>>, <<1, 0, 2, 1000, 3>>,
  <<-1, 8182, 4590, 7182, 2>>, <<1, 1, 2, 3, 4, 5, 6, 7>>>>
Small(a) == ~IsNaN(a) /\ PLe(PAbs(a), PI(20))
NearP(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) = IsNaN(b) ELSE PLe(PAbs(PSub(a, b)), <<1, 1000>>)
Rel(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) = IsNaN(b)
             ELSE PLe(PAbs(PSub(a, b)), PAdd(<<1, 1000>>, PMul(PAbs(a), <<1, 100>>)))
Ok(a, b) ==
  /\ FAdd(a, b) = PAdd(a, b)   /\ FSub(a, b) = PSub(a, b)
  /\ FMul(a, b) = PMul(a, b)   /\ FDiv(a, b) = PDiv(a, b)
  /\ FLe(a, b) = PLe(a, b)     /\ FLt(a, b) = (PLe(a, b) /\ a # b)
  /\ FNeg(a) = PNeg(a) /\ FAbs(a) = PAbs(a) /\ FSqrt(a) = PSqrt(a)
  /\ FSum(<<a, b, a>>) = PSum(<<a, b, a>>) /\ FSum(<<>>) = PSum(<<>>)
  /\ FDot(<<a, b, b>>, <<b, b, a>>) = PDot(<<a, b, b>>, <<b, b, a>>)
  /\ (j = 1 /\ Small(a) => FFloor(a) = PFloor(a) /\ NearP(FSin(a), PSin(a)) /\ NearP(FCos(a), PCos(a))
                  /\ Rel(FExp(a), PExp(a)))
  /\ (j = 1 /\ Small(a) => NearP(FLn(a), PLn(a)))
  /\ FI(i - 3) = PI(i - 3)
  /\ FLegSums(i % 4, <<a, b>>, <<b, a>>) = PLegSums(i % 4, <<a, b>>, <<b, a>>)
Init == i \in 1..Len(Samples) /\ j \in 1..Len(Samples)
Next == UNCHANGED <<i, j>>
Agree == Ok(Samples[i], Samples[j])
Replaced == TRUE
===========================================================================
