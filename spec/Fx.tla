-------------------------------- MODULE Fx --------------------------------
(***************************************************************************)
(* Fixed-point reals (12 decimals) for the oracle operators.               *)
(*                                                                         *)
(* Every operator below has a plain TLA+ body (see FxPure).  When          *)
(* build/Fx.class is on TLC's class path, TLC evaluates the operators it   *)
(* names natively; FxTest.tla checks the native versions against these     *)
(* bodies on every setup.                                                  *)
(***************************************************************************)
EXTENDS FxPure, TLC

FAdd(a, b) == PAdd(a, b)
FSub(a, b) == PSub(a, b)
FNeg(a) == PNeg(a)
FAbs(a) == PAbs(a)
FMul(a, b) == PMul(a, b)
FDiv(a, b) == PDiv(a, b)
FSqrt(a) == PSqrt(a)
FLe(a, b) == PLe(a, b)
FLt(a, b) == PLe(a, b) /\ a # b
FI(n) == PI(n)
FSum(s) == PSum(s)
FDot(u, v) == PDot(u, v)
FSin(a) == PSin(a)
FCos(a) == PCos(a)
FExp(a) == PExp(a)
FLn(a) == PLn(a)
FFloor(a) == PFloor(a)
FLegSums(N, zs, ws) == PLegSums(N, zs, ws)

(*------------------------ derived, never replaced -----------------------*)
FQ(n, d) == FDiv(FI(n), FI(d))              \* the rational n/d
One == FI(1)
Two == FI(2)
Half == FQ(1, 2)
FGe(a, b) == FLe(b, a)
FGt(a, b) == FLt(b, a)
FSq(a) == FMul(a, a)
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FSign(a) == a[1]                            \* -1, 0, 1 (2 for NaN)
FNear(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)
(* relative to the size of the operands, never tighter than tol itself *)
FNearRel(a, b, tol) ==
  FLe(FAbs(FSub(a, b)), FMul(tol, FMax(One, FMax(FAbs(a), FAbs(b)))))
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN One ELSE IF n = 1 THEN a
              ELSE LET h == FPow(a, n \div 2)
                   IN IF n % 2 = 0 THEN FMul(h, h) ELSE FMul(a, FMul(h, h))
Tol(k) == FDiv(One, FPow(FI(10), k))        \* 10^-k
EM3 == Tol(3)   EM4 == Tol(4)   EM5 == Tol(5)  EM6 == Tol(6)
EM7 == Tol(7)   EM8 == Tol(8)   EM9 == Tol(9)  EM10 == Tol(10)
Pi == FxPi
Deg(n) == FDiv(FMul(FI(n), Pi), FI(180))
FLog10(a) == FDiv(FLn(a), FLn(FI(10)))
(* 20 log10 *)
FDb(a) == FMul(FI(20), FLog10(a))
===========================================================================
