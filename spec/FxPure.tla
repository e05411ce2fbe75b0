------------------------------ MODULE FxPure ------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic for TLC, defined in plain TLA+.             *)
(*                                                                         *)
(* TLC integers are 32 bit, so a number is a tuple <<s, d1, d2, ...>>:     *)
(* s in {-1, 0, 1} is its sign and d1, d2, ... are the base-10^4 digits    *)
(* of its magnitude, least significant first, without leading zeros        *)
(* (zero is <<0>>).  The tuple stands for the integer s * SUM d_i 10^4(i-1)*)
(* and, read as a real, for that integer times 10^-12.  <<2>> is NaN; it   *)
(* is absorbing and compares FALSE with everything, itself included.       *)
(*                                                                         *)
(* Module Fx re-exports these operators under their public names; TLC      *)
(* replaces the bodies there by java/Fx.java, and FxTest checks that the   *)
(* replacement agrees with the definitions below.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000
NaN == <<2>>
Zero == <<0>>

PMax(a, b) == IF a >= b THEN a ELSE b
Dig(u, i) == IF i <= Len(u) THEN u[i] ELSE 0

RECURSIVE NTrim(_)
NTrim(u) == IF u # <<>> /\ u[Len(u)] = 0
            THEN NTrim(SubSeq(u, 1, Len(u) - 1)) ELSE u

RECURSIVE NAddC(_, _, _, _)
NAddC(u, v, i, c) ==
  IF i > PMax(Len(u), Len(v))
  THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Dig(u, i) + Dig(v, i) + c
       IN <<s % Base>> \o NAddC(u, v, i + 1, s \div Base)
NAdd(u, v) == NTrim(NAddC(u, v, 1, 0))

RECURSIVE NSubC(_, _, _, _)
NSubC(u, v, i, c) ==                       \* u >= v
  IF i > Len(u) THEN <<>>
  ELSE LET s == u[i] - Dig(v, i) - c
       IN <<s % Base>> \o NSubC(u, v, i + 1, IF s < 0 THEN 1 ELSE 0)
NSub(u, v) == NTrim(NSubC(u, v, 1, 0))

RECURSIVE NLeFrom(_, _, _)
NLeFrom(u, v, i) == IF i = 0 THEN TRUE
                    ELSE IF u[i] # v[i] THEN u[i] < v[i]
                    ELSE NLeFrom(u, v, i - 1)
NLe(u, v) == IF Len(u) # Len(v) THEN Len(u) < Len(v)
             ELSE NLeFrom(u, v, Len(u))

RECURSIVE NMulD(_, _, _, _)
NMulD(u, d, i, c) ==
  IF i > Len(u) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == u[i] * d + c
       IN <<s % Base>> \o NMulD(u, d, i + 1, s \div Base)
RECURSIVE NMul(_, _)
NMul(u, v) ==
  IF u = <<>> \/ v = <<>> THEN <<>>
  ELSE NAdd(NTrim(NMulD(u, v[1], 1, 0)),
            LET r == NMul(u, Tail(v)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

(* Quotient digit: the largest q in lo..hi with q*v <= r. *)
RECURSIVE QDig(_, _, _, _)
QDig(r, v, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF NLe(NTrim(NMulD(v, m, 1, 0)), r) THEN QDig(r, v, m, hi)
          ELSE QDig(r, v, lo, m - 1)
RECURSIVE NDivR(_, _, _, _)
NDivR(u, v, i, r) ==                        \* long division, digits i..1
  IF i = 0 THEN <<>>
  ELSE LET rr == NTrim(<<u[i]>> \o r)
           q  == QDig(rr, v, 0, Base - 1)
       IN NDivR(u, v, i - 1, NSub(rr, NTrim(NMulD(v, q, 1, 0)))) \o <<q>>
NDiv(u, v) == NTrim(NDivR(u, v, Len(u), <<>>))

RECURSIVE NSqrtIt(_, _)
NSqrtIt(u, x) == LET y == NDiv(NAdd(x, NDiv(u, x)), <<2>>)
                 IN IF NLe(x, y) THEN x ELSE NSqrtIt(u, y)
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN <<>> ELSE <<0>> \o Zeros(k - 1)
NSqrt(u) == IF u = <<>> THEN <<>>
            ELSE NSqrtIt(u, Zeros((Len(u) + 1) \div 2) \o <<1>>)

RECURSIVE NOfInt(_)
NOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NOfInt(n \div Base)

(*------------------------------ signed ---------------------------------*)
Mag(a) == Tail(a)
Mk(s, u) == IF u = <<>> THEN <<0>> ELSE <<s>> \o u
IsNaN(a) == a[1] = 2

PNeg(a) == IF IsNaN(a) THEN NaN ELSE <<-a[1]>> \o Tail(a)
PAbs(a) == IF IsNaN(a) THEN NaN ELSE <<IF a[1] = 0 THEN 0 ELSE 1>> \o Tail(a)
PAdd(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], NAdd(Mag(a), Mag(b)))
  ELSE IF NLe(Mag(b), Mag(a)) THEN Mk(a[1], NSub(Mag(a), Mag(b)))
  ELSE Mk(b[1], NSub(Mag(b), Mag(a)))
PSub(a, b) == PAdd(a, PNeg(b))
PLe(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN FALSE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE IF a[1] = 0 THEN TRUE
  ELSE IF a[1] = 1 THEN NLe(Mag(a), Mag(b)) ELSE NLe(Mag(b), Mag(a))
(* Products and quotients truncate toward zero at 12 decimals. *)
PMul(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE LET p == NMul(Mag(a), Mag(b))
       IN Mk(a[1] * b[1], IF Len(p) <= 3 THEN <<>> ELSE SubSeq(p, 4, Len(p)))
PDiv(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) \/ b[1] = 0 THEN NaN
  ELSE IF a[1] = 0 THEN Zero
  ELSE Mk(a[1] * b[1], NDiv(<<0, 0, 0>> \o Mag(a), Mag(b)))
PSqrt(a) ==
  IF IsNaN(a) \/ a[1] = -1 THEN NaN
  ELSE IF a[1] = 0 THEN Zero
  ELSE Mk(1, NSqrt(<<0, 0, 0>> \o Mag(a)))
PI(n) == IF n = 0 THEN Zero
         ELSE IF n > 0 THEN <<1, 0, 0, 0>> \o NOfInt(n)
         ELSE <<-1, 0, 0, 0>> \o NOfInt(-n)
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN Zero ELSE PAdd(s[1], PSum(Tail(s)))
(* Inner product, truncated once, after the exact sum. *)
PAddM(a, b) == PAdd(a, b)
PProd(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
               ELSE Mk(a[1] * b[1], NMul(Mag(a), Mag(b)))
RECURSIVE PDotE(_, _, _)
PDotE(u, v, i) == IF i > Len(u) THEN Zero
                  ELSE PAddM(PProd(u[i], v[i]), PDotE(u, v, i + 1))
PShift(p) == IF IsNaN(p) \/ p[1] = 0 THEN p
             ELSE Mk(p[1], IF Len(p) <= 4 THEN <<>> ELSE SubSeq(p, 5, Len(p)))
PDot(u, v) == PShift(PDotE(u, v, 1))

(* Largest integer not above a (only for |a| < 2^31). *)
RECURSIVE NToInt(_)
NToInt(u) == IF u = <<>> THEN 0 ELSE u[1] + Base * NToInt(Tail(u))
PFloor(a) ==
  IF a[1] = 0 THEN 0
  ELSE LET hi == IF Len(a) <= 4 THEN <<>> ELSE SubSeq(a, 5, Len(a))
           frac == \E i \in 2..4 : i <= Len(a) /\ a[i] # 0
       IN a[1] * NToInt(hi) - (IF a[1] = -1 /\ frac THEN 1 ELSE 0)

(* Elementary functions, by their power series. *)
FxPi == <<1, 3590, 9265, 1415, 3>>           \* 3.1415 9265 3590
PTwoPi == PMul(PI(2), FxPi)
RECURSIVE PSeries(_, _, _, _)
PSeries(term, x2, k, acc) ==                 \* sum of the alternating series
  IF term[1] = 0 THEN acc
  ELSE PSeries(PDiv(PNeg(PMul(term, x2)), PI((k + 1) * (k + 2))), x2, k + 2,
               PAdd(acc, term))
PReduce(a) == PSub(a, PMul(PI(PFloor(PDiv(a, PTwoPi))), PTwoPi))
PSin(a) == IF IsNaN(a) THEN NaN
           ELSE LET x == PSub(PReduce(a), FxPi)      \* sin(y) = -sin(y - pi)
                IN PNeg(PSeries(x, PMul(x, x), 1, Zero))
PCos(a) == IF IsNaN(a) THEN NaN
           ELSE LET x == PSub(PReduce(a), FxPi)
                IN PNeg(PSeries(PI(1), PMul(x, x), 0, Zero))
RECURSIVE PExpS(_, _, _, _)
PExpS(term, x, k, acc) ==
  IF term[1] = 0 THEN acc
  ELSE PExpS(PDiv(PMul(term, x), PI(k + 1)), x, k + 1, PAdd(acc, term))
PExp(a) == IF IsNaN(a) THEN NaN
           ELSE IF a[1] = -1 THEN PDiv(PI(1), PExpS(PI(1), PNeg(a), 0, Zero))
           ELSE PExpS(PI(1), a, 0, Zero)
RECURSIVE PLnS(_, _, _, _)
PLnS(term, z2, k, acc) ==
  IF term[1] = 0 THEN acc
  ELSE PLnS(PMul(term, z2), z2, k + 2, PAdd(acc, PDiv(term, PI(k))))
PLn2 == <<1, 560, 4718, 6931>>              \* 0.6931 4718 0560
RECURSIVE PLn(_)
PLn(a) == IF IsNaN(a) \/ a[1] # 1 THEN NaN
          ELSE IF PLe(PI(2), a) THEN PAdd(PLn(PDiv(a, PI(2))), PLn2)
          ELSE IF PLe(a, PDiv(PI(1), PI(2))) THEN PSub(PLn(PMul(a, PI(2))), PLn2)
          ELSE LET z == PDiv(PSub(a, PI(1)), PAdd(a, PI(1)))
               IN PMul(PI(2), PLnS(z, PMul(z, z), 1, Zero))

(* Legendre polynomials P_0..P_N at z, and their weighted sums over points. *)
RECURSIVE PLegR(_, _, _)
PLegR(N, z, acc) ==
  LET n == Len(acc)
  IN IF n > N THEN acc
     ELSE IF n = 1 THEN PLegR(N, z, Append(acc, z))
     ELSE PLegR(N, z, Append(acc,
            PDiv(PSub(PMul(PI(2 * n - 1), PMul(z, acc[n])), PMul(PI(n - 1), acc[n - 1])), PI(n))))
PLegSums(N, zs, ws) ==
  LET p == [i \in 1..Len(zs) |-> PLegR(N, zs[i], <<PI(1)>>)]
  IN [n \in 1..(N + 1) |-> PDot(ws, [i \in 1..Len(zs) |-> p[i][n]])]
===========================================================================
