------------------------------- MODULE Hrirs -------------------------------
(***************************************************************************)
(* HRIR sets and binaural rendering.                                       *)
(* A set is the record l, r (one impulse response per grid direction),     *)
(* azi, zen, fs.  Its operations replace or filter the responses of both   *)
(* ears; directions and rate never change.                                 *)
(***************************************************************************)
EXTENDS Signals, Sph

Dirs(h) == Vec(Len(h.azi), LAMBDA i : Sph2Cart(h.azi[i], h.zen[i], One))
(* the grid directions closest to v, up to rounding *)
Closest(g, v, tol) ==
  LET p == Vec(Len(g), LAMBDA i : FDot(g[i], v))  m == VMax(p)
  IN {i \in 1..Len(g) : FGe(p[i], FSub(m, tol))}
SameSet(a, b) == /\ a.fs = b.fs /\ VNear(a.azi, b.azi, Tol(11)) /\ VNear(a.zen, b.zen, Tol(11))
                 /\ MNear(a.l, b.l, Tol(9)) /\ MNear(a.r, b.r, Tol(9))
Filtered(ir, taps, mode) == Vec(Len(ir), LAMBDA i : Conv(ir[i], taps, mode))

(*------------------- loudspeakers heard through the set -----------------*)
GateLevel == Tol(5)                         \* -100 dB
FRPow(x, a) == FExp(FMul(a, FLn(x)))        \* real exponent
Attenuated(st, k, x) == VScale(FDiv(One, FRPow(Norm(st.pts[k]), st.a)), x)
Heard(x) == FLt(GateLevel, MaxAbs(x))
Direction(p, ori) ==                        \* seen by a listener turned by ori
  LET r == Norm(p)
      zen == FAcos(FDiv(p[3], r))
      h == FSqrt(FAdd(FSq(p[1]), FSq(p[2])))
      ca == IF h = Zero THEN One ELSE FDiv(p[1], h)
      sa == IF h = Zero THEN Zero ELSE FDiv(p[2], h)
      co == FCos(ori[1])  so == FSin(ori[1])
      c == FAdd(FMul(ca, co), FMul(sa, so))  s == FSub(FMul(sa, co), FMul(ca, so))
      z == FSub(zen, ori[2])
  IN <<FMul(c, FSin(z)), FMul(s, FSin(z)), FCos(z)>>
AddTo(acc, v) == Vec(Len(acc), LAMBDA i : FAdd(acc[i], v[i]))
(* one ear: the sum over loudspeakers of signal * nearest response *)
Ear(st, g, irs, sigs, ori) ==
  LET n == Len(sigs[1]) + Len(irs[1]) - 1
  IN FoldLeft(LAMBDA acc, k :
        LET x == Attenuated(st, k, sigs[k])
        IN IF ~Heard(x) THEN acc
           ELSE AddTo(acc, ConvFull(x, irs[CHOOSE i \in Closest(g, Direction(st.pts[k], ori), Zero) : TRUE])),
      ZeroVec(n), Vec(Len(sigs), LAMBDA k : k))
(* no direction is too close to call, no signal too close to the gate *)
Decided(st, g, sigs, ori) ==
  \A k \in 1..Len(sigs) :
    LET x == Attenuated(st, k, sigs[k])
    IN /\ ~FNear(MaxAbs(x), GateLevel, Tol(8))
       /\ Heard(x) => Cardinality(Closest(g, Direction(st.pts[k], ori), Tol(8))) = 1

(*-------------------- ambisonic signals, SH domain filters --------------*)
ShEar(x, h) ==
  FoldLeft(LAMBDA acc, q : AddTo(acc, ConvFull(x[q], h[q])),
           ZeroVec(Len(x[1]) + Len(h[1]) - 1), Vec(Len(x), LAMBDA q : q))
=============================================================================
