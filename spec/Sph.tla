-------------------------------- MODULE Sph --------------------------------
(***************************************************************************)
(* Spherical harmonics, N3D normalisation (orthonormal on the sphere), ACN *)
(* order: channel n*n + n + m + 1 (1-based) holds degree m of order n.     *)
(* All functions take a unit vector, so that azimuth wrapping and the      *)
(* poles need no special treatment.                                        *)
(***************************************************************************)
EXTENDS Geo

FourPi == FMul(FI(4), Pi)
Acn(n, m) == n * n + n + m + 1
OrderOf(q) == CHOOSE n \in 0..q : n * n < q /\ q <= (n + 1) * (n + 1)
DegreeOf(q) == LET n == OrderOf(q) IN q - 1 - n * n - n
IsSquare(q) == \E n \in 0..q : n * n = q

(* Normalised Legendre columns without the sin^m factor: column m is the   *)
(* sequence q_m,m(z), q_m+1,m(z), ..., q_N,m(z).                           *)
RECURSIVE QDiag(_)
QDiag(m) == IF m = 0 THEN FSqrt(FDiv(One, FourPi))
            ELSE FMul(QDiag(m - 1), FSqrt(FQ(2 * m + 1, 2 * m)))
RECURSIVE QCol(_, _, _, _)
QCol(m, N, z, acc) ==
  LET n == m + Len(acc)
  IN IF n > N THEN acc
     ELSE IF n = m + 1
     THEN QCol(m, N, z, Append(acc, FMul(FMul(z, FSqrt(FI(2 * m + 3))), acc[1])))
     ELSE LET k == Len(acc)
              a == FSqrt(FQ(4 * n * n - 1, n * n - m * m))
              b == FSqrt(FQ((n - 1) * (n - 1) - m * m, 4 * (n - 1) * (n - 1) - 1))
          IN QCol(m, N, z, Append(acc,
               FMul(a, FSub(FMul(z, acc[k]), FMul(b, acc[k - 1])))))
QCols(N, z) == TLCEval([m \in 0..N |-> QCol(m, N, z, <<QDiag(m)>>)])
(* <<Re, Im>> of (x + i y)^m, m = 0..N *)
RECURSIVE XYPow(_, _, _, _)
XYPow(x, y, N, acc) ==
  IF Len(acc) > N THEN acc
  ELSE LET p == acc[Len(acc)]
       IN XYPow(x, y, N, Append(acc,
            <<FSub(FMul(x, p[1]), FMul(y, p[2])), FAdd(FMul(x, p[2]), FMul(y, p[1]))>>))
Sqrt2 == FSqrt(Two)
(* The real basis at unit vector v, as a sequence of (N+1)^2 reals. *)
RealSH(N, v) ==
  LET q == QCols(N, v[3])  xy == XYPow(v[1], v[2], N, << <<One, Zero>> >>)
  IN Vec((N + 1) * (N + 1), LAMBDA c :
       LET n == OrderOf(c)  m == DegreeOf(c)
           am == IF m < 0 THEN -m ELSE m
           leg == q[am][n - am + 1]
       IN IF m = 0 THEN leg
          ELSE FMul(FMul(Sqrt2, leg), IF m > 0 THEN xy[am + 1][1] ELSE xy[am + 1][2]))
(* The complex basis with Condon-Shortley phase: pairs <<re, im>>. *)
ComplexSH(N, v) ==
  LET q == QCols(N, v[3])  xy == XYPow(v[1], v[2], N, << <<One, Zero>> >>)
  IN Vec((N + 1) * (N + 1), LAMBDA c :
       LET n == OrderOf(c)  m == DegreeOf(c)
           am == IF m < 0 THEN -m ELSE m
           leg == q[am][n - am + 1]
           re == FMul(leg, xy[am + 1][1])  im == FMul(leg, xy[am + 1][2])
       IN IF m >= 0 THEN IF m % 2 = 0 THEN <<re, im>> ELSE <<FNeg(re), FNeg(im)>>
          ELSE <<re, FNeg(im)>>)

(* Legendre polynomials P_0..P_N at z *)
RECURSIVE LegR(_, _, _)
LegR(N, z, acc) ==
  LET n == Len(acc)
  IN IF n > N THEN acc
     ELSE IF n = 1 THEN LegR(N, z, Append(acc, z))
     ELSE LegR(N, z, Append(acc,
            FDiv(FSub(FMul(FI(2 * n - 1), FMul(z, acc[n])), FMul(FI(n - 1), acc[n - 1])), FI(n))))
Legendre(N, z) == LegR(N, z, <<One>>)

PerOrder(w) == LET N == Len(w) - 1
               IN Vec((N + 1) * (N + 1), LAMBDA c : w[OrderOf(c) + 1])
(* max-rE weights P_n(cos(137.9 deg / (N + 1.51))) *)
MaxRE(N) == Legendre(N, FCos(FDiv(FMul(FQ(1379, 10), Pi),
                                  FMul(FI(180), FAdd(FI(N), FQ(151, 100))))))
(* on-axis amplitude of an axisymmetric pattern with modal weights w *)
OnAxis(w) == FSum(Vec(Len(w), LAMBDA k : FMul(FDiv(FI(2 * k - 1), FourPi), w[k])))
UnityGain(w) == LET a == OnAxis(w) IN Vec(Len(w), LAMBDA k : FDiv(w[k], a))
(* pattern of modal weights w at cos(angle) = z *)
Pattern(w, z) == LET p == Legendre(Len(w) - 1, z)
                 IN FSum(Vec(Len(w), LAMBDA k : FMul(FMul(FDiv(FI(2 * k - 1), FourPi), w[k]), p[k])))
===========================================================================
