-------------------------------- MODULE Sht --------------------------------
(***************************************************************************)
(* Operations in the spherical harmonics domain: transforms, rotation,     *)
(* format conversions, beams, filter banks.  Complex numbers are pairs     *)
(* <<re, im>>; kind is "real" or "complex".                                *)
(***************************************************************************)
EXTENDS Sph

CNum(x) == <<x, Zero>>
CConj(z) == <<z[1], FNeg(z[2])>>
CAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
CMul(a, b) == <<FSub(FMul(a[1], b[1]), FMul(a[2], b[2])),
                FAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Re(v) == Vec(Len(v), LAMBDA i : v[i][1])
Im(v) == Vec(Len(v), LAMBDA i : v[i][2])
(* sum of a_i b_i (no conjugation) *)
CDot(a, b) == LET ar == Re(a)  ai == Im(a)  br == Re(b)  bi == Im(b)
              IN <<FSub(FDot(ar, br), FDot(ai, bi)), FAdd(FDot(ar, bi), FDot(ai, br))>>
CNear(a, b, tol) == FNear(a[1], b[1], tol) /\ FNear(a[2], b[2], tol)
CVNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : CNear(u[i], v[i], tol)
CMNear(A, C, tol) == Len(A) = Len(C) /\ \A i \in 1..Len(A) : CVNear(A[i], C[i], tol)
CVec(v) == Vec(Len(v), LAMBDA i : CNum(v[i]))
CMat(A) == Vec(Len(A), LAMBDA i : CVec(A[i]))
CTranspose(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
CMatMul(A, C) == LET T == CTranspose(C)
                 IN TLCEval([i \in 1..Len(A) |->
                      TLCEval([j \in 1..Len(T) |-> CDot(A[i], T[j])])])
CVConj(v) == Vec(Len(v), LAMBDA i : CConj(v[i]))
CMConj(A) == Vec(Len(A), LAMBDA i : CVConj(A[i]))
CScale(x, z) == <<FMul(x, z[1]), FMul(x, z[2])>>
CVScale(x, v) == Vec(Len(v), LAMBDA i : CScale(x, v[i]))

Square(n) == n * n
Chans(N) == (N + 1) * (N + 1)
(* the basis of either kind as complex pairs, at azimuth and zenith *)
ShAt(kind, N, azi, zen) ==
  LET v == Sph2Cart(azi, zen, One)
  IN IF kind = "complex" THEN ComplexSH(N, v) ELSE CVec(RealSH(N, v))
ShMat(kind, N, azi, zen) == TLCEval([i \in 1..Len(azi) |-> ShAt(kind, N, azi[i], zen[i])])
(* per order: sum over the degrees of conj(y1) y2 *)
Band(n, y1, y2) ==
  LET a == SubSeq(y1, n * n + 1, Chans(n))  b == SubSeq(y2, n * n + 1, Chans(n))
  IN CDot(CVConj(a), b)

(*------------------------------- rotation -------------------------------*)
(* yaw, pitch, roll with the sense of the library's documentation link:    *)
(* the rotation by -angle about z, y, x composed as Rz Ry Rx               *)
RotX(a) == << <<One, Zero, Zero>>, <<Zero, FCos(a), FSin(a)>>, <<Zero, FNeg(FSin(a)), FCos(a)>> >>
RotY(a) == << <<FCos(a), Zero, FNeg(FSin(a))>>, <<Zero, One, Zero>>, <<FSin(a), Zero, FCos(a)>> >>
RotZ(a) == << <<FCos(a), FSin(a), Zero>>, <<FNeg(FSin(a)), FCos(a), Zero>>, <<Zero, Zero, One>> >>
Euler(yaw, pitch, roll) == MatMul(MatMul(RotZ(yaw), RotY(pitch)), RotX(roll))

(*---------------------------- beams, weights ----------------------------*)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN One ELSE FMul(FI(n), Fact(n - 1))
RECURSIVE FallingQ(_, _, _)                  \* prod_{k=1..n} (N-k+1)/(N+1+k)
FallingQ(N, n, k) == IF k > n THEN One
                     ELSE FMul(FQ(N - k + 1, N + 1 + k), FallingQ(N, n, k + 1))
Cardioid(N) == Vec(N + 1, LAMBDA k : FMul(FDiv(FourPi, FI(N + 1)), FallingQ(N, k - 1, 1)))
Hypercardioid(N) == Vec(N + 1, LAMBDA k : FDiv(FourPi, FI(Square(N + 1))))
RPow(x, a) == IF x = Zero THEN Zero ELSE FExp(FMul(a, FLn(x)))
Butterworth(N, k, nc) == Vec(N + 1, LAMBDA i :
   FDiv(One, FSqrt(FAdd(One, RPow(FDiv(FI(i - 1), nc), FMul(Two, k))))))
Weights(name, N) ==
  CASE name \in {"hypercardioid", "max_di"} -> Hypercardioid(N)
    [] name \in {"cardioid", "inphase"} -> Cardioid(N)
    [] name \in {"max_re", "maxre"} -> UnityGain(MaxRE(N))
=============================================================================
