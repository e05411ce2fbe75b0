-------------------------------- MODULE Geo --------------------------------
(* Vectors, matrices and triangle geometry over Fx.                        *)
EXTENDS Fx, FiniteSets, SequencesExt

Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
ForAll(n, P(_)) == \A i \in 1..n : P(i)
VAdd(u, v) == Vec(Len(u), LAMBDA i : FAdd(u[i], v[i]))
VSub(u, v) == Vec(Len(u), LAMBDA i : FSub(u[i], v[i]))
VScale(a, v) == Vec(Len(v), LAMBDA i : FMul(a, v[i]))
VMul(u, v) == Vec(Len(u), LAMBDA i : FMul(u[i], v[i]))
VNeg(v) == Vec(Len(v), LAMBDA i : FNeg(v[i]))
ZeroVec(n) == Vec(n, LAMBDA i : Zero)
Norm2(v) == FDot(v, v)
Norm(v) == FSqrt(FDot(v, v))
Dist(u, v) == Norm(VSub(u, v))
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FNear(u[i], v[i], tol)
VNearRel(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FNearRel(u[i], v[i], tol)
MNear(A, C, tol) == Len(A) = Len(C) /\ \A i \in 1..Len(A) : VNear(A[i], C[i], tol)
VFinite(v) == \A i \in 1..Len(v) : ~IsNaN(v[i])
MFinite(A) == \A i \in 1..Len(A) : VFinite(A[i])
MaxAbs(v) == FoldLeft(LAMBDA m, x : FMax(m, FAbs(x)), Zero, v)
VMax(v) == FoldLeft(LAMBDA m, x : FMax(m, x), v[1], v)
VMin(v) == FoldLeft(LAMBDA m, x : FMin(m, x), v[1], v)

(* scaled first, so that short vectors keep their precision *)
Unit(v) == LET m == MaxAbs(v)  w == Vec(Len(v), LAMBDA i : FDiv(v[i], m))  n == Norm(w)
           IN Vec(Len(v), LAMBDA i : FDiv(w[i], n))

MatVec(A, v) == Vec(Len(A), LAMBDA i : FDot(A[i], v))
Transpose(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
MatMul(A, C) == LET T == Transpose(C)
                IN TLCEval([i \in 1..Len(A) |->
                     TLCEval([j \in 1..Len(T) |-> FDot(A[i], T[j])])])
Eye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
Tr(A) == FSum(Vec(Len(A), LAMBDA i : A[i][i]))
IsShape(A, r, c) == Len(A) = r /\ \A i \in 1..r : Len(A[i]) = c

Cross(u, v) == << FSub(FMul(u[2], v[3]), FMul(u[3], v[2])),
                  FSub(FMul(u[3], v[1]), FMul(u[1], v[3])),
                  FSub(FMul(u[1], v[2]), FMul(u[2], v[1])) >>
Det3(a, b, c) == FDot(a, Cross(b, c))
Mat3Det(M) == Det3(M[1], M[2], M[3])
(* directions *)
Sph2Cart(azi, zen, r) ==
  LET s == FMul(r, FSin(zen))
  IN <<FMul(s, FCos(azi)), FMul(s, FSin(azi)), FMul(r, FCos(zen))>>
CosAngle(u, v) == FDot(Unit(u), Unit(v))
(* u points in the direction of v: u x v = 0 and u . v > 0 *)
SameDirection(u, v, tol) ==
  LET a == Unit(u)  b == Unit(v) IN VNear(a, b, tol)

(* triangles over a point set; f is a triple of indices *)
FNormal(pts, f) == Cross(VSub(pts[f[2]], pts[f[1]]), VSub(pts[f[3]], pts[f[1]]))
Mean(vs) == LET n == FI(Len(vs))
            IN Vec(Len(vs[1]), LAMBDA k : FDiv(FSum(Vec(Len(vs), LAMBDA i : vs[i][k])), n))
FCentroid(pts, f) == Mean(<<pts[f[1]], pts[f[2]], pts[f[3]]>>)
FaceSet(f) == {f[1], f[2], f[3]}
Edges(f) == {{f[1], f[2]}, {f[2], f[3]}, {f[1], f[3]}}

(* The coefficients g with g1*a + g2*b + g3*c = s. *)
Solve3(a, b, c, s) ==
  LET bc == Cross(b, c)  d == FDot(a, bc)
  IN <<FDiv(FDot(s, bc), d), FDiv(FDot(s, Cross(c, a)), d), FDiv(FDot(s, Cross(a, b)), d)>>
PNorm(v, p) ==                       \* p in {0 (max), 1, 2}
  CASE p = 0 -> MaxAbs(v)
    [] p = 1 -> FSum(Vec(Len(v), LAMBDA i : FAbs(v[i])))
    [] p = 2 -> Norm(v)

(* inverse trigonometry by bisection on the monotone branch *)
RECURSIVE AcosBis(_, _, _, _)
AcosBis(x, lo, hi, k) ==
  IF k = 0 THEN FMul(FAdd(lo, hi), Half)
  ELSE LET m == FMul(FAdd(lo, hi), Half)
       IN IF FLe(x, FCos(m)) THEN AcosBis(x, m, hi, k - 1)
          ELSE AcosBis(x, lo, m, k - 1)
FAcos(x) == IF FGe(x, One) THEN Zero ELSE IF FLe(x, FI(-1)) THEN Pi
            ELSE AcosBis(x, Zero, Pi, 42)
===========================================================================
