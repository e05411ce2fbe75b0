------------------------------ MODULE TraceGeo ------------------------------
(* Recorded calls of the coordinate, rotation and sampling grid functions. *)
(* State: m - rotation accumulated by a history of steps, v0 - the vector  *)
(*            it started from                                              *)
EXTENDS Sht, Trace

T9 == Tol(9)
T8 == Tol(8)
T7 == Tol(7)
(* scaled first: squares of small numbers would lose their digits *)
Length(v) == LET m == MaxAbs(v) IN IF m = Zero THEN Zero
             ELSE FMul(m, Norm(Vec(Len(v), LAMBDA i : FDiv(v[i], m))))
TwoPi == FMul(Two, Pi)
In(x, lo, hi) == FLe(FSub(lo, T9), x) /\ FLe(x, FAdd(hi, T9))
(* p in spherical coordinates; close to the poles acos costs half the digits *)
IsSph(p, azi, zen, r) ==
  /\ FNearRel(r, Norm(p), T9)
  /\ In(zen, Zero, Pi)
  /\ VNear(Sph2Cart(azi, zen, One), Unit(p), T7)

(* Euler, Rodrigues and vector-to-vector rotations by their definition *)
RodV(k, th, u) ==
  LET a == Unit(k)  c == FCos(th)  s == FSin(th)
      x == Cross(a, u)  d == FMul(FDot(a, u), FSub(One, c))
  IN Vec(3, LAMBDA i : FAdd(FAdd(FMul(c, u[i]), FMul(s, x[i])), FMul(d, a[i])))
VecV(f0, t0, u) ==
  LET f == Unit(f0)  t == Unit(t0)  k == Cross(f, t)  c == FDot(f, t)
      x == Cross(k, u)  d == FDiv(FDot(k, u), FAdd(One, c))
  IN Vec(3, LAMBDA i : FAdd(FAdd(FMul(c, u[i]), x[i]), FMul(d, k[i])))
OfCols(F(_)) == Transpose(Vec(3, LAMBDA j : F(Eye(3)[j])))
RotOf(e) == CASE e.op = "euler" -> Euler(e.yaw, e.pitch, e.roll)
              [] e.op = "rod" -> OfCols(LAMBDA u : RodV(e.k, e.theta, u))
              [] e.op = "vec" -> OfCols(LAMBDA u : VecV(e.f, e.t, u))
Rotation(R) == /\ MNear(MatMul(Transpose(R), R), Eye(3), T8)
               /\ FNear(Mat3Det(R), One, T8)
Opposite(e) == e.op = "vec" /\ FLt(FAdd(One, FDot(Unit(e.f), Unit(e.t))), Tol(3))
Parallel(f, t) == FLe(MaxAbs(Cross(Unit(f), Unit(t))), Tol(11))

(* quadrature: weights w at unit vectors p integrate degrees 0..d; by the   *)
(* addition theorem it suffices to integrate P_n(p . u) for directions u.   *)
Exact(p, w, d, u, tol) ==
  LET s == FLegSums(d, Vec(Len(p), LAMBDA i : FDot(p[i], u)), w)
  IN FNear(s[1], FourPi, tol) /\ \A n \in 2..(d + 1) : FNear(s[n], Zero, tol)
OnSphere(p) == \A i \in 1..Len(p) : Len(p[i]) = 3 /\ FNear(Norm2(p[i]), One, T9)
Dirs(e) == Vec(Len(e.azi), LAMBDA i : Sph2Cart(e.azi[i], e.zen[i], One))

Degrees(kind) == CASE kind = "t" -> <<1, 21>> [] kind = "n" -> <<1, 124>>
                 [] kind = "lebedev" -> <<3, 131>> [] kind = "fliege" -> <<2, 30>>
                 [] kind = "maxdet" -> <<1, 200>>
(* tabulated digits: most t-designs of degree 15 and more to five decimals *)
GridTol(kind) == IF kind = "t" THEN Tol(4) ELSE Tol(6)

Verdict(st, e) ==
  CASE
  (*------------------------------- C21 ---------------------------------*)
       e.ev = "tosph" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.azi) = Len(e.p) /\ Len(e.zen) = Len(e.p) /\ Len(e.r) = Len(e.p), "Shape")
         \cup Chk(\A i \in 1..Len(e.p) : IsSph(e.p[i], e.azi[i], e.zen[i], e.r[i]), "SamePoint")
         \cup Chk(\A i \in 1..Len(e.p) :
                IF e.pos THEN In(e.azi[i], Zero, TwoPi) ELSE In(e.azi[i], FNeg(Pi), Pi), "AzimuthRange")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "origin" ->     \* steady: the origin has a zenith all the same
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(~IsNaN(e.azi) /\ ~IsNaN(e.zen) /\ e.r = Zero /\ In(e.zen, Zero, Pi), "SteadyOrigin")
    [] e.ev = "todir" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(e.shape = e.want, "Shape")
         \cup Chk(Len(e.azi) = Len(e.p) /\ Len(e.zen) = Len(e.p) /\ \A i \in 1..Len(e.p) :
                IsSph(e.p[i], e.azi[i], e.zen[i], Norm(e.p[i])) /\ In(e.azi[i], FNeg(Pi), Pi), "SamePoint")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "tocart" ->     \* elev: second angle counts from the horizon
         IF e.exc # "" THEN {"Raised"} ELSE
         LET zen(i) == IF e.elev THEN FSub(FMul(Pi, Half), e.zen[i]) ELSE e.zen[i]
         IN Chk(Len(e.out) = Len(e.azi) /\ \A i \in 1..Len(e.azi) :
                   VNearRel(e.out[i], Sph2Cart(e.azi[i], zen(i), e.r[i]), T9), "Point")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "degrees" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.x) /\ \A i \in 1..Len(e.x) :
               LET full == IF e.torad THEN TwoPi ELSE FI(360)
                   rad == IF e.torad THEN FDiv(FMul(e.x[i], Pi), FI(180)) ELSE e.x[i]
                   back == IF e.torad THEN e.out[i] ELSE FDiv(FMul(e.out[i], Pi), FI(180))
               IN /\ In(e.out[i], Zero, full)
                  /\ FNear(FCos(rad), FCos(back), T9) /\ FNear(FSin(rad), FSin(back), T9), "SameAngle")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "angle" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.v2), "Shape")
         \cup Chk(\A i \in 1..Len(e.v2) :
               /\ In(e.out[i], Zero, Pi)
               /\ FNear(FCos(e.out[i]), CosAngle(VSub(e.v1, e.vi), VSub(e.v2[i], e.vi)), T8), "Angle")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "haversine" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.azi1), "Shape")
         \cup Chk(\A i \in 1..Len(e.azi1) :
               LET a == Sph2Cart(e.azi1[i], e.zen1[i], One)  b == Sph2Cart(e.azi2[i], e.zen2[i], One)
                   c == FDiv(e.out[i], e.r)
               IN /\ In(c, Zero, Pi) /\ FNear(FCos(c), FDot(a, b), T8)
                  \* small distances keep their digits
                  /\ FNear(FMul(Two, FSin(FMul(c, Half))), Length(VSub(a, b)), T8), "ArcLength")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "area" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET n == Norm(Cross(VSub(e.p[2], e.p[1]), VSub(e.p[3], e.p[1])))
         IN Chk(FNearRel(e.out, FMul(Half, n), T7), "Area") \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C22 ---------------------------------*)
    [] e.ev = "rotation" ->
         IF e.op = "vec" /\ Parallel(e.f, e.t) THEN Chk(e.exc # "", "RefusesParallel")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(IsShape(e.out, 3, 3) /\ Rotation(e.out), "Orthonormal")
              \* almost opposite vectors leave the axis ill defined, not the target
              \cup ChkIf(~Opposite(e), MNear(e.out, RotOf(e), T7), "Rotation")
              \cup ChkIf(e.op = "vec", VNear(MatVec(e.out, Unit(e.f)), Unit(e.t),
                                            IF Opposite(e) THEN Tol(5) ELSE T7), "Arrives")
              \cup Chk(e.same, "ArgumentsKept")
    \* one step of a history: the accumulated vector and frame
    [] e.ev = "turn" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET M == MatMul(RotOf(e), st.m)
         IN Chk(Rotation(e.frame), "Orthonormal")
            \cup Chk(MNear(e.frame, M, T7) /\ VNear(e.v, MatVec(M, st.v0), T7), "Composed")
    [] e.ev = "start" -> Chk(MNear(e.frame, Eye(3), Zero), "Driver")
  (*------------------------------- C23 ---------------------------------*)
    [] e.ev = "table" ->
         IF e.degree < Degrees(e.kind)[1] \/ e.degree > Degrees(e.kind)[2] THEN Chk(e.exc # "", "RefusesDegree")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE LET w == IF e.kind \in {"t", "n"} THEN Vec(Len(e.p), LAMBDA i : FDiv(FourPi, FI(Len(e.p)))) ELSE e.w
                  d == IF e.kind = "fliege" THEN e.degree - 1 ELSE e.degree
              IN Chk(OnSphere(e.p), "OnSphere")
                 \cup Chk(Len(w) = Len(e.p), "Shape")
                 \cup Chk(FNear(FSum(w), FourPi, GridTol(e.kind)), "FullSphere")
                 \cup Chk(Len(w) = Len(e.p) /\ \A i \in 1..Len(e.u) : Exact(e.p, w, d, e.u[i], GridTol(e.kind)), "ExactDegree")
                 \* a later load sees nothing of what was done to this one
                 \cup Chk(e.again, "Repeatable")
    \* the tabulated points of the smallest degree that is good enough
    [] e.ev = "maxdet" ->
         LET up == {i \in 1..Len(e.have) : e.have[i] >= e.degree}
         IN IF e.degree < 1 \/ e.degree > 200 \/ up = {} THEN Chk(e.exc # "", "RefusesDegree")
            ELSE IF e.exc # "" THEN {"Raised"}
            ELSE LET i == CHOOSE i \in up : \A j \in up : e.have[i] <= e.have[j]
                     r == e.tab[i]
                 IN Chk(Len(e.p) = Len(r) /\ Len(e.w) = Len(r) /\ \A k \in 1..Len(r) :
                          VNear(e.p[k], SubSeq(r[k], 1, 3), T9) /\ FNear(e.w[k], r[k][4], T9), "Tabulated")
    \* corners of a regular tetrahedron around the origin
    [] e.ev = "solid" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.v) = 4 /\ OnSphere(e.v), "OnSphere")
         \cup Chk(\A i, j \in 1..Len(e.v) : i # j => FNear(FDot(e.v[i], e.v[j]), FQ(-1, 3), T9), "Regular")
  (*------------------------------- C24 ---------------------------------*)
    [] e.ev = "quadrature" ->    \* equal_angle, gauss: exact to degree 2n + 1
         IF e.exc # "" THEN {"Raised"} ELSE
         LET p == Dirs(e)
         IN Chk(Len(e.zen) = Len(e.azi) /\ Len(e.w) = Len(e.azi), "Shape")
            \cup Chk(FNear(FSum(e.w), FourPi, T7), "FullSphere")
            \cup Chk(\A i \in 1..Len(e.w) : FLt(Zero, e.w[i]), "Positive")
            \cup Chk(\A i \in 1..Len(e.u) : Exact(p, e.w, 2 * e.n + 1, e.u[i], T7), "ExactDegree")
    [] e.ev = "circle" ->        \* exact for trigonometric degree 2n
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.w) = Len(e.pol), "Shape")
         \cup Chk(FNear(FSum(e.w), One, T9), "FullCircle")
         \cup Chk(\A k \in 1..(2 * e.n) : LET a(F(_)) == FDot(e.w, Vec(Len(e.pol), LAMBDA i : F(FMul(FI(k), e.pol[i]))))
                                          IN FNear(a(FCos), Zero, T8) /\ FNear(a(FSin), Zero, T8), "ExactDegree")
    [] e.ev = "gridweights" ->   \* shortest weights that are exact to the order
         IF e.exc # "" THEN {"Raised"} ELSE
         LET Y == ShMat("real", e.N, e.azi, e.zen)
             m == Vec(Chans(e.N), LAMBDA q : FDot(e.w, Vec(Len(Y), LAMBDA i : Y[i][q][1])))
         IN Chk(Len(e.w) = Len(e.azi), "Shape")
            \cup Chk(VNear(m, Vec(Chans(e.N), LAMBDA q : IF q = 1 THEN FSqrt(FourPi) ELSE Zero), T7), "ExactOrder")
            \cup ChkIf(e.wit # <<>>, VNear(Vec(Len(Y), LAMBDA i : FDot(e.wit, Re(Y[i]))), e.w, T7), "Shortest")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "nogrid" -> Chk(e.exc # "", "RefusesUnsupportedGrid")
    [] e.ev = "cond" ->          \* ratio of the extreme eigenvalues of Y^H Y
         IF e.exc # "" THEN {"Raised"} ELSE
         LET Y == ShMat(e.kind, e.N, e.azi, e.zen)
             A == CMatMul(CTranspose(CMConj(Y)), Y)
             C == Chans(e.N)
             VV == CMatMul(CTranspose(CMConj(e.V)), e.V)
             AV == CMatMul(A, e.V)
         IN Chk(CMNear(VV, CMat(Eye(C)), T8) /\ \A q \in 1..C : \A i \in 1..C :
                   CNear(AV[i][q], CScale(e.lam[q], e.V[i][q]), T7), "Driver")
            \cup Chk(FNearRel(FMul(e.out, VMin(e.lam)), VMax(e.lam), Tol(6)), "ConditionNumber")
    [] OTHER -> {"UnknownEvent"}
Advance(st, e) ==
  CASE e.ev = "start" -> [m |-> Eye(3), v0 |-> e.v]
    [] e.ev = "turn" -> [st EXCEPT !.m = MatMul(RotOf(e), st.m)]
    [] OTHER -> st

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = [m |-> Eye(3), v0 |-> <<>>]
TraceNext == /\ l <= Len(Log[t])
             /\ LET e == Log[t][l]
                IN Report(t, l, Verdict(st, e)) /\ st' = Advance(st, e)
             /\ l' = l + 1 /\ t' = t
=============================================================================
