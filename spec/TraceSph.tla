------------------------------ MODULE TraceSph ------------------------------
(* Recorded calls in the spherical harmonics domain.                       *)
(* State: sig, rot - the first signal of a chain of rotations, and the     *)
(*                   rotation accumulated since                            *)
(*        dir, fmt - direction and format of the plane wave that a history *)
(*                   of rotations and conversions carries along            *)
EXTENDS Sht, Trace

T9 == Tol(9)
T8 == Tol(8)
Given(e) == IF e.y # <<>> THEN e.y ELSE ShMat(e.kind, e.N, e.azi, e.zen)
(* transform by quadrature, straight from its definition *)
ShtOf(e, Y) ==
  LET Q == Len(Y)
      w == IF e.w = <<>> THEN Vec(Q, LAMBDA i : FDiv(FourPi, FI(Q))) ELSE e.w
      f == Vec(Q, LAMBDA i : CVScale(w[i], e.f[i]))
  IN CMatMul(CTranspose(CMConj(Y)), f)
BigF(f) == FMax(One, MaxAbs(Vec(Len(f), LAMBDA i : FMax(MaxAbs(Re(f[i])), MaxAbs(Im(f[i]))))))

(* D applied to Y(v) is Y(R v) in every direction v logged *)
Rotates(D, e) ==
  LET R == Euler(e.yaw, e.pitch, e.roll)
  IN \A v \in ToSet(e.dirs) :
       VNear(MatVec(D, RealSH(e.N, v)), RealSH(e.N, MatVec(R, v)), T8)
BlockDiag(e) == \A i \in 1..Len(e.out) : \A j \in 1..Len(e.out[i]) :
                  OrderOf(i) = OrderOf(j) \/ FNear(e.out[i][j], Zero, T9)
Blocks(e) == Len(e.blocks) = e.N + 1 /\ \A n \in 0..e.N :
               MNear(e.blocks[n + 1],
                     Vec(2 * n + 1, LAMBDA i : SubSeq(e.out[n * n + i], n * n + 1, Chans(n))), T9)

OrderSign(c) == FSqrt(FI(2 * OrderOf(c) + 1))
BFormat(m, ww) ==            \* rows W, X, Y, Z of first order channels m
  LET k == FSqrt(FourPi)  q == FDiv(k, FSqrt(FI(3)))
  IN <<VScale(FMul(ww, k), m[1]), VScale(q, m[4]), VScale(q, m[2]), VScale(q, m[3])>>
Tetra == LET a == FDiv(One, FSqrt(FI(3)))  b == FNeg(a)
         IN << <<a, a, a>>, <<a, b, b>>, <<b, a, b>>, <<b, b, a>> >>
Soundfield(s) ==
  LET Y == Vec(4, LAMBDA i : RealSH(1, Tetra[i]))
  IN MatMul(Transpose(Y), Vec(4, LAMBDA i : VScale(Pi, s[i])))     \* 4 pi / 4
(* direct form IIR filter, a[1] = 1 *)
RECURSIVE Iir(_, _, _, _)
Iir(b, a, x, y) ==
  LET n == Len(y) + 1
  IN IF n > Len(x) THEN y
     ELSE Iir(b, a, x, Append(y, FSub(
            FSum(Vec(Len(b), LAMBDA k : IF n - k + 1 >= 1 THEN FMul(b[k], x[n - k + 1]) ELSE Zero)),
            FSum(Vec(Len(a), LAMBDA k : IF k > 1 /\ n - k + 1 >= 1 THEN FMul(a[k], y[n - k + 1]) ELSE Zero)))))

(* value of the function with coefficients c (pairs) *)
ValueAt(kind, c, azi, zen) == CDot(c, ShAt(kind, OrderOf(Len(c)), azi, zen))
(* beam with modal weights w steered to u, at v *)
BeamAt(w, u, v) == Pattern(w, FDot(u, v))

(* one step of a carried plane wave *)
StepDir(st, e) == CASE e.op = "encode" -> Sph2Cart(e.azi, e.zen, One)
                    [] e.op = "rotate" -> MatVec(Euler(e.yaw, e.pitch, e.roll), st.dir)
                    [] OTHER -> st.dir
StepFmt(st, e) == CASE e.op = "encode" -> "n3d"  [] e.op = "tosn3d" -> "sn3d"
                    [] e.op = "ton3d" -> "n3d"   [] e.op = "tob" -> "b"
                    [] e.op = "tosh" -> "n3d"    [] OTHER -> st.fmt
Carried(fmt, v, x) ==        \* channels of signal x from v
  LET y == RealSH(1, v)
      g == CASE fmt = "n3d" -> y
             [] fmt = "sn3d" -> <<y[1], FDiv(y[2], OrderSign(2)), FDiv(y[3], OrderSign(2)), FDiv(y[4], OrderSign(2))>>
             [] fmt = "b" -> <<One, v[1], v[2], v[3]>>
  IN Vec(4, LAMBDA i : VScale(g[i], x))

Verdict(st, e) ==
  CASE
       e.ev = "step" ->
         IF e.exc # "" THEN {"Raised"}
         ELSE Chk(StepFmt(st, e) = e.fmt, "Driver")
              \cup Chk(MNear(e.out, Carried(StepFmt(st, e), StepDir(st, e), e.x), T8), "CarriesDirection")
              \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C13 ---------------------------------*)
    [] e.ev = "shmat" ->
         IF e.kind \notin {"real", "complex"} THEN Chk(e.exc # "", "RefusesUnknownType")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(CMNear(e.out, ShMat(e.kind, e.N, e.azi, e.zen), IF e.N > 20 THEN Tol(6) ELSE T8), "Basis")
              \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "shaddition" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET z == FDot(Sph2Cart(e.azi[1], e.zen[1], One), Sph2Cart(e.azi[2], e.zen[2], One))
             p == Legendre(e.N, z)
         IN Chk(Len(e.out) = 2 /\ Len(e.out[1]) = Chans(e.N), "Shape")
            \cup Chk(\A n \in 0..e.N : CNear(Band(n, e.out[1], e.out[2]),
                       CNum(FMul(FDiv(FI(2 * n + 1), FourPi), p[n + 1])), T8), "AdditionTheorem")
  (*------------------------------- C14 ---------------------------------*)
    [] e.ev = "sht" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(CMNear(e.out, ShtOf(e, Given(e)), FMul(T8, BigF(e.f))), "Transform")
         \cup ChkIf(Has(e, "coef"), CMNear(e.out, e.coef, FMul(T8, BigF(e.f))), "RoundTrip")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "lstsq" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET Y == Given(e)  YH == CTranspose(CMConj(Y))
             fit == CMatMul(Y, e.out)
             res == Vec(Len(e.f), LAMBDA i : Vec(Len(e.f[i]), LAMBDA k :
                      <<FSub(e.f[i][k][1], fit[i][k][1]), FSub(e.f[i][k][2], fit[i][k][2])>>))
             nul == CMatMul(YH, res)
             \* large coefficients carry the rounding of the directions
             tol == FAdd(FMul(T8, BigF(e.f)), FMul(FMul(Tol(11), FI(Len(Y))), BigF(e.out)))
         IN Chk(Len(e.out) = Chans(e.N), "Shape")
            \* residual orthogonal to the basis; shortest solution (witness: out = Y^H wit)
            \cup Chk(\A i \in 1..Len(nul) : \A k \in 1..Len(nul[i]) : CNear(nul[i][k], CNum(Zero), tol), "LeastSquares")
            \cup Chk(CMNear(CMatMul(YH, e.wit), e.out, FMul(T8, FMul(FI(Len(Y)), BigF(e.wit)))), "Shortest")
            \cup ChkIf(Has(e, "coef"), CMNear(e.out, e.coef, tol), "RoundTrip")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "isht" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET n == IF e.Nuse = -1 THEN OrderOf(Len(e.F)) ELSE e.Nuse
             Y == IF e.y # <<>> THEN e.y ELSE ShMat(e.kind, n, e.azi, e.zen)
         IN Chk(CMNear(e.out, CMatMul(Y, SubSeq(e.F, 1, Chans(n))), FMul(T8, BigF(e.F))), "Inverse")
            \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C15 ---------------------------------*)
    [] e.ev = "rotmat" ->
         IF e.kind # "real" THEN Chk(e.exc # "", "RefusesUnknownType")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(IsShape(e.out, Chans(e.N), Chans(e.N)), "Shape")
              \cup Chk(BlockDiag(e), "BlockDiagonal") \cup Chk(Blocks(e), "Blocks")
              \cup Chk(Rotates(e.out, e), "RotatesBasis")
    \* a chain of rotations acting on the current signal (rows are signals)
    [] e.ev = "rotate" ->
         IF e.kind # "real" \/ ~IsSquare(Len(e.sig[1])) THEN Chk(e.exc # "", "RefusesUnknownType")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE LET R == Transpose(Euler(e.yaw, e.pitch, e.roll))
                  N == OrderOf(Len(e.sig[1]))
              IN Chk(Len(e.out) = Len(e.sig) /\ \A s \in 1..Len(e.sig) :
                       Len(e.out[s]) = Len(e.sig[s]), "Shape")
                 \* as a function on the sphere: new value at v is old value at R^-1 v
                 \cup Chk(\A v \in ToSet(e.dirs) : \A s \in 1..Len(e.sig) :
                        FNear(FDot(e.out[s], RealSH(N, v)),
                              FDot(e.sig[s], RealSH(N, MatVec(R, v))), FMul(T8, FI(10))), "RotatesField")
                 \* the whole chain of rotations so far is one rotation of its first signal
                 \cup ChkIf(e.chain, LET A == Transpose(MatMul(Euler(e.yaw, e.pitch, e.roll), st.rot))
                             IN \A v \in ToSet(e.dirs) : \A s \in 1..Len(e.sig) :
                                  FNear(FDot(e.out[s], RealSH(N, v)),
                                        FDot(st.sig[s], RealSH(N, MatVec(A, v))), FMul(T8, FI(10))), "RotationsCompose")
                 \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C16 ---------------------------------*)
    [] e.ev = "norm" ->          \* n3d_to_sn3d, sn3d_to_n3d
         IF e.exc # "" THEN {"Raised"} ELSE
         LET w(c) == IF e.tosn THEN FDiv(One, OrderSign(c)) ELSE OrderSign(c)
         IN Chk(IsShape(e.out, Len(e.F), Len(e.F[1])) /\
                \A i \in 1..Len(e.F) : \A k \in 1..Len(e.F[1]) :
                  FNear(e.out[i][k], FMul(w(IF e.axis \in {0, -2} THEN i ELSE k), e.F[i][k]), T9), "Normalisation")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "shtob" -> IF e.exc # "" THEN {"Raised"}
         ELSE Chk(MNear(e.out, BFormat(e.F, e.ww), T9), "BFormat") \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "btosh" -> IF e.exc # "" THEN {"Raised"}
         ELSE Chk(Len(e.out) = 4 /\ MNear(BFormat(e.out, e.ww), e.F, T9), "BFormat") \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "soundfield" -> IF e.exc # "" THEN {"Raised"}
         ELSE Chk(MNear(e.out, BFormat(Soundfield(e.F), e.ww), T9), "Soundfield") \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "ambeo" -> IF e.exc # "" THEN {"Raised"}
         ELSE LET b == BFormat(Soundfield(e.F), One)
                  x == IF e.coeffs = <<>> THEN b
                       ELSE Vec(4, LAMBDA c : LET i == IF c = 1 THEN 1 ELSE 3
                              IN Iir(e.coeffs[i], e.coeffs[i + 1], b[c], <<>>))
              IN Chk(e.fsout = e.fs /\ MNear(e.out, x, T8), "Ambeo") \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "stereo" -> IF e.exc # "" THEN {"Raised"}
         ELSE LET h == FSqrt(Half)
              IN Chk(Len(e.out) = 2 /\ \A i \in 1..Len(e.F[1]) :
                     /\ FNear(e.out[1][i], FAdd(e.F[1][i], FMul(h, FAdd(e.F[2][i], e.F[3][i]))), T9)
                     /\ FNear(e.out[2][i], FAdd(e.F[1][i], FMul(h, FSub(e.F[2][i], e.F[3][i]))), T9), "Stereo")
                 \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C17 ---------------------------------*)
    [] e.ev = "srctosh" ->
         IF Len(e.azi) # Len(e.sig) THEN Chk(e.exc # "", "RefusesChannelCount")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE LET Y == ShMat(e.kind, e.N, e.azi, e.zen)
              IN Chk(CMNear(e.out, CMatMul(CTranspose(CMConj(Y)), CMat(e.sig)), T8), "Encoded")
                 \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "srctob" -> IF e.exc # "" THEN {"Raised"}
         ELSE LET v == Sph2Cart(e.azi, e.zen, One)
              IN Chk(MNear(e.out, <<e.sig, VScale(v[1], e.sig), VScale(v[2], e.sig), VScale(v[3], e.sig)>>, T9), "Encoded")
                 \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "shmult" -> IF e.exc # "" THEN {"Raised"}
         ELSE LET n == OrderOf(Len(e.a)) + OrderOf(Len(e.b))
              IN Chk(Len(e.out) = Chans(n), "Shape")
                 \cup Chk(\A i \in 1..Len(e.azi) :
                        CNear(ValueAt(e.kind, e.out, e.azi[i], e.zen[i]),
                              CMul(ValueAt(e.kind, e.a, e.azi[i], e.zen[i]),
                                   ValueAt(e.kind, e.b, e.azi[i], e.zen[i])),
                              \* the tables of the large designs hold 7 digits
                              IF n > 7 THEN Tol(4) ELSE FMul(T8, FI(10))), "Product")
                 \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C18 ---------------------------------*)
    [] e.ev = "weights" ->       \* named modal weights
         IF e.exc # "" THEN {"Raised"} ELSE
         LET want == CASE e.name = "butterworth" -> Butterworth(e.N, e.k, e.nc)
                       [] e.name = "max_rE_weights" -> MaxRE(e.N)
                       [] e.name = "maxre" /\ ~e.unit -> MaxRE(e.N)
                       [] OTHER -> Weights(e.name, e.N)
             w == IF e.name = "butterworth" /\ e.unit THEN UnityGain(want) ELSE want
         IN Chk(VNear(e.out, w, T9), "Weights")
            \cup ChkIf(e.unit, FNear(OnAxis(e.out), One, T9), "UnitGain")
    [] e.ev = "unity" -> IF e.exc # "" THEN {"Raised"}
         ELSE Chk(VNear(e.out, UnityGain(e.w), T8) /\ FNear(OnAxis(e.out), One, T8), "UnitGain")
              \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "dirac" ->
         IF e.w # <<>> /\ Len(e.w) # e.N + 1 THEN Chk(e.exc # "", "RefusesWeightCount")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE LET w == IF e.w = <<>> THEN Vec(e.N + 1, LAMBDA i : One) ELSE e.w
              IN Chk(Len(e.out) = Len(e.d) /\ \A i \in 1..Len(e.d) :
                     FNear(e.out[i], Pattern(w, FCos(e.d[i])), T8), "Dirac") \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "repeat" -> IF e.exc # "" THEN {"Raised"}
         ELSE Chk(VNear(e.out, PerOrder(e.w), Tol(11)), "PerOrder")
    \* a named or given pattern steered to several directions, seen from others
    [] e.ev = "beam" ->
         LET known == e.name \in {"", "hypercardioid", "max_di", "cardioid", "inphase", "max_re", "maxre"}
             w == IF e.name = "" THEN e.w ELSE Weights(e.name, e.N)
         IN IF ~known \/ (e.name = "" /\ Len(e.w) # e.N + 1) THEN Chk(e.exc # "", "RefusesPattern")
            ELSE IF e.exc # "" THEN {"Raised"}
            ELSE Chk(IsShape(e.out, Len(e.azi), Chans(e.N)), "Shape")
                 \cup Chk(\A j \in 1..Len(e.azi) : \A v \in ToSet(e.dirs) :
                      FNear(FDot(e.out[j], RealSH(e.N, v)), BeamAt(w, Sph2Cart(e.azi[j], e.zen[j], One), v), T8), "Beam")
                 \* shape known in closed form, independent of the weights
                 \cup ChkIf(e.name \in {"cardioid", "inphase"},
                      \A j \in 1..Len(e.azi) : \A v \in ToSet(e.dirs) :
                        FNear(FDot(e.out[j], RealSH(e.N, v)),
                              FPow(FMul(Half, FAdd(One, FDot(Sph2Cart(e.azi[j], e.zen[j], One), v))), e.N), T8), "Cardioid")
    [] e.ev = "beamform" -> IF Len(e.w[1]) # Len(e.sig) THEN Chk(e.exc # "", "RefusesChannelCount")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(MNear(e.out, MatMul(e.w, e.sig), T8), "Beamformed") \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "rE" ->
         IF Len(e.p) # Len(e.g[1]) THEN Chk(e.exc # "", "RefusesChannelCount")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(Len(e.vec) = Len(e.g) /\ Len(e.mag) = Len(e.g) /\ \A s \in 1..Len(e.g) :
                \* gains relative to the largest: the vector does not depend on scale
                LET mx == MaxAbs(e.g[s])
                    q == Vec(Len(e.g[s]), LAMBDA i : FSq(IF mx = Zero THEN Zero ELSE FDiv(e.g[s][i], mx)))  E == FSum(q)
                    v == Vec(3, LAMBDA k : FDiv(FSum(Vec(Len(q), LAMBDA i : FMul(q[i], e.p[i][k]))), E))
                IN IF E = Zero THEN e.mag[s] = Zero
                   ELSE VNear(e.vec[s], v, Tol(8)) /\ FNear(e.mag[s], Norm(v), Tol(8)), "EnergyVector")
    [] e.ev = "project" -> IF e.exc # "" THEN {"Raised"}
         ELSE Chk(Len(e.out) = Len(e.p) /\ \A i \in 1..Len(e.p) : VNear(e.out[i], Unit(e.p[i]), T9), "OnSphere")
              \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C19 ---------------------------------*)
    [] e.ev = "bank" ->
         IF e.mode \notin {"perfect", "energy", "pinv"} THEN Chk(e.exc # "", "RefusesMode")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE LET Y == ShMat(e.kind, e.N, e.azi, e.zen)  C == Chans(e.N)  J == Len(Y)
                  c == PerOrder(e.cn)
                  wA == Vec(J, LAMBDA j : Vec(C, LAMBDA q : CScale(c[q], Y[j][q])))
                  BA == CMatMul(e.B, e.A)
                  en == FSum(Vec(e.N + 1, LAMBDA k : FMul(FSq(e.cn[k]), FDiv(FI(2 * k - 1), FourPi))))
                  beta == IF e.mode = "perfect" THEN FDiv(FourPi, FMul(e.cn[1], FI(J)))
                          ELSE FDiv(FourPi, FMul(en, FI(J)))
                  gain == IF e.mode = "perfect" THEN FDiv(FourPi, FMul(FI(J), e.cn[1])) ELSE FSqrt(beta)
                  wB == Vec(C, LAMBDA q : Vec(J, LAMBDA j :
                          CScale(FDiv(FMul(gain, e.cn[1]), c[q]), CConj(Y[j][q]))))
              IN Chk(CMNear(e.A, wA, T8), "Analysis")
                 \cup ChkIf(e.mode # "pinv", CMNear(e.B, wB, FMul(T8, FI(100))), "Resynthesis")
                 \cup ChkIf(e.mode # "energy" /\ e.exact,
                        CMNear(BA, CMat(Eye(C)), Tol(7)), "PerfectReconstruction")
                 \cup ChkIf(e.mode = "pinv" /\ ~e.exact,
                        CMNear(CMatMul(e.A, BA), e.A, Tol(7)) /\ CMNear(CMatMul(BA, e.B), e.B, FMul(Tol(7), FI(100))), "PseudoInverse")
                 \* a plane wave: its energy is that of the scaled sector signals
                 \cup ChkIf(e.mode = "energy" /\ e.exact, \A i \in 1..Len(e.pazi) :
                        LET y == CVConj(ShAt(e.kind, e.N, e.pazi[i], e.pzen[i]))
                            s == Vec(J, LAMBDA j : CDot(e.A[j], y))
                        IN FNear(FMul(beta, FSum(Vec(J, LAMBDA j : FAdd(FSq(s[j][1]), FSq(s[j][2]))))),
                                 One, Tol(7)), "EnergyPreserved")
    [] e.ev = "beta" ->
         IF e.mode \notin {"amplitude", "amp", "energy", "en"} THEN Chk(e.exc # "", "RefusesMode")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE LET n2 == CDot(CVConj(e.w), e.w)[1]
              IN Chk(FNearRel(e.out, IF e.mode \in {"amplitude", "amp"}
                         THEN FDiv(FSqrt(FourPi), FMul(e.w[1][1], FI(e.J)))
                         ELSE FDiv(FourPi, FMul(n2, FI(e.J))), T8), "Factor")
    [] e.ev = "sector" -> IF e.exc # "" THEN {"Raised"}
         ELSE LET J == Len(e.A)  N == OrderOf(Len(e.A[1]))
              IN Chk(IsShape(e.out, 4 * J, Chans(N + 1)), "Shape")
                 \cup Chk(\A v \in ToSet(e.dirs) :
                      LET y == RealSH(N, v)  y1 == RealSH(N + 1, v)
                      IN \A j \in 1..J : LET s == FDot(e.A[j], y)
                         IN /\ FNear(FDot(e.out[4 * j - 3], y1), s, Tol(7))
                            /\ \A k \in 1..3 : FNear(FDot(e.out[4 * j - 3 + k], y1), FMul(v[k], s), Tol(7)), "SectorPatterns")
                 \cup Chk(e.same, "ArgumentsKept")
    [] OTHER -> {"UnknownEvent"}
Advance(st, e) ==
  CASE e.ev = "rotate" /\ e.exc = "" ->
         LET R == Euler(e.yaw, e.pitch, e.roll)
         IN IF e.chain THEN [st EXCEPT !.rot = MatMul(R, st.rot)]
            ELSE [st EXCEPT !.rot = R, !.sig = e.sig]
    [] e.ev = "step" -> [st EXCEPT !.dir = StepDir(st, e), !.fmt = StepFmt(st, e)]
    [] OTHER -> st

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = [sig |-> <<>>, rot |-> Eye(3), dir |-> <<>>, fmt |-> ""]
TraceNext == /\ l <= Len(Log[t])
             /\ LET e == Log[t][l]
                IN Report(t, l, Verdict(st, e)) /\ st' = Advance(st, e)
             /\ l' = l + 1 /\ t' = t
=============================================================================
