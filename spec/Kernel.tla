------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* Ambisonic panning and decoding on a setup.                              *)
(*                                                                         *)
(* All-round panning samples a band-limited, max-rE tapered panning        *)
(* function on the kernel design and pans every kernel point with VBAP on  *)
(* the ambisonic hull; imaginary loudspeakers are dropped.                 *)
(***************************************************************************)
EXTENDS Setup, Sph

Chk1(ok, clause) == IF ok THEN {} ELSE {clause}

(* VBAP gains of s on face f with norm p, all loudspeakers of the layer. *)
VbapExpected(lay, f, s, p) ==
  LET t == SomeFace(f)
      c == Solve3(lay.pts[t[1]], lay.pts[t[2]], lay.pts[t[3]], s)
      n == PNorm(c, p)
      dec == DecayOf(lay)
  IN Vec(Len(lay.pts), LAMBDA i :
       IF i \in f THEN FMul(dec[i], FDiv(c[CHOOSE k \in 1..3 : t[k] = i], n)) ELSE Zero)
Real(v, n) == SubSeq(v, 1, n)
OutsideBad(lay, n, fs, s, g, p) ==
  IF Len(g) # n \/ ~VFinite(g) THEN {"GainShape"} ELSE
  LET may == {f \in fs : MaybeInside(lay.pts, SomeFace(f), s)}
      ins == {f \in fs : Inside(lay.pts, SomeFace(f), s)}
  IN Chk1(\/ \E f \in may : VNear(g, Real(VbapExpected(lay, f, s, p), n), EM6)
          \/ ins = {} /\ VNear(g, ZeroVec(n), EM9), "PansOnAmbisonicHull")
OutsideVbipBad(lay, n, fs, s, g, p) ==
  IF Len(g) # n \/ ~VFinite(g) THEN {"GainShape"} ELSE
  LET may == {f \in fs : MaybeInside(lay.pts, SomeFace(f), s)}
      ins == {f \in fs : Inside(lay.pts, SomeFace(f), s)}
      Sq(f) == LET v == Real(VbapExpected(lay, f, s, 2), n)
               IN Vec(n, LAMBDA i : IF FLt(v[i], Zero) THEN Zero ELSE FSqrt(v[i]))
      Exp(f) == LET r == Sq(f) IN LET q == PNorm(r, p)
                IN IF q = Zero THEN r ELSE Vec(n, LAMBDA i : FDiv(r[i], q))
      Weak(f) == FLt(PNorm(Sq(f), 2), FQ(1, 50))
  IN Chk1(\/ \E f \in may : Weak(f) \/ VNear(g, Exp(f), FMul(FI(5), EM4))
          \/ ins = {} /\ VNear(g, ZeroVec(n), EM9), "PansOnAmbisonicHull")

(* VBAP (2-norm) of the kernel points on the ambisonic layer, real ones. *)
KernelGains(lay, n) ==
  LET fsq == {<<f, SomeFace(f)>> : f \in lay.valid}
  IN Vec(Len(lay.kernel), LAMBDA j :
       LET s == lay.kernel[j]
           ins == {x \in fsq : MaybeInside(lay.pts, x[2], s)}
       IN IF ins = {} THEN ZeroVec(n)
          ELSE LET f == (CHOOSE x \in ins : TRUE)[1] IN Real(VbapExpected(lay, f, s, 2), n))

ARWeights(N) == UnityGain(MaxRE(N))
AR2Weights(N) ==
  LET a == ARWeights(N)
      e == FSqrt(FSum(Vec(N + 1, LAMBDA k : FMul(FDiv(FI(2 * k - 1), FourPi), FSq(a[k])))))
  IN Vec(N + 1, LAMBDA k : FDiv(a[k], e))
(* band-limited panning function between unit vectors, by addition theorem *)
Band(w, u, v) == Pattern(w, FDot(u, v))
FourPiOver(J) == FDiv(FourPi, FI(J))

AllRap(st, s, N) ==
  LET lay == st.ambi[1]  n == Len(st.pts)  G == KernelGains(lay, n)
      J == Len(lay.kernel)  w == ARWeights(N)  u == Unit(s)
      b == Vec(J, LAMBDA j : Band(w, u, lay.kernel[j]))
  IN Vec(n, LAMBDA i : FMul(FourPiOver(J), FDot(b, Vec(J, LAMBDA j : G[j][i]))))
AllRap2G(st, G, s, N) ==
  LET lay == st.ambi[1]  n == Len(st.pts)
      J == Len(lay.kernel)  w == AR2Weights(N)  u == Unit(s)
      b == Vec(J, LAMBDA j : FSq(Band(w, u, lay.kernel[j])))
  IN Vec(n, LAMBDA i : FSqrt(FMul(FourPiOver(J), FDot(b, Vec(J, LAMBDA j : FSq(G[j][i]))))))
AllRap2(st, s, N) == AllRap2G(st, KernelGains(st.ambi[1], Len(st.pts)), s, N)
(* decoder matrices, loudspeakers x channels *)
AllRadD(st, N) ==
  LET lay == st.ambi[1]  n == Len(st.pts)  G == KernelGains(lay, n)
      J == Len(lay.kernel)  w == PerOrder(ARWeights(N))
      Y == Vec(J, LAMBDA j : RealSH(N, lay.kernel[j]))
  IN Vec(n, LAMBDA i : LET gi == Vec(J, LAMBDA j : G[j][i])
       IN Vec((N + 1) * (N + 1), LAMBDA c :
            FMul(FMul(FourPiOver(J), w[c]), FDot(gi, Vec(J, LAMBDA j : Y[j][c])))))
AllRad2D(st, N) ==
  LET lay == st.ambi[1]  n == Len(st.pts)  G0 == KernelGains(lay, n)
      J == Len(lay.kernel)
      G == Vec(J, LAMBDA j : AllRap2G(st, G0, lay.kernel[j], N))
      Y == Vec(J, LAMBDA j : RealSH(N, lay.kernel[j]))
  IN Vec(n, LAMBDA i : LET gi == Vec(J, LAMBDA j : G[j][i])
       IN Vec((N + 1) * (N + 1), LAMBDA c :
            FMul(FourPiOver(J), FDot(gi, Vec(J, LAMBDA j : Y[j][c])))))

(* sampling / mode matching / energy preserving, on the real loudspeakers *)
YLs(st, N) == Vec(Len(st.pts), LAMBDA i : RealSH(N, Unit(st.pts[i])))
SadD(st, N) ==
  LET L == Len(st.pts)  Y == YLs(st, N)
      k == FMul(FSqrt(FDiv(FourPi, FI((N + 1) * (N + 1)))), FSqrt(FDiv(FourPi, FI(L))))
  IN Vec(L, LAMBDA i : VScale(k, Y[i]))

KernelEvents == {"allrap", "allrap2", "allrad", "allrad2", "sad", "mad", "epad"}
(* e.D: the decoder matrix observed by decoding the identity; e.F, e.sig   *)
(* an arbitrary input and its output; e.src, e.gains for panning events.   *)
(* the order asked for, else the fixed characteristic order, else (e.eff)   *)
(* the one the setup states, which the trace spec holds against its value  *)
EffN(st, e) == IF e.N # <<>> THEN e.N[1] ELSE IF st.order # 0 THEN st.order ELSE e.eff
LinearBad(e) ==
  Chk1(\A c \in 1..Len(e.F[1]) :
         LET col == Vec(Len(e.F), LAMBDA i : e.F[i][c])
             m == Len(e.D[1])
             exp == MatVec(e.D, SubSeq(col, 1, m))
         IN VNearRel(Vec(Len(e.sig), LAMBDA i : e.sig[i][c]), exp, EM7), "LinearDecoder")
KernelBad(st, e) ==
  IF e.ev \in {"allrap", "allrap2", "allrad", "allrad2"} /\ st.ambi = <<>>
  THEN Chk1(e.exc = "ValueError", "NeedsAmbisonicSetup")
  ELSE IF e.exc # "" THEN {"Raised"}
  ELSE LET n == Len(st.pts)  N == EffN(st, e) IN
  CASE e.ev = "allrap" ->
         Chk1(IsShape(e.gains, Len(e.src), n) /\ \A k \in 1..Len(e.src) :
                VNear(e.gains[k], AllRap(st, e.src[k], N), EM6), "BandLimitedPanning")
    [] e.ev = "allrap2" ->
         Chk1(IsShape(e.gains, Len(e.src), n) /\ \A k \in 1..Len(e.src) :
                VNear(e.gains[k], AllRap2(st, e.src[k], N), EM6), "BandLimitedPanning")
    [] e.ev = "allrad" ->
         (IF ~IsShape(e.D, n, (N + 1) * (N + 1)) THEN {"OneSignalPerRealLoudspeaker"} ELSE
          Chk1(MNear(e.D, AllRadD(st, N), EM6), "AllRoundDecoder") \cup LinearBad(e))
    [] e.ev = "allrad2" ->
         (IF ~IsShape(e.D, n, (N + 1) * (N + 1)) THEN {"OneSignalPerRealLoudspeaker"} ELSE
          Chk1(MNear(e.D, AllRad2D(st, N), EM6), "AllRoundDecoder2") \cup LinearBad(e))
    [] e.ev = "sad" ->
         (IF ~IsShape(e.D, n, (N + 1) * (N + 1)) THEN {"OneSignalPerRealLoudspeaker"} ELSE
          Chk1(MNear(e.D, SadD(st, N), EM7), "SamplingDecoder") \cup LinearBad(e))
    [] e.ev = "mad" ->
         (IF ~IsShape(e.D, n, (N + 1) * (N + 1)) THEN {"OneSignalPerRealLoudspeaker"} ELSE
          \* D^T / k is the pseudo-inverse of Y: Moore-Penrose conditions
          LET C == (N + 1) * (N + 1)
              k == FSqrt(FQ(n, C))
              Y == YLs(st, N)
              P == Vec(C, LAMBDA c : Vec(n, LAMBDA i : FDiv(e.D[i][c], k)))  \* C x n
              YP == MatMul(Y, P)  PY == MatMul(P, Y)
          IN Chk1(/\ MNear(MatMul(YP, Y), Y, EM6) /\ MNear(MatMul(PY, P), P, EM6)
                  /\ MNear(YP, Transpose(YP), EM6) /\ MNear(PY, Transpose(PY), EM6),
                  "ModeMatchingDecoder") \cup LinearBad(e))
    [] e.ev = "epad" ->
         (IF ~IsShape(e.D, n, (N + 1) * (N + 1)) THEN {"OneSignalPerRealLoudspeaker"} ELSE
          \* D = sqrt(4 pi / C) Q with Q the isometry of the polar decomposition
          LET C == (N + 1) * (N + 1)
              k2 == FDiv(FourPi, FI(C))
              Y == YLs(st, N)
              DtD == MatMul(Transpose(e.D), e.D)
              DDt == MatMul(e.D, Transpose(e.D))
              DtY == MatMul(Transpose(e.D), Y)
              small == IF n >= C THEN DtD ELSE DDt
              m == Len(small)
          IN Chk1(MNear(small, [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN k2 ELSE Zero]], EM7),
                  "EnergyPreserving")
             \cup (IF n < C THEN
                   LET DYt == MatMul(e.D, Transpose(Y))
                   IN Chk1(MNear(DYt, Transpose(DYt), EM6), "PolarFactor")
                      \cup Chk1(\A i \in 1..m : FGe(DYt[i][i], FNeg(EM6)), "PolarFactor")
                   ELSE {})
             \cup (IF n >= C THEN
                   Chk1(MNear(DtY, Transpose(DtY), EM6), "PolarFactor")
                   \cup Chk1(\A i \in 1..m : FGe(DtY[i][i], FNeg(EM6)), "PolarFactor")
                   ELSE {})
             \cup LinearBad(e))
=============================================================================
