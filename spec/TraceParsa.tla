----------------------------- MODULE TraceParsa -----------------------------
(* Recorded calls of the parametric tools: covariance analysis, adaptive    *)
(* beamformers, pseudo intensity, SDM rendering and its equalisation.       *)
(* Optimal solutions are judged by what characterises them (constraint and  *)
(* stationarity), never by recomputing an inverse.                          *)
EXTENDS Sht, Trace
H == INSTANCE Hrirs

T9 == Tol(9)
T8 == Tol(8)
T7 == Tol(7)
T6 == Tol(6)
QuadForm(A, w) == FDot(w, MatVec(A, w))
Outer(u, v) == Vec(Len(u), LAMBDA i : VScale(u[i], v))
MAdd(A, C) == Vec(Len(A), LAMBDA i : VAdd(A[i], C[i]))
(* V (columns) and w diagonalise the symmetric A, w ascending *)
Spectrum(A, V, w) ==
  LET T == Transpose(V)
  IN /\ \A i \in 1..(Len(w) - 1) : FLe(w[i], FAdd(w[i + 1], T9))
     /\ MNear(MatMul(T, V), Eye(Len(w)), T8)
     /\ \A q \in 1..Len(w) : VNear(MatVec(A, T[q]), VScale(w[q], T[q]), FMul(T8, FMax(One, MaxAbs(w))))
(* Hermitian S = A + iB is logged as [A, -B; B, A] (fold = 2): each          *)
(* eigenvalue appears twice, a real steering vector y as <<y, 0>>.          *)
Folded(e, y) == IF e.fold = 1 THEN y ELSE y \o Vec(Len(y), LAMBDA i : Zero)
Turned(y) == Vec(Len(y), LAMBDA i : Zero) \o y
Size(e) == Len(e.S) \div e.fold
Compose(V, w) == MatMul(V, Vec(Len(w), LAMBDA i : VScale(w[i], Transpose(V)[i])))

(* number of sources: above the first jump of the ascending eigenvalues *)
Variance(w) == LET n == FI(Len(w))  m == FDiv(FSum(w), n)
               IN FDiv(FSum(Vec(Len(w), LAMBDA i : FSq(FSub(w[i], m)))), n)
Ratio(w, i) == FDiv(w[i + 1], FAdd(w[i], Tol(7)))
Jumps(w, a) == {i \in 1..(Len(w) - 1) : FLt(a, Ratio(w, i))}
Clear(w, a) == /\ ~FNearRel(Variance(w), a, T6)
               /\ \A i \in 1..(Len(w) - 1) : ~FNearRel(Ratio(w, i), a, T6)
First(S) == CHOOSE i \in S : \A j \in S : i <= j
NumSources(w, a) == IF FLt(Variance(w), a) THEN 0 ELSE Len(w) - First(Jumps(w, a))
Threshold(e) == IF e.a = <<>> THEN FAdd(One, FQ(2, Len(e.w) \div e.fold)) ELSE e.a
Counted(e) == LET a == Threshold(e)
              IN Clear(e.w, a) /\ (FLt(Variance(e.w), a) \/ Jumps(e.w, a) # {})

(*--------------------------- pseudo intensity ---------------------------*)
Hann(L, k) == IF L = 1 THEN One        \* k = 0 .. L-1
              ELSE FMul(Half, FSub(One, FCos(FDiv(FMul(FI(2 * k), Pi), FI(L - 1)))))
(* W times X, Y, Z, windowed and summed around each sample that has a full  *)
(* window; the very last of them may be left out                            *)
Intensity(e, last) ==
  LET n == Len(e.W)  h == e.win \div 2
      hw == Vec(e.win, LAMBDA k : Hann(e.win, k - 1))
      at(c) == LET p == VMul(e.W, c)
               IN Vec(n, LAMBDA t : IF t - h < 1 \/ t + h > n \/ (t + h = n /\ ~last) THEN Zero
                                    ELSE FDot(hw, SubSeq(p, t - h, t + h)))
  IN <<at(e.X), at(e.Y), at(e.Z)>>
Smooth(v, m) ==
  IF m = 0 THEN v
  ELSE LET hw == Vec(m, LAMBDA k : Hann(m, k - 1))  n == Len(v)  h == m \div 2
       IN Vec(n, LAMBDA t : FSum(Vec(m, LAMBDA k : LET j == t + h + 1 - k
                               IN IF j < 1 \/ j > n THEN Zero ELSE FMul(hw[k], v[j]))))
IsIntensity(e, last) ==
  LET I == Intensity(e, last)
      S == Vec(3, LAMBDA k : Smooth(I[k], e.smooth))
  IN \A t \in 1..Len(e.W) : LET v == <<S[1][t], S[2][t], S[3][t]>>
       IN /\ VNear(VScale(e.r[t], Sph2Cart(e.azi[t], e.zen[t], One)), v, FMul(T8, FMax(One, MaxAbs(v))))
          /\ FNear(e.r[t], Norm(v), FMul(T8, FMax(One, MaxAbs(v))))
          /\ FLe(Zero, e.zen[t]) /\ FLe(e.zen[t], FAdd(Pi, T9))

(*------------------------- SDM post equalisation ------------------------*)
SoftClip(m) == IF FLe(m, One) THEN m
               ELSE LET x == FExp(FMul(Two, FSub(m, One)))     \* 1 + tanh(m - 1)
                    IN FAdd(One, FDiv(FSub(x, One), FAdd(x, One)))
(* gain in band j of an impulse g that the loudspeakers play with amplitudes a: *)
(* coherent sum in the lowest band, power sum from the fourth on           *)
Blend(j) == CASE j = 1 -> One [] j = 2 -> Half [] j = 3 -> FQ(1, 4) [] OTHER -> Zero
Amps(e, a) == Vec(Len(a), LAMBDA k : FDiv(FAbs(a[k]), H!FRPow(e.d[k], e.att)))
Coh(a) == FSum(a)
Inc(a) == Norm(a)
(* first equaliser blends the magnitudes, the second the gains *)
Gain1(e, g, a, j) ==
  LET s == Amps(e, a)
      m == FDiv(FAbs(g), FAdd(FMul(Blend(j), Coh(s)), FMul(FSub(One, Blend(j)), Inc(s))))
  IN IF e.clip THEN SoftClip(m) ELSE m
Gain2(e, g, a, j) ==
  LET s == Amps(e, a)  c(x) == FMin(One, FDiv(FAbs(g), x))
  IN FAdd(FMul(Blend(j), c(Coh(s))), FMul(FSub(One, Blend(j)), c(Inc(s))))
(* block k = 1, 2, ... of the second equaliser and its window at sample t  *)
BlockWin(e, k, t) ==       \* t counts from the start of the signal, from 1
  LET i == t - 1 + e.block - (k - 1) * (e.block \div 2)
  IN IF i < 0 \/ i >= e.block THEN Zero
     ELSE FMul(Half, FSub(One, FCos(FDiv(FMul(FI(2 * i), Pi), FI(e.block)))))
NBlocks(e) == (e.n + 2 * e.block - e.block) \div (e.block \div 2) + 1
(* gain of band j in block k before smoothing: one impulse at most inside *)
RawGain(e, k, j) ==
  LET S == {q \in 1..Len(e.at) : BlockWin(e, k, e.at[q]) # Zero}
  IN IF S = {} THEN One ELSE LET q == CHOOSE x \in S : TRUE IN Gain2(e, e.g[q], e.amp[q], j)
SmoothWin(co) == LET w == Vec(co, LAMBDA k : FMul(Half, FAdd(One, FCos(FDiv(FMul(FI(k - 1), Pi), FI(co))))))
                 IN VScale(FDiv(One, FSum(w)), w)
RECURSIVE Smoothed(_, _, _)       \* raw gains per block, smoothed over past ones
Smoothed(m, raw, acc) ==
  LET k == Len(acc) + 1
  IN IF k > Len(raw) THEN acc
     ELSE IF k = 1 THEN Smoothed(m, raw, <<raw[1]>>)
     ELSE LET co == IF m < k - 1 THEN m ELSE k - 1
              w == SmoothWin(co)
          IN Smoothed(m, raw, Append(acc, FSum(Vec(co, LAMBDA i :
               FMul(w[i], IF i = 1 THEN raw[k] ELSE acc[k + 1 - i])))))
Raw(e, j) == Vec(NBlocks(e), LAMBDA k : RawGain(e, k, j))

(* the same for any signals: x (loudspeakers), p; bank: the gains of the    *)
(* octave bands at the frequency lines of a block                          *)
Block(e, x, k) == Vec(e.block, LAMBDA i :
  LET t == (k - 1) * (e.block \div 2) - e.block + i
  IN IF t < 1 \/ t > e.n THEN Zero
     ELSE FMul(x[t], FMul(Half, FSub(One, FCos(FDiv(FMul(FI(2 * (i - 1)), Pi), FI(e.block)))))))
Lines(e) ==
  LET ph(f, i) == FDiv(FMul(FI(2 * ((f * (i - 1)) % e.block)), Pi), FI(e.block))
  IN [re |-> Vec(e.block \div 2 + 1, LAMBDA f : Vec(e.block, LAMBDA i : FCos(ph(f - 1, i)))),
      im |-> Vec(e.block \div 2 + 1, LAMBDA f : Vec(e.block, LAMBDA i : FSin(ph(f - 1, i))))]
Magnitudes(D, b) == Vec(Len(D.re), LAMBDA f : FSqrt(FAdd(FSq(FDot(D.re[f], b)), FSq(FDot(D.im[f], b)))))
Level(bank, j, m) == Norm(Vec(Len(m), LAMBDA f : FMul(bank[j][f], m[f])))
RawAny(e, D, k) ==         \* one gain per band
  LET P == Magnitudes(D, Block(e, e.p, k))
      M == Vec(Len(e.x), LAMBDA q : VScale(FDiv(One, H!FRPow(e.d[q], e.att)), Magnitudes(D, Block(e, e.x[q], k))))
      coh == Vec(Len(P), LAMBDA f : FSum(Vec(Len(M), LAMBDA q : M[q][f])))
      inc == Vec(Len(P), LAMBDA f : Norm(Vec(Len(M), LAMBDA q : M[q][f])))
      ratio(j, s) == LET u == Level(e.bank, j, s)
                     IN IF FLt(u, Tol(10)) THEN One ELSE FMin(One, FDiv(Level(e.bank, j, P), u))
  IN Vec(Len(e.bank), LAMBDA j :
       FAdd(IF Blend(j) = Zero THEN Zero ELSE FMul(Blend(j), ratio(j, coh)),
            IF Blend(j) = One THEN Zero ELSE FMul(FSub(One, Blend(j)), ratio(j, inc))))

NearestResponse(g, irs, azi, zen) ==
  irs[CHOOSE i \in H!Closest(g, Sph2Cart(azi, zen, One), Zero) : TRUE]

Power(x, nu) ==
  LET w(t) == FMul(FMul(Two, Pi), FMul(FI(t), nu))
  IN FAdd(FSq(FDot(x, Vec(Len(x), LAMBDA t : FCos(w(t))))),
          FSq(FDot(x, Vec(Len(x), LAMBDA t : FSin(w(t))))))

Verdict(st, e) ==
  CASE
  (*------------------------------- C20 ---------------------------------*)
       e.ev = "numsrc" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         ChkIf(e.S # <<>>, Spectrum(e.S, e.V, e.w), "Driver")
         \cup ChkIf(Counted(e), e.fold * e.out = NumSources(e.w, Threshold(e)), "SourceCount")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "separate" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET L == Len(e.S)
             n == IF e.cut >= 0 THEN e.fold * e.cut ELSE NumSources(e.w, FAdd(One, FQ(2, Size(e))))
             floor == e.w[L - n]
             noise == Vec(L, LAMBDA i : IF i > L - n THEN floor ELSE e.w[i])
             sig == Vec(L, LAMBDA i : IF i > L - n THEN FSub(e.w[i], floor) ELSE Zero)
             tol == FMul(T8, FMax(One, MaxAbs(e.w)))
         IN Chk(Spectrum(e.S, e.V, e.w), "Driver")
            \cup Chk(MNear(MAdd(e.pp, e.nn), e.S, tol), "SumsToInput")
            \cup ChkIf(e.cut >= 0 \/ (Clear(e.w, FAdd(One, FQ(2, Size(e)))) /\ Counted([w |-> e.w, a |-> <<>>, fold |-> e.fold])),
                       MNear(e.nn, Compose(e.V, noise), tol) /\ MNear(e.pp, Compose(e.V, sig), tol), "Subspaces")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "music" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET L == Len(e.S)  N == OrderOf(Size(e))  T == Transpose(e.V)
         IN Chk(Spectrum(e.S, e.V, e.w), "Driver")
            \cup Chk(Len(e.out) = Len(e.azi) /\ \A i \in 1..Len(e.azi) :
                 LET y == Folded(e, RealSH(N, Sph2Cart(e.azi[i], e.zen[i], One)))
                     s == FSum(Vec(L - e.fold * e.n, LAMBDA q : FSq(FDot(T[q], y))))
                 IN FLt(Zero, e.out[i]) /\ FNear(FDiv(One, e.out[i]), s, T8), "NoiseSubspaceDistance")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "mvdr" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET N == OrderOf(Size(e))
         IN Chk(IsShape(e.out, Len(e.azi), Len(e.S)), "Shape")
            \cup Chk(\A i \in 1..Len(e.azi) :
                 LET y == Folded(e, RealSH(N, Sph2Cart(e.azi[i], e.zen[i], One)))
                 IN FNear(FDot(e.out[i], y), One, T8)
                    /\ (e.fold = 2 => FNear(FDot(e.out[i], Turned(SubSeq(y, 1, Size(e)))), Zero, T8)), "Distortionless")
            \* stationary: S w is a multiple of y, and that multiple is the output power
            \cup Chk(\A i \in 1..Len(e.azi) :
                 LET y == Folded(e, RealSH(N, Sph2Cart(e.azi[i], e.zen[i], One)))
                 IN VNearRel(MatVec(e.S, e.out[i]), VScale(QuadForm(e.S, e.out[i]), y), T7), "MinimumVariance")
            \* no perturbation within the constraint does better
            \cup Chk(\A i \in 1..Len(e.azi) : \A z \in ToSet(e.other) :
                 LET y == Folded(e, RealSH(N, Sph2Cart(e.azi[i], e.zen[i], One)))
                     w == VScale(FDiv(One, FDot(z, y)), z)
                 IN FLe(FAbs(FDot(z, y)), FQ(1, 20)) \/
                    FLe(QuadForm(e.S, e.out[i]), FAdd(QuadForm(e.S, w), T7)), "MinimumVariance")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "lcmv" ->
         IF Len(e.c) # Len(e.azi) \/ Len(e.zen) # Len(e.azi) THEN Chk(e.exc # "", "RefusesCount")
         ELSE IF e.exc # "" THEN {"Raised"} ELSE
         LET N == OrderOf(Size(e))
             Y == Vec(Len(e.azi), LAMBDA i : RealSH(N, Sph2Cart(e.azi[i], e.zen[i], One)))
         IN Chk(Len(e.out) = Len(e.S), "Shape")
            \cup Chk(VNear(MatVec(Y, SubSeq(e.out, 1, Size(e))), e.c, T8)
                   /\ (e.fold = 2 => VNear(MatVec(Y, SubSeq(e.out, Size(e) + 1, 2 * Size(e))), VScale(Zero, e.c), T8)), "Constraints")
            \* stationary: S w lies in the span of the constraints (multipliers logged)
            \cup Chk(VNearRel(MatVec(e.S, e.out), IF e.fold = 1 THEN MatVec(Transpose(Y), e.mu)
                   ELSE MatVec(Transpose(Y), SubSeq(e.mu, 1, Len(Y))) \o MatVec(Transpose(Y), SubSeq(e.mu, Len(Y) + 1, 2 * Len(Y))), T7), "MinimumVariance")
            \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C32 ---------------------------------*)
    [] e.ev = "intensity" ->
         IF e.win % 2 = 0 \/ (e.smooth > 0 /\ e.smooth % 2 = 0) THEN Chk(e.exc # "", "RefusesEvenLength")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(Len(e.azi) = Len(e.W) /\ Len(e.zen) = Len(e.W) /\ Len(e.r) = Len(e.W), "Shape")
              \cup Chk(IsIntensity(e, FALSE) \/ IsIntensity(e, TRUE), "Intensity")
              \cup Chk(e.same, "ArgumentsKept")
    \* the direction found where the field is that of one plane wave
    [] e.ev = "doa" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.at) > 0, "Driver")
         \cup Chk(\A i \in 1..Len(e.at) :
                FGe(FDot(Sph2Cart(e.azi[i], e.zen[i], One), e.v), FSub(One, e.tol)), "ArrivesFrom")
  (*------------------------------- C33 ---------------------------------*)
    [] e.ev = "stereosdm" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.l) = Len(e.p) /\ Len(e.r) = Len(e.p) /\ \A i \in 1..Len(e.p) :
               LET s == FSin(e.phi[i])
               IN /\ FNear(e.l[i], FMul(FMul(Half, e.p[i]), FAdd(One, s)), T9)
                  /\ FNear(e.r[i], FMul(FMul(Half, e.p[i]), FSub(One, s)), T9), "StereoLaw")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "bsdm" ->          \* every sample rendered by its nearest response
         IF e.exc # "" THEN {"Raised"} ELSE
         LET g == Vec(Len(e.gazi), LAMBDA i : Sph2Cart(e.gazi[i], e.gzen[i], One))
             m == Len(e.hl[1])
             decided == \A i \in 1..Len(e.p) : e.p[i] = Zero \/
                          Cardinality(H!Closest(g, Sph2Cart(e.phi[i], e.theta[i], One), T8)) = 1
             ear(irs) == FoldLeft(LAMBDA acc, i :
                           IF e.p[i] = Zero THEN acc
                           ELSE LET h == NearestResponse(g, irs, e.phi[i], e.theta[i])
                                IN Vec(Len(acc), LAMBDA t : IF t < i \/ t > i + m - 1 THEN acc[t]
                                                            ELSE FAdd(acc[t], FMul(e.p[i], h[t - i + 1]))),
                         ZeroVec(Len(e.p) + m - 1), Vec(Len(e.p), LAMBDA i : i))
         IN ChkIf(decided, VNear(e.l, ear(e.hl), T8) /\ VNear(e.r, ear(e.hr), T8), "Rendered")
            \cup Chk(Len(e.l) = Len(e.p) + m - 1 /\ Len(e.r) = Len(e.l), "Shape")
            \cup Chk(e.same, "ArgumentsKept")
    \* loudspeaker rendering: what the post equaliser and the binauralizer saw
    [] e.ev = "lssdm" ->
         IF Len(e.gains) # Len(e.p) THEN Chk(e.exc # "", "RefusesGainCount")
         ELSE IF e.exc # "" THEN {"Raised"} ELSE
         LET sigs == Transpose(Vec(Len(e.p), LAMBDA i : VScale(e.p[i], e.gains[i])))
         IN ChkIf(e.mode = "custom", e.eqcalls = 1 /\ MNear(e.eqin, sigs, T9) /\ VNear(e.eqp, e.p, T9)
                            /\ e.eqfs = e.fs /\ e.eqsetup /\ e.eqkw, "EqualiserInput")
            \* the default equaliser is the library's own, its output is logged
            \cup Chk(e.bincalls = 1 /\ e.binfs = e.fs
                     /\ MNear(e.binin, IF e.mode = "none" THEN sigs ELSE e.eqout, T9), "BinauralInput")
            \cup Chk(e.passed, "EarsReturned")
            \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C34 ---------------------------------*)
    \* impulses at known places: first equaliser, one event per signal family;
    \* base holds what each distinct band contributes to a unit impulse
    [] e.ev = "eq1" ->
         LET J == Len(e.base)
         IN Chk(\A r \in 1..Len(e.runs) : e.runs[r].exc = "", "Raised")
            \cup Chk(\A r \in 1..Len(e.runs) : e.runs[r].exc = "" => e.runs[r].same, "ArgumentsKept")
            \* without correction the bands add up to the signal itself
            \cup Chk(\A t \in 1..Len(e.base[1]) :
                   FNear(FSum(Vec(J, LAMBDA j : e.base[j][t])), IF t = e.t0 THEN One ELSE Zero, T6), "BandsComplete")
            \* and they are told apart by where they pass: 0, 62.5, 125 Hz, above
            \cup Chk(J = 4 /\ \A q \in 1..4 :
                   LET P(j) == Power(e.base[j], FDiv(e.freq[q], e.fs))
                   IN \A j \in 1..4 : j = q \/ FLt(P(j), P(q)), "BandOrder")
            \cup Chk(\A r \in 1..Len(e.runs) : LET run == e.runs[r]
                   IN run.exc = "" => /\ Len(run.out) = Len(run.amp)
                       /\ \A k \in 1..Len(run.amp) : \A t \in 1..Len(e.base[1]) :
                          FNear(run.out[k][t],
                                FMul(run.amp[k], FSum(Vec(J, LAMBDA j : FMul(Gain1(run, run.g, run.amp, j), e.base[j][t])))), T6), "BandGains")
    [] e.ev = "eqsilent" ->
         IF e.exc # "" THEN {"Raised"} ELSE Chk(e.zero /\ e.shape, "Silence")
    \* any signals: scaled together, signs turned, loudspeakers exchanged
    [] e.ev = "eqsym" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.b) = Len(e.a) /\ \A k \in 1..Len(e.perm) :
               VNear(e.b[k], VScale(e.c, e.a[e.perm[k]]), FMul(T7, FMax(One, FAbs(e.c)))), "Covariant")
         \cup Chk(e.finite /\ e.shape, "Finite")
    \* second equaliser: returned gains and applied gains
    [] e.ev = "eq2" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET K == NBlocks(e)
             want(j) == Smoothed(e.smooth, Raw(e, j), <<>>)
             w1 == want(1)  w2 == want(2)  w3 == want(3)  w4 == want(4)
             w(j) == IF j = 1 THEN w1 ELSE IF j = 2 THEN w2 ELSE IF j = 3 THEN w3 ELSE w4
             nb == Len(e.gains)
         IN Chk(nb = IF K > 4 THEN K - 4 ELSE 0, "BlockCount")
            \cup Chk(\A j \in 1..(IF nb = 0 THEN 0 ELSE Len(e.gains[1])) :
                   \/ \A k \in 1..nb : FNear(e.gains[k][j], w(j)[k + 2], T7)
                   \* a band without a single frequency bin never changes anything
                   \/ \A k \in 1..nb : e.gains[k][j] = One, "ReturnedGains")
            \* where all bands have one gain, the output is that gain times the input
            \cup ChkIf(e.single, \A q \in 1..Len(e.at) :
                   LET G == FSum(Vec(K, LAMBDA k : FMul(BlockWin(e, k, e.at[q]), w4[k])))
                   IN \A k \in 1..Len(e.amp[q]) : \A i \in 1..Len(e.out[q][k]) :
                        FNear(e.out[q][k][i], FMul(G, e.unity[q][k][i]), T7), "AppliedGains")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "eq2gains" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET K == NBlocks(e)  D == Lines(e)
             raw == Vec(K, LAMBDA k : RawAny(e, D, k))
             nb == Len(e.gains)
         IN Chk(nb = IF K > 4 THEN K - 4 ELSE 0, "BlockCount")
            \cup Chk(\A j \in 1..Len(e.bank) :
                   LET w == Smoothed(e.smooth, Vec(K, LAMBDA k : raw[k][j]), <<>>)
                   IN \A k \in 1..nb : FNear(e.gains[k][j], w[k + 2], T6), "ReturnedGains")
    [] OTHER -> {"UnknownEvent"}

VARIABLES t, l
TraceInit == t \in 1..Len(Log) /\ l = 1
TraceNext == /\ l <= Len(Log[t])
             /\ Report(t, l, Verdict(<<>>, Log[t][l]))
             /\ l' = l + 1 /\ t' = t
=============================================================================
