----------------------------- MODULE TraceProc -----------------------------
(* Recorded calls of the spectral and level tools, of interaural measures  *)
(* and of the rigid sphere model, judged by Proc.tla.                       *)
EXTENDS Proc, Trace

T9 == Tol(9)
T8 == Tol(8)
T7 == Tol(7)
T6 == Tol(6)
Ln10 == FLn(FI(10))
FromDb(d, power) == FExp(FDiv(FMul(d, Ln10), FI(IF power THEN 10 ELSE 20)))
Scaled(x) == FMul(T8, FMax(One, FAbs(x)))
Rms(x) == FSqrt(MeanSquare(x))
Column(A, c) == Vec(Len(A), LAMBDA i : A[i][c])
HalfHann(N) ==
  LET M == (N + 1) \div 2
  IN Vec(N + 1, LAMBDA i : LET q == i - (N + 1 - (M - 1))     \* 1 .. M-1 in the taper
       IN IF q < 1 THEN One ELSE FMul(Half, FAdd(One, FCos(FDiv(FMul(FI(q), Pi), FI(M))))))
(* all powers of (n - d) but the zeroth vanish: exact on polynomials       *)
Moment(h, d, q) == FSum(Vec(Len(h), LAMBDA i : FMul(h[i], FPow(FSub(FI(i - 1), d), q))))
MomentSize(h, d, q) == FSum(Vec(Len(h), LAMBDA i : FAbs(FMul(h[i], FPow(FSub(FI(i - 1), d), q)))))
(* numerator and denominator apart: quotients of partial products would lose
   the precision of the numbers                                            *)
RECURSIVE LagrangeProd(_, _, _, _)
LagrangeProd(N, n, d, k) ==
  IF k > N THEN One ELSE IF k = n THEN LagrangeProd(N, n, d, k + 1)
  ELSE FMul(FSub(d, FI(k)), LagrangeProd(N, n, d, k + 1))
LagrangeAt(N, n, d) == FDiv(LagrangeProd(N, n, d, 0), LagrangeProd(N, n, FI(n), 0))
Wave(e, c, t) == FMul(e.amp[c], FCos(FAdd(e.phase[c], FDiv(FMul(FMul(FI(2), Pi), FMul(e.freq[c], FI(t))), FI(e.fs2)))))
Interleaved(l, r) == Vec(2 * Len(l), LAMBDA i : IF i % 2 = 1 THEN l[(i + 1) \div 2] ELSE r[i \div 2])
MulPair(a, b) == <<FSub(FMul(a[1], b[1]), FMul(a[2], b[2])), FAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
PulseLen(e) == e.non + e.noff
Pulse(e, x, r) == SubSeq(x, r * PulseLen(e) + 1, r * PulseLen(e) + e.non)
FadeAt(e, i) ==                         \* i = 1 .. non
  LET a == IF i <= e.nfade THEN FSq(FSin(FDiv(FMul(FI(i - 1), Pi), FI(2 * (e.nfade - 1))))) ELSE One
      j == e.non - i
      b == IF j < e.nfade THEN FSq(FSin(FDiv(FMul(FI(j), Pi), FI(2 * (e.nfade - 1))))) ELSE One
  IN FMul(a, b)

Verdict(st, e) ==
  CASE
  (*------------------------------- C35 ---------------------------------*)
       e.ev = "bank" ->
         IF e.refuse THEN Chk(e.exc # "", "Refused") ELSE
         IF e.exc # "" THEN {"Raised"} ELSE
         LET nb == EdgeCount(e, 1)  R == Len(e.g)
         IN Chk(\A b \in 1..R : Len(e.g[b]) = e.nout /\ \A k \in 1..e.nout :
                  FLe(Zero, e.g[b][k]) /\ FLe(e.g[b][k], FAdd(One, T9)), "Shape")
            \* the gains (their squares) of all bands add up to one everywhere
            \cup Chk(\A k \in 1..e.nout :
                  FNear(FSum(Vec(R, LAMBDA b : IF e.mode = "energy" THEN FSq(e.g[b][k]) ELSE e.g[b][k])), One, T9), "Complete")
            \* the first edge is half a band below f_low, the bands 1/n octave wide, up to fs/2
            \cup ChkIf(BankDecided(e, nb),
                  /\ R = nb + 1 /\ Len(e.ff) = R
                  /\ e.ff[1][1] = Zero /\ FNearRel(e.ff[R][3], FDiv(FI(e.fs), Two), T9)
                  /\ \A b \in 1..nb : FNearRel(e.ff[b][3], Edge(e, b), T9) /\ FNearRel(e.ff[b + 1][1], Edge(e, b), T9)
                  /\ \A b \in 2..nb : FNearRel(e.ff[b][2], Centre(e, b - 1), T9)
                  /\ FNearRel(FSq(e.ff[R][2]), FMul(e.ff[R][1], e.ff[R][3]), T9), "Frequencies")
            \cup ChkIf(BankDecided(e, nb) /\ R = nb + 1, MNear(e.g, BandGains(e, nb), T8), "Gains")
    [] e.ev = "smooth" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.a) /\ \A p \in 1..Len(e.a) :
               VNear(e.out[p], Vec(Len(e.a[p]), LAMBDA i : SmoothAt(e.a[p], e.n, e.weighted, i - 1)),
                     FMul(T9, FMax(One, MaxAbs(e.a[p])))), "OctaveMean")
         \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C36 ---------------------------------*)
    \* tones stay tones: channel by channel, in time and amplitude
    [] e.ev = "resample" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(e.shape = e.want, "Shape")
         \cup Chk(\A c \in 1..Len(e.freq) : Len(e.out[c]) = Len(e.at) /\
               \A i \in 1..Len(e.at) : FNear(e.out[c][i], Wave(e, c, e.at[i]), e.tol), "ToneKept")
         \cup Chk(e.same, "ArgumentsKept")
    \* signals resampled together are resampled like each alone
    [] e.ev = "alone" ->
         IF e.exc # "" THEN {"Raised"}
         ELSE Chk(MNear(e.out, e.each, T9), "ChannelsIndependent") \cup Chk(e.fsout, "Rate")
    \* a short pulse: its spectrum at the new rate, up to the lower band limit
    [] e.ev = "respec" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(e.shape = e.want, "Shape")
         \cup Chk(\A q \in 1..Len(e.lines) : LET z == Dft(e.pulse, e.lines[q], Len(e.pulse))
               IN FNear(e.out[q][1], z[1], e.tol) /\ FNear(e.out[q][2], z[2], e.tol), "SpectrumKept")
         \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C37 ---------------------------------*)
    [] e.ev = "db" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.x) /\ \A i \in 1..Len(e.x) :
               IF e.x[i] = Zero THEN e.minus[i]
               ELSE FNear(FromDb(e.out[i], e.power), FAbs(e.x[i]), Scaled(e.x[i])), "Decibel")
         \cup Chk(e.same, "ArgumentsKept")
    \* far down and back again
    [] e.ev = "dbback" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(VNear(e.out, e.x, FMul(T7, MaxAbs(e.x))), "ThereAndBack")
    [] e.ev = "fromdb" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.x) /\ \A i \in 1..Len(e.x) :
               FNear(e.out[i], FromDb(e.x[i], e.power), Scaled(e.out[i])), "Ratio")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "rms" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.re) /\ \A i \in 1..Len(e.re) :
               FNear(e.out[i], FSqrt(FAdd(MeanSquare(e.re[i]), MeanSquare(e.im[i]))), Scaled(e.out[i])), "RootMeanSquare")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "levels" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.x) /\ \A b \in 1..Len(e.x) :
               LET p == FMul(FDiv(FI(e.fs), FMul(Two, e.width[b])), Norm2(e.x[b]))
               IN IF e.power THEN FNear(e.out[b], FDiv(p, FI(Len(e.x[b]))), Scaled(p))
                  ELSE FNear(e.out[b], FSqrt(p), Scaled(p)), "SubbandLevel")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "decay" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET all == Norm2(e.p)  n == Len(e.p)
         IN Chk(Len(e.out) = n /\ \A i \in 1..n :
                LET rest == Norm2(SubSeq(e.p, i, n))
                IN IF FLt(rest, FMul(all, Tol(12))) \/ FLt(rest, T7) THEN TRUE
                   ELSE FNear(FMul(FromDb(e.out[i], TRUE), all), rest, FMul(T8, all))
                        /\ FNear(FAdd(FDiv(FMul(e.out[i], Ln10), FI(10)), FLn(all)), FLn(rest), Tol(3)), "RemainingEnergy")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "loud" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET L(A) == VMax(Vec(Len(A[1]), LAMBDA c : Rms(Column(A, c))))
             s == FDiv(L(e.target), L(e.x))
             peak == FMul(s, VMax(Vec(Len(e.x), LAMBDA i : MaxAbs(e.x[i]))))
             k == IF FLt(One, peak) THEN FDiv(s, peak) ELSE s
         IN Chk(Len(e.out) = Len(e.x) /\ \A i \in 1..Len(e.x) : VNear(e.out[i], VScale(k, e.x[i]), T8), "MatchedOrFull")
            \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "clipgain" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.g) /\ \A i \in 1..Len(e.g) :
               FNear(e.out[i], FMul(e.thr, SoftClip(FDiv(e.g[i], e.thr))), Scaled(e.g[i])), "SoftLimit")
         \cup Chk(e.shaped, "Shape")
         \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C38 ---------------------------------*)
    [] e.ev = "lagrange" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.h) = e.N + 1, "Shape")
         \* long filters, whose outer taps are below the precision of the log
         \cup ChkIf(Len(e.h) = e.N + 1, \A n \in 0..e.N : FNearRel(e.h[n + 1], LagrangeAt(e.N, n, e.d), T7), "Interpolates")
         \cup ChkIf(e.N <= 11, FNear(FSum(e.h), One, FMul(T8, MomentSize(e.h, e.d, 0)))
                  /\ \A q \in 1..e.N : FNear(Moment(e.h, e.d, q), Zero, FMul(T8, FMax(One, MomentSize(e.h, e.d, q)))), "DelaysPolynomials")
    [] e.ev = "halfhann" ->
         IF e.N < 3 THEN Chk(e.exc # "", "Refused") ELSE
         IF e.exc # "" THEN {"Raised"} ELSE Chk(VNear(e.out, HalfHann(e.N), T9), "Taper")
    [] e.ev = "pulse" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET n == e.reps * PulseLen(e)
         IN Chk(Len(e.out) = n, "Duration")
            \cup ChkIf(Len(e.out) = n, \A r \in 0..(e.reps - 1) : \A i \in (e.non + 1)..PulseLen(e) :
                    e.out[r * PulseLen(e) + i] = Zero, "Pause")
            \cup ChkIf(Len(e.out) = n, \A r \in 0..(e.reps - 1) : Norm2(Pulse(e, e.out, r)) # Zero
                    /\ \A s \in 0..(r - 1) : Pulse(e, e.out, r) # Pulse(e, e.out, s), "Independent")
            \cup ChkIf(e.normalize, FNear(MaxAbs(e.out), One, T9), "Normalised")
            \* the same seed without fades (raw), and without colour (white)
            \cup ChkIf(e.repro /\ Len(e.out) = n /\ e.nfade # 1,
                    \A r \in 0..(e.reps - 1) : LET p == Pulse(e, e.out, r)  q == Pulse(e, e.raw, r)
                      IN \A i \in 1..e.non : FNear(FMul(e.gain, p[i]), FMul(FadeAt(e, i), q[i]), T7), "Fades")
            \cup ChkIf(e.repro /\ e.pink /\ Len(e.raw) = n,
                    \A r \in 0..(e.reps - 1) : \A k \in 0..((e.non - 1) \div 2) :
                      LET a == Dft(Pulse(e, e.raw, r), k, e.non)  b == Dft(Pulse(e, e.white, r), k, e.non)
                      IN FNear(FMul(Mod2(a), FI(k + 1)), Mod2(b), FMul(T6, FMax(One, Mod2(b)))), "Pink")
    [] e.ev = "stack" ->
         IF e.refuse THEN Chk(e.exc # "", "Refused") ELSE
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(MNear(e.out, IF e.down THEN e.a \o e.b ELSE Vec(Len(e.a), LAMBDA i : e.a[i] \o e.b[i]), Zero), "Stacked")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "as1d" ->
         IF Cardinality({i \in 1..Len(e.shape) : e.shape[i] # 1}) > 1 THEN Chk(e.exc # "", "Refused")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(e.out = e.flat /\ Len(e.outshape) = 1, "Flat")
    [] e.ev = "interleave" ->
         IF e.sizes # <<>> \/ (e.ssr /\ Len(e.l) # 360) THEN Chk(e.exc # "", "Refused") ELSE
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(e.out = Interleaved(e.l, e.r), "Interleaved") \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "diff" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(FNear(e.out, FSum(Vec(Len(e.a), LAMBDA i : FAbs(FSub(e.a[i], e.b[i])))), T9), "CumulativeDifference")
         \cup Chk(e.spoke, "SaysSo")
  (*------------------------------- C39 ---------------------------------*)
    \* right ear = gain times left ear, per direction
    [] e.ev = "ildgain" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.gain) /\ \A i \in 1..Len(e.gain) :
               IF e.todb THEN FNear(FMul(FromDb(e.out[i], FALSE), FAbs(e.gain[i])), One, T6)
               ELSE FNear(e.out[i], FMul(FSub(One, FAbs(e.gain[i])), e.level[i]), T7), "LeftOverRight")
         \cup Chk(e.todb \/ \A i \in 1..Len(e.gain) : FLt(Zero, e.level[i]), "SilentRightEar")
         \cup Chk(e.same, "ArgumentsKept")
    \* only what lies within the cutoff frequencies counts
    [] e.ev = "ildband" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.gain) /\ \A i \in 1..Len(e.gain) :
               LET x == FMul(FromDb(e.out[i], FALSE), FAbs(e.gain[i]))
               IN FLe(FQ(9, 10), x) /\ FLe(x, FQ(10, 9)), "BandOnly")
    \* a tone in the left ear next to one both have: energies add up
    [] e.ev = "ildinband" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = e.n /\ \A i \in 1..Len(e.out) :
               LET x == FSub(FSq(FromDb(e.out[i], FALSE)), One)
               IN FLe(FDiv(FSq(e.tone), Two), x) /\ FLe(x, FMul(FQ(115, 100), FSq(e.tone))), "WholeBand")
    \* ears exchanged, both scaled, directions permuted
    [] e.ev = "earswap" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(VNear(e.swapped, VNeg(e.out), FMul(T7, FMax(One, MaxAbs(e.out)))), "SwapNegates")
         \cup Chk(VNear(e.scaled, VScale(e.factor, e.out), FMul(T7, FMax(One, MaxAbs(e.out)))), "ScaleFactor")
         \cup Chk(VNear(e.permuted, Vec(Len(e.perm), LAMBDA i : e.out[e.perm[i]]), FMul(T7, FMax(One, MaxAbs(e.out)))), "PerDirection")
    \* right ear = left ear later by so many samples
    [] e.ev = "itdlag" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.lag) /\ \A i \in 1..Len(e.lag) :
               \* whole samples are on the upsampled grid
               FNear(FMul(e.out[i], FI(e.fs)), FI(e.lag[i]), FDiv(FQ(1, 10), FI(e.up))), "Lag")
         \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "ctf" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = e.taps, "Shape")
         \cup (CASE e.kind = "flat" ->        \* nothing to equalise
                      Chk(\A t \in 1..Len(e.out) : FNear(e.out[t], IF t = e.peak THEN One ELSE Zero, e.tol), "FlatStays")
               [] e.kind = "like" -> Chk(VNear(e.out, e.other, FMul(T6, FMax(One, MaxAbs(e.other)))), "Invariant")
               \* the equalised common response is level within the limits
               [] e.kind = "invert" ->
                      LET lev(f) == LET ph(x) == Mod2(Dft(x, f, e.nfft))
                                    IN FMul(ph(e.out), ph(e.common))
                      IN Chk(\A q \in 1..Len(e.lines) :
                           LET x == FDiv(lev(e.lines[q]), lev(e.ref))
                           IN FLe(FDiv(One, e.tol), x) /\ FLe(x, e.tol), "Levelled")
                         \* 1 kHz keeps its level, and so does what lies beyond the limits
                         \cup Chk(\A f \in {0, e.ref, e.nfft \div 2} :
                           LET x == Mod2(Dft(e.out, f, e.nfft)) IN FLe(FDiv(One, e.tol), x) /\ FLe(x, e.tol), "LeftAlone"))
         \cup Chk(e.same, "ArgumentsKept")
  (*------------------------------- C40 ---------------------------------*)
    [] e.ev = "hn2" ->           \* h2 = j - i y
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.z) /\ \A i \in 1..Len(e.z) :
               LET z == e.z[i]
                   y == IF e.der THEN YD(e.n, z) ELSE YAll(z, e.n)[e.n + 1]
                   j == IF e.der THEN JD(e.n, z) ELSE J(e.n, z)
                   tol == FMul(T7, FMax(One, FAbs(y)))
               IN FNear(e.out[i][1], j, T7) /\ FNear(e.out[i][2], FNeg(y), tol), "SphericalHankel")
    [] e.ev = "mode" ->          \* log carries b_n / (4 pi i^n)
         IF e.type \notin {"open", "rigid"} THEN Chk(e.exc # "", "Refused") ELSE
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.z) /\ \A i \in 1..Len(e.z) :
               LET z == e.z[i]
               IN IF e.type = "open" THEN FNear(e.out[i][1], J(e.n, z), T7) /\ FNear(e.out[i][2], Zero, T7)
                  ELSE LET y == YD(e.n, z)  j == JD(e.n, z)        \* -i / (z^2 (j' - i y'))
                           m == FMul(FSq(z), FAdd(FSq(j), FSq(y)))
                       IN FNear(e.out[i][1], FDiv(y, m), T7) /\ FNear(e.out[i][2], FNeg(FDiv(j, m)), T7), "ModeStrength")
    [] e.ev = "sphere" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = Len(e.z) /\ \A i \in 1..Len(e.z) :
               FNear(e.out[i], DiffusePressure(e.z[i], e.N, IF e.w = <<>> THEN Ones(e.N + 1) ELSE e.w), T7), "DiffuseField")
         \cup Chk(e.same, "ArgumentsKept")
    \* the order-limited pressure brought to that of the order that holds the field
    [] e.ev = "compensate" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET z == Vec(Len(e.f), LAMBDA i : FMul(FDiv(FMul(FMul(Two, Pi), e.f[i]), FI(343)), e.r))
             full == Ceil(VMax(z))
             w == IF e.w = <<>> THEN Ones(e.N + 1) ELSE e.w
         IN Chk(Len(e.out) = Len(e.f) /\ \A i \in 1..Len(e.f) :
                IF e.f[i] = Zero THEN FNear(e.out[i], One, T9)
                ELSE LET g == FDiv(DiffusePressure(z[i], full, Ones(full + 1)), DiffusePressure(z[i], e.N, w))
                     IN FNear(e.out[i], g, FMul(T6, FMax(One, g))), "Compensates")
            \cup Chk(e.same, "ArgumentsKept")
    [] OTHER -> {"UnknownEvent"}

VARIABLES t, l
TraceInit == t \in 1..Len(Log) /\ l = 1
TraceNext == /\ l <= Len(Log[t])
             /\ Report(t, l, Verdict(<<>>, Log[t][l]))
             /\ l' = l + 1 /\ t' = t
=============================================================================
