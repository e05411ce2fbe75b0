-------------------------------- MODULE Proc --------------------------------
(***************************************************************************)
(* Spectral tools: fractional octave bands and smoothing, resampling,      *)
(* levels and decay, tapers and delays, scattering on a rigid sphere.      *)
(***************************************************************************)
EXTENDS Geo

Root(x, q) == FExp(FDiv(FLn(x), q))            \* x^(1/q), q > 0 a real
Octave(n, halves) ==                           \* 2^(halves / 2n)
  FExp(FDiv(FMul(FI(halves), FLn(Two)), FI(2 * n)))

(*------------------------- fractional octave bands ----------------------*)
(* edge b = 1, 2, ... lies half a band below the b-th centre              *)
Centre(e, b) == FMul(e.flow, Octave(e.n, 2 * (b - 1)))
Edge(e, b) == FMul(e.flow, Octave(e.n, 2 * b - 3))
Limit(e) == LET ny == FI(e.fs \div 2) IN IF e.fhigh = <<>> THEN ny ELSE FMin(e.fhigh, ny)
RECURSIVE EdgeCount(_, _)
EdgeCount(e, b) == IF FLt(Edge(e, b + 1), Limit(e)) THEN EdgeCount(e, b + 1) ELSE b
DftLen(e) == 2 * (e.nout - 1)
Round(x) == FFloor(FAdd(x, Half))                            \* away from ties
Start(e, b) == FDiv(FMul(FI(DftLen(e)), Edge(e, b)), FI(e.fs))
Width(e, b) == FMul(e.overlap, FDiv(FMul(FI(DftLen(e)), FSub(Centre(e, b), Edge(e, b))), FI(e.fs)))
Off(x) == ~FNear(x, FI(Round(x)), Tol(5))            \* not an integer
NotTie(x) == ~FNear(FSub(x, FI(FFloor(x))), Half, Tol(5))
RECURSIVE Steepen(_, _)
Steepen(x, l) == IF l = 0 THEN x ELSE Steepen(FSin(FMul(FDiv(Pi, Two), x)), l - 1)
(* rise over a transition centred at line kc, p lines to either side       *)
Rise(k, kc, p, l) ==
  IF k < kc - p THEN Zero ELSE IF k > kc + p \/ p = 0 THEN One
  ELSE FSin(FMul(FDiv(Pi, FI(4)), FAdd(One, Steepen(FQ(k - kc, p), l))))
Fall(k, kc, p, l) ==
  IF k < kc - p THEN One ELSE IF k > kc + p \/ p = 0 THEN Zero
  ELSE FCos(FMul(FDiv(Pi, FI(4)), FAdd(One, Steepen(FQ(k - kc, p), l))))
BandGains(e, nb) ==           \* nb edges, nb + 1 bands
  LET kc == Vec(nb, LAMBDA b : FFloor(Start(e, b)))
      p == Vec(nb, LAMBDA b : Round(Width(e, b)))
      pw(x) == IF e.mode = "energy" THEN x ELSE FSq(x)
  IN Vec(nb + 1, LAMBDA b : Vec(e.nout, LAMBDA k :
       LET up == IF b = 1 THEN One ELSE Rise(k - 1, kc[b - 1], p[b - 1], e.slope)
           down == IF b = nb + 1 THEN One ELSE Fall(k - 1, kc[b], p[b], e.slope)
       IN pw(FMul(up, down))))
BankDecided(e, nb) ==
  /\ ~FNearRel(Edge(e, nb + 1), Limit(e), Tol(7))
  /\ nb = 1 \/ ~FNearRel(Edge(e, nb), Limit(e), Tol(7))
  /\ \A b \in 1..nb : Off(Start(e, b)) /\ NotTie(Width(e, b))

(*------------------------------ smoothing -------------------------------*)
Ceil(x) == -FFloor(FNeg(x))
Hamming(M) == Vec(M, LAMBDA i : IF M = 1 THEN One
  ELSE FSub(FQ(54, 100), FMul(FQ(46, 100), FCos(FDiv(FMul(FI(2 * (i - 1)), Pi), FI(M - 1))))))
(* weighted mean over one n-th octave around line i = 0, 1, ...           *)
SmoothAt(a, n, weighted, i) ==
  LET N == Len(a)  r == Octave(n, 1)
      lo == FFloor(FDiv(FI(i), r))
      hi == LET h == Ceil(FMul(FI(i), r)) IN IF h < 1 THEN 1 ELSE IF h > N THEN N ELSE h
      w == IF weighted THEN Hamming(hi - lo) ELSE Vec(hi - lo, LAMBDA q : One)
  IN FDiv(FDot(w, SubSeq(a, lo + 1, hi)), FSum(w))

(*---------------------- spherical Bessel functions ----------------------*)
(* j (n < z) and y by upward recurrence, j (n >= z) by its power series    *)
RECURSIVE Upward(_, _, _)
Upward(z, N, acc) ==          \* acc = <<f_0, f_1, ...>>
  LET n == Len(acc) - 1
  IN IF n >= N THEN acc
     ELSE Upward(z, N, Append(acc, FSub(FMul(FDiv(FI(2 * n + 1), z), acc[n + 1]), acc[n])))
Y0(z) == FNeg(FDiv(FCos(z), z))
Y1(z) == FNeg(FAdd(FDiv(FCos(z), FSq(z)), FDiv(FSin(z), z)))
J0(z) == FDiv(FSin(z), z)
J1(z) == FSub(FDiv(FSin(z), FSq(z)), FDiv(FCos(z), z))
YAll(z, N) == IF N = 0 THEN <<Y0(z)>> ELSE Upward(z, N, <<Y0(z), Y1(z)>>)
JUp(z, N) == IF N = 0 THEN <<J0(z)>> ELSE Upward(z, N, <<J0(z), J1(z)>>)
RECURSIVE JTerms(_, _, _, _, _)
JTerms(n, z2, k, term, sum) ==       \* z2 = z^2 / 2
  IF k > 60 \/ term = Zero THEN sum
  ELSE LET t == FNeg(FDiv(FMul(term, z2), FI(k * (2 * n + 2 * k + 1))))
       IN JTerms(n, z2, k + 1, t, FAdd(sum, t))
RECURSIVE JLead(_, _)
JLead(n, z) == IF n = 0 THEN One ELSE FMul(JLead(n - 1, z), FDiv(z, FI(2 * n + 1)))
JSeries(n, z) == LET a == JLead(n, z) IN JTerms(n, FDiv(FSq(z), Two), 1, a, a)
J(n, z) == IF FLe(z, FI(n)) \/ FLe(z, One) THEN JSeries(n, z) ELSE JUp(z, n)[n + 1]
(* derivative: f_n' = (n/z) f_n - f_n+1 *)
JD(n, z) == FSub(FMul(FDiv(FI(n), z), J(n, z)), J(n + 1, z))
YD(n, z) == LET y == YAll(z, n + 1) IN FSub(FMul(FDiv(FI(n), z), y[n + 1]), y[n + 2])
(* squared modulus of the derivative of h2, all orders 0..N (j only needs  *)
(* an accuracy relative to y here)                                         *)
HD2All(z, N) ==
  LET y == YAll(z, N + 1)  j == JUp(z, N + 1)
      d(f, n) == FSub(FMul(FDiv(FI(n), z), f[n + 1]), f[n + 2])
  IN Vec(N + 1, LAMBDA i : FAdd(FSq(d(y, i - 1)), FSq(d(j, i - 1))))
(* a plane wave scattered by a rigid sphere: |b_n| = 4 pi / (z^2 |h_n'|)   *)
RigidPower(z, N) ==
  LET h == HD2All(z, N)  c == FSq(FDiv(FMul(FI(4), Pi), FSq(z)))
  IN Vec(N + 1, LAMBDA i : FDiv(c, h[i]))
DiffusePressure(z, N, w) ==
  LET b == RigidPower(z, N)
  IN FDiv(FSqrt(FSum(Vec(N + 1, LAMBDA i : FMul(w[i], FMul(FI(2 * i - 1), b[i]))))),
          FMul(FI(4), Pi))
Ones(n) == Vec(n, LAMBDA i : One)

(*---------------------------- spectrum lines ----------------------------*)
(* DFT of x at f / M of the sampling rate, as <<re, im>>                   *)
Dft(x, f, M) ==
  LET ph == Vec(Len(x), LAMBDA t : FDiv(FMul(FI(2 * ((f * (t - 1)) % M)), Pi), FI(M)))
  IN <<FDot(x, Vec(Len(x), LAMBDA t : FCos(ph[t]))),
       FNeg(FDot(x, Vec(Len(x), LAMBDA t : FSin(ph[t]))))>>
Mod2(z) == FAdd(FSq(z[1]), FSq(z[2]))

MeanSquare(x) == FDiv(Norm2(x), FI(Len(x)))
SoftClip(m) == IF FLe(m, One) THEN m
               ELSE LET x == FExp(FMul(Two, FSub(m, One)))      \* 1 + tanh(m - 1)
                    IN FAdd(One, FDiv(FSub(x, One), FAdd(x, One)))
=============================================================================
