----------------------------- MODULE TracePlot ------------------------------
(* What figures show: data read back from the drawn artists, judged        *)
(* against the arguments of the plot call.                                 *)
EXTENDS Proc, Sht, Trace

Ln10 == FLn(FI(10))
FromDb(d) == FExp(FDiv(FMul(d, Ln10), FI(20)))
T7 == Tol(7)  T8 == Tol(8)  T9 == Tol(9)
Size(x) == FMax(One, FAbs(x))
Like(a, b, tol) == FNear(a, b, FMul(tol, Size(b)))
VLike(u, v, tol) == Len(u) = Len(v) /\ VNear(u, v, FMul(tol, FMax(One, MaxAbs(v))))

(*------------------------------- lines -----------------------------------*)
(* a curve shows magnitude m, in dB or as it is *)
Shows(y, m, db) ==
  Len(y) = Len(m) /\ \A i \in 1..Len(m) :
     IF db THEN IF FLt(m[i], Tol(8)) THEN FLt(y[i], FI(-110))
                ELSE IF FLt(m[i], Tol(6)) THEN FLe(FAbs(FSub(y[i], FDb(m[i]))), FQ(1, 10)) ELSE FNear(FromDb(y[i]), m[i], FMul(T8, Size(m[i])))
     ELSE Like(y[i], m[i], T9)
ToDb(m) == Vec(Len(m), LAMBDA i : FDb(m[i]))
(* single sided: everything but the constant is doubled; scale: times N/2  *)
Single(x, scale) ==
  LET N == Len(x)
      g(k) == FMul(IF k = 0 THEN One ELSE Two, IF scale THEN Half ELSE FQ(1, N))
  IN Vec(N \div 2 + 1, LAMBDA i : FMul(g(i - 1), FSqrt(Mod2(Dft(x, i - 1, N)))))
Curve(m, db, smooth) ==
  LET v == IF db THEN ToDb(m) ELSE m
  IN Vec(Len(v), LAMBDA i : SmoothAt(v, smooth, TRUE, i - 1))
Legend(e) == e.labels = <<>> \/
  (Len(e.legend) = Len(e.labels) + (IF e.smooth = 0 THEN 0 ELSE 1) /\ SubSeq(e.legend, 1, Len(e.labels)) = e.labels)
FreqCurves(e, m) ==
  Chk(Len(e.ys) = Len(m) /\ Len(e.xs) = Len(m), "OneCurveEach")
  \cup (IF Len(e.ys) # Len(m) THEN {} ELSE
        Chk(\A k \in 1..Len(m) : VLike(e.xs[k], e.freq, T9), "Frequencies")
        \cup Chk(\A k \in 1..Len(m) :
               IF e.smooth = 0 THEN Shows(e.ys[k], m[k], e.db)
               ELSE VLike(e.ys[k], Curve(m[k], e.db, e.smooth), T8), "Magnitudes"))
  \cup Chk(Legend(e), "Legend")
  \cup Chk(IF e.range = <<>> THEN TRUE ELSE
           LET top == FoldLeft(LAMBDA t, y : FMax(t, VMax(y)), VMax(e.ys[1]), e.ys)
           IN Like(e.ylim[2], top, T8) /\ Like(e.ylim[1], FSub(top, FI(e.range[1])), T8), "Range")

RECURSIVE FromRoots(_, _)
FromRoots(z, acc) ==        \* acc: polynomial, highest power first
  IF z = <<>> THEN acc
  ELSE LET n == Len(acc)
       IN FromRoots(Tail(z), Vec(n + 1, LAMBDA i :
            CAdd(IF i > n THEN <<Zero, Zero>> ELSE acc[i],
                 IF i = 1 THEN <<Zero, Zero>> ELSE CScale(FI(-1), CMul(z[1], acc[i - 1])))))
RootsOf(c, z) ==
  /\ Len(z) = Len(c) - 1
  /\ CVNear(FromRoots(z, << <<c[1], Zero>> >>), CVec(c), FMul(Tol(6), FMax(One, MaxAbs(c))))

(*----------------------------- surfaces ----------------------------------*)
SphAt(kind, N, u) == IF kind = "complex" THEN ComplexSH(N, u) ELSE CVec(RealSH(N, u))
Field(e, u) == CDot(SphAt(e.kind, e.N, u), e.coef)
(* a vertex lies at the magnitude of the function in its direction; close  *)
(* to the centre the direction of a vertex is not its own                  *)
OnSurface(e, v) ==
  LET r == Norm(v)
  IN FLt(r, Tol(3)) \/ FNear(FSqrt(Mod2(Field(e, Unit(v)))), r, FMul(Tol(6), Size(r)))
(* red hues (|phase| > pi/2) or cyan ones                                  *)
Hue(e, f) ==
  LET vals == Vec(Len(f.v), LAMBDA i : IF FLt(Norm(f.v[i]), Tol(3)) THEN <<Zero, Zero>> ELSE Field(e, Unit(f.v[i])))
      clear == Tol(2)
      real(i) == FLt(FMul(FI(20), FAbs(vals[i][2])), FAbs(vals[i][1]))
  IN CASE \A i \in 1..Len(vals) : real(i) /\ FLt(clear, vals[i][1]) -> FLt(f.rgb[1], f.rgb[3])
       [] \A i \in 1..Len(vals) : real(i) /\ FLt(vals[i][1], FNeg(clear)) -> FLt(f.rgb[3], f.rgb[1])
       [] OTHER -> TRUE
Axes6 == << <<One, Zero, Zero>>, <<FI(-1), Zero, Zero>>, <<Zero, One, Zero>>,
            <<Zero, FI(-1), Zero>>, <<Zero, Zero, One>>, <<Zero, Zero, FI(-1)>> >>
(* the surface is there all around: near the six axis directions           *)
AllAround(e) == \A k \in 1..6 :
  LET u == Axes6[k]
  IN FLt(Mod2(Field(e, u)), Tol(2)) \/ \E i \in 1..Len(e.all) : FLt(FQ(9, 10), FDot(Unit(e.all[i]), u))

(*------------------------------- maps ------------------------------------*)
RmsAt(e, azi, zen) ==       \* runs: <<[c, n]>> coefficients held for n samples
  LET y == ShAt(e.kind, e.N, azi, zen)
      w == PerOrder(e.w)
      p(c) == Mod2(CDot(y, Vec(Len(c), LAMBDA q : CScale(w[q], c[q]))))
      n == FoldLeft(LAMBDA s, r : s + r.n, 0, e.runs)
  IN FSqrt(FSum(Vec(Len(e.runs), LAMBDA i : FMul(p(e.runs[i].c), FQ(e.runs[i].n, n)))))
(* a map is interpolated between directions about this far apart           *)
Steps == << <<-1, -1>>, <<-1, 0>>, <<-1, 1>>, <<0, -1>>, <<0, 0>>, <<0, 1>>, <<1, -1>>, <<1, 0>>, <<1, 1>> >>
Nearby(e, p) == LET dz == FQ(15, 100)  da == FDiv(dz, FSin(p.zen))
                IN Vec(9, LAMBDA k : RmsAt(e, FAdd(p.azi, FMul(FI(Steps[k][1]), da)),
                                              FAdd(p.zen, FMul(FI(Steps[k][2]), dz))))
Between(lo, x, hi, tol) == FLe(FSub(lo, tol), x) /\ FLe(x, FAdd(hi, tol))
SameAngle(a, b) == FNear(FCos(a), FCos(b), T9) /\ FNear(FSin(a), FSin(b), T9)
InPi(a) == FLe(FAbs(a), FAdd(Pi, T9))
(* colour table entry (0..255) of x between lo and hi                      *)
Entry(x, lo, hi) == FDiv(FMul(FSub(x, lo), FI(256)), FSub(hi, lo))
IsColour(k, x, lo, hi) ==
  LET t == Entry(x, lo, hi)
  IN FLe(FSub(FMin(t, FI(255)), FQ(21, 10)), FI(k)) /\ FLe(FI(k), FAdd(FMax(Zero, t), FQ(21, 10)))

(*---------------------------- performance --------------------------------*)
Dirs(p) == Vec(Len(p), LAMBDA i : Unit(p[i]))
RE(g, d, a, u) ==           \* energy vector without the distance gains
  LET q == Vec(Len(g), LAMBDA i : FSq(FDiv(g[i], RPow(d[i], a))))
      s == FSum(q)
  IN IF s = Zero THEN <<Zero, Zero, Zero>>
     ELSE Vec(3, LAMBDA k : FDiv(FSum(Vec(Len(g), LAMBDA i : FMul(q[i], u[i][k]))), s))
PerfAt(e, s) ==
  LET u == Dirs(e.pts)
      rE == RE(s.g, e.d, e.a, u)  m == Norm(rE)
      v == Sph2Cart(s.azi, s.zen, One)
      rad(x) == FDiv(FMul(x, Pi), FI(180))
  IN Chk(Like(s.val[1], FSum(s.g), T8), "Amplitude")
     \cup Chk(Like(s.val[2], Norm2(s.g), T8), "Energy")
     \cup Chk(FNear(FCos(FMul(Half, rad(s.val[3]))), FMin(One, m), T7) /\ Between(Zero, s.val[3], FI(180), T7), "Spread")
     \cup ChkIf(FLt(Tol(2), m), FNear(FMul(FCos(rad(s.val[4])), m), FDot(rE, v), T7)
                /\ Between(Zero, s.val[4], FI(180), T7), "AngularError")

(*------------------------------ verdicts ---------------------------------*)
Tri(f) == {f[1], f[2], f[3]}
TimeOf(i, fs) == FDiv(FI((i - 1) * 1000), FI(fs))
ByEvent(st, e) ==
  IF Has(e, "exc") /\ e.exc # "" THEN {"Raised"} ELSE
  CASE e.ev = "spectrum" -> FreqCurves(e, Vec(Len(e.x), LAMBDA k : Single(e.x[k], e.scale)))
         \cup Chk(\A i \in 1..Len(e.freq) : Like(e.freq[i], FQ((i - 1) * e.fs, Len(e.x[1])), T9), "FrequencyAxis")
    [] e.ev = "freq" -> FreqCurves(e, e.mags)
    [] e.ev = "transfer" ->
         LET n == Len(e.h)
             m == Vec(n, LAMBDA i : FSqrt(Mod2(e.h[i])))
         IN Chk(VLike(e.x1, e.freq, T9) /\ VLike(e.x2, e.freq, T9), "Frequencies")
            \cup Chk(Shows(e.db, m, TRUE), "Magnitude")
            \cup Chk(Len(e.ph) = n /\ \A i \in 1..n : CNear(CScale(m[i], <<FCos(e.ph[i]), FSin(e.ph[i])>>), e.h[i],
                                                          FMul(T8, Size(m[i]))), "Phase")
            \cup Chk(\A i \in 2..n : FLe(FAbs(FSub(e.ph[i], e.ph[i - 1])), FAdd(Pi, T8)), "Unwrapped")
    [] e.ev = "roots" -> Chk(RootsOf(e.b, e.z), "Zeros") \cup Chk(RootsOf(e.a, e.p), "Poles")
                         \cup Chk(e.circle = e.zplane, "UnitCircle")
    [] e.ev = "ambi" ->
         Chk(Len(e.ya) = 4 /\ Len(e.yb) = 4 /\ \A k \in 1..4 : VNear(e.ya[k], e.a[k], T9) /\ VNear(e.yb[k], e.b[k], T9), "Channels")
         \cup Chk(\A k \in 1..4 : \A i \in 1..Len(e.b[k]) :
                    FNear(e.ta[k][i], FQ(i - 1, e.fs), T9) /\ FNear(e.tb[k][i], FQ(i - 1, e.fs), T9), "TimeAxis")
    [] e.ev = "surface" -> Chk(\A i \in 1..Len(e.verts) : OnSurface(e, e.verts[i]), "Radius")
         \cup Chk(\A i \in 1..Len(e.facets) : Hue(e, e.facets[i]), "PhaseColour")
         \cup Chk(AllAround(e), "AllDirections")
         \cup Chk(e.title = e.wanted, "Title")
    [] e.ev = "balls" ->    \* function values as points and colours
         Chk(Len(e.pts) = Len(e.f) /\ \A i \in 1..Len(e.f) :
               VNear(e.pts[i], Sph2Cart(e.azi[i], e.zen[i], FAbs(e.f[i])), FMul(T8, Size(e.f[i]))), "Radius")
         \cup Chk(VLike(e.c, e.f, T9), "ColourValues")
    [] e.ev = "rmsmap" ->   \* probes: direction and the contour levels around it
         Chk(\A i \in 1..Len(e.probes) :
               LET p == e.probes[i]  near == Nearby(e, p)
                   lo == IF e.db THEN FromDb(FSub(p.lo, e.tol)) ELSE FSub(p.lo, e.tol)
                   hi == IF e.db THEN FromDb(FAdd(p.hi, e.tol)) ELSE FAdd(p.hi, e.tol)
                   top == VMax(near)  low == VMin(near)  some == FMul(FQ(4, 100), top)
                   steep == FLt(FMul(FQ(17, 10), low), top)      \* next to a zero
               IN p.n = 1 /\ ((e.db /\ steep) \/ (FLe(lo, FAdd(top, some)) /\ FLe(FSub(low, some), hi))), "RmsValues")
         \cup Chk(IF e.clim[1] = <<>> THEN TRUE ELSE FNear(e.limits[1], e.clim[1][1], T9), "LowerLimit")
         \cup Chk(IF e.clim[2] = <<>> THEN TRUE ELSE FNear(e.limits[2], e.clim[2][1], T9), "UpperLimit")
    [] e.ev = "funmap" ->
         Chk(Len(e.pts) = Len(e.azi) /\ \A i \in 1..Len(e.azi) : SameAngle(e.pts[i][1], e.azi[i]) /\ InPi(e.pts[i][1])
               /\ FNear(e.pts[i][2], e.zen[i], T9), "Positions")
         \cup Chk(IF e.db THEN Shows(e.c, Vec(Len(e.f), LAMBDA i : FAbs(e.f[i])), TRUE) ELSE VLike(e.c, e.f, T9), "Values")
         \cup Chk(IF e.clim = <<>> THEN TRUE ELSE VNear(e.limits, e.clim, T9), "Limits")
    [] e.ev = "ildmap" ->
         Chk(\A i \in 1..Len(e.probes) : LET p == e.probes[i] IN p.n = 1 /\ Between(p.lo, p.x, p.hi, p.tol), "Values")
    [] e.ev = "bars" ->
         LET val(i, j) == IF e.db THEN FDb(FAbs(e.x[i][j])) ELSE e.x[i][j]
         IN Chk(Len(e.marks) = Len(e.x) * Len(e.x[1]), "OneMarkEach")
            \cup Chk(\A k \in 1..Len(e.marks) : LET m == e.marks[k]
                 IN IsColour(m.k, val(m.i, m.j), e.lim[1], e.lim[2]), "ColourValues")
            \cup Chk(Cardinality({<<e.marks[k].i, e.marks[k].j>> : k \in 1..Len(e.marks)}) = Len(e.marks), "MarkPositions")
    [] e.ev = "hull" ->
         LET all == {Tri(e.want[k]) : k \in 1..Len(e.want)}
             good == {Tri(e.valid[k]) : k \in 1..Len(e.valid)}
             solid == {Tri(e.drawn[k].f) : k \in {i \in 1..Len(e.drawn) : ~e.drawn[i].dashed}}
             dashed == {Tri(e.drawn[k].f) : k \in {i \in 1..Len(e.drawn) : e.drawn[i].dashed}}
         IN Chk(solid = (IF e.mark THEN all \cap good ELSE all), "ValidSimplices")
            \cup Chk(dashed = (IF e.mark THEN all \ good ELSE {}), "InvalidMarked")
            \cup Chk(Len(e.drawn) = Cardinality(all), "OncePerSimplex")
            \cup (IF e.color = <<>> THEN {} ELSE
                  LET lo == IF e.clim = <<>> THEN VMin(e.color) ELSE e.clim[1]
                      hi == IF e.clim = <<>> THEN VMax(e.color) ELSE e.clim[2]
                  IN Chk(\A k \in 1..Len(e.drawn) : e.drawn[k].dashed \/
                       \E q \in 1..Len(e.want) : Tri(e.want[q]) = Tri(e.drawn[k].f) /\ IsColour(e.drawn[k].k, e.color[q], lo, hi),
                     "SimplexColours"))
            \cup Chk(\A k \in 1..Len(e.texts) : VNear(e.texts[k], e.pts[k], T9), "LoudspeakerNumbers")
            \cup Chk(e.draw => Len(e.texts) = Len(e.pts), "LoudspeakerNumbers")
    [] e.ev = "normals" ->
         LET has(p, n) == \E k \in 1..Len(e.arrows) : VNear(e.arrows[k][1], p, T9) /\ VNear(e.arrows[k][2], VAdd(p, n), T8)
         IN Chk(e.faces => \A k \in 1..Len(e.c) : has(e.c[k], e.fn[k]), "FaceNormals")
            \cup Chk(e.verts => \A k \in 1..Len(e.pts) : has(e.pts[k], e.vn[k]), "VertexNormals")
            \cup Chk(Len(e.arrows) = (IF e.faces THEN Len(e.c) ELSE 0) + (IF e.verts THEN Len(e.pts) ELSE 0), "OneArrowEach")
            \cup Chk(VNear(e.listener, e.lst, T9), "Listener") \cup Chk(VNear(e.bary, e.bc, T9), "Barycenter")
    [] e.ev = "polar" ->
         LET pos(i) == FLe(Zero, e.r[i])
             m == Vec(Len(e.r), LAMBDA i : FAbs(e.r[i]))
             show(y, i) == Shows(<<y>>, <<m[i]>>, e.db)
         IN Chk(VLike(e.tp, e.theta, T9) /\ VLike(e.tn, e.theta, T9), "Angles")
            \cup Chk(Len(e.pos) = Len(e.r) /\ Len(e.neg) = Len(e.r) /\ \A i \in 1..Len(e.r) :
                 IF pos(i) THEN IsNaN(e.neg[i]) /\ (IF e.r[i] = Zero /\ e.db THEN IsNaN(e.pos[i]) ELSE show(e.pos[i], i))
                 ELSE IsNaN(e.pos[i]) /\ show(e.neg[i], i), "SignedCurves")
    [] e.ev = "perf" ->
         UNION {PerfAt(e, e.at[i]) : i \in 1..Len(e.at)}
         \cup Chk(FLe(e.span[1], FAdd(FNeg(Pi), T9)) /\ FLe(FSub(Pi, T9), e.span[2])
                  /\ FLe(e.span[3], T9) /\ FLe(FSub(Pi, T9), e.span[4]), "WholeSphere")
         \cup Chk(~e.show \/ \A i \in 1..Len(e.pts) : \E k \in 1..Len(e.marks) :
                VNear(Sph2Cart(e.marks[k][1], e.marks[k][2], One), Unit(e.pts[i]), T8), "LoudspeakersMarked")
    [] e.ev = "doa" ->      \* drawn last to first
         LET n == Len(e.azi)  b(i) == n + 1 - i
             top == IF e.p = <<>> THEN One ELSE VMax(e.p)
         IN Chk(Len(e.pts) = n /\ \A i \in 1..n : SameAngle(e.pts[i][1], e.azi[b(i)]) /\ InPi(e.pts[i][1])
                  /\ FNear(e.pts[i][2], e.zen[b(i)], T9), "Positions")
            \cup Chk(\A i \in 1..n : Like(e.sizes[i],
                       IF e.p = <<>> THEN e.size ELSE FMul(e.size, FMax(Zero, FDiv(e.p[b(i)], top))), T8), "Sizes")
            \cup Chk(IF e.fs = 0 THEN TRUE ELSE \A i \in 1..n : Like(e.c[i], TimeOf(b(i), e.fs), T8), "Times")
            \cup Chk(IF e.cin = <<>> THEN TRUE ELSE \A i \in 1..n : Like(e.c[i], e.cin[b(i)], T9), "Colours")
    [] e.ev = "aspect" -> Chk(\A k \in 1..3 : VNear(e.lim[k], e.want, T8), "EqualLimits")
    [] OTHER -> {"UnknownEvent"}
InitState(e) == [none |-> TRUE]
Verdict(st, e) == ByEvent(st, e)
Advance(st, e) == st

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = InitState(Log[t][1])
TraceNext == /\ l <= Len(Log[t])
             /\ Report(t, l, Verdict(st, Log[t][l]))
             /\ st' = Advance(st, Log[t][l])
             /\ l' = l + 1 /\ t' = t
=============================================================================
