------------------------------ MODULE TraceIo ------------------------------
(* Recorded histories of layout files, and exported BRIR sets.             *)
(* State: doc - the layout file as last written (<<>>: none)               *)
(*        gains - gains of the current setup's loudspeakers                *)
EXTENDS Hrirs, Trace

Degrees(x) == FDiv(FMul(x, FI(180)), Pi)
Radians(x) == FDiv(FMul(x, Pi), FI(180))
HalfCent == FAdd(FQ(5, 1000), EM9)
(* distance of two angles in degrees on the circle *)
Circ(a, b) == LET d == FAbs(FSub(a, b))
                  k == FFloor(FDiv(d, FI(360)))
                  m == FSub(d, FMul(FI(k), FI(360)))
              IN FMin(m, FSub(FI(360), m))
EntryPos(x) == Sph2Cart(Radians(x.azi), Radians(FSub(FI(90), x.ele)), x.r)
Reals(doc) == SelectSeq(doc, LAMBDA x : ~x.imag)
Imags(doc) == SelectSeq(doc, LAMBDA x : x.imag)
Near3(u, v, r) == FLe(Dist(u, v), FMul(EM8, FMax(One, r)))
(* one entry describes position p *)
Describes(x, p) ==
  LET r == Norm(p)
      el == Degrees(FSub(FMul(Pi, Half), FAcos(FDiv(p[3], r))))
      h == FSqrt(FAdd(FSq(p[1]), FSq(p[2])))
      \* the horizontal direction the entry claims, against the true one
      c == FCos(Radians(x.azi))  s == FSin(Radians(x.azi))
  IN /\ FNear(x.r, r, HalfCent) /\ FNear(x.ele, el, FAdd(HalfCent, EM6))
     /\ FLe(Zero, x.azi) /\ FLe(x.azi, FI(360))
     /\ FGt(h, EM6) => /\ FNear(FSub(FMul(c, p[2]), FMul(s, p[1])), Zero, FMul(h, FQ(874, 10000000)))
                       /\ FGt(FAdd(FMul(c, p[1]), FMul(s, p[2])), Zero)

Brirs(e, ear, o, g) ==   \* expected channel pair of one angle
  Ear(e, g, IF ear = 1 THEN o.l ELSE o.r, e.sigs, <<Radians(FI(e.angle)), Zero>>)
Peak(m) == MaxAbs(Vec(Len(m), LAMBDA i : MaxAbs(m[i])))
SdmEar(irs, g, p, dirs) ==
  FoldLeft(LAMBDA acc, i :
      LET h == irs[CHOOSE j \in Closest(g, dirs[i], Zero) : TRUE]
      IN Vec(Len(acc), LAMBDA n : IF n >= i /\ n < i + Len(h) THEN FAdd(acc[n], FMul(p[i], h[n - i + 1])) ELSE acc[n]),
    ZeroVec(Len(p) + Len(irs[1]) - 1), Vec(Len(p), LAMBDA i : i))
Turned(azi, zen, a) == Sph2Cart(FSub(azi, Radians(FI(a))), zen, One)
Sdmdirs(e, a) == Vec(Len(e.p), LAMBDA i : Turned(e.phi[i], e.theta[i], a))
Expected(e, g) ==        \* 720 channels before normalisation
  TLCEval([c \in 1..720 |->
     LET a == (c - 1) \div 2  irs == IF c % 2 = 1 THEN e.l ELSE e.r
     IN IF e.kind = "ls" THEN Ear(e, g, irs, e.sigs, <<Radians(FI(a)), Zero>>)
        ELSE SdmEar(irs, g, e.p, Sdmdirs(e, a))])
Undecided(e, g) ==
  \E a \in 0..359 :
    IF e.kind = "ls" THEN ~Decided(e, g, e.sigs, <<Radians(FI(a)), Zero>>)
    ELSE \E i \in 1..Len(e.p) : Cardinality(Closest(g, Turned(e.phi[i], e.theta[i], a), Tol(8))) # 1

Step(sub) == CASE sub = "PCM_16" -> FQ(5, 4 * 32768)    \* full scale is one step short
               [] sub = "PCM_24" -> FQ(5, 4 * 8388608)
               [] sub = "FLOAT" -> FQ(1, 16000000)
               [] OTHER -> Tol(10)
Bad(st, e) ==
  CASE e.ev = "setup" -> {}
    [] e.ev = "gain" -> {}
    [] e.ev = "ambi" -> {}          \* judged by TraceSetup
    [] e.ev = "save" ->
         IF ~e.hasambi THEN Chk(e.exc # "" /\ ~e.written, "RefusesWithoutHull")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(Len(e.doc) = Len(e.pts) /\ \A i \in 1..Len(e.pts) : Describes(e.doc[i], e.pts[i]), "Positions")
              \cup Chk(\A i \in 1..Len(e.doc) : e.doc[i].imag = (i \in ToSet(e.imagidx))
                         /\ e.doc[i].chan = i, "Flags")
              \cup Chk(\A i \in 1..Len(e.doc) :
                    FNear(e.doc[i].gain, IF i \in ToSet(e.imagidx) THEN Zero ELSE st.gains[i], Tol(11)), "Gains")
              \cup Chk(e.name = e.wantname, "Name")
    [] e.ev = "edit" -> {}
    [] e.ev = "load" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET real == Reals(st.doc)  im == Imags(st.doc)
         IN Chk(Len(e.pts) = Len(real) /\ \A i \in 1..Len(real) :
                  Near3(e.pts[i], VSub(EntryPos(real[i]), e.lst), real[i].r), "Positions")
            \cup Chk(Len(e.gains) = Len(real) /\ \A i \in 1..Len(real) : FNear(e.gains[i], real[i].gain, Tol(11)), "Gains")
            \cup Chk(Len(e.ambi) = Len(real) + Len(im)
                     /\ ToSet(e.imagidx) = (Len(real) + 1)..(Len(real) + Len(im))
                     /\ (\A i \in 1..Len(real) : Near3(e.ambi[i], e.pts[i], One))
                     /\ (e.lst = ZeroVec(3) => \A i \in 1..Len(im) : Near3(e.ambi[Len(real) + i], EntryPos(im[i]), im[i].r)),
                     "Imaginary")
            \cup Chk(e.kernel = e.wantkernel, "Kernel")
    [] e.ev = "brirs" ->
         LET g == Dirs(e)
         IN IF e.fs # e.hfs THEN Chk(e.exc # "", "RefusesWrongRate")
            ELSE IF e.exc # "" THEN {"Raised"}
            ELSE IF e.filefs # e.fs THEN {"FileRate"}
            ELSE IF e.filesub # e.sub THEN {"FileDepth"}
            ELSE IF Undecided(e, g) THEN {}
            ELSE LET x == Expected(e, g)  pk == Peak(x)
                     k == IF FLt(One, pk) THEN pk ELSE One
                 IN Chk(Len(e.out) = 720 /\ \A c \in 1..720 : Len(e.out[c]) = Len(x[c]), "Shape")
                    \cup Chk(\A c \in 1..720 : \A i \in 1..Len(x[c]) :
                          FNear(e.out[c][i], FDiv(x[c][i], k), Step(e.sub)), "Channels")
    [] e.ev = "interleave" ->
         LET ok == Len(e.l) = Len(e.r) /\ Len(e.l[1]) = Len(e.r[1]) /\ (e.ssr => Len(e.l) = 360)
         IN IF ~ok THEN Chk(e.exc # "", "RefusesChannelCount")
            ELSE IF e.exc # "" THEN {"Raised"}
            ELSE Chk(Len(e.out) = 2 * Len(e.l) /\ \A i \in 1..Len(e.l) :
                   VNear(e.out[2 * i - 1], e.l[i], Tol(11)) /\ VNear(e.out[2 * i], e.r[i], Tol(11)), "Interleaved")
    [] OTHER -> {"UnknownEvent"}
Advance(st, e) ==
  CASE e.ev = "save" /\ e.exc = "" -> [st EXCEPT !.doc = e.doc]
    [] e.ev = "edit" -> [st EXCEPT !.doc = e.doc]
    [] e.ev = "load" /\ e.exc = "" -> [st EXCEPT !.gains = e.gains]
    [] e.ev \in {"setup", "gain"} -> [st EXCEPT !.gains = e.gains]
    [] OTHER -> st

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = [doc |-> <<>>, gains |-> <<>>]
TraceNext == /\ l <= Len(Log[t])
             /\ LET e == Log[t][l]
                IN Report(t, l, Bad(st, e)) /\ st' = Advance(st, e)
             /\ l' = l + 1 /\ t' = t
=============================================================================
