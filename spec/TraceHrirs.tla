----------------------------- MODULE TraceHrirs -----------------------------
(* Recorded histories of HRIR sets, binaural rendering and decoding.       *)
(* State: obj - sequence of HRIR sets as their user sees them.             *)
EXTENDS Hrirs, Sht, MagLs, Proc, Trace

Others(st, e) == LET tgt == IF Has(e, "to") THEN e.to ELSE IF Has(e, "h") THEN e.h ELSE 0
                 IN Chk(\A k \in 1..Len(st.obj) : k = tgt \/ SameSet(st.obj[k], e.now[k]), "OthersUntouched")
Consistent(e) == Chk(\A k \in 1..Len(e.now) :
    LET h == e.now[k]  g == Len(h.azi)
    IN /\ Len(h.zen) = g /\ Len(h.l) = g /\ Len(h.r) = g
       /\ e.size[k] = <<g, Len(h.l[1]), Len(h.l[1])>>
       /\ \A i \in 1..g : Len(h.l[i]) = Len(h.l[1]) /\ Len(h.r[i]) = Len(h.l[1]), "Sizes")
Kept(st, e) == Chk(SameSet(st.obj[e.h], e.now[e.h]), "QueryKeepsSet")

ByEvent(st, e) ==
  CASE e.ev = "new" -> IF e.exc # "" THEN {"Raised"} ELSE Chk(SameSet(e.set, e.now[e.to]), "Constructed")
    [] e.ev = "badnew" -> Chk(e.exc # "", "RefusesInconsistent")
    [] e.ev = "copy" -> IF e.exc # "" THEN {"Raised"} ELSE Chk(SameSet(st.obj[e.h], e.now[e.to]), "CopyEquals")
    [] e.ev = "update" ->
         LET o == st.obj[e.h]  fits == Len(e.l) = Len(o.azi) /\ Len(e.r) = Len(o.azi)
         IN IF fits THEN IF e.exc # "" THEN {"Raised"}
                         ELSE Chk(SameSet([o EXCEPT !.l = e.l, !.r = e.r], e.now[e.h]), "Update")
            ELSE Chk(e.exc # "" /\ SameSet(o, e.now[e.h]), "RefusesInconsistent")
    [] e.ev = "eq" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET o == st.obj[e.h]
         IN Chk(SameSet([o EXCEPT !.l = Filtered(o.l, e.taps, e.mode), !.r = Filtered(o.r, e.taps, e.mode)],
                        e.now[e.h]), "Equalized")
    [] e.ev = "poke" -> LET o == st.obj[e.h]
                        IN Chk(SameSet([o EXCEPT !.l[e.g][e.i] = e.value], e.now[e.h]), "Poke")
    [] e.ev = "turn" -> LET o == st.obj[e.h]
                        IN Chk(SameSet([o EXCEPT !.azi = e.azi, !.zen = e.zen], e.now[e.h]), "Turned")
    [] e.ev = "nearest" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET o == st.obj[e.h]  g == Dirs(o)
         IN Chk(Len(e.idx) = Len(e.azi) /\ \A k \in 1..Len(e.azi) :
                  e.idx[k] \in Closest(g, Sph2Cart(e.azi[k], e.zen[k], One), Tol(10)), "Nearest")
            \cup Chk(\A k \in 1..Len(e.idx) : VNear(e.hl[k], o.l[e.idx[k]], Tol(11))
                       /\ VNear(e.hr[k], o.r[e.idx[k]], Tol(11)), "NearestResponses")
            \cup Kept(st, e)
    [] e.ev = "binaural" ->
         LET o == st.obj[e.h]  g == Dirs(o)
             n == Len(e.sigs[1]) + Len(o.l[1]) - 1
             tol == FMul(Tol(8), FMax(One, MaxAbs(Vec(Len(e.sigs), LAMBDA k :
                      IF k > Len(e.pts) THEN Zero ELSE FMax(MaxAbs(e.sigs[k]), MaxAbs(Attenuated(e, k, e.sigs[k])))))))
         IN IF e.fs # o.fs THEN Chk(e.exc # "", "RefusesWrongRate")
            ELSE IF Len(e.sigs) # Len(e.pts) THEN Chk(e.exc # "", "RefusesChannelCount")
            ELSE IF e.exc # "" THEN {"Raised"}
            ELSE Chk(Len(e.out) = 2 /\ Len(e.out[1]) = n /\ Len(e.out[2]) = n, "Length")
                 \cup ChkIf(Decided(e, g, e.sigs, e.ori),
                        /\ VNear(e.out[1], Ear(e, g, o.l, e.sigs, e.ori), tol)
                        /\ VNear(e.out[2], Ear(e, g, o.r, e.sigs, e.ori), tol), "BinauralSum")
                 \cup Kept(st, e) \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "lssignals" ->
         IF Len(e.gains[1]) # e.n THEN Chk(e.exc # "", "RefusesChannelCount")
         ELSE IF e.exc # "" THEN {"Raised"}
         ELSE Chk(IsShape(e.out, e.n, Len(e.gains)) /\
                \A k \in 1..e.n : \A i \in 1..Len(e.gains) :
                  FNear(e.out[k][i], IF e.sig = <<>> THEN e.gains[i][k] ELSE FMul(e.sig[i], e.gains[i][k]), Tol(9)),
                "LoudspeakerSignals")
    [] e.ev = "badlssignals" -> Chk(e.exc # "", "RefusesOtherLength")
    [] e.ev = "sh2bin" ->
         IF e.exc # "" THEN {"Raised"}
         ELSE Chk(Len(e.out) = 2 /\ \A k \in 1..2 : VNear(e.out[k], ShEar(e.x, e.ir[k]), Tol(8)), "DecodedSum")
              \cup Chk(e.same, "ArgumentsKept")
    [] e.ev = "badsh2bin" -> Chk(e.exc # "", "RefusesChannelCount")
    \* pure delays with order-limited gains come out as their coefficients
    [] e.ev = "magls" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(Len(e.out) = 2 /\ \A k \in 1..2 : Len(e.out[k]) = Len(e.coef[k]) /\
               \A q \in 1..Len(e.coef[k]) : Len(e.out[k][q]) = e.taps, "Shape")
         \cup Chk(\A k \in 1..2 : \A q \in 1..Len(e.coef[k]) : \A i \in 5..(e.taps - 32) :
               FNear(e.out[k][q][i], IF i = e.delay[k] + 1 THEN e.coef[k][q] ELSE Zero, Tol(6)), "ExactDelay")
         \cup Chk(e.same, "ArgumentsKept")
    \* responses of a few bins around the transition: the whole definition
    [] e.ev = "maglsfull" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET Y == Vec(Len(e.azi), LAMBDA i : RealSH(e.N, Sph2Cart(e.azi[i], e.zen[i], One)))
             n == IF e.taps < 1024 THEN 1024 ELSE e.taps
             kc == CutOn(e.ftrans, n, e.fs) - e.k0 + 1
             w(k) == FDiv(FMul(FMul(Two, Pi), e.delay[k]), FI(n))
             Ok(k) == LET c == MagLs(Y, e.spec[k], kc, e.cont, w(k))
                      IN c = <<>> \/ \A q \in 1..Chans(e.N) : \A j \in 1..Len(e.at) :
                           FNear(e.out[k][q][j], FMul(Fade(e.at[j], e.taps), Sample(c, q, e.k0, n, e.at[j])), Tol(6))
         IN Chk(e.shape = <<2, Chans(e.N), e.taps>>, "Shape")
            \cup Chk(e.same, "ArgumentsKept")
            \cup ChkIf(e.shape = <<2, Chans(e.N), e.taps>>, Ok(1) /\ Ok(2), "MagnitudeLeastSquares")
    [] e.ev = "badmagls" -> Chk(e.exc # "", "RefusesUnknownContinuation")
    \* two runs related by a symmetry of the task
    [] e.ev = "maglspair" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(\A k \in 1..2 : MNear(e.out2[IF e.swap THEN 3 - k ELSE k],
               Vec(Len(e.out1[k]), LAMBDA q : VScale(e.gain, e.out1[k][q])), Tol(6)), "Symmetry")
    \* loaders
    [] e.ev = "sofa" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET h == e.now[e.to]  g == Dirs(h)
         IN Chk(Len(g) = Len(e.az) /\ h.fs = e.fs, "Loaded")
            \cup Chk(\A i \in 1..Len(g) : VNear(g[i],
                   Sph2Cart(FDiv(FMul(e.az[i], Pi), FI(180)),
                            FDiv(FMul(FSub(FI(90), e.el[i]), Pi), FI(180)), One), Tol(9)), "Directions")
            \cup Chk(MNear(h.l, e.l, Tol(11)) /\ MNear(h.r, e.r, Tol(11)), "Responses")
    [] e.ev = "mathrirs" ->
         IF e.fsask # e.set.fs THEN Chk(e.exc # "", "RefusesWrongRate")
         ELSE IF e.exc # "" THEN {"Raised"} ELSE Chk(SameSet(e.set, e.now[e.to]), "Loaded")
              \cup Chk(ToSet(e.kinds) = {"f"}, "Reals")
    \* SH coefficients whose reconstruction is exact for order-limited data
    [] e.ev = "sofash" ->       \* least squares over the measured directions
         IF e.exc # "" THEN {"Raised"} ELSE
         LET Y == ShMat(e.kind, e.N, e.azi, e.zen)
             T == CTranspose(CMConj(Y))
             rest(k) == LET f == CMatMul(Y, e.out[k])
                        IN Vec(Len(f), LAMBDA i : Vec(Len(f[i]), LAMBDA t : <<FSub(f[i][t][1], e.irs[k][i][t]), f[i][t][2]>>))
         IN Chk(e.fs = e.fsgot, "Rate")
            \cup Chk(Len(e.out) = 2 /\ \A k \in 1..2 : Len(e.out[k]) = Chans(e.N), "Shape")
            \cup ChkIf(Len(e.out) = 2, \A k \in 1..2 :
                 LET d == rest(k)  z == CMatMul(T, d)
                 IN /\ \A q \in 1..Len(z) : \A t \in 1..Len(z[q]) : CNear(z[q][t], <<Zero, Zero>>, Tol(7))
                    /\ e.limited => \A i \in 1..Len(d) : \A t \in 1..Len(d[i]) : CNear(d[i][t], <<Zero, Zero>>, Tol(8)), "Coefficients")
    \* a generated default set: every response has the spectrum of the SH
    \* coefficients at its direction; the other rates are resampled from it
    [] e.ev = "default" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET h == e.now[e.to]
         IN Chk(h.fs = e.fs /\ e.got = e.n, "Loaded")
            \cup Chk(VNear(h.azi, e.azi, Tol(9)) /\ VNear(h.zen, e.zen, Tol(9)), "Directions")
            \cup Chk(MNear(h.l, e.l, Tol(9)) /\ MNear(h.r, e.r, Tol(9)), "Responses")
            \cup ChkIf(e.sh # <<>>,
                  LET nf == Len(e.sh[1][1])  n == 2 * (nf - 1)
                      N == CHOOSE k \in 0..9 : Chans(k) = Len(e.sh[1])
                      Y == ShMat("complex", N, e.azi, e.zen)
                      Ok(ir, F) == \A i \in 1..Len(ir) : Len(ir[i]) = n /\ \A f \in 1..nf :
                          LET x == CDot(Y[i], Vec(Len(F), LAMBDA q : F[q][f]))
                          IN CNear(Dft(ir[i], f - 1, n), IF f \in {1, nf} THEN CNum(x[1]) ELSE x, Tol(8))
                  IN Ok(h.l, e.sh[1]) /\ Ok(h.r, e.sh[2]), "InverseTransform")
    [] e.ev = "nodefault" -> Chk(e.exc = "NotImplementedError", "RefusesWrongRate")
    \* the dummy set: mirror images swap the ears, the nearer ear is louder
    [] e.ev = "dummy" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         Chk(e.fs = e.fsgot /\ e.size = <<<<e.g, 256>>, <<e.g, 256>>>>, "Loaded")
         \cup Chk(VNear(e.azi, e.gazi, Tol(9)) /\ VNear(e.zen, e.gzen, Tol(9)), "Directions")
         \cup Chk(\A i \in 1..e.g :
               /\ FNear(e.sums[1][i], e.sums[2][e.pair[i]], Tol(8))
               /\ LET side == FMul(FSin(e.azi[i]), FSin(e.zen[i]))
                  IN IF FGt(side, Tol(2)) THEN FGt(e.sums[1][i], e.sums[2][i])
                     ELSE FLt(side, FNeg(Tol(2))) => FLt(e.sums[1][i], e.sums[2][i]), "Ears")
    [] e.ev = "sdm" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET Nan0(v, d) == Vec(Len(v), LAMBDA i : IF IsNaN(v[i]) THEN d ELSE v[i])
             SameNan(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) :
                                IF IsNaN(v[i]) THEN IsNaN(u[i]) ELSE FNear(u[i], v[i], Tol(11))
         IN Chk(e.fs = e.fsgot /\ VNear(e.out[1], e.p, Tol(11)), "Loaded")
            \cup Chk(ToSet(e.kinds) = {"f"}, "Reals")
            \cup Chk(IF e.init THEN VNear(e.out[2], Nan0(e.azi, Zero), Tol(11))
                                    /\ VNear(e.out[3], Nan0(e.zen, FMul(Pi, Half)), Tol(11))
                     ELSE SameNan(e.out[2], e.azi) /\ SameNan(e.out[3], e.zen), "Directions")
    [] OTHER -> {"UnknownEvent"}
Verdict(st, e) ==
  IF ~Has(e, "now") THEN ByEvent(st, e)
  ELSE IF Len(e.now) < Len(st.obj) THEN {"Objects"}
  ELSE LET c == Consistent(e) IN IF c # {} THEN c ELSE ByEvent(st, e) \cup Others(st, e)
Advance(st, e) == IF Has(e, "now") THEN [obj |-> e.now] ELSE st

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = [obj |-> <<>>]
TraceNext == /\ l <= Len(Log[t])
             /\ LET e == Log[t][l]
                IN Report(t, l, Verdict(st, e)) /\ st' = Advance(st, e)
             /\ l' = l + 1 /\ t' = t
=============================================================================
