------------------------------- MODULE MagLs -------------------------------
(***************************************************************************)
(* The magnitude least-squares binaural decoder, one ear at a time.        *)
(*                                                                         *)
(* Spectra are given for a run of adjacent bins k0 .. k0+n-1; everything   *)
(* outside the run is silent.  Below the transition bin the coefficients   *)
(* are the least-squares fit of the complex spectrum.  From it on, each    *)
(* bin fits the magnitude with the phase that the previous bin's           *)
(* coefficients have at the directions, advanced by a phase step: the mean *)
(* step of the last bins of the linear part (of the omnidirectional        *)
(* channel, or at each direction), less the additional group delay.        *)
(***************************************************************************)
EXTENDS Sht, Signals

(* Gaussian elimination, no pivoting: for symmetric positive matrices *)
RECURSIVE Eliminate(_, _)
Eliminate(M, k) ==                          \* M: rows [A | B]
  IF k > Len(M) THEN M ELSE
  LET p == VScale(FDiv(One, M[k][k]), M[k])
  IN Eliminate(TLCEval([i \in 1..Len(M) |->
        IF i = k THEN p
        ELSE Vec(Len(p), LAMBDA j : FSub(M[i][j], FMul(M[i][k], p[j])))]), k + 1)
(* the least-squares operator of a full-rank matrix: (Y'Y)^-1 Y' *)
LsPinv(Y) ==
  LET T == Transpose(Y)  G == MatMul(T, Y)  C == Len(G)
      E == Eliminate(TLCEval([i \in 1..C |-> G[i] \o T[i]]), 1)
  IN TLCEval([i \in 1..C |-> SubSeq(E[i], C + 1, C + Len(Y))])
RCApply(A, z) == LET re == Re(z)  im == Im(z)       \* real matrix, complex vector
                 IN Vec(Len(A), LAMBDA i : <<FDot(A[i], re), FDot(A[i], im)>>)
CAbs(z) == FSqrt(FAdd(FSq(z[1]), FSq(z[2])))
CUnit(z) == LET a == CAbs(z) IN <<FDiv(z[1], a), FDiv(z[2], a)>>
Arg(z) ==                                   \* of a unit number, (-pi, pi]
  LET s == IF FLt(z[2], Zero) THEN FI(-1) ELSE One
      asin == FSub(FMul(Pi, Half), FAcos(z[2]))
  IN IF FLe(FAbs(z[1]), FQ(3, 4)) THEN FMul(s, FAcos(z[1]))
     ELSE IF FGt(z[1], Zero) THEN asin ELSE FSub(FMul(s, Pi), asin)
Cis(a) == <<FCos(a), FSin(a)>>
(* mean of the steps between neighbours, each taken to (-pi, pi] *)
Step(ph) == LET n == Len(ph) - 1
            IN FDiv(FSum(Vec(n, LAMBDA i : Arg(CMul(ph[i + 1], CConj(ph[i]))))), FI(n))
StepSure(ph) == \A i \in 1..(Len(ph) - 1) :
                  FGt(FSub(Pi, FAbs(Arg(CMul(ph[i + 1], CConj(ph[i]))))), Tol(5))

(* nearest bin of a length n transform at rate fs *)
CutOn(f, n, fs) == FFloor(FAdd(FDiv(FMul(f, FI(n)), FI(fs)), Half))
Window == 5                                 \* bins the step is taken from

(* H[k][g]: the run of bins; kc: index in H of the transition bin (1-based) *)
(* result: coefficients per bin; the empty sequence when a phase is not    *)
(* well defined                                                            *)
RECURSIVE Continue(_, _, _, _, _, _)
Continue(Y, P, H, d, k, acc) ==
  IF k > Len(H) THEN acc ELSE
  LET at == RCApply(Y, acc[k - 1])
  IN IF \E g \in 1..Len(at) : FLt(CAbs(at[g]), Tol(2)) THEN <<>>
     ELSE LET z == Vec(Len(at), LAMBDA g :
                     CScale(CAbs(H[k][g]), CMul(CUnit(at[g]), Cis(d[g]))))
          IN Continue(Y, P, H, d, k + 1, Append(acc, RCApply(P, z)))
MagLs(Y, H, kc, cont, w) ==                 \* w: phase of the delay per bin
  LET P == LsPinv(Y)
      lin == Vec(kc - 1, LAMBDA k : RCApply(P, H[k]))
      at == Vec(Window, LAMBDA i : RCApply(Y, lin[kc - 2 - Window + i]))
      omni == Vec(Window, LAMBDA i : lin[kc - 2 - Window + i][1])
      G == Len(Y)
      small == \E i \in 1..Window : FLt(CAbs(omni[i]), Tol(2)) \/ \E g \in 1..G : FLt(CAbs(at[i][g]), Tol(2))
      seqs == IF cont = "angle" THEN Vec(G, LAMBDA g : Vec(Window, LAMBDA i : CUnit(at[i][g])))
              ELSE <<Vec(Window, LAMBDA i : CUnit(omni[i]))>>
      d == IF cont = "delay" THEN Vec(G, LAMBDA g : FNeg(w))
           ELSE LET s == Vec(Len(seqs), LAMBDA i : FSub(Step(seqs[i]), w))
                IN Vec(G, LAMBDA g : s[IF cont = "angle" THEN g ELSE 1])
  IN IF cont # "delay" /\ (small \/ \E i \in 1..Len(seqs) : ~StepSure(seqs[i])) THEN <<>>
     ELSE Continue(Y, P, H, d, kc, lin)
(* sample i (from 0) of the inverse transform of the run of bins *)
Sample(coef, q, k0, n, i) ==
  FDiv(FSum(Vec(Len(coef), LAMBDA k :
         LET b == k0 + k - 1  z == coef[k][q]
             a == FDiv(FMul(FMul(Two, Pi), FI((b * i) % n)), FI(n))
         IN IF b = 0 THEN z[1] ELSE IF 2 * b = n THEN FMul(z[1], FCos(a))
            ELSE FMul(Two, FSub(FMul(z[1], FCos(a)), FMul(z[2], FSin(a)))))), FI(n))
(* fade in over 4 and out over 32 samples, raised cosines *)
Rise(i, m) == FMul(Half, FSub(One, FCos(FDiv(FMul(FMul(Two, Pi), FI(i)), FI(2 * m - 1)))))
Fade(i, n) == FMul(IF i < 4 THEN Rise(i, 4) ELSE One,
                   IF n - 1 - i < 32 THEN Rise(n - 1 - i, 32) ELSE One)
=============================================================================
