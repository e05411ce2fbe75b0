------------------------------ MODULE Signals ------------------------------
(***************************************************************************)
(* Signal objects and audio files.                                         *)
(* State: obj  - sequence of objects [kind, fs, ch], ch a sequence of      *)
(*               channels, a channel a sequence of samples                 *)
(*        file - name -> [fs, ch, sub], what was written                   *)
(***************************************************************************)
EXTENDS Geo

Min2(a, b) == IF a < b THEN a ELSE b
Cut(c, a, b) == SubSeq(c, a + 1, Min2(b, Len(c)))
(* full linear convolution; h reversed once *)
ConvFull(x, h) ==
  LET n == Len(x)  m == Len(h)  r == Vec(m, LAMBDA i : h[m + 1 - i])
      pad == Vec(n + 2 * (m - 1), LAMBDA i : IF i < m \/ i > n + m - 1 THEN Zero ELSE x[i - m + 1])
  IN Vec(n + m - 1, LAMBDA k : FDot(SubSeq(pad, k, k + m - 1), r))
Conv(x, h, mode) ==
  LET f == ConvFull(x, h)  n == Len(x)  m == Len(h)
  IN CASE mode = "full" -> f
       [] mode = "same" -> SubSeq(f, (m - 1) \div 2 + 1, (m - 1) \div 2 + n)
       [] mode = "valid" -> IF n >= m THEN SubSeq(f, m, n) ELSE SubSeq(f, n, m)
ResampledLen(n, fs, fs2) == (n * fs2) \div fs

(* sample formats: what a stored sample may differ from the written one *)
Lsb(sub) == CASE sub = "PCM_16" -> FQ(1, 32768)
              [] sub = "PCM_24" -> FQ(1, 8388608)
              [] sub = "PCM_32" -> FDiv(One, FPow(Two, 31))
              [] OTHER -> Zero
IsPcm(sub) == sub \in {"PCM_16", "PCM_24", "PCM_32"}
Clip(x, sub) == IF ~IsPcm(sub) THEN x
                ELSE FMax(FNeg(One), FMin(x, FSub(One, Lsb(sub))))
StoredNear(got, x, sub) ==
  IF IsPcm(sub) THEN FNear(got, Clip(x, sub), FMul(Lsb(sub), FQ(16, 10)))
  ELSE IF sub = "FLOAT" THEN FNearRel(got, x, FMul(FI(2), Tol(7))) ELSE FNear(got, x, Tol(11))
=============================================================================
