------------------------------- MODULE Setup -------------------------------
(***************************************************************************)
(* Loudspeaker setups: the listener-relative loudspeaker positions, their  *)
(* convex triangulation, the faces currently valid for rendering, and the  *)
(* optional ambisonic extension (imaginary loudspeakers, kernel).          *)
(*                                                                         *)
(* The state of a setup is the record                                      *)
(*   pts    listener-relative positions        d    their distances        *)
(*   a      exponent of the distance law       faces all faces (triples)   *)
(*   valid  the faces valid for rendering, as vertex sets                  *)
(*   encl   the faces turned towards the listener, as vertex sets          *)
(*   order  the characteristic order, once fixed (0 = not yet)             *)
(*   ambi   <<>> or <<ambisonic extension>>                                *)
(* Every operation is a pure function of this state and its arguments: no  *)
(* cache, and no earlier call, is visible.                                 *)
(***************************************************************************)
EXTENDS Geo, SequencesExt

FaceSets(fs) == {FaceSet(fs[i]) : i \in 1..Len(fs)}
AreFaces(fs, n) == \A i \in 1..Len(fs) :
                      /\ Len(fs[i]) = 3
                      /\ \A k \in 1..3 : fs[i][k] \in 1..n
                      /\ Cardinality(FaceSet(fs[i])) = 3

(*------------------------------ geometry --------------------------------*)
Closed(fs) == LET es == UNION {Edges(fs[i]) : i \in 1..Len(fs)}
              IN \A e \in es : Cardinality({i \in 1..Len(fs) : e \in Edges(fs[i])}) = 2
Euler(fs) == LET es == UNION {Edges(fs[i]) : i \in 1..Len(fs)}
                 vs == UNION FaceSets(fs)
             IN Cardinality(vs) - Cardinality(es) + Len(fs) = 2
Distinct(fs) == Cardinality(FaceSets(fs)) = Len(fs)
Outward(pts, f, bary) ==
  LET n == FNormal(pts, f)  c == FCentroid(pts, f)
  IN IF FLt(FDot(n, VSub(c, bary)), Zero) THEN VNeg(n) ELSE n
Scale(pts) == FMax(One, VMax(Vec(Len(pts), LAMBDA i : Norm(pts[i]))))
(* every point lies behind every face: the faces bound the convex hull *)
Convex(pts, fs, bary) ==
  \A i \in 1..Len(fs) :
     LET n == Outward(pts, fs[i], bary)  nn == Norm(n)
     IN \A k \in 1..Len(pts) :
          FLe(FDot(n, VSub(pts[k], pts[fs[i][1]])), FMul(FMul(nn, EM7), Scale(pts)))
(* faces turned towards a listener at lst; ambiguous ones may go either way *)
TurnDot(pts, f, bary, lst) ==
  LET c == FCentroid(pts, f) IN FDot(VSub(lst, c), VSub(bary, c))

(*------------------------------ refinement ------------------------------*)
CosDeg(x) == FCos(FDiv(FMul(x, Pi), FI(180)))
(* cos(angle) vs cos(limit): -1 angle below, 1 above, 0 too close to call *)
AngleVs(cosang, limit) ==
  LET c == CosDeg(limit)
  IN IF FNear(cosang, c, EM9) THEN 0 ELSE IF FLt(cosang, c) THEN 1 ELSE -1
Worst(s) == IF \E i \in DOMAIN s : s[i] = 1 THEN 1
            ELSE IF \E i \in DOMAIN s : s[i] = 0 THEN 0 ELSE -1
NormalVsAt(st, f, limit, lst) ==
  AngleVs(CosAngle(VSub(FCentroid(st.pts, f), lst), Outward(st.pts, f, Mean(st.pts))), limit)
NormalVs(st, f, limit) == NormalVsAt(st, f, limit, ZeroVec(3))
ApertureVsAt(st, f, limit, lst) ==
  LET p == Vec(Len(st.pts), LAMBDA i : VSub(st.pts[i], lst))
  IN Worst(<<AngleVs(CosAngle(p[f[1]], p[f[2]]), limit),
             AngleVs(CosAngle(p[f[2]], p[f[3]]), limit),
             AngleVs(CosAngle(p[f[1]], p[f[3]]), limit)>>)
ApertureVs(st, f, limit) == ApertureVsAt(st, f, limit, ZeroVec(3))
OpeningVs(st, f, limit) ==
  LET p == st.pts
      A(i, j, k) == AngleVs(CosAngle(VSub(p[f[j]], p[f[i]]), VSub(p[f[k]], p[f[i]])), limit)
  IN Worst(<<A(1, 2, 3), A(2, 1, 3), A(3, 1, 2)>>)
(* lim is <<>> (bypassed) or <<limit in degree>> *)
LimVs(lim, vs) == IF lim = <<>> THEN -1 ELSE vs
PopVerdictOf(st, f, nl, al, ol, bl) ==
  Worst(<<LimVs(nl, IF nl = <<>> THEN -1 ELSE NormalVs(st, f, nl[1])),
          LimVs(al, IF al = <<>> THEN -1 ELSE ApertureVs(st, f, al[1])),
          LimVs(ol, IF ol = <<>> THEN -1 ELSE OpeningVs(st, f, ol[1])),
          IF bl # <<>> /\ ToSet(bl[1]) \subseteq FaceSet(f) THEN 1 ELSE -1>>)
(* the faces that survive, and those that may go either way *)
PopKeep(st, nl, al, ol, bl) ==
  {FaceSet(f) : f \in {g \in ToSet(st.faces) :
      FaceSet(g) \in st.valid /\ PopVerdictOf(st, g, nl, al, ol, bl) = -1}}
PopMaybe(st, nl, al, ol, bl) ==
  {FaceSet(f) : f \in {g \in ToSet(st.faces) :
      FaceSet(g) \in st.valid /\ PopVerdictOf(st, g, nl, al, ol, bl) = 0}}

(* the same tests one by one, for a listener anywhere *)
CheckVs(st, f, kind, limit, lst, bl) ==
  CASE kind = "normals" -> NormalVsAt(st, f, limit, lst)
    [] kind = "aperture" -> ApertureVsAt(st, f, limit, lst)
    [] kind = "opening" -> OpeningVs(st, f, limit)
    [] kind = "blacklist" -> IF ToSet(bl) \subseteq FaceSet(f) THEN 1 ELSE -1
    [] kind = "inside" ->
         LET q == TurnDot(st.pts, f, Mean(st.pts), lst)
         IN IF FGt(q, EM8) THEN -1 ELSE IF FLt(q, FNeg(EM8)) THEN 1 ELSE 0
(* "inside" looks at all faces, the others at the valid ones *)
CheckFaces(st, kind) == IF kind = "inside" THEN ToSet(st.faces)
                        ELSE {f \in ToSet(st.faces) : FaceSet(f) \in st.valid}

(*------------------------------- panning --------------------------------*)
(* Coefficients of s on face f, normalised to unit 2-norm.                 *)
Coef(pts, f, s) == LET g == Solve3(pts[f[1]], pts[f[2]], pts[f[3]], s)
                   IN Unit(g)
(* s is clearly inside / possibly inside the cone of f *)
Margin == FMul(FI(2), EM5)
SomeFace(fset) == CHOOSE f \in [1..3 -> fset] : {f[1], f[2], f[3]} = fset
Inside(pts, f, s) == LET g == Coef(pts, f, s)
                     IN \A i \in 1..3 : FGe(g[i], FNeg(EM7))
MaybeInside(pts, f, s) == LET g == Coef(pts, f, s)
                          IN \A i \in 1..3 : FGe(g[i], FNeg(Margin))
DecayOf(st) == Vec(Len(st.d), LAMBDA i : FPow(st.d[i], st.a))
Support(g, eps) == {i \in 1..Len(g) : FGt(FAbs(g[i]), eps)}
(* sum over i of (w_i) * position_i *)
Resultant(pts, w) == Vec(3, LAMBDA k : FDot(w, Vec(Len(pts), LAMBDA i : pts[i][k])))

(* Vector base amplitude panning of s over the given faces: g are the      *)
(* loudspeaker gains, p the norm.                                          *)
VbapBad(pts, decay, fs, s, g, p) ==
  IF Len(g) # Len(pts) \/ ~VFinite(g) THEN {"GainShape"}
  ELSE
  LET w == Vec(Len(g), LAMBDA i : FDiv(g[i], decay[i]))
      sup == Support(w, EM9)
  IN IF sup = {}
     THEN IF \E f \in fs : Inside(pts, SomeFace(f), s) THEN {"SilentInsideValidFace"} ELSE {}
     ELSE (IF \E f \in fs : sup \subseteq f THEN {} ELSE {"UsesInvalidFace"})
          \cup (IF Cardinality(sup) <= 3 THEN {} ELSE {"MoreThanThree"})
          \cup (IF \A i \in 1..Len(g) : FGe(w[i], FNeg(Margin)) THEN {} ELSE {"NegativeGain"})
          \cup (IF FNear(PNorm(w, p), One, EM6) THEN {} ELSE {"NotNormalised"})
          \cup (IF SameDirection(Resultant(pts, w), s, EM6) THEN {} ELSE {"WrongDirection"})
(* The gains themselves, where a clearly containing face exists. *)
VbapGains(pts, decay, fs, s) ==
  LET ins == {f \in fs : MaybeInside(pts, SomeFace(f), s)}
  IN IF ins = {} THEN ZeroVec(Len(pts))
     ELSE LET best == CHOOSE f \in ins : TRUE
              t == SomeFace(best)  c == Coef(pts, t, s)
          IN Vec(Len(pts), LAMBDA i :
               IF i \in best
               THEN FMul(decay[i], c[CHOOSE k \in 1..3 : t[k] = i]) ELSE Zero)

(* Vector base intensity panning: the squares pan, the gains are >= 0.     *)
VbipBad(pts, decay, fs, s, g, p) ==
  IF Len(g) # Len(pts) \/ ~VFinite(g) THEN {"GainShape"}
  ELSE
  LET w == Vec(Len(g), LAMBDA i : FDiv(FSq(g[i]), decay[i]))
      sup == Support(g, EM4)
  IN IF Support(g, EM9) = {}
     THEN IF \E f \in fs : Inside(pts, SomeFace(f), s) THEN {"SilentInsideValidFace"} ELSE {}
     ELSE (IF \E f \in fs : sup \subseteq f THEN {} ELSE {"UsesInvalidFace"})
          \cup (IF \A i \in 1..Len(g) : FGe(g[i], Zero) THEN {} ELSE {"NegativeGain"})
          \cup (IF FNear(PNorm(g, p), One, EM6) THEN {} ELSE {"NotNormalised"})
          \cup (IF SameDirection(Resultant(pts, w), s, FMul(FI(5), EM5)) THEN {} ELSE {"WrongDirection"})

(* Nearest loudspeaker: all energy on one loudspeaker of minimal angle.    *)
NlsBad(pts, d, decay, s, g) ==
  IF Len(g) # Len(pts) \/ ~VFinite(g) THEN {"GainShape"}
  ELSE LET sup == {i \in 1..Len(g) : g[i] # Zero}
           c == Vec(Len(pts), LAMBDA i : FDiv(FDot(pts[i], s), d[i]))
       IN IF Cardinality(sup) # 1 THEN {"NotExactlyOne"}
          ELSE LET i == CHOOSE k \in sup : TRUE
               IN (IF FNear(g[i], decay[i], EM9) THEN {} ELSE {"WrongGain"})
                  \cup (IF FGe(c[i], FSub(VMax(c), EM9)) THEN {} ELSE {"NotNearest"})

(*--------------------------- ambisonic extension ------------------------*)
(* edges of exactly one valid face: what an imaginary loudspeaker closes *)
Rim(st) == LET es == {{a, b} : a, b \in 1..Len(st.pts)}
           IN {e \in es : Cardinality(e) = 2 /\ Cardinality({f \in st.valid : e \subseteq f}) = 1}
(* Imaginary loudspeaker closing the rim of the valid faces:               *)
(* -(sum of area * normal) / (mean distance)^3, normals of length 2*area.  *)
Imaginary(st) ==
  LET fs == SetToSeq({f \in ToSet(st.faces) : FaceSet(f) \in st.valid})
      bary == Mean(st.pts)
      n == Vec(Len(fs), LAMBDA i : LET v == Outward(st.pts, fs[i], bary)
                                   IN VScale(FMul(Half, Norm(v)), v))
      tot == Vec(3, LAMBDA k : FSum(Vec(Len(fs), LAMBDA i : n[i][k])))
      md == FDiv(FSum(Vec(Len(fs), LAMBDA i :
               FDiv(FSum(Vec(3, LAMBDA k : st.d[fs[i][k]])), FI(3)))), FI(Len(fs)))
      r3 == FPow(md, 3)
  IN Vec(3, LAMBDA k : FDiv(FNeg(tot[k]), r3))

(* Characteristic order: spread of the energy vector for sources at the    *)
(* face centroids, panned over all faces turned towards the listener.      *)
OrderOfSpread(avg) == FSub(FDiv(FQ(2758, 10), avg), FQ(151, 100))
(* A source that no face pans is silent: |rE| = 0, a spread of 180 degrees. *)
(* <<low, high>>: where cones overlap (listener outside) either face may pan *)
CharOrderReal(st) ==
  LET up == Vec(Len(st.pts), LAMBDA i : Unit(st.pts[i]))
      dec == DecayOf(st)
      encl == SetToSeq({<<f, SomeFace(f)>> : f \in st.encl})
      Spread1(s, q) ==
        LET c == Coef(up, q, s)
            e == Vec(3, LAMBDA k : FSq(FMul(dec[q[k]], c[k])))
            mag == FDiv(Norm(Vec(3, LAMBDA x : FDot(e, Vec(3, LAMBDA k : up[q[k]][x])))), FSum(e))
        IN FDiv(FMul(FI(360), FAcos(mag)), Pi)
      Spreads(f) ==
        LET s == Unit(FCentroid(st.pts, f))
            ins == SelectSeq(encl, LAMBDA x : MaybeInside(up, x[2], s))
        IN IF ins = <<>> THEN <<FI(180)>> ELSE Vec(Len(ins), LAMBDA k : Spread1(s, ins[k][2]))
      n == Len(st.faces)
      all == Vec(n, LAMBDA i : Spreads(st.faces[i]))
      lo == FDiv(FSum(Vec(n, LAMBDA i : VMin(all[i]))), FI(n))
      hi == FDiv(FSum(Vec(n, LAMBDA i : VMax(all[i]))), FI(n))
  IN <<OrderOfSpread(hi), OrderOfSpread(lo)>>
===========================================================================
