----------------------------- MODULE TraceSetup -----------------------------
(* Recorded histories of loudspeaker setups against Setup.tla.             *)
EXTENDS Kernel, Trace

Blank == [pts |-> <<>>, d |-> <<>>, a |-> 1, faces |-> <<>>, valid |-> {},
          encl |-> {}, order |-> 0, ambi |-> <<>>]

(*------------------------------ construct -------------------------------*)
(* e: x y z lst (inputs), pts d faces valid areas normals vnormals         *)
(* centroids bary lout npoints, x2 y2 z2 lst2 (the caller's arrays after)  *)
RelPts(e) == LET l == e.lst
             IN Vec(Len(e.x), LAMBDA i : <<FSub(e.x[i], l[1]), FSub(e.y[i], l[2]), FSub(e.z[i], l[3])>>)
ConstructBad(e) ==
  LET pts == RelPts(e)  n == Len(pts)  fs == e.faces
      bary == Mean(pts)
      tol == FMul(EM8, FMul(Scale(pts), Scale(pts)))
  IN IF Has(e, "lean") THEN Chk(e.exc = "", "Raised") ELSE
     Chk(e.x2 = e.x /\ e.y2 = e.y /\ e.z2 = e.z /\ e.lst2 = e.lst, "ArgumentsModified")
     \cup (IF e.exc # "" THEN {"Raised"} ELSE
     Chk(MNear(e.pts, pts, EM9), "PointsRelativeToListener")
     \cup Chk(VNear(e.d, Vec(n, LAMBDA i : Norm(pts[i])), EM9), "Distances")
     \cup Chk(VNear(e.lout, ZeroVec(3), EM9), "ListenerIsOrigin")
     \cup Chk(e.n = <<n, Len(fs)>> /\ VNear(e.lsgains, Vec(n, LAMBDA i : One), EM9) /\ e.a = 1, "Sizes")
     \cup IF ~AreFaces(fs, n) THEN {"FacesAreTriangles"} ELSE
        Chk(Closed(fs) /\ Euler(fs) /\ Distinct(fs), "ClosedSurface")
        \cup Chk(Convex(pts, fs, bary), "ConvexHull")
        \cup Chk(\A i \in 1..Len(fs) : fs[i][1] < fs[i][2] /\ fs[i][1] < fs[i][3], "StartsWithSmallest")
        \cup Chk(UNION FaceSets(fs) = ToSet(e.vertices), "HullVertices")
        \cup Chk(VNear(e.bary, bary, EM9), "Barycenter")
        \cup Chk(MNear(e.centroids, Vec(Len(fs), LAMBDA i : FCentroid(pts, fs[i])), EM9), "Centroids")
        \cup LET nn == Vec(Len(fs), LAMBDA i : Outward(pts, fs[i], bary))
                 ar == Vec(Len(fs), LAMBDA i : FMul(Half, Norm(nn[i])))
                 vn == Vec(n, LAMBDA p :
                         LET inc == Vec(Len(fs), LAMBDA i : IF p \in FaceSet(fs[i]) THEN ar[i] ELSE Zero)
                         IN Vec(3, LAMBDA k : FDot(inc, Vec(Len(fs), LAMBDA i : nn[i][k]))))
             IN Chk(MNear(e.normals, nn, tol), "OutwardNormals")
                \cup Chk(VNear(e.areas, ar, tol), "FaceAreas")
                \cup Chk(MNear(e.vnormals, vn, FMul(tol, FI(10))), "VertexNormals")
                \cup Chk(MNear(e.unormals, Vec(Len(fs), LAMBDA i : Unit(nn[i])), EM7), "UnitNormals")
                \cup Chk(/\ Len(e.uvnormals) = n
                         /\ \A p \in ToSet(e.vertices) :
                              FLt(Norm(vn[p]), EM4) \/ VNear(e.uvnormals[p], Unit(vn[p]), EM6), "UnitNormals")
        \cup LET turned == {i \in 1..Len(fs) : FGt(TurnDot(pts, fs[i], bary, ZeroVec(3)), EM8)}
                 away == {i \in 1..Len(fs) : FLt(TurnDot(pts, fs[i], bary, ZeroVec(3)), FNeg(EM8))}
                 v == FaceSets(e.valid)
             IN Chk(/\ \A i \in turned : FaceSet(fs[i]) \in v
                    /\ \A i \in away : FaceSet(fs[i]) \notin v
                    /\ v \subseteq FaceSets(fs), "ListenerInside")
                \cup Chk(FaceSets(e.encl) = v, "ListenerInside"))
ConstructNext(st, e) ==
  IF e.exc # "" THEN st ELSE
  [pts |-> e.pts, d |-> e.d, a |-> 1, faces |-> e.faces,
   valid |-> FaceSets(e.valid), encl |-> FaceSets(e.encl), order |-> 0, ambi |-> <<>>]

(*-------------------------------- refine --------------------------------*)
PopBad(st, e) ==
  IF e.exc # "" THEN {"Raised"} ELSE
  LET keep == PopKeep(st, e.normal, e.aperture, e.opening, e.blacklist)
      maybe == PopMaybe(st, e.normal, e.aperture, e.opening, e.blacklist)
      v == FaceSets(e.valid)
  IN Chk(keep \subseteq v, "KeepsFacesWithinLimits")
     \cup Chk(v \subseteq keep \cup maybe, "RemovesFacesBeyondLimits")
     \cup Chk(Len(e.valid) = Cardinality(v), "NoDuplicates")
     \cup Chk(e.ptsSame /\ e.facesSame, "TouchesOnlyValidFaces")

(* one limit looked at on its own, from anywhere; nothing is changed *)
CheckBad(st, e) ==
  IF e.exc # "" THEN {"Raised"} ELSE
  LET vs == {<<FaceSet(f), CheckVs(st, f, e.kind, e.limit, e.lst, e.bl)>> : f \in CheckFaces(st, e.kind)}
      keep == {x[1] : x \in {y \in vs : y[2] = -1}}
      maybe == {x[1] : x \in {y \in vs : y[2] = 0}}
      v == FaceSets(e.out)
  IN Chk(keep \subseteq v, "KeepsFacesWithinLimits")
     \cup Chk(v \subseteq keep \cup maybe, "RemovesFacesBeyondLimits")
     \cup Chk(Len(e.out) = Cardinality(v), "NoDuplicates")
     \cup Chk(FaceSets(e.valid) = st.valid, "ChecksOnly")
(* is this triple, however turned, a valid face? *)
IsValidBad(st, e) ==
  IF e.exc # "" THEN {"Raised"}
  ELSE Chk(e.out = [i \in 1..Len(e.faces) |-> FaceSet(e.faces[i]) \in st.valid], "AnyOrientation")
(* faces turned so that they start with their smallest corner *)
SortBad(e) ==
  Chk(/\ Len(e.out) = Len(e.faces) /\ e.faces2 = e.faces
      /\ \A i \in 1..Len(e.faces) :
           /\ Len(e.out[i]) = 3 /\ FaceSet(e.out[i]) = FaceSet(e.faces[i])
           /\ e.out[i][1] <= e.out[i][2] /\ e.out[i][1] <= e.out[i][3], "StartsWithSmallest")

(*------------------------------- panning --------------------------------*)
(* the layer an event renders on *)
Layer(st, e) == IF e.outside THEN st.ambi[1] ELSE st
FacesFor(st, e) == IF e.explicit # <<>> THEN FaceSets(e.explicit[1]) ELSE Layer(st, e).valid
PanBad(st, e) ==
  IF e.outside /\ e.explicit # <<>> THEN Chk(e.exc # "", "ExplicitNotIgnored")
  ELSE IF e.outside /\ (st.ambi = <<>> \/ ~st.ambi[1].updated)
  THEN Chk(e.exc = "ValueError", "OutsideNeedsImaginary")
  ELSE IF e.exc # "" THEN {"Raised"}
  ELSE IF Len(e.gains) # Len(e.src) THEN {"GainShape"}
  ELSE UNION {
    LET s == e.src[k]  g == e.gains[k]  lay == Layer(st, e)
        fs == FacesFor(st, e)
    IN CASE e.outside /\ e.ev = "vbap" -> OutsideBad(lay, Len(st.pts), fs, s, g, e.norm)
         [] e.ev = "vbap" -> VbapBad(lay.pts, DecayOf(lay), fs, s, g, e.norm)
         [] e.outside /\ e.ev = "vbip" -> OutsideVbipBad(lay, Len(st.pts), fs, s, g, e.norm)
         [] e.ev = "vbip" -> VbipBad(lay.pts, DecayOf(lay), fs, s, g, e.norm)
         [] e.ev = "nls" -> NlsBad(lay.pts, lay.d, DecayOf(lay), s, g)
    : k \in 1..Len(e.src)}

(*---------------------------- ambisonic setup ---------------------------*)
OrderBad(st, e) ==
  IF e.exc # "" THEN
     \* the order may only be refused when it is below one
     Chk(FLt(CharOrderReal(st)[1], Tol(6)), "Raised")
  ELSE IF st.order # 0 THEN Chk(e.order = st.order, "FixedOrder")
  ELSE LET r == CharOrderReal(st)
       IN Chk(FLe(r[1], FAdd(FI(e.order), EM6)) /\ FGt(r[2], FSub(FI(e.order - 1), EM6)),
              "CharacteristicOrder")

AmbiBad(st, e) ==
  IF e.update /\ e.imaginary = <<>> /\ Rim(st) = {}
  THEN Chk(e.exc = "RuntimeError", "NoRimNoImaginary")
  ELSE IF e.exc # "" THEN {"Raised"} ELSE
  LET n == Len(st.pts)
      given == e.imaginary # <<>>
      want == IF ~e.update THEN <<>>
              ELSE IF given THEN e.imaginary[1] ELSE <<Imaginary(st)>>
      m == Len(want)
  IN Chk(Len(e.pts) = n + m, "HullHasRealThenImaginary")
     \cup (IF Len(e.pts) # n + m THEN {} ELSE
        Chk(\A i \in 1..n : VNear(e.pts[i], st.pts[i], EM9), "RealUntouched")
        \cup Chk(\A i \in 1..m : VNear(e.pts[n + i], want[i], EM6), "ImaginaryPosition"))
     \cup Chk(e.imagidx = (IF e.update THEN [i \in 1..m |-> n + i] ELSE <<>>)
              /\ e.updated = e.update, "ImaginaryMarkedLast")
     \cup Chk(FaceSets(e.valid) \subseteq FaceSets(e.faces), "FacesAreTriangles")
     \cup Chk(IF ~AreFaces(e.faces, Len(e.pts)) THEN FALSE
              ELSE Closed(e.faces) /\ Convex(e.pts, e.faces, Mean(e.pts)), "ConvexHull")
     \cup Chk((IF e.nk = <<>> THEN 2 * e.order ELSE 2 * e.nk[1]) \in ToSet(e.kernel), "KernelDesign")
     \cup OrderBad(IF e.forder = <<>> THEN st ELSE [st EXCEPT !.order = e.forder[1]], [e EXCEPT !.exc = ""])
     \cup Chk(FaceSets(e.svalid) = st.valid, "SetupFacesUntouched")
AmbiNext(st, e) ==
  IF e.exc # "" THEN st ELSE
  [st EXCEPT !.order = e.order,
             !.ambi = <<[pts |-> e.pts, d |-> e.d, a |-> 1, faces |-> e.faces,
                         valid |-> FaceSets(e.valid), encl |-> FaceSets(e.valid),
                         order |-> 0, ambi |-> <<>>, updated |-> e.update,
                         imag |-> e.imagidx, kernel |-> e.kpts]>>]

(*--------------------------------- trace --------------------------------*)
Verdict(st, e) ==
  CASE e.ev = "construct" -> ConstructBad(e)
    [] e.ev = "pop" -> PopBad(st, e)
    [] e.ev = "check" -> CheckBad(st, e)
    [] e.ev = "sort" -> SortBad(e)
    [] e.ev = "isvalid" -> IsValidBad(st, e)
    [] e.ev \in {"vbap", "vbip", "nls"} -> PanBad(st, e)
    [] e.ev = "order" -> OrderBad(st, e)
    [] e.ev = "ambi" -> AmbiBad(st, e)
    [] e.ev = "setvalid" -> {}
    [] e.ev = "copy" -> Chk(FaceSets(e.valid) = st.valid, "CopyKeepsFaces")
    [] e.ev = "decay" -> {}
    [] e.ev = "few" -> Chk(e.chans >= (e.N + 1) * (e.N + 1) \/ e.exc # "", "TooFewChannels")
    [] e.ev \in KernelEvents -> KernelBad(st, e)
         \cup (IF e.N = <<>> /\ st.order = 0 /\ e.exc = "" THEN OrderBad(st, [exc |-> "", order |-> e.eff]) ELSE {})
    [] OTHER -> {"UnknownAction"}
Advance(st, e) ==
  CASE e.ev = "construct" -> ConstructNext(st, e)
    [] e.ev = "pop" -> IF e.exc # "" THEN st ELSE
         [st EXCEPT !.valid = PopKeep(st, e.normal, e.aperture, e.opening, e.blacklist)
             \cup (FaceSets(e.valid) \cap PopMaybe(st, e.normal, e.aperture, e.opening, e.blacklist))]
    [] e.ev = "ambi" -> AmbiNext(st, e)
    [] e.ev = "setvalid" -> [st EXCEPT !.valid = FaceSets(e.valid)]
    [] e.ev = "decay" -> [st EXCEPT !.a = e.a]
    [] OTHER -> st

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = Blank
TraceNext == /\ l <= Len(Log[t])
             /\ LET e == Log[t][l]
                IN Report(t, l, Verdict(st, e)) /\ st' = Advance(st, e)
             /\ l' = l + 1 /\ t' = t
=============================================================================
