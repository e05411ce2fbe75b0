--------------------------- MODULE TraceParallel ---------------------------
(* Runs of the real parallel renderers against the serial semantics.       *)
EXTENDS Geo, Trace

(* sum over tasks i of p[i] * h[idx[i]] shifted to i: the binaural SDM     *)
RECURSIVE Acc(_, _, _, _)
Acc(e, h, k, i) ==
  IF i = 0 THEN 0
  ELSE Acc(e, h, k, i - 1) +
       (IF k - i + 1 \in 1..Len(h[e.idx[i]]) THEN e.p[i] * h[e.idx[i]][k - i + 1] ELSE 0)
SerialSum(e, h) == LET n == Len(e.p) + Len(h[1]) - 1
                   IN [k \in 1..n |-> Acc(e, h, k, Len(e.p))]
BsdmBad(e) ==
  IF e.exc # "" THEN {"Raised"} ELSE
  Chk(e.left = SerialSum(e, e.hl) /\ e.right = SerialSum(e, e.hr),
      IF e.jobs = <<1>> THEN "SerialSum" ELSE "SameAsSerial")

(* a parallel call returns what the serial call returns *)
SameBad(e) ==
  IF e.exc # e.exc1 THEN {"SameAsSerial"}
  ELSE IF e.exc # "" THEN {}
  ELSE Chk(Len(e.out) = Len(e.ref) /\ \A k \in 1..Len(e.ref) :
             VNear(e.out[k], e.ref[k], EM9), "SameAsSerial")
       \cup Chk(e.shapes[1] = e.shapes[2], "SameShape")
SameIntBad(e) ==
  IF e.exc # e.exc1 THEN {"SameAsSerial"}
  ELSE Chk(e.out = e.ref, "SameAsSerial")
Verdict(st, e) ==
  CASE e.ev = "bsdm" -> BsdmBad(e)
    [] e.ev = "same" -> SameBad(e)
    [] e.ev = "sameint" -> SameIntBad(e)
    [] OTHER -> {"UnknownAction"}
Advance(st, e) == st

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = 0
TraceNext == /\ l <= Len(Log[t])
             /\ LET e == Log[t][l]
                IN Report(t, l, Verdict(st, e)) /\ st' = Advance(st, e)
             /\ l' = l + 1 /\ t' = t
=============================================================================
