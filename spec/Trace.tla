------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* What all trace specifications share.  The log (file named by TRACE) is  *)
(* a sequence of traces, a trace is a sequence of events, an event a       *)
(* record with field ev.  A trace specification supplies                   *)
(*   InitState(first event)  - the spec state before the first event       *)
(*   Verdict(st, e)          - the set of clauses event e violates in st   *)
(*   Advance(st, e)          - the spec state after e                      *)
(* Verdicts are total: a violated clause is reported by name and the       *)
(* validation goes on, so that one defect does not hide the next.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt
Log == JsonDeserialize(IOEnv.TRACE)
Chk(ok, clause) == IF ok THEN {} ELSE {clause}
ChkIf(pre, ok, clause) == IF pre => ok THEN {} ELSE {clause}
Report(t, l, bad) == IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<t, l, bad>>))
Has(e, f) == f \in DOMAIN e
===========================================================================
