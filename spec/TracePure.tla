----------------------------- MODULE TracePure ------------------------------
(* Recorded sessions.  State: live - the results in the caller's hands as  *)
(* the caller knows them (fingerprints of their stored bits).              *)
EXTENDS Trace
ByEvent(st, e) ==
  CASE \* class 0 of a result: that of the same call in a process of its own
       e.ev = "call" ->
         IF e.exc # e.refexc THEN {"SameRefusal"} ELSE
         Chk(e.cls = 0, "SameResult")
         \cup Chk(e.args, "ArgumentsKept")
         \cup Chk(e.glob[1] = e.glob[2], "GlobalStateKept")
         \cup Chk(SubSeq(e.live, 1, Len(st.live)) = st.live, "EarlierResultsKept")
         \cup Chk(Len(e.live) = Len(st.live) + 1, "OneResult")
    [] e.ev = "scribble" ->
         Chk(Len(e.live) = Len(st.live) /\ \A r \in 1..Len(st.live) :
               r = e.r \/ e.live[r] = st.live[r], "ResultsIndependent")
    [] e.ev = "reseed" -> Chk(e.live = st.live, "ResultsKept")
    [] OTHER -> {"UnknownEvent"}
InitState(e) == [live |-> <<>>]
Verdict(st, e) == ByEvent(st, e)
Advance(st, e) == [st EXCEPT !.live = e.live]

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = InitState(Log[t][1])
TraceNext == /\ l <= Len(Log[t])
             /\ Report(t, l, Verdict(st, Log[t][l]))
             /\ st' = Advance(st, Log[t][l])
             /\ l' = l + 1 /\ t' = t
=============================================================================
