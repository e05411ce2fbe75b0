----------------------------- MODULE TraceFigs ------------------------------
(* Recorded drawing sessions.  State: now - per figure the fingerprint of  *)
(* what belongs to itself (entry 1) and of each of its axes (titles,       *)
(* limits, grid, data and colours of all artists).  An event names the     *)
(* figure drawn into and the entries it may change; ref and refadd are     *)
(* what the same calls show when drawn by a process of their own.          *)
EXTENDS Trace
Mine(e) == {e.targets[k] : k \in 1..Len(e.targets)}
Others(st, e) == \A f \in 1..Len(st.now) : \A a \in 1..Len(st.now[f]) :
                   <<f, a>> \in Mine(e) \/ e.now[f][a] = st.now[f][a]
Added(st, e) == [f \in 1..Len(e.now) |->
                   SubSeq(e.now[f], (IF f <= Len(st.now) THEN Len(st.now[f]) ELSE 0) + 1, Len(e.now[f]))]
ByEvent(st, e) ==
  CASE e.ev = "draw" ->
         IF e.exc # e.refexc THEN {"SameRefusal"} ELSE
         LET new == e.fig > Len(st.now)
             add == Added(st, e)
         IN (IF Len(e.now) # Len(st.now) + (IF new THEN 1 ELSE 0) THEN {"Figures"}
             ELSE IF \E f \in 1..Len(st.now) : Len(e.now[f]) < Len(st.now[f]) THEN {"AxesLost"}
             ELSE Chk(Others(st, e), "OthersUntouched")
                  \cup Chk(\A f \in 1..Len(e.now) : f = e.fig \/ add[f] = <<>>, "NoStrayAxes")
                  \cup Chk(/\ add[e.fig] = e.refadd /\ Len(e.ref) = Len(e.targets)
                           /\ \A k \in 1..Len(e.targets) : e.now[e.targets[k][1]][e.targets[k][2]] = e.ref[k],
                           "SamePicture"))
            \cup Chk(e.args, "ArgumentsKept")
            \cup Chk(e.glob[1] = e.glob[2], "GlobalStateKept")
    [] e.ev = "begin" -> {}
    [] e.ev = "select" -> Chk(e.now = st.now, "SelectKeeps")
    [] OTHER -> {"UnknownEvent"}
InitState(e) == [now |-> <<>>]
Verdict(st, e) == ByEvent(st, e)
Advance(st, e) == [now |-> e.now]

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1 /\ st = InitState(Log[t][1])
TraceNext == /\ l <= Len(Log[t])
             /\ Report(t, l, Verdict(st, Log[t][l]))
             /\ st' = Advance(st, Log[t][l])
             /\ l' = l + 1 /\ t' = t
=============================================================================
