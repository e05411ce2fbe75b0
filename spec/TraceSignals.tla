---------------------------- MODULE TraceSignals ----------------------------
(* Recorded histories of signal objects and audio files.                   *)
EXTENDS Signals, Trace

CNear(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : VNear(a[k], b[k], Tol(9))
SameObj(o, v) == o.kind = v.kind /\ o.fs = v.fs /\ CNear(o.ch, v.ch)

(* every event carries now = all objects as the user sees them afterwards; *)
(* names = what W X Y Z give for B-format objects, len and count           *)
(* Target: the expected object list after e, or <<>> if left to TargetBad  *)


O(st, e) == st.obj[e.h]
FileObj(st, e) ==           \* object(s) described by a load event
  LET fs == Vec(Len(e.files), LAMBDA i : st.file[e.files[i]])
  IN [fs |-> fs[1].fs, sub |-> fs[1].sub,
      ch |-> FoldLeft(LAMBDA a, f : a \o f.ch, <<>>, fs),
      same |-> \A i \in 1..Len(fs) : fs[i].fs = fs[1].fs]
StoredFile(f, ch) == Len(f.ch) = Len(ch) /\ \A k \in 1..Len(ch) :
   Len(f.ch[k]) = Len(ch[k]) /\ \A i \in 1..Len(ch[k]) : StoredNear(ch[k][i], f.ch[k][i], f.sub)

Shared(st, e) ==            \* objects other than the target stay as they were
  LET n == Len(st.obj)
      tgt == IF Has(e, "to") THEN e.to ELSE IF Has(e, "h") THEN e.h ELSE 0
  IN Chk(\A k \in 1..n : k = tgt \/ SameObj(st.obj[k], e.now[k]), "OthersUntouched")
Names(e) == Chk(\A k \in 1..Len(e.now) :
                  e.now[k].kind = "ambib" => CNear(e.names[k], e.now[k].ch), "NamesFollow")
            \cup Chk(\A k \in 1..Len(e.now) : e.len[k] = Len(e.now[k].ch[1])
                       /\ e.count[k] = Len(e.now[k].ch), "Sizes")

Target(st, e) ==            \* the expected object after a successful event
  LET o == O(st, e) IN
  CASE e.ev = "new" -> [kind |-> e.kind, fs |-> e.fs, ch |-> e.ch]
    [] e.ev = "copy" -> o
    [] e.ev = "trimcopy" -> [o EXCEPT !.ch = Vec(Len(o.ch), LAMBDA k : Cut(o.ch[k], e.a, e.b))]
    [] e.ev = "trim" -> [o EXCEPT !.ch = Vec(Len(o.ch), LAMBDA k : Cut(o.ch[k], e.a, e.b))]
    [] e.ev = "conv" -> [o EXCEPT !.ch = Vec(Len(o.ch), LAMBDA k : Conv(o.ch[k], e.irs[k], e.mode))]
    [] e.ev = "apply" -> [o EXCEPT !.ch = Vec(Len(o.ch), LAMBDA k : e.result)]
    [] e.ev = "assign" -> [o EXCEPT !.ch[e.c] = e.value]
    [] e.ev = "poke" -> [o EXCEPT !.ch[e.c][e.i] = e.value]
    [] e.ev = "shtob" -> LET k == FSqrt(FMul(FI(4), Pi))  q == FDiv(k, FSqrt(FI(3)))
                         IN [kind |-> "ambib", fs |-> o.fs,
                             ch |-> <<VScale(k, o.ch[1]), VScale(q, o.ch[4]),
                                      VScale(q, o.ch[2]), VScale(q, o.ch[3])>>]

OpBad(st, e) ==
  LET n == Len(st.obj) IN
  CASE e.ev = "resample" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET o == O(st, e)  v == e.now[e.h]
         IN Chk(v.fs = e.fs2 /\ v.kind = o.kind /\ Len(v.ch) = Len(o.ch) /\
                IF e.fs2 = o.fs THEN CNear(v.ch, o.ch)
                ELSE \A k \in 1..Len(v.ch) : /\ Len(v.ch[k]) = ResampledLen(Len(o.ch[k]), o.fs, e.fs2)
                                             /\ VFinite(v.ch[k]), "Resampled")
    [] e.ev = "trim" /\ e.refuse -> Chk(e.exc # "" /\ SameObj(O(st, e), e.now[e.h]), "RefusesTrim")
    [] e.ev = "save" ->
         LET o == O(st, e)
         IN IF e.fsarg # <<>> /\ e.fsarg[1] # o.fs
            THEN Chk(e.exc # "", "RefusesWrongRate")
            ELSE Chk(e.exc = "", "Raised")
                 \cup Chk(SameObj(o, e.now[e.h]), "SavingKeepsSignal")
    [] e.ev = "savearray" ->
         IF e.fsarg = <<>> THEN Chk(e.exc # "", "RefusesMissingRate")
         ELSE Chk(e.exc = "" /\ e.same, "Raised")
    \* a multichannel signal without a rate, a B-format without four channels
    [] e.ev = "badnew" -> Chk(e.exc # "", "RefusesInconsistent")
    [] e.ev = "savewrong" -> Chk(e.exc # "" /\ ~e.wrote, "RefusesNonAudio")
    \* the device is given every sample, scaled, at the rate of the signal
    [] e.ev = "play" ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET o == O(st, e)
         IN Chk(e.rate = o.fs /\ CNear(e.heard, Vec(Len(o.ch), LAMBDA k : VScale(e.gain, o.ch[k]))), "Played")
            \cup Chk(e.calls = IF e.wait THEN <<"play", "wait">> ELSE <<"play">>, "PlayedToTheEnd")
            \cup Chk(SameObj(o, e.now[e.h]), "PlayingKeepsSignal")
    [] e.ev \in {"load", "fromfile"} ->
         LET f == FileObj(st, e)
             want == IF e.ev = "load" THEN IF Len(f.ch) = 1 THEN "mono" ELSE "multi" ELSE e.kind
             fits == e.ev = "load" \/ (e.kind = "mono") = (Len(f.ch) = 1)
         IN IF ~f.same \/ (e.fsarg # <<>> /\ e.fsarg[1] # f.fs) THEN Chk(e.exc # "", "RefusesWrongRate")
            ELSE IF ~fits \/ (want = "ambib" /\ Len(f.ch) # 4) THEN Chk(e.exc # "", "RefusesChannelCount")
            ELSE IF e.exc # "" THEN {"Raised"}
            ELSE LET v == e.now[e.to]
                 IN Chk(v.kind = want /\ v.fs = f.fs, "LoadedKind")
                    \cup Chk(StoredFile(f, v.ch), "RoundTrip")
    [] OTHER ->
         IF e.exc # "" THEN {"Raised"} ELSE
         LET k == IF Has(e, "to") THEN e.to ELSE e.h
         IN Chk(SameObj(Target(st, e), e.now[k]), "Op_" \o e.ev)
            \cup ChkIf(e.ev = "conv", e.same, "ReturnsSelf")
Verdict(st, e) ==
  IF Len(e.now) < Len(st.obj) THEN {"Objects"}
  ELSE OpBad(st, e) \cup Shared(st, e) \cup Names(e)
Advance(st, e) ==
  [obj |-> e.now,
   file |-> IF e.exc # "" THEN st.file
            ELSE IF e.ev = "save" THEN [st.file EXCEPT ![e.file] = [fs |-> O(st, e).fs, ch |-> O(st, e).ch, sub |-> e.sub]]
            ELSE IF e.ev = "savearray" THEN [st.file EXCEPT ![e.file] = [fs |-> e.fsarg[1], ch |-> e.ch, sub |-> e.sub]]
            ELSE st.file]

VARIABLES t, l, st
TraceInit == t \in 1..Len(Log) /\ l = 1
             /\ st = [obj |-> <<>>, file |-> [f \in 1..9 |-> <<>>]]
TraceNext == /\ l <= Len(Log[t])
             /\ LET e == Log[t][l]
                IN Report(t, l, Verdict(st, e)) /\ st' = Advance(st, e)
             /\ l' = l + 1 /\ t' = t
=============================================================================
