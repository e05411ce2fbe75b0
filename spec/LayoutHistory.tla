--------------------------- MODULE LayoutHistory ---------------------------
(***************************************************************************)
(* Design of layout files.  A setup has R real loudspeakers with gains and *)
(* I imaginary ones (none before its ambisonic setup); a file is the       *)
(* sequence of <<imaginary?, gain>>.  Others may have written the file:    *)
(* imaginary entries stand anywhere, gains may be missing.                 *)
(*   Gains "real" (those of the real entries) | "all" (taken by position)  *)
(*   Order "realfirst" (saving keeps loudspeaker order) | "asis"           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Gains, MaxLen, Gen
R == 2
VARIABLES hull,   \* [gains, imag (-1: no ambisonic setup)]
          want,   \* gains the user expects for the real loudspeakers
          file,   \* sequence of <<imag, gain>> or <<>>
          fwant,  \* gains of the real loudspeakers stored there
          hist
vars == <<hull, want, file, fwant, hist>>
Log(op) == hist' = Append(hist, op)
Init == /\ hull = [gains |-> <<1, 1>>, imag |-> -1] /\ want = <<1, 1>>
        /\ file = <<>> /\ fwant = <<>> /\ hist = <<>>
Ambi(k) == /\ hull' = [hull EXCEPT !.imag = k] /\ Log(<<"ambi", k>>)
           /\ UNCHANGED <<want, file, fwant>>
Gain == /\ hull' = [hull EXCEPT !.gains[2] = @ + 1] /\ want' = [want EXCEPT ![2] = @ + 1]
        /\ Log(<<"gain", 2>>) /\ UNCHANGED <<file, fwant>>
Save == IF hull.imag = -1
        THEN Log(<<"save", 0>>) /\ UNCHANGED <<hull, want, file, fwant>>      \* refused
        ELSE /\ file' = [i \in 1..(R + hull.imag) |->
                  IF i <= R THEN <<FALSE, hull.gains[i]>> ELSE <<TRUE, 0>>]
             /\ fwant' = want /\ Log(<<"save", 1>>) /\ UNCHANGED <<hull, want>>
(* somebody else moves the imaginary entries to the front *)
Edit == /\ file # <<>> /\ Log(<<"edit", 0>>) /\ UNCHANGED <<hull, want, fwant>>
        /\ file' = SelectSeq(file, LAMBDA x : x[1]) \o SelectSeq(file, LAMBDA x : ~x[1])
Strip == /\ file # <<>> /\ Log(<<"strip", 0>>) /\ UNCHANGED <<hull, want>>    \* gains removed
         /\ file' = [i \in 1..Len(file) |-> <<file[i][1], 1>>] /\ fwant' = [i \in 1..R |-> 1]
Load == /\ file # <<>> /\ Log(<<"load", 0>>)
        /\ LET real == SelectSeq(file, LAMBDA x : ~x[1])
               g == IF Gains = "real" THEN [i \in 1..R |-> real[i][2]]
                    ELSE [i \in 1..Len(file) |-> file[i][2]]
           IN hull' = [gains |-> g, imag |-> Len(file) - R]
        /\ want' = fwant /\ UNCHANGED <<file, fwant>>
Next == Len(hist) < MaxLen /\ (Ambi(0) \/ Ambi(1) \/ Ambi(2) \/ Gain \/ Save \/ Edit \/ Strip \/ Load)
GainsKept == hull.gains = want
PrintProg == (Gen /\ Len(hist) = MaxLen /\ \E i \in 1..MaxLen : hist[i][1] \in {"save", "load"})
             => PrintT("PROG " \o ToJson(hist))
=============================================================================
