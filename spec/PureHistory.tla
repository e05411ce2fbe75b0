---------------------------- MODULE PureHistory ----------------------------
(***************************************************************************)
(* Design of the library's functions as seen over a whole session: a call  *)
(* depends on its arguments only, and what it returned belongs to the      *)
(* caller, who may overwrite it.  Slots 1 and 2 are one function with two  *)
(* argument sets, slot 3 is another function.  Constants choose what an    *)
(* implementation might do behind the curtain:                             *)
(*   Memo  "none" | "copy" (keeps a private copy)                          *)
(*         | "shared" (hands out what it keeps) | "coarse" (its key        *)
(*         forgets part of the arguments)                                  *)
(*   Rand  "free" | "draws" (the result follows the global generator)      *)
(*   Glob  "kept" | "moved" (a call leaves global state changed)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Memo, Rand, Glob, MaxLen, Gen
VARIABLES cell,   \* storage -> content
          res,    \* results in the caller's hands -> cell
          ideal,  \* results -> content as the caller knows it
          cache,  \* key -> cell (0: none)
          glob, touched, good, hist
vars == <<cell, res, ideal, cache, glob, touched, good, hist>>
Slots == 1..3
Key(s) == IF Memo = "coarse" /\ s = 2 THEN 1 ELSE s
Value(s) == 10 * s + (IF Rand = "draws" THEN glob ELSE 0)
Init == /\ cell = <<>> /\ res = <<>> /\ ideal = <<>> /\ cache = [s \in Slots |-> 0]
        /\ glob = 0 /\ touched = FALSE /\ good = TRUE /\ hist = <<>>
Log(op, x) == hist' = Append(hist, <<op, x>>)
Call(s) ==
  LET k == Key(s)
      hit == Memo # "none" /\ cache[k] # 0
      v == IF hit THEN cell[cache[k]] ELSE Value(s)
      n == Len(cell)
      fresh == hit \/ Memo = "none"
      add == IF hit THEN IF Memo = "shared" THEN <<>> ELSE <<v>>
             ELSE IF Memo = "none" \/ Memo = "shared" THEN <<v>> ELSE <<v, v>>
      give == IF hit /\ Memo = "shared" THEN cache[k] ELSE n + 1
  IN /\ cell' = cell \o add
     /\ res' = Append(res, give)
     /\ ideal' = Append(ideal, 10 * s)
     /\ cache' = IF fresh THEN cache
                 ELSE [cache EXCEPT ![k] = IF Memo = "shared" THEN n + 1 ELSE n + 2]
     /\ good' = (v = 10 * s)
     /\ glob' = IF Glob = "moved" THEN glob + 1 ELSE glob
     /\ touched' = (touched \/ Glob = "moved")
     /\ Log("call", s)
Scribble(r) == /\ r \in 1..Len(res)
               /\ cell' = [cell EXCEPT ![res[r]] = -1]
               /\ ideal' = [ideal EXCEPT ![r] = -1]
               /\ UNCHANGED <<res, cache, glob, touched, good>> /\ Log("scribble", r)
Reseed == /\ glob' = glob + 1 /\ UNCHANGED <<cell, res, ideal, cache, touched, good>>
          /\ Log("reseed", 0)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E s \in Slots : Call(s)
           \/ \E r \in {1, Len(res)} : Scribble(r)
           \/ Reseed
Repeatable == good
ResultsKept == \A r \in 1..Len(res) : cell[res[r]] = ideal[r]
GlobalKept == ~touched
Calls == {i \in 1..Len(hist) : hist[i][1] = "call"}
Repeats == \E i, j \in Calls : i < j /\ hist[i] = hist[j]
PrintProg == (Gen /\ Len(hist) = MaxLen /\ hist[MaxLen][1] = "call" /\ Repeats)
                => PrintT("PROG " \o ToJson(hist))
=============================================================================
