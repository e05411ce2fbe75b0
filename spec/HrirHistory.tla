---------------------------- MODULE HrirHistory ----------------------------
(***************************************************************************)
(* Design of HRIR sets over their whole life: both ears are replaced and   *)
(* filtered together, the reported sizes are those of the responses now    *)
(* held, a copy is independent.  Responses are abstracted to <<length,     *)
(* content>>.  Constants choose the design:                                *)
(*   Copy  "deep" | "shallow"      Count "follow" | "kept"                 *)
(*   Ears  "both" | "left" (the filter forgets the right ear)              *)
(*   Check "first" | "late" (a refused update has already taken effect)    *)
(*   Grid  "live" | "kept" (the directions a query compares with are       *)
(*         remembered from the first query)                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Copy, Count, Ears, Check, Grid, MaxLen, Gen
VARIABLES cell,   \* storage: [l, r, n, g, memo]; l and r are <<len, content>>
          ref,    \* handle -> cell (0: none)
          ideal,  \* handle -> what its user expects
          said,   \* last answer of a query: <<grid it used, grid its user sees>>
          hist
vars == <<cell, ref, ideal, said, hist>>
Handles == {1, 2}
Set0 == [l |-> <<3, 1>>, r |-> <<3, 2>>, n |-> 3, g |-> 0, memo |-> <<>>]
Log(op, h) == hist' = Append(hist, <<op, h>>)
Init == /\ cell = <<Set0>> /\ ref = [h \in Handles |-> IF h = 1 THEN 1 ELSE 0]
        /\ ideal = [h \in Handles |-> Set0] /\ said = <<0, 0>> /\ hist = <<>>
N(n, old) == IF Count = "follow" THEN n ELSE old
Put(h, v, w) == /\ cell' = [cell EXCEPT ![ref[h]] = v]
                /\ ideal' = [ideal EXCEPT ![h] = w] /\ ref' = ref /\ said' = said
Update(h) == /\ ref[h] # 0 /\ Log("update", h)
             /\ LET o == ideal[h]
                    w == [l |-> <<o.l[1] + 1, 3 * o.l[2]>>, r |-> <<o.l[1] + 1, 3 * o.r[2]>>, n |-> o.l[1] + 1,
                         g |-> o.g, memo |-> cell[ref[h]].memo]
                IN Put(h, [w EXCEPT !.n = N(w.n, cell[ref[h]].n)], w)
BadUpdate(h) == /\ ref[h] # 0 /\ Log("badupdate", h)
                /\ IF Check = "first" THEN UNCHANGED <<cell, ref, ideal, said>>
                   ELSE Put(h, [cell[ref[h]] EXCEPT !.l = <<1, 0>>], ideal[h])
Eq(h, mode) ==
  /\ ref[h] # 0 /\ Log(mode, h)
  /\ LET o == ideal[h]  c == cell[ref[h]]
         len == IF mode = "eqfull" THEN o.l[1] + 2 ELSE o.l[1]
         w == [l |-> <<len, 5 * o.l[2]>>, r |-> <<len, 5 * o.r[2]>>, n |-> len, g |-> o.g, memo |-> c.memo]
         v == [l |-> w.l, r |-> IF Ears = "both" THEN w.r ELSE c.r, n |-> N(len, c.n), g |-> o.g, memo |-> c.memo]
     IN Put(h, v, w)
Poke(h) == /\ ref[h] # 0 /\ Log("poke", h)
           /\ Put(h, [cell[ref[h]] EXCEPT !.l[2] = @ + 1], [ideal[h] EXCEPT !.l[2] = @ + 1])
CopyOp == /\ Log("copy", 1)
          /\ IF Copy = "deep" THEN cell' = Append(cell, cell[ref[1]]) /\ ref' = [ref EXCEPT ![2] = Len(cell) + 1]
             ELSE cell' = cell /\ ref' = [ref EXCEPT ![2] = ref[1]]
          /\ ideal' = [ideal EXCEPT ![2] = ideal[1]] /\ said' = said
\* the user turns the grid: another array, or new values in the same one
Turn(h) == /\ ref[h] # 0 /\ Log("turn", h)
           /\ Put(h, [cell[ref[h]] EXCEPT !.g = @ + 1], [ideal[h] EXCEPT !.g = @ + 1])
Query(h) == /\ ref[h] # 0 /\ Log("nearest", h)
            /\ LET c == cell[ref[h]]
                   m == IF Grid = "kept" /\ c.memo # <<>> THEN c.memo ELSE <<c.g>>
               IN said' = <<m[1], ideal[h].g>> /\ cell' = [cell EXCEPT ![ref[h]].memo = m]
            /\ UNCHANGED <<ref, ideal>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E h \in Handles : \/ Update(h) \/ BadUpdate(h) \/ Poke(h) \/ Turn(h) \/ Query(h)
                                 \/ Eq(h, "eqfull") \/ Eq(h, "eqsame")
           \/ CopyOp
Live == {h \in Handles : ref[h] # 0}
SizesTrue == \A h \in Live : cell[ref[h]].n = cell[ref[h]].l[1]
EarsTogether == \A h \in Live : cell[ref[h]].l[1] = cell[ref[h]].r[1]
AsExpected == \A h \in Live : cell[ref[h]].l = ideal[h].l /\ cell[ref[h]].r = ideal[h].r
AnswersLive == said[1] = said[2]
PrintProg == (Gen /\ Len(hist) = MaxLen) => PrintT("PROG " \o ToJson(hist))
=============================================================================
