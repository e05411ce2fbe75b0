--------------------------- MODULE SignalHistory ---------------------------
(***************************************************************************)
(* Design of signal objects: handles refer to buffers, B-format names      *)
(* (W X Y Z) refer to channels.  Two choices decide whether histories are  *)
(* harmless:                                                               *)
(*   Copy  = "deep" (own buffer) or "shallow" (same buffer)                *)
(*   Names = "view" (looked up in the channels) or "kept" (bound once)     *)
(* ideal[h] is what a user expects to hear from handle h.                  *)
(* With Gen = TRUE all programs of length MaxLen are printed.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Copy, Names, MaxLen, Gen
Handles == {1, 2}
VARIABLES buf,    \* buffer -> content
          ref,    \* handle -> buffer (0: no object)
          name,   \* handle -> buffer the B-format names refer to
          ideal,  \* handle -> expected content
          hist
vars == <<buf, ref, name, ideal, hist>>
Fresh == Len(buf) + 1
Log(op, h) == hist' = Append(hist, <<op, h>>)
Init == /\ buf = <<1>> /\ ref = [h \in Handles |-> IF h = 1 THEN 1 ELSE 0]
        /\ name = ref /\ ideal = [h \in Handles |-> IF h = 1 THEN 1 ELSE 0] /\ hist = <<>>
(* operations that replace the samples of an object *)
Rebind(op, h, v) == /\ ref[h] # 0
                    /\ buf' = Append(buf, v) /\ ref' = [ref EXCEPT ![h] = Fresh]
                    /\ name' = IF Names = "view" THEN [name EXCEPT ![h] = Fresh] ELSE name
                    /\ ideal' = [ideal EXCEPT ![h] = v] /\ Log(op, h)
(* writing into the samples of an object *)
Poke(h) == /\ ref[h] # 0 /\ buf' = [buf EXCEPT ![ref[h]] = 10 * @ + 7]
           /\ ideal' = [ideal EXCEPT ![h] = 10 * @ + 7]
           /\ UNCHANGED <<ref, name>> /\ Log("poke", h)
CopyOp(op) ==
          /\ ref[1] # 0
          /\ IF Copy = "deep"
             THEN /\ buf' = Append(buf, buf[ref[1]]) /\ ref' = [ref EXCEPT ![2] = Fresh]
                  /\ name' = [name EXCEPT ![2] = Fresh]
             ELSE /\ buf' = buf /\ ref' = [ref EXCEPT ![2] = ref[1]]
                  /\ name' = [name EXCEPT ![2] = name[1]]
          /\ ideal' = [ideal EXCEPT ![2] = ideal[1]] /\ Log(op, 1)
Save(h) == ref[h] # 0 /\ Log("save", h) /\ UNCHANGED <<buf, ref, name, ideal>>
Swap == ref[2] # 0 /\ Log("load", 2)
        /\ buf' = Append(buf, 3) /\ ref' = [ref EXCEPT ![2] = Fresh]
        /\ name' = [name EXCEPT ![2] = Fresh] /\ ideal' = [ideal EXCEPT ![2] = 3]
Next == /\ Len(hist) < MaxLen
        /\ \/ \E h \in Handles : \/ Rebind("trim", h, 10 * ideal[h] + 1)
                                 \/ Rebind("conv", h, 10 * ideal[h] + 2)
                                 \/ Rebind("apply", h, 10 * ideal[h] + 3)
                                 \/ Rebind("assign", h, 10 * ideal[h] + 4)
                                 \/ Rebind("resample", h, 10 * ideal[h] + 5)
                                 \/ Poke(h) \/ Save(h)
           \/ CopyOp("copy") \/ CopyOp("trimcopy") \/ Swap
Independent == \A h \in Handles : ref[h] # 0 => buf[ref[h]] = ideal[h]
NamesFollow == \A h \in Handles : ref[h] # 0 => buf[name[h]] = ideal[h]
PrintProg == (Gen /\ Len(hist) = MaxLen) => PrintT("PROG " \o ToJson(hist))
=============================================================================
