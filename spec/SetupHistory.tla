---------------------------- MODULE SetupHistory ----------------------------
(***************************************************************************)
(* Design of the rendering base: which triangles does a panning call use?  *)
(* A setup owns a base computed from a set of faces and from point         *)
(* positions; the base may be kept between calls.  Cache selects the       *)
(* keeping policy:                                                         *)
(*   "none"  - computed per call                                           *)
(*   "keyed" - kept with the faces and points it was computed from         *)
(*   "stale" - kept unconditionally after the first call                   *)
(*   "alias" - keyed, but the key is the user's own array of valid faces,  *)
(*             not a copy, so that editing it in place edits the key too   *)
(* Positions are "real" or "unit" (characteristic order works on a shallow *)
(* copy with projected positions, so the copy starts with the same base).  *)
(*                                                                         *)
(* NoStaleBase is what every renderer relies on.  TLC checks it for none   *)
(* and keyed and refutes it for stale and alias.  With Gen = TRUE the module also    *)
(* prints every call history of length MaxLen that ends in an observation; *)
(* these are executed on the real code.                                    *)
(*                                                                         *)
(* The characteristic order follows the decay exponent, which the user may *)
(* set at any time.  It is fixed by the ambisonic setup and by nothing     *)
(* else; Remember = "asked" is the design that fixes it when it is first   *)
(* asked for, which TLC refutes (OrderUpToDate).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Faces, MaxLen, Cache, Gen, Remember

Mutators == {"pop_normal", "pop_aperture", "pop_blacklist", "setvalid", "editvalid",
             "decay", "ambi", "ambi_imag", "copy", "deepcopy"}
Observers == {"vbap", "vbap_explicit", "vbip", "order", "outside", "allrap"}
NoBase == <<>>

VARIABLES valid,   \* faces valid for rendering
          base,    \* NoBase or [f |-> faces, p |-> positions,
                   \*            k |-> faces named in its key]
          tied,    \* the key is the array of valid faces itself
          ambi,    \* 0 none, 1 without, 2 with imaginary; owns abase
          abase,
          used,    \* what the last panning call rendered on
          asked,   \* what it should have rendered on
          decay,   \* how often the decay exponent was set
          kept,    \* the decay of the remembered order, -1: none
          fixed,   \* the decay at the last ambisonic setup, -1: none
          answer,  \* the decay of the last order told
          hist
vars == <<valid, base, tied, ambi, abase, used, asked, decay, kept, fixed, answer, hist>>
ovars == <<decay, kept, fixed, answer>>

Encl == Faces
Want(f, p) == [f |-> f, p |-> p]
Built(w) == [f |-> w.f, p |-> w.p, k |-> w.f]
Rendering(b) == [f |-> b.f, p |-> b.p]
(* the base after a call that wants w, given the kept one *)
Keep(b, w) == IF b = NoBase THEN Built(w)
              ELSE CASE Cache = "none" -> Built(w)
                     [] Cache \in {"keyed", "alias"} -> IF b.k = w.f /\ b.p = w.p THEN b ELSE Built(w)
                     [] Cache = "stale" -> b
Use(b, w) == Rendering(Keep(b, w))

Init == /\ valid = Faces /\ base = NoBase /\ tied = FALSE /\ ambi = 0 /\ abase = NoBase
        /\ used = {} /\ asked = {} /\ hist = <<>>
        /\ decay = 0 /\ kept = -1 /\ fixed = -1 /\ answer = 0
Log(op) == hist' = IF Gen THEN Append(hist, op) ELSE <<>>
Told == IF kept = -1 THEN decay ELSE kept
(* the decay exponent is one of two values *)
Decay == /\ decay' = 1 - decay /\ Log("decay")
         /\ UNCHANGED <<valid, base, tied, ambi, abase, used, asked, kept, fixed>>
         /\ answer' = (IF fixed = -1 THEN 1 - decay ELSE fixed)    \* nobody was told
Render(op, w, own) ==
                 /\ used' = Use(base, w) /\ asked' = w /\ base' = Keep(base, w)
                 /\ tied' = IF base' = base THEN tied ELSE Cache = "alias" /\ own
                 /\ Log(op) /\ UNCHANGED <<valid, ambi, abase, ovars>>
Pop(op) == /\ \E s \in SUBSET Faces :
                valid' = valid \cap s /\ (Gen => s = Faces)
           /\ tied' = FALSE        \* a new array
           /\ Log(op) /\ UNCHANGED <<base, ambi, abase, used, asked, ovars>>
SetValid == /\ \E s \in SUBSET Faces : valid' = s /\ (Gen => s = Faces)
            /\ tied' = FALSE
            /\ Log("setvalid") /\ UNCHANGED <<base, ambi, abase, used, asked, ovars>>
(* the array of valid faces is written into, e.g. reordered *)
EditValid == /\ \E s \in SUBSET Faces : /\ valid' = s /\ (Gen => s = Faces)
                    /\ base' = IF tied THEN [base EXCEPT !.k = s] ELSE base
             /\ Log("editvalid") /\ UNCHANGED <<tied, ambi, abase, used, asked, ovars>>
(* shallow and deep copies both continue with the same kept base *)
Copy(op) == Log(op) /\ UNCHANGED <<valid, base, tied, ambi, abase, used, asked, ovars>>
Vbap(op) == Render(op, Want(valid, "real"), TRUE)
Explicit == \E s \in SUBSET Faces : (Gen => s = Faces) /\ Render("vbap_explicit", Want(s, "real"), FALSE)
Order == LET w == Want(Encl, "unit")
         IN /\ used' = Use(base, w) /\ asked' = w          \* on the copy:
            /\ Log("order") /\ UNCHANGED <<valid, base, tied, ambi, abase>>
            /\ answer' = Told /\ kept' = (IF Remember = "asked" THEN Told ELSE kept)
            /\ UNCHANGED <<decay, fixed>>
Ambi(op, k) == LET w == Want(Encl, "unit")
         IN /\ used' = Use(base, w) /\ asked' = w
            /\ ambi' = k /\ abase' = NoBase /\ Log(op) /\ UNCHANGED <<valid, base, tied>>
            /\ answer' = Told /\ kept' = Told
            /\ fixed' = (IF fixed = -1 THEN decay ELSE fixed) /\ UNCHANGED decay
Outside(op) == /\ ambi >= (IF op = "outside" THEN 2 ELSE 1)
            /\ LET w == Want(Faces, "real")
               IN used' = Use(abase, w) /\ asked' = w /\ abase' = Keep(abase, w)
            /\ Log(op) /\ UNCHANGED <<valid, base, tied, ambi, ovars>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E op \in {"pop_normal", "pop_aperture", "pop_blacklist"} : Pop(op)
           \/ SetValid \/ EditValid \/ Decay \/ Copy("copy") \/ Copy("deepcopy")
           \/ Vbap("vbap") \/ Vbap("vbip") \/ Explicit \/ Order
           \/ Ambi("ambi", 1) \/ Ambi("ambi_imag", 2)
           \/ Outside("outside") \/ Outside("allrap")
NoStaleBase == used = asked
OrderUpToDate == answer = IF fixed = -1 THEN decay ELSE fixed
PrintProg == (Gen /\ Len(hist) = MaxLen /\ hist[MaxLen] \in Observers)
            => PrintT("PROG " \o ToJson(hist))
=============================================================================
