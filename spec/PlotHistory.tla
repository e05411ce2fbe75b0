---------------------------- MODULE PlotHistory ----------------------------
(***************************************************************************)
(* Design of drawing over a session with several axes: a call draws into   *)
(* the axes it is given, or into a figure it opens, and nowhere else; what *)
(* it draws follows from its arguments, which it leaves alone.             *)
(* Slots 1 and 2 are one function with two argument sets, slot 3 another.  *)
(* Axes 1 and 2 exist from the start; the user makes either the current.   *)
(* Constants choose the design:                                            *)
(*   Target   "given" | "current" (decorates the current axes)             *)
(*   Args     "kept"  | "wrapped" (normalises the caller's array in place) *)
(*   Defaults "fresh" | "shared"  (a default changed by one call is the    *)
(*            default of the next)                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Target, Args, Defaults, MaxLen, Gen
VARIABLES axes,     \* axes -> what is drawn there: sequence of <<slot, content>>
          deco,     \* axes -> decorated by
          ideal,    \* axes -> slots the user had drawn there
          current, arg, default, hist
vars == <<axes, deco, ideal, current, arg, default, hist>>
Slots == 1..3
Init == /\ axes = << <<>>, <<>> >> /\ deco = << {}, {} >> /\ ideal = << <<>>, <<>> >>
        /\ current = 1 /\ arg = [s \in Slots |-> 10 * s] /\ default = 0 /\ hist = <<>>
Log(op, x, y) == hist' = Append(hist, <<op, x, y>>)
Fn(s) == IF s = 3 THEN 2 ELSE 1
Put(where, s) ==       \* where = Len(axes) + 1: a new figure
  LET v == <<s, 10 * s + default>>
      n == Len(axes)
      got == IF where > n THEN Append(axes, <<v>>) ELSE [axes EXCEPT ![where] = Append(@, v)]
      at == IF where > n \/ Target = "given" THEN where ELSE current
      d == IF where > n THEN Append(deco, {}) ELSE deco
  IN /\ axes' = got
     /\ deco' = [d EXCEPT ![at] = @ \cup {s}]
     /\ ideal' = IF where > n THEN Append(ideal, <<s>>) ELSE [ideal EXCEPT ![where] = Append(@, s)]
     /\ current' = IF where > n THEN where ELSE current
     /\ arg' = IF Args = "wrapped" THEN [arg EXCEPT ![s] = @ - 1] ELSE arg
     /\ default' = IF Defaults = "shared" /\ s = 2 THEN 1 ELSE default
Draw(s, p) == Put(IF p = 0 THEN Len(axes) + 1 ELSE p, s) /\ Log("draw", s, p)
Select(p) == /\ current' = p /\ p # current /\ Log("select", 0, p)
             /\ UNCHANGED <<axes, deco, ideal, arg, default>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E s \in Slots, p \in 0..2 : Draw(s, p)
           \/ \E p \in 1..2 : Select(p)
Confined == \A a \in 1..Len(axes) : deco[a] \subseteq {ideal[a][k] : k \in 1..Len(ideal[a])}
SamePicture == \A a \in 1..Len(axes) : axes[a] = [k \in 1..Len(ideal[a]) |-> <<ideal[a][k], 10 * ideal[a][k]>>]
ArgsKept == \A s \in Slots : arg[s] = 10 * s
PrintProg == (Gen /\ Len(hist) = MaxLen /\ hist[MaxLen][1] = "draw"
              /\ \E i \in 1..(MaxLen - 1) : hist[i][1] = "draw" /\ Fn(hist[i][2]) = Fn(hist[MaxLen][2]))
                => PrintT("PROG " \o ToJson(hist))
=============================================================================
