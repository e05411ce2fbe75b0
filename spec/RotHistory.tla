----------------------------- MODULE RotHistory -----------------------------
(***************************************************************************)
(* Orientations composed from the three ways the library builds rotation   *)
(* matrices, on quarter turns, where everything is an integer matrix:      *)
(*   euler  - rotation_euler of one angle: by minus the angle about z/y/x  *)
(*   rod    - rotation_rodrigues: by plus the angle about the axis         *)
(*   vec    - rotation_vecvec: turns f onto t about f x t                  *)
(* m is the accumulated matrix, v a carried vector that started at v0.     *)
(* Reversed builds Rodrigues rotations the wrong way round; Fixed = FALSE*)
(* forgets the part along the axis.  Both are refuted.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Reversed, Fixed, MaxLen, Gen
VARIABLES m, v, v0, prog
vars == <<m, v, v0, prog>>
Axes == {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Turn(a, u) == CASE a = "yaw"   -> <<u[2], -u[1], u[3]>>
                [] a = "pitch" -> <<-u[3], u[2], u[1]>>
                [] a = "roll"  -> <<u[1], u[3], -u[2]>>
(* quarter turn about k: the part along k stays, the rest becomes k x u *)
Rod(k, u) == LET c == Cross(k, u)  d == IF Fixed THEN Dot(k, u) ELSE 0
             IN <<(IF Reversed THEN -1 ELSE 1) * c[1] + d * k[1], (IF Reversed THEN -1 ELSE 1) * c[2] + d * k[2], (IF Reversed THEN -1 ELSE 1) * c[3] + d * k[3]>>
Vecvec(f, t, u) == Rod(Cross(f, t), u)
Ops == {<<"euler", a>> : a \in {"yaw", "pitch", "roll"}}
       \cup {<<"rod", k>> : k \in Axes}
       \cup {<<"vec", f, t>> : f \in Axes, t \in {<<1,0,0>>, <<0,1,0>>, <<0,0,-1>>}}
Able(op) == op[1] = "vec" => Dot(op[2], op[3]) = 0
Do(op, u) == CASE op[1] = "euler" -> Turn(op[2], u)
               [] op[1] = "rod"   -> Rod(op[2], u)
               [] op[1] = "vec"   -> Vecvec(op[2], op[3], u)
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
DoM(op, M) == LET c == [j \in 1..3 |-> Do(op, Col(M, j))]
              IN [i \in 1..3 |-> [j \in 1..3 |-> c[j][i]]]
Eye == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
Init == \E a \in Axes : m = Eye /\ v = a /\ v0 = a /\ prog = <<>>
Next == /\ Gen => Len(prog) < MaxLen
        /\ \E op \in Ops : /\ Able(op) /\ m' = DoM(op, m) /\ v' = Do(op, v) /\ v0' = v0
                           /\ prog' = IF Gen THEN Append(prog, op) ELSE <<>>
Orthogonal == \A i, j \in 1..3 : Dot(Col(m, i), Col(m, j)) = IF i = j THEN 1 ELSE 0
Proper == Dot(Col(m, 1), Cross(Col(m, 2), Col(m, 3))) = 1
Composes == v = <<Dot(m[1], v0), Dot(m[2], v0), Dot(m[3], v0)>>
(* the two senses undo one another; vecvec arrives at its target *)
Undone == \A u \in Axes : /\ Rod(<<0,0,1>>, Turn("yaw", u)) = u
                          /\ Rod(<<0,1,0>>, Turn("pitch", u)) = u
                          /\ Rod(<<1,0,0>>, Turn("roll", u)) = u
Arrives == \A f, t \in Axes : Dot(f, t) = 0 => Vecvec(f, t, f) = t
PrintProg == (Gen /\ Len(prog) = MaxLen) => PrintT("PROG " \o ToJson(<<v0, prog>>))
=============================================================================
