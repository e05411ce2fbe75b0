---------------------------- MODULE AmbiHistory ----------------------------
(***************************************************************************)
(* A plane wave carried through first order formats.  Directions are the   *)
(* six axes, rotations quarter turns, so everything is exact: the channels *)
(* are <<w, y, z, x>> in units of the format's channel gain.               *)
(* dir - where the wave comes from; ch - the channels, as integers; the    *)
(* pair (fmt, ch) is what the code holds, dir is the ghost it must match.  *)
(* Order = "zyx" is the library's channel shuffle; "xyz" and a rotation    *)
(* applied to B-format channels are wrong variants.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Order,       \* channel order the rotation assumes for SH: "yzx" (ACN) or "xyz"
          Guard,       \* rotation only in SH format
          MaxLen, Gen
VARIABLES fmt, dir, ch, prog
vars == <<fmt, dir, ch, prog>>
Axes == {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>}
(* quarter turns with the sense of rotation_euler(+90 degrees) *)
Turn(a, v) == CASE a = "yaw"   -> <<v[2], -v[1], v[3]>>
                [] a = "pitch" -> <<-v[3], v[2], v[1]>>
                [] a = "roll"  -> <<v[1], v[3], -v[2]>>
Enc(f, v) == IF f = "b" THEN <<1, v[1], v[2], v[3]>> ELSE <<1, v[2], v[3], v[1]>>
(* what the code does to channels: shuffle to xyz, turn, shuffle back *)
TurnCh(a, c) == IF Order = "yzx"
                THEN LET w == Turn(a, <<c[4], c[2], c[3]>>) IN <<c[1], w[2], w[3], w[1]>>
                ELSE LET w == Turn(a, <<c[2], c[3], c[4]>>) IN <<c[1], w[1], w[2], w[3]>>
Init == \E v \in Axes : fmt = "n3d" /\ dir = v /\ ch = Enc("n3d", v) /\ prog = <<>>
Log(op) == prog' = IF Gen THEN Append(prog, op) ELSE <<>>
Rotate == \E a \in {"yaw", "pitch", "roll"} :
            /\ Guard => fmt = "n3d"
            /\ dir' = Turn(a, dir) /\ ch' = TurnCh(a, ch) /\ fmt' = fmt /\ Log(a)
Convert == \E f \in {"n3d", "sn3d", "b"} :
             /\ f # fmt /\ (fmt = "n3d" \/ f = "n3d")
             /\ fmt' = f /\ dir' = dir
             /\ ch' = (CASE f = "b" -> <<ch[1], ch[4], ch[2], ch[3]>>
                         [] fmt = "b" -> <<ch[1], ch[3], ch[4], ch[2]>>
                         [] OTHER -> ch)
             /\ Log(CASE f = "b" -> "tob" [] fmt = "b" -> "tosh" [] f = "sn3d" -> "tosn3d" [] OTHER -> "ton3d")
Next == /\ Gen => Len(prog) < MaxLen
        /\ (Rotate \/ Convert)
CarriesDirection == ch = Enc(fmt, dir)
(* every axis stays reachable, formats never mix up the omni channel *)
Omni == ch[1] = 1
PrintProg == (Gen /\ Len(prog) = MaxLen) => PrintT("PROG " \o ToJson(<<dir, prog>>))
============================================================================
