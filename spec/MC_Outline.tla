----------------------------- MODULE MC_Outline -----------------------------
(* Outlines that grow layer by layer, and what has to hold of their area,      *)
(* length, angles, and averages.                                               *)
EXTENDS Outline
CONSTANTS Layers, X, H
VARIABLES l, r, other         \* the two sides from below, and another left side

Start == \E a \in 0..X, b \in 0..X, c \in 0..X : l = <<<<a, 0>>>> /\ r = <<<<b, 0>>>> /\ other = <<<<c, 0>>>>
Init == Start
Grow == /\ Len(l) < Layers
        /\ \E a \in 0..X, b \in 0..X, h \in 1..H :
             LET y == l[Len(l)][2] + h IN
             /\ l' = Append(l, <<a, y>>) /\ r' = Append(r, <<b, y>>)
             /\ \E c \in {0, X} : \/ other' = other
                                  \/ other' = Append(other, <<c, y>>)
Spec == Init /\ [][Grow]_<<l, r, other>>

P == Join(l, r)
Q == Join(other, other)
Sides == Left(P) = l /\ Right(P) = r /\ Regular(P) /\ SameHeights(P)
AreaIsPolygon == Area2(P) = Shoelace(P)
Moved == LET M == Move(P, <<3, 2>>)
         IN Area2(M) = Area2(P) /\ LengthFloor(M) = LengthFloor(P)
            /\ \A h \in 0..(H + 1) : LeftSlopes(M, h) = LeftSlopes(P, h) /\ RightSlopes(M, h) = RightSlopes(P, h)
MirrorSwaps == LET M == Mirrored(P)
               IN Area2(M) = Area2(P) /\ LengthFloor(M) = LengthFloor(P) /\ Mirrored(M) = P
                  /\ SegmentHalf(M) = SegmentHalf(P)
                  /\ \A h \in 0..(H + 1) : LeftSlopes(M, h) = RightSlopes(P, h) /\ RightSlopes(M, h) = LeftSlopes(P, h)
Additive == \A k \in 1..Half(P) : Area2(Below(P, k)) + Area2(Above(P, k)) = Area2(P)
(* Averages: of an outline with itself, of equal heights, in any order *)
AverageLaws ==
    /\ AverageLeft(<<P>>) = l /\ AverageRight(<<P>>) = r
    /\ AverageLeft(<<P, P>>) = [k \in DOMAIN l |-> <<2 * l[k][1], l[k][2]>>]
    /\ AverageLeft(<<P, Q>>) = AverageLeft(<<Q, P>>)
    /\ AverageRight(<<P, Q>>) = AverageRight(<<Q, P>>)
    /\ HeightsOf(AverageLeft(<<P, Q>>)) = HeightsOf(other)
    /\ LET s == AverageLeft(<<P, Mirrored(P)>>)  t == AverageRight(<<P, Mirrored(P)>>)
       IN \A k \in DOMAIN s : s[k][1] = -t[k][1]
    /\ Area2(Join(AverageLeft(<<P, Mirrored(P)>>), AverageRight(<<P, Mirrored(P)>>))) = Area2(P) + Area2(Mirrored(P))
=============================================================================
