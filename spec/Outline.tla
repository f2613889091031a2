------------------------------- MODULE Outline -------------------------------
(* Outlines of a droplet as kept in interface files: points going up the left  *)
(* side and down the right side.  An outline is a sequence of points <<x, y>>  *)
(* of even length; coordinates are integers in some unit.                      *)
EXTENDS Num

Half(P)  == Len(P) \div 2
Left(P)  == SubSeq(P, 1, Half(P))                                 \* from below
Right(P) == [k \in 1..Half(P) |-> P[Len(P) + 1 - k]]              \* from below
Join(L, R) == [k \in 1..(2 * Len(L)) |-> IF k <= Len(L) THEN L[k] ELSE R[2 * Len(L) + 1 - k]]

SameHeights(P) == \A k \in 1..Half(P) : Left(P)[k][2] = Right(P)[k][2]
Rising(S) == \A k \in 2..Len(S) : S[k-1][2] < S[k][2]
Regular(P) == Len(P) > 0 /\ Len(P) % 2 = 0 /\ Rising(Left(P)) /\ Rising(Right(P))

(* ------------------------------------------------------- area and length *)
Base(P, k) == Right(P)[k][1] - Left(P)[k][1]
(* Twice the area between the sides *)
Area2(P) == SumOn([k \in 2..Half(P) |-> (Left(P)[k][2] - Left(P)[k-1][2]) * (Base(P, k) + Base(P, k-1))], 2..Half(P))
(* Twice the area of a polygon, walked around clockwise *)
Shoelace(P) == LET n == Len(P)  nx(k) == IF k = n THEN 1 ELSE k + 1
               IN SumOn([k \in 1..n |-> P[k][2] * P[nx(k)][1] - P[k][1] * P[nx(k)][2]], 1..n)

(* The length of the line through all points, in units of 1/500, rounded down   *)
(* for every segment that is not along an axis: exact to the sum of the slacks  *)
Square(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Axial(a, b)  == a[1] = b[1] \/ a[2] = b[2]
Segment(a, b) ==
    IF Axial(a, b) THEN (Abs(a[1] - b[1]) + Abs(a[2] - b[2])) * 500
    ELSE IF Square(a, b) < 8000 THEN ISqrt(Square(a, b) * 250000) ELSE 10 * ISqrt(Square(a, b) * 2500)
Slack(a, b) == IF Axial(a, b) THEN 0 ELSE IF Square(a, b) < 8000 THEN 1 ELSE 10
LengthFloor(P) == SumOn([k \in 2..Len(P) |-> Segment(P[k-1], P[k])], 2..Len(P))
LengthSlack(P) == SumOn([k \in 2..Len(P) |-> Slack(P[k-1], P[k])], 2..Len(P))

(* ---------------------------------------------------------------- motions *)
Move(P, d)  == [k \in DOMAIN P |-> <<P[k][1] + d[1], P[k][2] + d[2]>>]
Mirrored(P) == [k \in DOMAIN P |-> <<-P[Len(P) + 1 - k][1], P[Len(P) + 1 - k][2]>>]
Below(P, k) == Join(SubSeq(Left(P), 1, k), SubSeq(Right(P), 1, k))
Above(P, k) == Join(SubSeq(Left(P), k, Half(P)), SubSeq(Right(P), k, Half(P)))

(* ---------------------------------------------------------------- average *)
HeightsOf(S) == {S[k][2] : k \in DOMAIN S}
XAt(S, y) == S[CHOOSE k \in DOMAIN S : S[k][2] = y][1]
(* The sides of the average of a sequence of outlines: heights in all of them,  *)
(* with the sums of the coordinates                                            *)
Common(Ss) == LET H == {y \in HeightsOf(Ss[1]) : \A q \in DOMAIN Ss : y \in HeightsOf(Ss[q])}
                  s == SortSet(H)
              IN [k \in DOMAIN s |-> <<SumOn([q \in DOMAIN Ss |-> XAt(Ss[q], s[k])], DOMAIN Ss), s[k]>>]
AverageLeft(Ps)  == Common([q \in DOMAIN Ps |-> Left(Ps[q])])
AverageRight(Ps) == Common([q \in DOMAIN Ps |-> Right(Ps[q])])

(* ----------------------------------------------------------------- angles *)
(* The points of a side closest to a height above its lowest one                *)
Closest(S, h) == LET D(k) == Abs(S[k][2] - S[1][2] - h)
                 IN {k \in DOMAIN S : \A m \in DOMAIN S : D(k) <= D(m)}
(* Directions along the sides, as seen from inside the droplet                  *)
LeftSlopes(P, h)  == {<<Left(P)[k][1] - Left(P)[1][1], Left(P)[k][2] - Left(P)[1][2]>> : k \in Closest(Left(P), h)}
RightSlopes(P, h) == {<<Right(P)[1][1] - Right(P)[k][1], Right(P)[k][2] - Right(P)[1][2]>> : k \in Closest(Right(P), h)}
(* Half of the angle of the circular segment                                    *)
SegmentHalf(P) == <<Right(P)[1][1] - Left(P)[1][1], Left(P)[Half(P)][2] + Right(P)[Half(P)][2]>>
=============================================================================
