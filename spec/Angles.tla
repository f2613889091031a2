------------------------------- MODULE Angles -------------------------------
(* Angles of directions with integer components, in half degrees.             *)
EXTENDS Num

(* 10^6 tan(k/2 degrees) for k = 0..89 *)
Tan == <<0, 8727, 17455, 26186, 34921, 43661, 52408, 61163, 69927, 78702, 87489, 96289, 105104, 113936, 122785,
         131652, 140541, 149451, 158384, 167343, 176327, 185339, 194380, 203452, 212557, 221695, 230868, 240079, 249328, 258618,
         267949, 277325, 286745, 296213, 305731, 315299, 324920, 334595, 344328, 354119, 363970, 373885, 383864, 393910, 404026,
         414214, 424475, 434812, 445229, 455726, 466308, 476976, 487733, 498582, 509525, 520567, 531709, 542956, 554309, 565773,
         577350, 589045, 600861, 612801, 624869, 637070, 649408, 661886, 674509, 687281, 700208, 713293, 726543, 739961, 753554,
         767327, 781286, 795436, 809784, 824336, 839100, 854081, 869287, 884725, 900404, 916331, 932515, 948965, 965689, 982697>>

(* The largest h < 180 such that h/2 degrees is at most the angle of (a, b),   *)
(* for a > 0 and b >= 0.  No direction with components up to 40 is so close    *)
(* to a multiple of half a degree, without being one, that the table could     *)
(* not tell.                                                                   *)
SmallAngle(a, b) == MaxOf({k \in 0..89 : b * 1000000 >= (Tan[k + 1] * a) - 100})
FloorHalfDeg(a, b) ==
    IF b < a THEN SmallAngle(a, b) ELSE IF b = a THEN 90 ELSE 179 - SmallAngle(b, a)

(* The angle of (x, y) # (0, 0) from the positive x axis, counter clockwise,   *)
(* as half degrees rounded down: 0..719                                        *)
HalfDegrees(x, y) ==
    CASE x > 0  /\ y >= 0 -> FloorHalfDeg(x, y)
      [] x <= 0 /\ y > 0  -> 180 + FloorHalfDeg(y, -x)
      [] x < 0  /\ y <= 0 -> 360 + FloorHalfDeg(-x, -y)
      [] OTHER             -> 540 + FloorHalfDeg(-y, x)

(* Is the observed direction (c, s), the cosine and sine scaled by 20000, that *)
(* of (x, y)?                                                                  *)
SameDirection(c, s, x, y) ==
    /\ Abs(c) <= 20001 /\ Abs(s) <= 20001
    /\ Abs(c * y - s * x) <= 2 * (Abs(x) + Abs(y))
    /\ c * x + s * y > 0
=============================================================================
