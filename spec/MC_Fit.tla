------------------------------- MODULE MC_Fit -------------------------------
(* Design model of the fit: points are added one at a time to a curve, inside    *)
(* and outside of limits; the fitted line minimises the squared residuals and    *)
(* recovers every exact law.                                                     *)
EXTENDS Curves
CONSTANTS MaxPoints, Xs, Ys
Pow2(x) == 2^x
Pts == {<<Pow2(x), x, y>> : x \in Xs, y \in Ys} \cup {<<0, BAD, 0>>}
Limits == {<<<<0, 0>>, <<0, 0>>>>, <<<<1, 2>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 4>>>>, <<<<1, 2>>, <<1, 2>>>>}
VARIABLES ps
Init == ps = <<>>
Next == Len(ps) < MaxPoints /\ \E p \in Pts : ps' = Append(ps, p)
Spec == Init /\ [][Next]_ps

Fitted(F) == Cardinality({ps[q][2] : q \in F}) > 1
(* Residual of point q, times the common denominator *)
Residual(F, q) == LET f == Fit(ps, F) IN f[4] * ps[q][3] - f[3] - (f[1] * Cardinality(F)) * ps[q][2]
(* The normal equations of least squares: residuals are orthogonal to 1 and x *)
Normal ==
    \A l \in Limits : LET F == ToFit(ps, l) IN Fitted(F) =>
        /\ Fit(ps, F)[2] > 0
        /\ SumOn([q \in F |-> Residual(F, q)], F) = 0
        /\ SumOn([q \in F |-> ps[q][2] * Residual(F, q)], F) = 0
(* An exact law is recovered, whatever else there is outside of the limits *)
Recovered ==
    \A l \in Limits : LET F == ToFit(ps, l) IN Fitted(F) =>
        \A a \in Ys : \A k \in -2..2 :
            (\A q \in F : ps[q][3] = a + k * ps[q][2]) => LET f == Fit(ps, F) IN f[1] = k * f[2] /\ f[3] = a * f[4]
=============================================================================
