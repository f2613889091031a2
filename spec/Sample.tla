------------------------------- MODULE Sample -------------------------------
(* What is sampled from a map: values of labels, sums and means over the bins   *)
(* that pass a cutoff, angular profiles, and dissipation.                       *)
(* Rows are <<M, N, T, U, V>>.                                                  *)
EXTENDS Angles

(* Bins which pass the cutoff.  cl is the index of the cutoff label, 0 if there *)
(* is none; c2 is <<present, twice the cutoff>>, by default the mid point.      *)
Passing(rows, cl, c2) ==
    IF cl = 0 THEN DOMAIN rows
    ELSE LET v == [k \in DOMAIN rows |-> rows[k][cl]]
             c == IF c2[1] = 1 THEN c2[2] ELSE MaxOf(Range(v)) + MinOf(Range(v))
         IN {k \in DOMAIN rows : 2 * v[k] >= c}

(* Twice the inertial energy of a bin *)
Energy2(r) == r[1] * (r[4]*r[4] + r[5]*r[5])

(* Mean flow, as the sum of the momenta *)
Momentum(rows, S) == <<SumOn([k \in S |-> rows[k][1] * rows[k][4]], S), SumOn([k \in S |-> rows[k][1] * rows[k][5]], S)>>

(* The line of least squares through the points (u, j) of one column: where it  *)
(* meets u = 0, in rows, as a rational (0 below if all u are the same)           *)
Intercept(u, j) ==
    LET Q == DOMAIN u  n == Cardinality(Q)
        su == SumOn(u, Q)  sj == SumOn(j, Q)
        suu == SumOn([q \in Q |-> u[q] * u[q]], Q)  suj == SumOn([q \in Q |-> u[q] * j[q]], Q)
    IN <<sj * suu - su * suj, n * suu - su * su>>

(* Is o, in units of 1/scale, the deviation of the values v[k], k in S?  With    *)
(* n^2 times the variance D, (o - tol)^2 n^2 <= scale^2 D <= (o + tol)^2 n^2.    *)
DeviationOk(v, S, o, scale, tol) ==
    LET n == Cardinality(S)
        t == SumOn(v, S)
        D == n * SumOn([k \in S |-> v[k] * v[k]], S) - t * t
        lo == Max2(0, o - tol)
    IN /\ o # BAD /\ o >= -tol /\ o * n < 46000 - tol * n
       /\ (lo * n) * (lo * n) <= scale * scale * D
       /\ scale * scale * D <= ((o + tol) * n) * ((o + tol) * n)

---------------------------------------------------------------------------
(* Dissipation.  The field f is given per column and row, counted from 0; the   *)
(* derivative is central inside and one sided of second order at the borders.   *)
(* D2 is twice the spacing times the derivative.                                *)
D2(f(_), n, i) ==
    IF i = 0 THEN -3*f(0) + 4*f(1) - f(2)
    ELSE IF i = n - 1 THEN 3*f(n-1) - 4*f(n-2) + f(n-3)
    ELSE f(i+1) - f(i-1)

(* 48 D / viscosity for spacings dx = 2/kx and dy = 2/ky, times the square of   *)
(* the weight, from fields U and V (times the weight) as functions of (i, j)    *)
Dissipation48(U(_, _), V(_, _), nx, ny, kx, ky, i, j) ==
    LET A == kx * D2(LAMBDA c : U(c, j), nx, i)
        B == ky * D2(LAMBDA c : V(i, c), ny, j)
        C == kx * D2(LAMBDA c : V(c, j), nx, i)
        E == ky * D2(LAMBDA c : U(i, c), ny, j)
    IN 6*(A*A + B*B) - 2*(A + B)*(A + B) + 3*(C + E)*(C + E)

---------------------------------------------------------------------------
(* Angular profile: bins are [x, y, v, w] with offsets from the point.  All     *)
(* angles are in half degrees.  Interval q, counted from 0, is                  *)
(* [amin + q size, amin + (q+1) size), and the full circle ends at 720.         *)
NumIntervals(amin, amax, size) == CeilDiv(amax - amin, size)      \* amax exclusive
InRing(b, r2min, r2max) ==
    LET r2 == b.x * b.x + b.y * b.y IN r2 > 0 /\ r2 >= r2min /\ (r2max[1] = 1 => r2 <= r2max[2])
IntervalOf(b, amin, size) == (HalfDegrees(b.x, b.y) - amin) \div size
ProfileRat(bs, S, I, q, weighted) ==     \* I: interval of each bin in S
    LET Q == {k \in S : I[k] = q}
    IN IF weighted = 1 THEN <<SumOn([k \in Q |-> bs[k].v * bs[k].w], Q), SumOn([k \in Q |-> bs[k].w], Q)>>
       ELSE <<SumOn([k \in Q |-> bs[k].v], Q), Cardinality(Q)>>
=============================================================================
