-------------------------------- MODULE View --------------------------------
(* What is shown of a map: which bins, where, and with which values.          *)
(* Bins are numbered x-major as in Maps, their rows are <<M, N, T, U, V>>.     *)
EXTENDS Maps, Sample

LabelIndex == [M |-> 1, N |-> 2, T |-> 3, U |-> 4, V |-> 5]

(* Selections by closed limits: <<present, twice the limit>> *)
Inside2(v, lo, hi) == (lo[1] = 1 => 2*v >= lo[2]) /\ (hi[1] = 1 => 2*v <= hi[2])

InWindow(g, k, lim) ==
    LET i == (k-1) \div g.ny  j == (k-1) % g.ny  x == g.x0 + i * g.dx  y == g.y0 + j * g.dy IN
    /\ (lim[1][1] = 1 => x >= lim[1][2]) /\ (lim[2][1] = 1 => x <= lim[2][2])
    /\ (lim[3][1] = 1 => y >= lim[3][2]) /\ (lim[4][1] = 1 => y <= lim[4][2])

(* ok: which bins pass the cutoff.  Arrows are drawn for the bins with any flow, *)
(* inside of the window.                                                        *)
ArrowBins(g, rows, ok, lim) ==
    {k \in DOMAIN rows : (rows[k][4] # 0 \/ rows[k][5] # 0) /\ InWindow(g, k, lim) /\ ok[k]}

(* Stream lines are drawn in the smallest rectangle with all bins that pass, as  *)
(* far as it is in the window: <<first column, last, first row, last>>           *)
StreamBox(g, ok, lim) ==
    LET K == {k \in DOMAIN ok : ok[k]}
        I == {(k-1) \div g.ny : k \in K}  J == {(k-1) % g.ny : k \in K}
        CI == {i \in MinOf(I)..MaxOf(I) : (lim[1][1] = 1 => g.x0 + i*g.dx >= lim[1][2]) /\ (lim[2][1] = 1 => g.x0 + i*g.dx <= lim[2][2])}
        CJ == {j \in MinOf(J)..MaxOf(J) : (lim[3][1] = 1 => g.y0 + j*g.dy >= lim[3][2]) /\ (lim[4][1] = 1 => g.y0 + j*g.dy <= lim[4][2])}
    IN IF K = {} THEN <<>> ELSE IF CI = {} \/ CJ = {} THEN <<>> ELSE <<MinOf(CI), MaxOf(CI), MinOf(CJ), MaxOf(CJ)>>

---------------------------------------------------------------------------
(* Derived fields.  The spacings are dx = 2/kx and dy = 2/ky.                  *)

(* Twice the spacing times the first order gradient of f at i *)
D1(f(_), n, i) ==
    IF i = 0 THEN 2*(f(1) - f(0)) ELSE IF i = n - 1 THEN 2*(f(n-1) - f(n-2)) ELSE f(i+1) - f(i-1)

(* Four times the gradient of the mass *)
GradX4(rows, g, kx, k) == LET j == (k-1) % g.ny IN kx * D1(LAMBDA i : rows[i * g.ny + j + 1][1], g.nx, (k-1) \div g.ny)
GradY4(rows, g, ky, k) == LET i == (k-1) \div g.ny IN ky * D1(LAMBDA j : rows[i * g.ny + j + 1][1], g.ny, (k-1) % g.ny)
Evaporation4(rows, g, kx, ky, k) == rows[k][4] * GradX4(rows, g, kx, k) + rows[k][5] * GradY4(rows, g, ky, k)

(* Dissipation of the mass weighted flow: <<48 D / viscosity, weight squared>> *)
Dissipation(rows, g, kx, ky, k) ==
    LET WU(i, j) == rows[i * g.ny + j + 1][1] * rows[i * g.ny + j + 1][4]
        WV(i, j) == rows[i * g.ny + j + 1][1] * rows[i * g.ny + j + 1][5]
    IN <<Dissipation48(WU, WV, g.nx, g.ny, kx, ky, (k-1) \div g.ny, (k-1) % g.ny), rows[k][1] * rows[k][1]>>

(* Speed times vs *)
Speed(r, vs) == ISqrt((r[4]*r[4] + r[5]*r[5]) * vs * vs)

(* Flow around the centre of mass, clockwise, times vs (a multiple of 10): the  *)
(* spacings are given as small integers, of which only the ratio matters.       *)
MassMoments(rows, g) ==
    LET D == DOMAIN rows IN
    <<SumOn([k \in D |-> rows[k][1] * ((k-1) \div g.ny)], D), SumOn([k \in D |-> rows[k][1] * ((k-1) % g.ny)], D), SumOn([k \in D |-> rows[k][1]], D)>>
RadialOk(v, rows, g, c, ex, ey, k, vs, tol) ==
    LET rx == (((k-1) \div g.ny) * c[3] - c[1]) * ex
        ry == (((k-1) % g.ny) * c[3] - c[2]) * ey
        len10 == ISqrt(100 * (rx*rx + ry*ry))
        cross == rows[k][4] * ry - rows[k][5] * rx
        want == (cross * 10 * vs) \div len10
    IN c[3] = 0 \/ len10 = 0 \/ Near(v, want, tol + 1 + (Abs(want) \div len10))

---------------------------------------------------------------------------
(* Contour lines at level L (values of the bins times vs): the points where they *)
(* cross the lines between the centres of neighbouring bins.                     *)
EdgeBins(g) ==
    {<<k, k + g.ny>> : k \in {q \in 1..(g.nx * g.ny) : (q-1) \div g.ny < g.nx - 1}}
    \cup {<<k, k + 1>> : k \in {q \in 1..(g.nx * g.ny) : (q-1) % g.ny < g.ny - 1}}
Crossed(z, L, b) == (z[b[1]] < L /\ L < z[b[2]]) \/ (z[b[2]] < L /\ L < z[b[1]])
CrossingAt(g, z, L, b) ==
    LET i == (b[1]-1) \div g.ny  j == (b[1]-1) % g.ny  dz == z[b[2]] - z[b[1]] IN
    IF b[2] = b[1] + 1 THEN <<g.x0 + i * g.dx, g.y0 + j * g.dy + ((g.dy * (L - z[b[1]])) \div dz)>>
    ELSE <<g.x0 + i * g.dx + ((g.dx * (L - z[b[1]])) \div dz), g.y0 + j * g.dy>>
Crossings(g, z, L) == {CrossingAt(g, z, L, b) : b \in {q \in EdgeBins(g) : Crossed(z, L, q)}}
ClosePoints(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
Clip(v, lo, hi) == IF lo[1] = 1 /\ v < lo[2] THEN lo[2] ELSE IF hi[1] = 1 /\ v > hi[2] THEN hi[2] ELSE v
=============================================================================
