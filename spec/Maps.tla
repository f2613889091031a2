-------------------------------- MODULE Maps --------------------------------
(* Flow maps on regular grids.                                               *)
(*                                                                           *)
(* A map is a record [nx, ny, x0, y0, dx, dy, n, c].  Bin (i, j), counted     *)
(* from 0, has its centre at (x0 + i dx, y0 + j dy), and c[i*ny + j + 1] are  *)
(* its contents as *extensive* quantities <<M, N, M U, M V, N T>> summed over *)
(* n samples: the mass and number of a bin are M/n and N/n, while the flow    *)
(* and temperature are the weighted means MU/M, MV/M, NT/N, being 0 where     *)
(* there is no weight.  Every operation below is linear in these quantities.  *)
EXTENDS Num

Zero5 == <<0, 0, 0, 0, 0>>
Add5(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4], a[5]+b[5]>>
SumCells(f, S) == FoldFunctionOnSet(Add5, Zero5, f, S)

(* Contents of a bin from its values <<M, N, T, U, V>> *)
Extensive(r) == <<r[1], r[2], r[1]*r[4], r[1]*r[5], r[2]*r[3]>>

MakeMap(g, rows) ==
    [nx |-> g.nx, ny |-> g.ny, x0 |-> g.x0, y0 |-> g.y0, dx |-> g.dx, dy |-> g.dy, n |-> 1,
     c |-> TLCEval([k \in 1..(g.nx * g.ny) |-> Extensive(rows[k])])]

At2(m, i, j) == m.c[i * m.ny + j + 1]
OfIndex(m, k) == <<(k - 1) \div m.ny, (k - 1) % m.ny>>
Bins(m) == 1..(m.nx * m.ny)
SameGrid(a, b) == a.nx = b.nx /\ a.ny = b.ny /\ a.x0 = b.x0 /\ a.y0 = b.y0 /\ a.dx = b.dx /\ a.dy = b.dy

(* The sub map of columns i0..i1 and rows j0..j1 *)
SubMap(m, i0, i1, j0, j1) ==
    LET nx == i1 - i0 + 1  ny == j1 - j0 + 1
    IN [m EXCEPT !.nx = nx, !.ny = ny, !.x0 = @ + i0 * m.dx, !.y0 = @ + j0 * m.dy,
                 !.c = TLCEval([k \in 1..(nx*ny) |-> At2(m, i0 + (k-1) \div ny, j0 + ((k-1) % ny))])]

(* Limits are <<present, value>>, and closed. *)
CutCols(m, lo, hi) == {i \in 0..(m.nx - 1) : (lo[1] = 1 => m.x0 + i*m.dx >= lo[2]) /\ (hi[1] = 1 => m.x0 + i*m.dx <= hi[2])}
CutRows(m, lo, hi) == {j \in 0..(m.ny - 1) : (lo[1] = 1 => m.y0 + j*m.dy >= lo[2]) /\ (hi[1] = 1 => m.y0 + j*m.dy <= hi[2])}
Cuttable(m, lim) == CutCols(m, lim[1], lim[2]) # {} /\ CutRows(m, lim[3], lim[4]) # {}
Cut(m, lim) ==
    LET cs == CutCols(m, lim[1], lim[2])  rs == CutRows(m, lim[3], lim[4])
    IN IF Cardinality(cs) = m.nx /\ Cardinality(rs) = m.ny THEN m
       ELSE SubMap(m, MinOf(cs), MaxOf(cs), MinOf(rs), MaxOf(rs))

(* Sample average of maps on the same grid *)
Average(ms) ==
    [ms[1] EXCEPT !.n = Len(ms),
                  !.c = TLCEval([k \in Bins(ms[1]) |-> SumCells([q \in DOMAIN ms |-> ms[q].c[k]], DOMAIN ms)])]

(* Combine bins in blocks of a times b; what is left over at the high end is cut. *)
(* Coordinates have to be even in the unit that is used.                          *)
Combine(m, a, b) ==
    LET nx == m.nx \div a  ny == m.ny \div b
    IN [m EXCEPT !.nx = nx, !.ny = ny, !.dx = @ * a, !.dy = @ * b,
                 !.x0 = @ + ((a - 1) * m.dx) \div 2, !.y0 = @ + ((b - 1) * m.dy) \div 2,
                 !.c = TLCEval([k \in 1..(nx*ny) |->
                     LET I == (k-1) \div ny  J == (k-1) % ny
                     IN SumCells(m.c, {(a*I + p) * m.ny + b*J + q + 1 : p \in 0..(a-1), q \in 0..(b-1)})])]

(* The window of fine bins, as weights of coarse bins, from which the fine bin  *)
(* (I, J) is smoothed after every bin has been split into f times f bins.       *)
Window1(I, f, n) ==        \* coarse index -> number of fine indices in the window
    LET lo == Max2(0, I - (f - 1))  hi == Min2(n * f - 1, I + f - 1)
    IN [i \in (lo \div f)..(hi \div f) |-> Min2(hi, i*f + f - 1) - Max2(lo, i*f) + 1]

(* A super sampled bin: <<sum of the contents over the window, size of the window>> *)
Scale5(w, a) == <<w*a[1], w*a[2], w*a[3], w*a[4], w*a[5]>>
SuperBin(m, f, I, J) ==
    LET wx == Window1(I, f, m.nx)  wy == Window1(J, f, m.ny)
        S == (DOMAIN wx) \X (DOMAIN wy)
    IN <<SumCells([p \in S |-> Scale5(wx[p[1]] * wy[p[2]], At2(m, p[1], p[2]))], S),
         SumOn(wx, DOMAIN wx) * SumOn(wy, DOMAIN wy)>>

(* Shift the map so that its column `col` comes to where column 0 was *)
ShiftToOrigin(m, col) == [m EXCEPT !.x0 = @ - col * m.dx]

(* Intersection of maps shifted along x *)
Intersect(ms) ==
    LET lo == MaxOf({ms[q].x0 : q \in DOMAIN ms})
        hi == MinOf({ms[q].x0 + (ms[q].nx - 1) * ms[q].dx : q \in DOMAIN ms})
    IN [q \in DOMAIN ms |->
          SubMap(ms[q], (lo - ms[q].x0) \div ms[q].dx, (hi - ms[q].x0) \div ms[q].dx, 0, ms[q].ny - 1)]
Intersecting(ms) ==
    MaxOf({ms[q].x0 : q \in DOMAIN ms}) <= MinOf({ms[q].x0 + (ms[q].nx - 1) * ms[q].dx : q \in DOMAIN ms})

(* Centre of mass along x in units of columns, as <<numerator, denominator>> *)
ComCol(m) == <<SumOn([k \in Bins(m) |-> OfIndex(m, k)[1] * m.c[k][1]], Bins(m)), SumOn([k \in Bins(m) |-> m.c[k][1]], Bins(m))>>
RoundRat(r) == (2 * r[1] + r[2]) \div (2 * r[2])
IsTie(r)    == r[2] = 0 \/ (2 * r[1] + r[2]) % (2 * r[2]) = 0

TotalMass(m) == SumOn([k \in Bins(m) |-> m.c[k][1]], Bins(m))

---------------------------------------------------------------------------
(* Observed values.  A row is <<M, N, T, U, V>> scaled by vs.               *)

(* The row is the bin with contents c, which are sums over n samples and a  *)
(* window of w bins; in a file nothing is kept of a bin without mass.       *)
RowIs(row, c, n, vs, tol) ==
    /\ Len(row) = 5
    /\ NearRat(row[1], c[1], n, vs, tol)
    /\ NearRat(row[2], c[2], n, vs, tol)
    /\ NearRat(row[3], c[5], c[2], vs, tol)
    /\ NearRat(row[4], c[3], c[1], vs, tol)
    /\ NearRat(row[5], c[4], c[1], vs, tol)
StoredRowIs(row, c, n, vs, tol) ==
    IF c[1] = 0 THEN row = Zero5 ELSE RowIs(row, c, n, vs, tol)

(* Which part of a row is wrong *)
RowFaults(row, c, n, vs, tol) ==
    IF Len(row) # 5 THEN {"Row"} ELSE
    Clause("Mass", NearRat(row[1], c[1], n, vs, tol)) \cup
    Clause("Number", NearRat(row[2], c[2], n, vs, tol)) \cup
    Clause("Temperature", NearRat(row[3], c[5], c[2], vs, tol)) \cup
    Clause("Flow", NearRat(row[4], c[3], c[1], vs, tol) /\ NearRat(row[5], c[4], c[1], vs, tol))
StoredFaults(row, c, n, vs, tol) ==
    IF c[1] = 0 THEN Clause("Empty", row = Zero5) ELSE RowFaults(row, c, n, vs, tol)
=============================================================================
