------------------------------ MODULE Resample ------------------------------
(* Resampling of data on a grid.  A map is [nx, ny, x0, y0, dx, dy, r] where    *)
(* r[i*ny + j + 1] are the values <<v1, v2, ...>> of the bin (i, j).  Labels    *)
(* are numbered; w[l] is the label which is the weight of l, or 0.              *)
EXTENDS Num

Labels(w) == DOMAIN w

(* Limits <<present, value>> are closed *)
ColsIn(m, lo, hi) == {i \in 0..(m.nx - 1) : (lo[1] = 1 => m.x0 + i*m.dx >= lo[2]) /\ (hi[1] = 1 => m.x0 + i*m.dx <= hi[2])}
RowsIn(m, lo, hi) == {j \in 0..(m.ny - 1) : (lo[1] = 1 => m.y0 + j*m.dy >= lo[2]) /\ (hi[1] = 1 => m.y0 + j*m.dy <= hi[2])}

BinVal(m, i, j) == m.r[i * m.ny + j + 1]

(* Block (I, J) of a times b bins, counted from column i0 and row j0:           *)
(* <<numerator, denominator>> of its value of label l, 0/0 being 0              *)
BlockRat(m, w, l, i0, j0, a, b, I, J) ==
    LET S == {<<i0 + I*a + p, j0 + J*b + q>> : p \in 0..(a-1), q \in 0..(b-1)}
        v == [s \in S |-> BinVal(m, s[1], s[2])]
    IN IF w[l] = 0 THEN <<SumOn([s \in S |-> v[s][l]], S), 1>>
       ELSE <<SumOn([s \in S |-> v[s][l] * v[s][w[l]]], S), SumOn([s \in S |-> v[s][w[l]]], S)>>

(* Fine bins: every bin is split in f times f, and the value of the fine bin    *)
(* (I, J) is a mean over the fine bins at most f - 1 away along either axis.    *)
FineWeights(I, f, n) ==        \* coarse index -> fine indices of it in the window
    LET lo == Max2(0, I - (f - 1))  hi == Min2(n * f - 1, I + f - 1)
    IN [i \in (lo \div f)..(hi \div f) |-> Cardinality({k \in lo..hi : (k \div f) = i})]
FineRat(m, w, l, f, I, J) ==
    LET wx == FineWeights(I, f, m.nx)  wy == FineWeights(J, f, m.ny)
        S == (DOMAIN wx) \X (DOMAIN wy)
        k(s) == wx[s[1]] * wy[s[2]]
        v(s) == BinVal(m, s[1], s[2])
    IN IF w[l] = 0 THEN <<SumOn([s \in S |-> k(s) * v(s)[l]], S), SumOn([s \in S |-> k(s)], S)>>
       ELSE <<SumOn([s \in S |-> k(s) * v(s)[l] * v(s)[w[l]]], S), SumOn([s \in S |-> k(s) * v(s)[w[l]]], S)>>

---------------------------------------------------------------------------
(* The common grid of aligned maps, and the mean over n of them of the bin      *)
(* (I, J) of that grid, where a map which does not have the bin counts as zero. *)
Filled(ms) == {q \in DOMAIN ms : ms[q].nx * ms[q].ny > 0}
CommonGrid(ms, dx, dy) ==
    LET F == Filled(ms)
        x0 == MinOf({ms[q].x0 : q \in F})  x1 == MaxOf({ms[q].x0 + (ms[q].nx - 1) * dx : q \in F})
        y0 == MinOf({ms[q].y0 : q \in F})  y1 == MaxOf({ms[q].y0 + (ms[q].ny - 1) * dy : q \in F})
    IN [x0 |-> x0, y0 |-> y0, nx |-> ((x1 - x0) \div dx) + 1, ny |-> ((y1 - y0) \div dy) + 1]

(* Column and row of the bin (I, J) of the common grid g in the map m *)
Place(m, g, dx, dy, I, J) == <<I - ((m.x0 - g.x0) \div dx), J - ((m.y0 - g.y0) \div dy)>>
Has(m, p) == p[1] >= 0 /\ p[1] < m.nx /\ p[2] >= 0 /\ p[2] < m.ny
MeanRat(ms, g, dx, dy, n, w, l, I, J) ==
    LET p == [q \in Filled(ms) |-> Place(ms[q], g, dx, dy, I, J)]
        S == {q \in Filled(ms) : Has(ms[q], p[q])}
        v == [q \in S |-> BinVal(ms[q], p[q][1], p[q][2])]
    IN IF w[l] = 0 THEN <<SumOn([q \in S |-> v[q][l]], S), n>>
       ELSE <<SumOn([q \in S |-> v[q][l] * v[q][w[l]]], S), SumOn([q \in S |-> v[q][w[l]]], S)>>

---------------------------------------------------------------------------
(* A result is [nx, ny, x0, y0, dx, dy, nb, bins] with the information about    *)
(* the grid, and bins a sequence of [x, y, v].                                  *)
Indexed(res, dx, dy, x0, y0) ==    \* bins by (column, row), coordinates within 2 units
    [q \in DOMAIN res.bins |->
        <<(res.bins[q].x - x0 + (dx \div 2)) \div dx, (res.bins[q].y - y0 + (dy \div 2)) \div dy>>]
OnGrid(res, dx, dy, x0, y0) ==
    \A q \in DOMAIN res.bins : /\ Abs(((res.bins[q].x - x0 + (dx \div 2)) % dx) - (dx \div 2)) <= 2
                               /\ Abs(((res.bins[q].y - y0 + (dy \div 2)) % dy) - (dy \div 2)) <= 2

(* Rat(l, I, J) gives the value of label l of each bin of a nx times ny grid    *)
ResultFaults(res, nx, ny, x0, y0, dx, dy, w, Rat(_, _, _), vs, tol) ==
    Clause("Shape", res.nx = nx /\ res.ny = ny /\ res.nb = nx * ny) \cup
    Clause("Spacing", Near(res.dx, dx, 2) /\ Near(res.dy, dy, 2)) \cup
    Clause("Origin", Near(res.x0, x0, 2) /\ Near(res.y0, y0, 2)) \cup
    (IF Len(res.bins) # nx * ny \/ ~OnGrid(res, dx, dy, x0, y0) THEN {"Coordinates"} ELSE
     LET ix == Indexed(res, dx, dy, x0, y0)
     IN IF Range(ix) # (0..(nx-1)) \X (0..(ny-1)) THEN {"Coordinates"} ELSE
        UNION {Clause("Value" \o ToString(l),
                      \A q \in DOMAIN ix : LET r == Rat(l, ix[q][1], ix[q][2]) IN NearRat(res.bins[q].v[l], r[1], r[2], vs, tol))
               : l \in Labels(w)})
=============================================================================
