----------------------------- MODULE ContactLine -----------------------------
(* The contact lines of a droplet: which cells belong to them, and how they   *)
(* are averaged over windows of maps, placed, and sampled.                    *)
EXTENDS Averaging

(* The interface layers within the height of the lowest one, from the bottom  *)
LowLayers(v, g, o, lo, hi, height) ==
    LET w == InterfaceOutIn(v, g, o, lo, hi)
        n == Cardinality({q \in DOMAIN w : (w[q][1] - w[1][1]) * g.dy <= height})
    IN [q \in 1..n |-> w[q]]

(* The contact line areas of the layers w: <<left, right>>, both of which are *)
(* [c0, c1, r0, r1], the closed ranges of their columns and rows.  The box    *)
(* reaches `width` into the droplet from the edge of the topmost of these     *)
(* layers that is within `sync` of the lowest one.                            *)
Areas(w, g, width, sync) ==
    LET D  == DOMAIN w
        k  == MaxOf({q \in D : (w[q][1] - w[1][1]) * g.dy <= sync})
        n  == width \div g.dx                   \* cells that fit into the width
        Ls == {w[q][2] : q \in D}  Rs == {w[q][3] : q \in D}
    IN << [c0 |-> MinOf(Ls), c1 |-> Min2(g.nx - 1, Max2(MaxOf(Ls), w[k][2] + n)), r0 |-> w[1][1], r1 |-> w[Len(w)][1]],
          [c0 |-> Max2(0, Min2(MinOf(Rs), w[k][3] - n)), c1 |-> MaxOf(Rs), r0 |-> w[1][1], r1 |-> w[Len(w)][1]] >>

CellsOf(g, a) == {i * g.ny + j + 1 : i \in (a.c0)..(a.c1), j \in (a.r0)..(a.r1)}

---------------------------------------------------------------------------
(* Windows over a series of n maps *)
NumWindows(n, av, rolling) == IF n < av THEN 0 ELSE IF rolling = 1 THEN n - av + 1 ELSE n \div av
WindowOf(k, av, rolling) == LET a == IF rolling = 1 THEN k ELSE (k-1) * av + 1 IN [q \in 1..av |-> a + q - 1]

(* A set of cells C (positions <<x, y>>) of one side is shifted to have its    *)
(* innermost column and its lowest row at zero; no cells are not shifted.      *)
ShiftOf(C, s) ==
    IF C = {} THEN <<0, 0>>
    ELSE LET X == {c[1] : c \in C} IN <<IF s = 1 THEN MaxOf(X) ELSE MinOf(X), MinOf({c[2] : c \in C})>>

(* Edges of a window of maps.  All is given per side (1: left, 2: right).      *)
(* An edge is aligned by its innermost column and its lowest row.              *)
Inner(a, s) == IF s = 1 THEN a.c1 ELSE a.c0
Anchor(m, a, s) == m.x0 + Inner(a, s) * m.dx          \* position of the innermost column

(* The average of aligned edges: columns relative to the innermost one         *)
EdgeCols(a, s) == [lo |-> a.c0 - Inner(a, s), hi |-> a.c1 - Inner(a, s)]
EdgeAt(m, a, s, i, j) ==                              \* contents at column i, row j of the aligned edge
    LET ci == Inner(a, s) + i  cj == a.r0 + j
    IN IF ci >= a.c0 /\ ci <= a.c1 /\ cj <= a.r1 THEN At2(m, ci, cj) ELSE Zero5
(* ms, as: the maps and areas of side s which have an interface *)
EdgeAverage(ms, as, s) ==
    LET D == DOMAIN ms
        lo == MinOf({EdgeCols(as[q], s).lo : q \in D})  hi == MaxOf({EdgeCols(as[q], s).hi : q \in D})
        ny == MaxOf({as[q].r1 - as[q].r0 + 1 : q \in D})
    IN [lo |-> lo, nx |-> hi - lo + 1, ny |-> ny, n |-> Len(ms), dx |-> ms[1].dx, dy |-> ms[1].dy,
        c |-> TLCEval([k \in 1..((hi - lo + 1) * ny) |->
                SumCells([q \in D |-> EdgeAt(ms[q], as[q], s, lo + (k-1) \div ny, (k-1) % ny)], D)])]

(* Twice the sums of the positions of the edges over the n maps, which are to  *)
(* be divided by 2n: at the mean position, or symmetric about zero.            *)
Placed2(SL, SR, recenter) == IF recenter = 1 THEN <<SL - SR, SR - SL>> ELSE <<2 * SL, 2 * SR>>

(* The columns in which the innermost columns end up: a set for each side.     *)
(* Column k is centred at (k + 1/2) dx.  Where the mean position is at the     *)
(* border of two columns, it may be that rounding decides if it is inexact.    *)
ColumnsFor(p2, n, dx, exact) ==
    LET k == p2 \div (2 * n * dx) IN IF p2 % (2 * n * dx) = 0 /\ ~exact THEN {k, k - 1} ELSE {k}
ExactMean(n) == n \in {1, 2, 4, 8}
EdgeColumns(SL, SR, n, dx, recenter, fuse, E1, E2) ==
    IF fuse = 1 THEN <<{-1 - (E1.lo + E1.nx - 1)}, {-E2.lo}>>
    ELSE LET p == Placed2(SL, SR, recenter)
             ex == recenter = 0 \/ ExactMean(n)
         IN <<ColumnsFor(p[1], n, dx, ex), ColumnsFor(p[2], n, dx, ex)>>

(* The contact line map with the innermost columns at kl and kr: a record with *)
(* the first column c0 and, for each bin, whether it is determined.  Where the  *)
(* edges overlap the map is their average, like that of twice as many maps; it  *)
(* is left open what that is for values which are zero in one of them.          *)
EdgeCell(E, i, j) == IF i >= E.lo /\ i < E.lo + E.nx /\ j < E.ny THEN E.c[(i - E.lo) * E.ny + j + 1] ELSE Zero5
Merged(E1, kl, E2, kr) ==
    LET c0 == Min2(kl + E1.lo, kr + E2.lo)
        c1 == Max2(kl + E1.lo + E1.nx - 1, kr + E2.lo + E2.nx - 1)
        ny == Max2(E1.ny, E2.ny)  nx == c1 - c0 + 1
        A(k) == EdgeCell(E1, c0 + (k-1) \div ny - kl, (k-1) % ny)
        B(k) == EdgeCell(E2, c0 + (k-1) \div ny - kr, (k-1) % ny)
        both == TLCEval({k \in 1..(nx*ny) : A(k) # Zero5 /\ B(k) # Zero5})
        full(c) == \A f \in 1..5 : c[f] # 0
    IN [c0 |-> c0, nx |-> nx, ny |-> ny,
        open |-> {k \in both : A(k) # B(k) /\ ~(full(A(k)) /\ full(B(k)))},
        n |-> [k \in 1..(nx*ny) |-> IF k \in both THEN 2 * E1.n ELSE E1.n],
        c |-> TLCEval([k \in 1..(nx*ny) |-> Add5(A(k), B(k))])]

(* Faults of the output record r as the merged map *)
MergedFaults(r, m, dx, dy, vs) ==
    IF r.odd # "" THEN {"Readable"} ELSE
    IF r.nx # m.nx \/ r.ny # m.ny THEN {"Shape"} ELSE
    Clause("Spacing", Near(r.dx, dx, 2) /\ Near(r.dy, dy, 2)) \cup
    Clause("Position", Near(2 * r.x0, (2 * m.c0 + 1) * dx, 4)) \cup
    Clause("FromZero", Near(2 * r.y0, dy, 4)) \cup
    (IF Len(r.rows) # m.nx * m.ny THEN {"Size"} ELSE
     UNION {IF k \in m.open THEN {} ELSE StoredFaults(r.rows[k], m.c[k], m.n[k], vs, 1) : k \in 1..(m.nx * m.ny)})

---------------------------------------------------------------------------
(* Sampling of an averaged edge *)
CutPassing(E, cut) ==
    LET D == DOMAIN E.c
        two == IF cut[1] = 1 THEN cut[2] * E.n
               ELSE MaxOf({E.c[k][1] : k \in D}) + MinOf({E.c[k][1] : k \in D})
    IN {k \in D : 2 * E.c[k][1] >= two}
(* A cutoff that is met by equality, but only up to rounding *)
CutTie(E, cut) ==
    LET D == DOMAIN E.c
        two == MaxOf({E.c[k][1] : k \in D}) + MinOf({E.c[k][1] : k \in D})
    IN cut[1] = 0 /\ ~ExactMean(E.n) /\ \E k \in D : 2 * E.c[k][1] = two

Quot(a, b, vs) == IF b = 0 THEN 0 ELSE (a * vs) \div b
BinValue(c, n, label, vs) ==
    CASE label = "M" -> Quot(c[1], n, vs)
      [] label = "N" -> Quot(c[2], n, vs)
      [] label = "T" -> Quot(c[5], c[2], vs)
      [] label = "U" -> Quot(c[3], c[1], vs)
      [] label = "V" -> Quot(c[4], c[1], vs)
      [] label = "inertial_energy" -> Quot(c[3]*c[3] + c[4]*c[4], 2 * n * c[1], vs)
      [] OTHER -> 0
Mirrored(E) == [E EXCEPT !.c = TLCEval([k \in DOMAIN @ |-> [@[k] EXCEPT ![3] = -@]])]
(* <<sum over the passing bins, their number>> *)
EdgeSample(E, cut, label, vs) ==
    LET P == CutPassing(E, cut) IN <<SumOn([k \in P |-> BinValue(E.c[k], E.n, label, vs)], P), Cardinality(P)>>

(* The value of a window: is v the mean of the means of the edges, or the sum? *)
WindowValueOk(v, E1, E2, cut, label, total, vs) ==
    LET a == EdgeSample(Mirrored(E1), cut, label, vs)
        b == EdgeSample(E2, cut, label, vs)
    IN IF total = 1 THEN Near(v, a[1] + b[1], 2 + a[2] + b[2] + (Abs(a[1] + b[1]) \div 100000))
       ELSE LET want == ((a[1] \div a[2]) + (b[1] \div b[2])) \div 2 IN Near(v, want, 4 + (Abs(want) \div 100000))

(* Times of the windows, in units of dt *)
WindowTime(k, av, rolling) == (av \div 2) + (k - 1) * (IF rolling = 1 THEN 1 ELSE av)
=============================================================================
