---------------------------- MODULE MC_Interface ----------------------------
(* A map that is filled cell by cell, its interfaces, and the scan by which the *)
(* longest stretch of a periodic layer can be found in one pass.                *)
EXTENDS Interface
CONSTANTS Nx, Ny, CBins, Radii, Levels

VARIABLES g, o, v, k
vars == <<g, o, v, k>>
Grids == {[nx |-> a, ny |-> b, x0 |-> 0, y0 |-> 0, dx |-> 2, dy |-> d] : a \in Nx, b \in Ny, d \in {2, 3}}
Options == {[cutoff |-> c, cbins |-> b, radius |-> r, unit |-> 1, floor |-> <<0, 0>>, one |-> 2] : c \in {<<0, 0>>, <<1, 2>>, <<1, 3>>}, b \in CBins, r \in Radii}
(* Cells get their values one after the other *)
Init == g \in Grids /\ o \in Options /\ v = [q \in 1..(g.nx * g.ny) |-> 0] /\ k = 0
Fill == /\ k < g.nx * g.ny /\ k' = k + 1
        /\ \E x \in Levels : v' = [v EXCEPT ![k + 1] = x]
        /\ UNCHANGED <<g, o>>
Spec == Init /\ [][Fill]_vars

Done == k = g.nx * g.ny
None == <<0, 0>>
I == InterfaceOutIn(v, g, o, None, None)
Open == LiquidOpen(v, g, o)
Periodic == LiquidPeriodic(v, g, o)
Mirrored == [q \in DOMAIN v |-> v[BinOf(g, <<g.nx - 1 - CellOf(g, q)[1], CellOf(g, q)[2]>>)]]
Rolled(s) == [q \in DOMAIN v |-> v[BinOf(g, <<(CellOf(g, q)[1] + s) % g.nx, CellOf(g, q)[2]>>)]]

LayersOnceUpwards == Done => \A a, b \in DOMAIN I : a < b => I[a][1] < I[b][1]
EdgesEnclose == Done => \A a \in DOMAIN I :
    /\ I[a][2] <= I[a][3]
    /\ {BinOf(g, <<I[a][2], I[a][1]>>), BinOf(g, <<I[a][3], I[a][1]>>)} \subseteq Open
    /\ \A c \in LayerCols(Open, g, I[a][1]) : I[a][2] <= c /\ c <= I[a][3]
AllLayers == (Done /\ ~Homogeneous(v, o)) => {I[a][1] : a \in DOMAIN I} = {CellOf(g, q)[2] : q \in Open}
MirrorMirrors == Done =>
    InterfaceOutIn(Mirrored, g, o, None, None) = [a \in DOMAIN I |-> <<I[a][1], g.nx - 1 - I[a][3], g.nx - 1 - I[a][2]>>]
(* The cutoff without a value is between the extremes, so that something is liquid *)
SomethingIsFull == (Done /\ o.cutoff[1] = 0) => Full(v, g, o) # {} /\ (Homogeneous(v, o) \/ Full(v, g, o) # 1..(g.nx * g.ny))
PeriodicHasMore == Done => Open \subseteq Periodic

(* One pass over the layer twice in a row: the longest run is a longest stretch, *)
(* where at most one system is counted.                                          *)
RECURSIVE Scan(_, _, _, _, _)
Scan(C, n, x, run, best) ==
    IF x = 2 * n THEN best ELSE
    LET r == IF (x % n) \in C THEN Min2(run + 1, n) ELSE 0
    IN Scan(C, n, x + 1, r, IF r > best[2] THEN <<(x - r + 1) % n, r>> ELSE best)
ScanIsLongest == Done => \A j \in 0..(g.ny - 1) :
    LET C == LayerCols(Periodic, g, j)  b == Scan(C, g.nx, 0, 0, <<0, 0>>) IN
    IF C = {} THEN b[2] = 0 ELSE <<b[1], (b[1] + b[2] - 1) % g.nx>> \in PeriodicEdges(C, g.nx)
StretchesPartition == Done => \A j \in 0..(g.ny - 1) :
    LET C == LayerCols(Periodic, g, j)  S == Stretches(C, g.nx) IN
    SumOn([s \in S |-> s[2]], S) = Cardinality(C)
Equivariant == Done => \A s \in 1..(g.nx - 1) :
    LET w == Rolled(s) IN
    \A j \in 0..(g.ny - 1) :
      LET A == PeriodicEdges(LayerCols(Periodic, g, j), g.nx)
          B == PeriodicEdges(LayerCols(LiquidPeriodic(w, g, o), g, j), g.nx)
      IN Cardinality(LayerCols(Periodic, g, j)) = g.nx \/ B = {<<(e[1] + g.nx - s) % g.nx, (e[2] + g.nx - s) % g.nx>> : e \in A}
=============================================================================
