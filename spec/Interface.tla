------------------------------ MODULE Interface ------------------------------
(* Interfaces of a droplet on a grid: which cells belong to it, and where its *)
(* edges are in each layer.                                                    *)
(*                                                                             *)
(* A cell is liquid if its value is at least the cutoff, and if at least       *)
(* `cbins` other cells within the (closed) search radius are, too.  o.cutoff   *)
(* is <<present, twice the value>>: by default the mid point of the smallest and largest *)
(* value is used, and a homogeneous map has no interface.  Values may be       *)
(* doubled to make the mid point an integer: V2(v) = 2 v.                       *)
EXTENDS Num

Dist2(g, a, b) ==
    LET dx == (a[1] - b[1]) * g.dx  dy == (a[2] - b[2]) * g.dy IN <<dx, dy>>

(* Twice the cutoff, for values v (function over bins) *)
Cutoff2(v, o) ==
    IF o.cutoff[1] = 1 THEN o.cutoff[2]
    ELSE LET R == Range(v) IN MaxOf(R) + MinOf(R)
Homogeneous(v, o) == o.cutoff[1] # 1 /\ Cardinality(Range(v)) = 1

CellOf(g, k) == <<(k - 1) \div g.ny, (k - 1) % g.ny>>
BinOf(g, c)  == c[1] * g.ny + c[2] + 1

Full(v, g, o) == LET c2 == Cutoff2(v, o) IN {k \in 1..(g.nx * g.ny) : 2 * v[k] >= c2}

(* Within the radius, without periodicity.  Coordinates and radius are in the  *)
(* same integer unit, small enough to be squared.                              *)
InRadius(g, o, a, b) ==
    LET dx == Abs(a[1] - b[1]) * g.dx  dy == Abs(a[2] - b[2]) * g.dy
        u == o.unit
    IN /\ dx <= o.radius /\ dy <= o.radius
       /\ (dx \div u) * (dx \div u) + (dy \div u) * (dy \div u) <= (o.radius \div u) * (o.radius \div u)

LiquidOpen(v, g, o) ==
    LET F == Full(v, g, o)
    IN {k \in F : Cardinality({q \in F \ {k} : InRadius(g, o, CellOf(g, k), CellOf(g, q))}) >= o.cbins}

(* Columns of the liquid cells of a layer (row j) *)
LayerCols(L, g, j) == {i \in 0..(g.nx - 1) : (i * g.ny + j + 1) \in L}

(* Edges of a layer: <<left column, right column>>, <<>> if there are none *)
OutInEdges(L, g, j) ==
    LET C == LayerCols(L, g, j) IN IF C = {} THEN <<>> ELSE <<MinOf(C), MaxOf(C)>>

(* The layers among which an interface is looked for, with closed limits *)
LayersIn(g, lo, hi) == {j \in 0..(g.ny - 1) : (lo[1] = 1 => g.y0 + j*g.dy >= lo[2]) /\ (hi[1] = 1 => g.y0 + j*g.dy <= hi[2])}

(* The interface from the outside and in: sequence of <<row, left, right>>,    *)
(* from the bottom to the top.                                                 *)
InterfaceOutIn(v, g, o, lo, hi) ==
    IF Homogeneous(v, o) THEN <<>> ELSE
    LET L == LiquidOpen(v, g, o)
        J == {j \in LayersIn(g, lo, hi) : LayerCols(L, g, j) # {}}
        s == SortSet(J)
    IN [q \in 1..Len(s) |-> <<s[q]>> \o OutInEdges(L, g, s[q])]

(* The layer at a spreading floor: the first one whose distance above the     *)
(* floor rounds up to one unit of length, or else the one nearest to that.     *)
(* Without a floor it is the lowest layer with an interface.                   *)
(* o.floor is <<present, value>>, o.one is the unit of length.                 *)
FloorMiss(g, o, j) == Abs(CeilDiv(g.y0 + j*g.dy - o.floor[2], o.one) - 1)
FloorRow(g, o) ==
    LET J == 0..(g.ny - 1)
        best == MinOf({FloorMiss(g, o, j) : j \in J})
    IN MinOf({j \in J : FloorMiss(g, o, j) = best})

SpreadingEdgesOutIn(v, g, o) ==
    LET w == IF o.floor[1] = 1
             THEN LET y == g.y0 + FloorRow(g, o) * g.dy IN InterfaceOutIn(v, g, o, <<1, y>>, <<1, y>>)
             ELSE InterfaceOutIn(v, g, o, <<0, 0>>, <<0, 0>>)
    IN IF w = <<>> THEN <<>> ELSE <<w[1][2], w[1][3]>>

---------------------------------------------------------------------------
(* With periodic boundaries along x.                                         *)

PDist(g, a, b) == LET d == Abs(a[1] - b[1]) IN Min2(d, g.nx - d) * g.dx
InRadiusP(g, o, a, b) ==
    LET dx == PDist(g, a, b)  dy == Abs(a[2] - b[2]) * g.dy
        u == o.unit
    IN /\ dx <= o.radius /\ dy <= o.radius
       /\ (dx \div u) * (dx \div u) + (dy \div u) * (dy \div u) <= (o.radius \div u) * (o.radius \div u)

LiquidPeriodic(v, g, o) ==
    LET F == Full(v, g, o)
    IN {k \in F : Cardinality({q \in F \ {k} : InRadiusP(g, o, CellOf(g, k), CellOf(g, q))}) >= o.cbins}

(* Stretches of liquid columns in a periodic layer: all <<left, length>> such  *)
(* that the columns left, left + 1, ... (mod nx) are liquid and the stretch    *)
(* can not be extended.  A full layer begins at column 0.                      *)
Stretches(C, nx) ==
    IF C = {} THEN {} ELSE
    IF Cardinality(C) = nx THEN {<<0, nx>>}
    ELSE {<<l, n>> \in C \X (1..(nx - 1)) :
             /\ ((l + nx - 1) % nx) \notin C
             /\ \A p \in 0..(n - 1) : ((l + p) % nx) \in C
             /\ ((l + n) % nx) \notin C}
LongestStretches(C, nx) ==
    LET S == Stretches(C, nx) IN {s \in S : \A t \in S : t[2] <= s[2]}

(* Allowed edges of a layer: set of <<left, right>> *)
PeriodicEdges(C, nx) == {<<s[1], (s[1] + s[2] - 1) % nx>> : s \in LongestStretches(C, nx)}
=============================================================================
