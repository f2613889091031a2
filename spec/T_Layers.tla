------------------------------ MODULE T_Layers ------------------------------
(* Validation of recorded interface collections.                               *)
EXTENDS Interface, Layers, TraceLib

(* Coordinates are scaled by 16000, file contents by 1000.                      *)

(* Rows with an interface, as a function to the sets of allowed edges *)
FrameEdges(v, e) ==
    LET g == e.g  o == e.o IN
    IF Homogeneous(v, o) THEN <<>> ELSE
    LET L == TLCEval(LiquidPeriodic(v, g, o))
        J == {j \in LayersIn(g, e.lo, e.hi) : LayerCols(L, g, j) # {}}
    IN [j \in J |-> PeriodicEdges(LayerCols(L, g, j), g.nx)]

Determined(E) == DOMAIN E # {} /\ \A j \in DOMAIN E : Cardinality(E[j]) = 1
Only(E) == [j \in DOMAIN E |-> CHOOSE s \in E[j] : TRUE]

(* The frames as far as they can be followed: a sequence of positions *)
RECURSIVE Positions(_, _, _)
Positions(n, seens, w) ==
    IF seens = <<>> THEN w ELSE
    LET s == seens[1] IN
    IF s = <<>> THEN w ELSE
    IF w = <<>>
    THEN LET p == PlaceLayers(n, s) IN IF TraceableFirst(n, p) THEN Positions(n, Tail(seens), <<p>>) ELSE <<>>
    ELSE LET old == w[Len(w)]  p == FollowLayers(n, old, s)
         IN IF TraceableLayers(n, old, p) THEN Positions(n, Tail(seens), Append(w, p)) ELSE w

(* The edge at column c: its coordinate in the unit of files, times 16 *)
Coord(g, c) == g.x0 + c * g.dx

(* Where all of the interface is moved to *)
Shift16(e, q, p) ==
    LET g == e.g  b == p[Lowest(p)] IN
    CASE e.recenter = 0 -> <<0, 1>>
      [] e.recenter = 1 -> <<Coord(g, b[1]) + Coord(g, b[2]), 2>>
      [] OTHER -> LET v == e.frames[q]  R == 1..(g.nx * g.ny)
                      m == SumOn(v, R)
                      c == SumOn([k \in R |-> v[k] * CellOf(g, k)[1]], R)
                  IN <<m * (g.x0 \div 20) + c * (g.dx \div 20), m>>         \* in units of 20/16000
(* x16: observed x times 16; is it the coordinate c less the shift? *)
IsAt(e, s, x, c) ==
    IF e.recenter = 2 THEN LET u == (x * 4) \div 5 IN Abs((u - Coord(e.g, c) \div 20) * s[2] + s[1]) <= s[2] * 2
    ELSE Abs((x * 16 - Coord(e.g, c)) * s[2] + s[1]) <= s[2] * 20

FileFaults(e, q, p, f) ==
    LET g == e.g  m == Cardinality(DOMAIN p)  b == Lowest(p)
        s == TLCEval(Shift16(e, q, p))
        (* the layers from below *)
        rows == TLCEval([k \in 1..m |-> CHOOSE j \in DOMAIN p : Cardinality({a \in DOMAIN p : a < j}) = k - 1])
        y(k) == (rows[k] - b) * g.dy
        open == e.recenter = 2 /\ \E j \in DOMAIN p : p[j][1] < 0 \/ p[j][2] >= g.nx
        (* without recentering, up to a multiple of the system, common to all frames *)
    IN Clause("Points", Len(f) = 2 * m /\ \A k \in DOMAIN f : Len(f[k]) = 2) \cup
       (IF Len(f) # 2 * m \/ \E k \in DOMAIN f : Len(f[k]) # 2 THEN {} ELSE
        Clause("Heights", \A k \in 1..m : Near(f[k][2] * 16, y(k), 20) /\ Near(f[2*m + 1 - k][2] * 16, y(k), 20)) \cup
        (IF open THEN {} ELSE
         Clause("LeftSide", \A k \in 1..m : IsAt(e, s, f[k][1], p[rows[k]][1])) \cup
         Clause("RightSide", \A k \in 1..m : IsAt(e, s, f[2*m + 1 - k][1], p[rows[k]][2]))))

CollectFaults(e) ==
    LET g == e.g  n == Len(e.frames)
        E == TLCEval([q \in 1..n |-> FrameEdges(e.frames[q], e)])
        S == [q \in 1..n |-> IF Determined(E[q]) THEN Only(E[q]) ELSE <<>>]
        W == TLCEval(Positions(g.nx, S, <<>>))
        known == \A q \in 1..n : DOMAIN E[q] # {}
    IN (IF known THEN Clause("Raised", e.exc = "") ELSE {}) \cup
       (IF e.exc # "" THEN {} ELSE
        Clause("Files", Len(e.files) = n /\ e.extra = 0) \cup
        (IF Len(e.files) # n THEN {} ELSE
         UNION {FileFaults(e, q, W[q], e.files[q]) : q \in DOMAIN W} \cup
         Clause("Header", \A q \in 1..n : e.headed[q] = 1))) \cup
       (* the motion that was replayed *)
       (IF e.real = <<>> THEN {} ELSE
        LET R == [q \in DOMAIN e.real |-> [j \in e.real[q].rows[1]..e.real[q].rows[2] |-> e.real[q].e[j - e.real[q].rows[1] + 1]]] IN
        Clause("ModelFollows", Len(W) = Len(R)) \cup
        (IF Len(W) # Len(R) THEN {} ELSE
         LET d == W[1][Lowest(W[1])][1] - R[1][Lowest(R[1])][1] IN
         Clause("ModelMotion", \A q \in DOMAIN W : DOMAIN W[q] = DOMAIN R[q]
                   /\ \A j \in DOMAIN W[q] : W[q][j] = <<R[q][j][1] + d, R[q][j][2] + d>>)))

Verdict(e) == CASE e.k = "ifc" -> CollectFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
