----------------------------- MODULE T_Interface -----------------------------
(* Validation of recorded interface searches and contact angles.              *)
EXTENDS Interface, TraceLib

OutFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET want == InterfaceOutIn(e.v, e.g, e.o, e.lo, e.hi)
    IN Clause("Layers", [q \in DOMAIN e.res |-> e.res[q][2]] = [q \in DOMAIN want |-> want[q][1]]) \cup
       Clause("SameLayer", \A q \in DOMAIN e.res : e.res[q][2] = e.res[q][4]) \cup
       (IF Len(e.res) # Len(want) THEN {} ELSE
        Clause("Edges", \A q \in DOMAIN want : e.res[q][1] = want[q][2] /\ e.res[q][3] = want[q][3])) \cup
       Clause("InputUnchanged", e.same = 1)

PerFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET L == TLCEval(LiquidPeriodic(e.v, e.g, e.o))
        J == IF Homogeneous(e.v, e.o) THEN {} ELSE {j \in LayersIn(e.g, e.lo, e.hi) : LayerCols(L, e.g, j) # {}}
        s == SortSet(J)
    IN Clause("Layers", [q \in DOMAIN e.res |-> e.res[q][2]] = s) \cup
       Clause("SameLayer", \A q \in DOMAIN e.res : e.res[q][2] = e.res[q][4]) \cup
       (IF Len(e.res) # Len(s) THEN {} ELSE
        Clause("LongestStretch", \A q \in DOMAIN s :
            <<e.res[q][1], e.res[q][3]>> \in PeriodicEdges(LayerCols(L, e.g, s[q]), e.g.nx))) \cup
       Clause("InputUnchanged", e.same = 1)

(* Contact angles: the lowest layer with an interface, from the layer closest  *)
(* to the floor on, against the highest within the height of it.               *)
FloorLayer(g, floor) ==
    LET D(j) == Abs(g.y0 + j*g.dy - floor)
    IN {j \in 0..(g.ny - 1) : \A k \in 0..(g.ny - 1) : D(j) <= D(k)}
AngleFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    IF Len(e.res) # 2 THEN {"TwoAngles"} ELSE
    LET F == IF e.floor[1] = 1 THEN FloorLayer(e.g, e.floor[2]) ELSE {0} IN
    IF Cardinality(F) > 1 THEN {} ELSE                \* two layers are as close
    LET f == CHOOSE j \in F : TRUE
        y == e.g.y0 + f * e.g.dy
        w == InterfaceOutIn(e.v, e.g, e.o, <<1, y>>, <<0, 0>>)
        none == w = <<>> \/ (e.floor[1] = 1 /\ w[1][1] # f)
        above == IF none THEN {} ELSE {q \in 2..Len(w) : (w[q][1] - w[1][1]) * e.g.dy <= e.height}
    IN IF none \/ above = {} THEN Clause("NoAngle", \A s \in 1..2 : e.res[s][1] = 0) ELSE
       LET t == w[MaxOf(above)]
           dy == ((t[1] - w[1][1]) * e.g.dy) \div 1000
           dl == ((t[2] - w[1][2]) * e.g.dx) \div 1000
           dr == ((w[1][3] - t[3]) * e.g.dx) \div 1000
           Dir(a, dx) == /\ a[1] = 1 /\ Abs(a[2]) <= 20000 /\ Abs(a[3]) <= 20000
                         /\ Abs(a[2] * dy - a[3] * dx) <= 2 * (Abs(dx) + Abs(dy))
                         /\ a[2] * dx + a[3] * dy > 0
       IN Clause("LeftAngle", Dir(e.res[1], dl)) \cup Clause("RightAngle", Dir(e.res[2], dr))

Verdict(e) == CASE e.k = "out" -> OutFaults(e)
                [] e.k = "per" -> PerFaults(e)
                [] e.k = "angle" -> AngleFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
