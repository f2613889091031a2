------------------------------ MODULE T_Resample ------------------------------
(* Validation of recorded calls of the resampling functions.                    *)
EXTENDS Resample, TraceLib

VS == 1000

Mp(e) == [nx |-> e.g.nx, ny |-> e.g.ny, x0 |-> e.g.x0, y0 |-> e.g.y0, dx |-> e.g.dx, dy |-> e.g.dy, r |-> e.rows]

DownFaults(e) ==
    LET m == Mp(e)
        cs == ColsIn(m, e.lim[1], e.lim[2])  rs == RowsIn(m, e.lim[3], e.lim[4])
        a == e.n[1]  b == e.n[2]
        nx == Cardinality(cs) \div a  ny == Cardinality(rs) \div b
    IN IF cs = {} \/ rs = {} \/ nx = 0 \/ ny = 0 THEN {} ELSE       \* left open
       IF e.exc # "" THEN {"Raised"} ELSE
       LET i0 == MinOf(cs)  j0 == MinOf(rs)
           Rat(l, I, J) == BlockRat(m, e.w, l, i0, j0, a, b, I, J)
       IN ResultFaults(e.res, nx, ny, m.x0 + (i0*m.dx) + (((a-1)*m.dx) \div 2), m.y0 + (j0*m.dy) + (((b-1)*m.dy) \div 2),
                       a*m.dx, b*m.dy, e.w, Rat, VS, 1)
          \cup Clause("InputUnchanged", e.same = 1)

SuperFaults(e) ==
    LET m == Mp(e)
        Rat(l, I, J) == FineRat(m, e.w, l, e.f, I, J)
        One(l, I, J) == <<BinVal(m, I, J)[l], 1>>
    IN IF e.exc # "" THEN {"Raised"} ELSE
       (IF e.f = 1 THEN ResultFaults(e.res, m.nx, m.ny, m.x0, m.y0, m.dx, m.dy, e.w, One, VS, 1)
        ELSE ResultFaults(e.res, m.nx * e.f, m.ny * e.f, m.x0, m.y0, m.dx \div e.f, m.dy \div e.f, e.w, Rat, VS, 1))
       \cup Clause("InputUnchanged", e.same = 1)

AvgFaults(e) ==
    Clause("InputUnchanged", e.same = 1) \cup
    IF e.odd # "" THEN Clause("Refused", e.exc # "") ELSE
    IF Filled(e.maps) = {} THEN {} ELSE           \* left open
    IF e.exc # "" THEN {"Raised"} ELSE
    LET n == IF e.excl = 1 THEN Cardinality(Filled(e.maps)) ELSE Len(e.maps)
        g == TLCEval(CommonGrid(e.maps, e.dx, e.dy))
        Rat(l, I, J) == MeanRat(e.maps, g, e.dx, e.dy, n, e.w, l, I, J)
    IN ResultFaults(e.res, g.nx, g.ny, g.x0, g.y0, e.dx, e.dy, e.w, Rat, VS, 1)

(* The mean of records on one grid, bin by bin *)
MeanFaults(e) ==
    Clause("InputUnchanged", e.same = 1) \cup
    IF e.odd # "" THEN Clause("Refused", e.exc = "ValueError") ELSE
    IF e.exc # "" THEN {"Raised"} ELSE
    IF e.n = 0 THEN Clause("NothingOfNothing", e.res.x = <<>>) ELSE
    IF Len(e.res.v) # Len(e.x) THEN {"Size"} ELSE
    Clause("Grid", \A q \in DOMAIN e.x : Near(e.res.x[q], e.x[q], 1) /\ Near(e.res.y[q], e.y[q], 1)) \cup
    Clause("Means", \A q \in DOMAIN e.x, l \in 1..5 :
        LET num == SumOn([k \in 1..e.n |-> IF e.w[l] = 0 THEN e.rows[k][q][l] ELSE e.rows[k][q][l] * e.rows[k][q][e.w[l]]], 1..e.n)
            den == IF e.w[l] = 0 THEN e.n ELSE SumOn([k \in 1..e.n |-> e.rows[k][q][e.w[l]]], 1..e.n)
        IN NearRat(e.res.v[q][l], num, den, VS, 1))

Verdict(e) == CASE e.k = "down" -> DownFaults(e)
                [] e.k = "super" -> SuperFaults(e)
                [] e.k = "avg" -> AvgFaults(e)
                [] e.k = "mean" -> MeanFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
