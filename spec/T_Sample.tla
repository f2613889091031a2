------------------------------- MODULE T_Sample -------------------------------
(* Validation of recorded samples.                                             *)
EXTENDS Sample, TraceLib

VS == 1000

AngleFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET n == NumIntervals(e.amin, e.amax, e.size)
        S == {k \in DOMAIN e.bins : InRing(e.bins[k], e.r2min, e.r2max)
                                    /\ LET h == HalfDegrees(e.bins[k].x, e.bins[k].y) IN h >= e.amin /\ h < e.amax}
        I == TLCEval([k \in S |-> IntervalOf(e.bins[k], e.amin, e.size)])
    IN Clause("InputUnchanged", e.same = 1) \cup
       Clause("Angles", [q \in DOMAIN e.out |-> e.out[q][1]] = [q \in 1..n |-> e.amin + (q-1) * e.size]) \cup
       (IF Len(e.out) # n THEN {} ELSE
        Clause("Values", \A q \in 1..n : LET r == ProfileRat(e.bins, S, I, q - 1, e.weighted)
                                          IN NearRat(e.out[q][2], r[1], r[2], VS, 1)))

DissFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET Cell(f, i, j) == f[i * e.ny + j + 1]
        WU(i, j) == Cell(e.W, i, j) * Cell(e.U, i, j)
        WV(i, j) == Cell(e.W, i, j) * Cell(e.V, i, j)
        n == e.nx * e.ny
        Cells == (0..(e.nx-1)) \X (0..(e.ny-1))
    IN Clause("Sorted", Len(e.out) = n /\ Len(e.rows) = n /\ \A q \in 1..n : e.out[q][1] = (q-1) % e.nx /\ e.out[q][2] = (q-1) \div e.nx) \cup
       Clause("RowsKept", Len(e.rows) = n /\ {<<r[1], r[2]>> : r \in Range(e.rows)} = Cells
              /\ \A q \in DOMAIN e.rows : LET r == e.rows[q] IN
                   IF <<r[1], r[2]>> \in Cells
                   THEN r[3] = Cell(e.U, r[1], r[2]) /\ r[4] = Cell(e.V, r[1], r[2]) /\ r[5] = Cell(e.W, r[1], r[2]) ELSE FALSE) \cup
       Clause("Dissipation", \A q \in DOMAIN e.out : LET o == e.out[q] IN
              IF <<o[1], o[2]>> \in Cells
              THEN LET w == Cell(e.W, o[1], o[2])
                       D == Dissipation48(WU, WV, e.nx, e.ny, e.kx, e.ky, o[1], o[2])
                   IN NearRat(o[3], D, w * w, 1, 1 + (D \div 10000000))
              ELSE FALSE)

HelperFaults(e) ==
    LET D == DOMAIN e.rows
        M == SumOn([k \in D |-> e.rows[k][1]], D)
        x(k) == e.g.x0 + ((k-1) \div e.g.ny) * e.g.dx
        y(k) == e.g.y0 + ((k-1) % e.g.ny) * e.g.dy
        P == Momentum(e.rows, D)
        W == <<SumOn([k \in D |-> e.rows[k][4]], D), SumOn([k \in D |-> e.rows[k][5]], D)>>
        Dir(o, v) == Len(o) = 1 /\ (v = <<0, 0>> \/ SameDirection(o[1][1], o[1][2], v[1], v[2]))
    IN Clause("InputUnchanged", e.same = 1) \cup
       (IF M = 0 THEN Clause("NoCentre", e.exc[1] = "ZeroDivisionError")
        ELSE Clause("CentreOfMass", e.exc[1] = "" /\ Len(e.com) = 2
                /\ NearRat(e.com[1], SumOn([k \in D |-> x(k) * e.rows[k][1]], D), M, 100, 1)
                /\ NearRat(e.com[2], SumOn([k \in D |-> y(k) * e.rows[k][1]], D), M, 100, 1))) \cup
       Clause("Energy", e.exc[2] = "" /\ e.energy = [k \in D |-> Energy2(e.rows[k])]) \cup
       Clause("FlowAngles", e.exc[3] = "" /\ Len(e.angles) = Len(e.rows) /\ \A k \in D :
             (e.rows[k][4] = 0 /\ e.rows[k][5] = 0) \/ SameDirection(e.angles[k][1], e.angles[k][2], e.rows[k][4], e.rows[k][5])) \cup
       Clause("MeanAngle", e.exc[4] = "" /\ Dir(e.mean, W)) \cup
       Clause("WeightedMeanAngle", e.exc[5] = "" /\ Dir(e.wmean, P))

Verdict(e) == CASE e.k = "angle" -> AngleFaults(e)
                [] e.k = "diss" -> DissFaults(e)
                [] e.k = "helpers" -> HelperFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
