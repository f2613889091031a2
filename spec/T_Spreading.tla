----------------------------- MODULE T_Spreading -----------------------------
(* Validation of recorded spreading collections.                               *)
EXTENDS Interface, Spreading, TraceLib

CS == 16000       \* coordinates and radii; 1000 in files; times 8000

EdgesOf(v, g, o) ==      \* allowed edges at the floor
    IF Homogeneous(v, o) THEN {} ELSE
    LET L == TLCEval(LiquidPeriodic(v, g, o))
        J == IF o.floor[1] = 1 THEN {FloorRow(g, o)} ELSE 0..(g.ny - 1)
        S == {j \in J : LayerCols(L, g, j) # {}}
    IN IF S = {} THEN {} ELSE PeriodicEdges(LayerCols(L, g, MinOf(S)), g.nx)

(* a multiple of the box, give or take *)
Multiple(d, box, tol) == LET r == (d + tol) % box IN r <= 2 * tol

CollectFaults(e) ==
    LET g == e.g  n == Len(e.frames)
        E == TLCEval([q \in 1..n |-> EdgesOf(e.frames[q], g, e.o)])
        open == \E q \in 1..n : Cardinality(E[q]) > 1
        hits == TLCEval(SortSet({q \in 1..n : E[q] # {}}))
        m == Len(hits)
        seen == [s \in 1..m |-> CHOOSE x \in E[hits[s]] : TRUE]
        W == TLCEval(Unwrap(g.nx, seen))
        T == TLCEval(TraceableTo(g.nx, W))
        TimeOf(s) == e.t0 + (hits[s] - hits[1]) * e.dt
        Width(s) == (W[s][2] - W[s][1]) * g.dx
        Radius2(s) == Width(s)                   \* twice the radius
        box == g.nx * g.dx
        rows == e.rows
    IN IF open THEN {} ELSE
    Clause("Raised", e.exc = "") \cup
    (IF e.exc # "" THEN {} ELSE
     (IF e.ret = 0 THEN {} ELSE
      Clause("Count", Len(e.times) = m /\ Len(e.radii) = m) \cup
      (IF Len(e.times) # m \/ Len(e.radii) # m THEN {} ELSE
       Clause("Times", \A s \in 1..m : Near(e.times[s], TimeOf(s), 1)) \cup
       Clause("Radii", \A s \in 1..T : Near(2 * e.radii[s], Radius2(s), 4)))) \cup
     (IF e.printed = 0 THEN {} ELSE
      Clause("Printed", Len(e.shown) = m /\ (\A s \in 1..m : Near(e.shown[s][1], TimeOf(s), 5))
                        /\ \A s \in 1..T : Near(2 * e.shown[s][2] * 16, Radius2(s), 20))) \cup
     (IF e.file = 0 THEN {} ELSE
      Clause("FileExists", e.exists = 1) \cup
      Clause("FileRows", Len(rows) = m /\ \A s \in DOMAIN rows : Len(rows[s]) = 4) \cup
      Clause("Impact", IF m = 0 THEN e.impact = <<>>
                       ELSE Len(e.impact) = 2 /\ Near(e.impact[1], (hits[1] - 1) * e.dt, 5) /\ e.impact[2] = e.begin + hits[1] - 1) \cup
      (IF Len(rows) # m \/ \E s \in DOMAIN rows : Len(rows[s]) # 4 THEN {} ELSE
       Clause("FileTimes", \A s \in 1..m : Near(rows[s][1], TimeOf(s), 5)) \cup
       Clause("FileRadii", \A s \in 1..T : Near(2 * rows[s][2] * 16, Radius2(s), 20)) \cup
       Clause("FileWidth", \A s \in 1..T : Near((rows[s][4] - rows[s][3]) * 16, Width(s), 40)) \cup
       (* where the left edge is, up to a common multiple of the system *)
       Clause("FileEdges",
              /\ \A s \in 1..T : Multiple(rows[s][3] * 16 - g.x0 - W[s][1] * g.dx, box, 20)
              /\ \A s \in 2..T : Near((rows[s][3] - rows[1][3]) * 16, (W[s][1] - W[1][1]) * g.dx, 40))))) \cup
    (* The motion that was replayed *)
    (IF e.real = <<>> THEN {} ELSE
     LET on == SelectSeq(e.real, LAMBDA f : f[1] = 1) IN
     Clause("ModelTouches", Len(on) = m) \cup
     (IF Len(on) # m \/ m = 0 THEN {} ELSE
      (* the model of the interface and the model of the motion agree *)
      Clause("ModelMotion", \A s \in 1..m : on[s][3] - on[s][2] = W[s][2] - W[s][1]
                                 /\ on[s][2] - on[1][2] = W[s][1] - W[1][1]) \cup
      (IF Len(rows) # m \/ e.file = 0 \/ e.exc # "" THEN {} ELSE
       Clause("Motion", \A s \in 1..m : Len(rows[s]) = 4 =>
           /\ Near((rows[s][4] - rows[s][3]) * 16, (on[s][3] - on[s][2]) * g.dx, 40)
           /\ Near((rows[s][3] - rows[1][3]) * 16, (on[s][2] - on[1][2]) * g.dx, 40)))))

Verdict(e) == CASE e.k = "collect" -> CollectFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
