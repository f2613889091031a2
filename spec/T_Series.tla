------------------------------- MODULE T_Series -------------------------------
(* Validation of recorded series of samples.                                   *)
EXTENDS Maps, Sample, TraceLib

VS == 1000
CS == 16000

(* The bins of a map within the limits *)
Within(e) ==
    LET c == CutCols(e.g, e.lim[1], e.lim[2])  r == CutRows(e.g, e.lim[3], e.lim[4])
    IN <<c, r>>

(* Observed values are pairs: <<scaled value, 0>> or a direction *)
ValueOk(e, rows, slip, label, o, tol) ==
    LET cr == Within(e)
        cs == SortSet(cr[1])  js == SortSet(cr[2])
        nx == Len(cs)  ny == Len(js)
        W == TLCEval([k \in 1..(nx*ny) |-> rows[cs[((k-1) \div ny) + 1] * e.g.ny + js[((k-1) % ny) + 1] + 1]])
        S == TLCEval(Passing(W, e.cl, e.cut))
        n == Cardinality(S)
        Tot(f) == IF e.sum = 1 THEN <<SumOn(f, S), 1>> ELSE <<SumOn(f, S), n>>
        Field(l) == LET r == Tot([k \in S |-> W[k][l]]) IN NearRat(o[1], r[1], r[2], VS, tol)
        U(i, j) == W[i * ny + j + 1][4]
        V(i, j) == W[i * ny + j + 1][5]
        (* minus the height at which the fitted flow of column q is zero, times VS *)
        Fitted(q) == LET r == TLCEval(Intercept([j \in 1..ny |-> W[(q - 1) * ny + j][4]], [j \in 1..ny |-> js[j]]))
                     IN (-(VS * e.g.y0) \div CS) - ((VS * e.g.dy) \div CS) * (r[1] \div r[2]) - ((((VS * e.g.dy) \div CS) * (r[1] % r[2])) \div r[2])
    IN IF S = {} THEN label \in {"flow_angle", "slip_length"} \/ o[1] \in {BAD, 0} ELSE
       CASE label = "M" -> Field(1)
         [] label = "N" -> Field(2)
         [] label = "T" -> Field(3)
         [] label = "U" -> Field(4)
         [] label = "V" -> Field(5)
         [] label = "inertial_energy" -> LET r == Tot([k \in S |-> Energy2(W[k])]) IN NearRat(o[1], r[1], 2 * r[2], VS, tol)
         [] label = "flow_angle" -> LET p == Momentum(W, S) IN p = <<0, 0>> \/ SameDirection(o[1], o[2], p[1], p[2])
         [] label = "visc_diss" ->
              (nx < 3 \/ ny < 3) \/
              LET r == Tot([k \in S |-> Dissipation48(U, V, nx, ny, e.kx, e.ky, (k-1) \div ny, (k-1) % ny)])
              IN NearRat(o[1], r[1], r[2], 1, tol + 1 + (Abs(r[1] \div r[2]) \div 100000))
         [] label = "slip_length" /\ slip = <<>> ->
              (ny < 2) \/ NearRat(o[1], SumOn([q \in 1..nx |-> Fitted(q)], 1..nx) + nx * e.floor, nx, 1, tol + 2)
         [] label = "slip_length" ->
              (ny < 2) \/ NearRat(o[1], VS * SumOn([q \in 1..nx |-> slip[cs[q] + 1]], 1..nx) + nx * e.floor, nx, 1, tol + 1)
         [] OTHER -> FALSE

(* Deviations of the values, of which the file has one per value of a field *)
Index == [M |-> 1, N |-> 2, T |-> 3, U |-> 4, V |-> 5]
DeviationOf(e, rows, label, o) ==
    LET cr == Within(e)
        cs == SortSet(cr[1])  js == SortSet(cr[2])
        nx == Len(cs)  ny == Len(js)
        W == TLCEval([k \in 1..(nx*ny) |-> rows[cs[((k-1) \div ny) + 1] * e.g.ny + js[((k-1) % ny) + 1] + 1]])
        S == TLCEval(Passing(W, e.cl, e.cut))
    IN S = {} \/ label \notin DOMAIN Index \/ (label = "U" /\ e.slips # <<>>)
       \/ DeviationOk([k \in S |-> W[k][Index[label]]], S, o, 64, 1)

(* Labels whose value is not defined on so few bins: left open *)
Impossible(e) ==
    LET cr == Within(e)
    IN \E q \in DOMAIN e.labels :
          \/ e.labels[q] = "visc_diss" /\ (Cardinality(cr[1]) < 3 \/ Cardinality(cr[2]) < 3)
          \/ e.labels[q] = "slip_length" /\ Cardinality(cr[2]) < 2

(* A number that was written with six significant digits *)
FileTol(o) == 1 + (Abs(o) \div 100000)

SeriesFaults(e) ==
    LET n == Len(e.maps)  cr == Within(e) IN
    IF cr[1] = {} \/ cr[2] = {} THEN {} ELSE
    IF "nonsense" \in Range(e.labels) THEN Clause("NoValues", e.ret = 0) ELSE
    IF Impossible(e) THEN {} ELSE
    Clause("Raised", e.exc = "") \cup
    (IF e.via # "lib" THEN {} ELSE
     Clause("Returned", e.ret = 1) \cup
     Clause("Times", e.times = [q \in 1..n |-> (q-1) * e.dt]) \cup
     Clause("Entries", Len(e.vals) = Len(e.labels) /\ \A s \in DOMAIN e.vals : Len(e.vals[s]) = n) \cup
     (IF Len(e.vals) # Len(e.labels) \/ \E s \in DOMAIN e.vals : Len(e.vals[s]) # n THEN {} ELSE
      {"Value_" \o e.labels[s] : s \in {s \in DOMAIN e.labels : \E q \in 1..n :
          ~ValueOk(e, e.maps[q], IF e.slips = <<>> THEN <<>> ELSE e.slips[q], e.labels[s], e.vals[s][q], 1)}})) \cup
    (IF e.via # "cli" THEN {} ELSE
     Clause("Printed", Len(e.printed) = Len(e.labels) /\ \A s \in DOMAIN e.labels : e.printed[s][1] = e.labels[s]) \cup
     (IF Len(e.printed) # Len(e.labels) \/ Len(e.rows) # n \/ e.odd # 0 THEN {} ELSE
      Clause("PrintedMean", \A s \in DOMAIN e.labels :
          \/ e.labels[s] \in {"flow_angle", "visc_diss"}
          \/ \E q \in 1..n : Abs(e.cells[q][s][1]) > 100000000
          \/ Abs(n * e.printed[s][2] - SumOn([q \in 1..n |-> e.cells[q][s][1]], 1..n)) <= n * 3 + (Abs(e.printed[s][2]) \div 10000)))) \cup
    (IF e.file = 0 THEN {} ELSE
     Clause("FileRows", Len(e.rows) = n /\ e.odd = 0) \cup
     (IF Len(e.rows) # n \/ e.odd # 0 THEN {} ELSE
      Clause("Deviation", e.sum = 1 \/ \A q \in 1..n : \A s \in DOMAIN e.labels : DeviationOf(e, e.maps[q], e.labels[s], e.devs[q][s])) \cup
      Clause("FileTimes", \A q \in 1..n : Near(e.rows[q][1], (q-1) * e.dt, 4)) \cup
      {"FileValue_" \o e.labels[s] : s \in {s \in DOMAIN e.labels : \E q \in 1..n :
          ~ValueOk(e, e.maps[q], IF e.slips = <<>> THEN <<>> ELSE e.slips[q], e.labels[s], e.cells[q][s], FileTol(e.cells[q][s][1]))}}))

Verdict(e) == CASE e.k = "series" -> SeriesFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
