--------------------------- MODULE T_ContactLine ---------------------------
(* Validation of recorded contact line extractions, collections and samples.  *)
EXTENDS ContactLine, TraceLib

VS == 1000

ExtractFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET w == LowLayers(e.v, e.g, e.o, e.lo, e.hi, e.ah)
        want == IF w = <<>> THEN <<{}, {}>> ELSE LET a == Areas(w, e.g, e.aw, e.eh) IN <<CellsOf(e.g, a[1]), CellsOf(e.g, a[2])>>
        Side(s, name) ==
            LET R == Range(e.res[s]) IN
            Clause(name \o "RowsIntact", \A q \in DOMAIN e.res[s] : e.res[s][q] \in 1..(e.g.nx * e.g.ny)) \cup
            Clause(name \o "Once", Cardinality(R) = Len(e.res[s])) \cup
            Clause(name \o "Missing", want[s] \subseteq R) \cup
            Clause(name \o "Outside", R \subseteq want[s])
    IN Side(1, "Left") \cup Side(2, "Right") \cup Clause("Copies", e.same = 1)

(* The job: maps with an interface, their areas, and the windows *)
Job(e) ==
    LET ms == TLCEval([q \in DOMAIN e.maps |-> MakeMap(e.grids[q], e.maps[q])])
        ws == TLCEval([q \in DOMAIN ms |-> LowLayers(MassCells(ms[q]), e.grids[q], e.o, e.floor, <<0, 0>>, e.ah)])
        as == TLCEval([q \in DOMAIN ms |-> IF ws[q] = <<>> THEN <<>> ELSE Areas(ws[q], e.grids[q], e.aw, e.eh)])
    IN [ms |-> ms, as |-> as, n |-> NumWindows(Len(ms), e.av, e.rolling)]
HasEdges(w) == w # <<>>
WindowFiles(j, e, k) == SelectSeq(WindowOf(k, e.av, e.rolling), LAMBDA q : HasEdges(j.as[q]))
(* The windows before the first one that has no interface at all *)
Determined(j, e) ==
    LET none == {k \in 1..(j.n) : WindowFiles(j, e, k) = <<>>} IN IF none = {} THEN j.n ELSE MinOf(none) - 1
Edge(j, f, s) == EdgeAverage([q \in DOMAIN f |-> j.ms[f[q]]], [q \in DOMAIN f |-> j.as[f[q]][s]], s)
Positions(j, f, s) == SumOn([q \in DOMAIN f |-> Anchor(j.ms[f[q]], j.as[f[q]][s], s)], DOMAIN f)

WindowFaults(j, e, k) ==
    LET f == WindowFiles(j, e, k)
        E1 == Edge(j, f, 1)  E2 == Edge(j, f, 2)
        dx == E1.dx
        K == EdgeColumns(Positions(j, f, 1), Positions(j, f, 2), Len(f), dx, e.recenter, e.fuse, E1, E2)
        res == {MergedFaults(e.out[k], Merged(E1, kl, E2, kr), dx, E1.dy, VS) : kl \in K[1], kr \in K[2]}
    IN IF {} \in res THEN {} ELSE CHOOSE r \in res : TRUE

CollectFaults(e) ==
    LET j == Job(e)  nd == Determined(j, e) IN
    (IF nd = j.n THEN Clause("Raised", e.exc = "") \cup Clause("NumOutputs", Len(e.out) = j.n)
     ELSE Clause("NumOutputs", Len(e.out) >= nd)) \cup
    (IF Len(e.out) < nd THEN {} ELSE UNION {WindowFaults(j, e, k) : k \in 1..nd})

(* File values: {:g}, six significant digits *)
SampleFaults(e) ==
    LET j == Job(e) IN
    IF Determined(j, e) < j.n THEN {} ELSE
    LET W == TLCEval([k \in 1..(j.n) |-> LET f == WindowFiles(j, e, k) IN <<Edge(j, f, 1), Edge(j, f, 2)>>])
        Empty(k) == \E s \in 1..2 : CutPassing(W[k][s], e.cut) = {}
        Open(k)  == \E s \in 1..2 : CutTie(W[k][s], e.cut)
        Value(k, l, v) == Open(k) \/ WindowValueOk(v, W[k][1], W[k][2], e.cut, l, e.sum, VS)
        T(k) == WindowTime(k, e.av, e.rolling) * e.dt
    IN IF \E k \in 1..(j.n) : Empty(k) THEN {} ELSE
       Clause("Raised", e.exc = "") \cup
       (IF e.ret = 0 THEN {} ELSE
        Clause("Times", e.times = [k \in 1..(j.n) |-> T(k)]) \cup
        Clause("Entries", Len(e.vals) = Len(e.labels) /\ \A s \in DOMAIN e.vals : Len(e.vals[s]) = j.n) \cup
        (IF Len(e.vals) # Len(e.labels) \/ \E s \in DOMAIN e.vals : Len(e.vals[s]) # j.n THEN {} ELSE
         {"Value_" \o e.labels[s] : s \in {s \in DOMAIN e.labels : \E k \in 1..(j.n) : ~Value(k, e.labels[s], e.vals[s][k])}})) \cup
       (IF e.file = 0 THEN {} ELSE
        Clause("FileRows", Len(e.rows) = j.n /\ e.odd = 0) \cup
        (IF Len(e.rows) # j.n \/ e.odd # 0 THEN {} ELSE
         Clause("FileTimes", \A k \in 1..(j.n) : Near(e.rows[k][1], T(k), 2)) \cup
         {"FileValue_" \o e.labels[s] : s \in {s \in DOMAIN e.labels : \E k \in 1..(j.n) : ~Value(k, e.labels[s], e.rows[k][s + 1])}}))

(* Cells in any order, each with a number: it keeps that, and the cells given  *)
(* are not changed                                                             *)
ShiftFaults(e) ==
    LET t == ShiftOf(Range(e.cells), e.side)
    IN Clause("ShiftError", e.exc = "") \cup
       (IF e.exc # "" THEN {} ELSE
        Clause("Shift", e.adj = t) \cup
        Clause("Shifted", e.res = [q \in DOMAIN e.cells |-> <<e.cells[q][1] - t[1], e.cells[q][2] - t[2]>>]) \cup
        Clause("InputKept", e.same = 1))

Verdict(e) == CASE e.k = "cells" -> ExtractFaults(e)
                [] e.k = "shift" -> ShiftFaults(e)
                [] e.k = "collect" -> CollectFaults(e)
                [] e.k = "sample" -> SampleFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
