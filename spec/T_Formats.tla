------------------------------ MODULE T_Formats ------------------------------
(* Validation of recorded reads, writes and conversions of map files.           *)
EXTENDS TraceLib, Num
F == INSTANCE Formats WITH Chunk <- 1, MaxHeader <- 1, MaxData <- 1,
        h <- 1, d <- 0, t <- 0, pos <- 0, state <- "", start <- 0

TOL == 2

(* The rows of the map: given in x-major order, or by the lines of the file *)
Rows(e) == IF e.lines = <<>> THEN e.rows ELSE F!Dense(e.lines, e.g, TOL)

ReadFaults(e, gmx) ==
    IF e.exc # "" THEN {"Readable"} ELSE
    F!GridFaults(e.got, e.g, TOL) \cup F!CoordFaults(e.got.xy, e.g, TOL) \cup F!ValueFaults(e.got.rows, Rows(e), gmx, 1)
    \cup Clause("NumBins", e.got.nb = e.g.nx * e.g.ny)

(* One step of a chain of conversions: from what was read before to what is     *)
(* read now.                                                                    *)
StepFaults(from, to, g, rows, r) ==
    IF r.exc # "" THEN {"Converted"} ELSE
    (IF F!HalfBinShifted(from, to, r, g, TOL) THEN {"HalfBinShift"}
     ELSE F!GridFaults(r, g, TOL) \cup F!CoordFaults(r.xy, g, TOL))
    \cup F!ValueFaults(r.rows, rows, to = "gmx", 1)

RECURSIVE ChainFaults(_, _, _, _, _)
ChainFaults(fmts, steps, q, g, rows) ==
    IF q > Len(steps) THEN {} ELSE
    LET f == StepFaults(fmts[q], fmts[q+1], g, rows, steps[q])
    IN IF f \subseteq {"HalfBinShift"}
       THEN f \cup ChainFaults(fmts, steps, q + 1,
                [g EXCEPT !.x0 = steps[q].x0, !.y0 = steps[q].y0], steps[q].rows)
       ELSE f

Verdict(e) ==
    CASE e.k = "read"     -> ReadFaults(e, e.fmt = "gmx")
      [] e.k = "truncated" -> Clause("Refused", e.exc # "")
      [] e.k = "written"  -> (IF e.exc # "" THEN {"Written"} ELSE
                              IF e.got.odd # "" THEN {"Format"} ELSE
                              F!GridFaults(e.got, e.g, TOL) \cup F!ValueFaults(e.got.rows, Rows(e), TRUE, 1)
                              \cup Clause("OnlyMass", e.got.num = Cardinality({k \in DOMAIN e.lines : e.lines[k][3] # 0})))
      [] e.k = "chain"    -> ChainFaults(e.fmts, e.steps, 1, e.g, Rows(e))
      [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
