------------------------------ MODULE T_Average ------------------------------
(* Validation of recorded averaging jobs.                                      *)
EXTENDS Averaging, TraceLib

VS == 1000

JobFaults(e) ==
    LET o  == e.o
        ms == TLCEval([q \in DOMAIN e.maps |-> MakeMap(e.grids[IF Len(e.grids) = 1 THEN 1 ELSE q], e.maps[q])])
        ng == NumGroups(Len(ms), o)
        G(k) == [q \in 1..o.group |-> ms[GroupFiles(k, o)[q]]]
        (* groups that have to fail: the first of them ends the job *)
        Fails(k) == Mismatch(G(k), o) \/ Prepared(G(k), o) = <<>>
        bad == {k \in 1..ng : Fails(k)}
        nok == IF bad = {} THEN ng ELSE MinOf(bad) - 1
    IN IF \E k \in 1..ng : ~InDomain(G(k), o) THEN {} ELSE
       Clause("FailsIffBad", (e.exc # "") <=> (bad # {})) \cup
       (IF bad = {} THEN Clause("NumOutputs", Len(e.out) = nok)
                    ELSE Clause("OnlyGoodOutputs", Len(e.out) = nok)) \cup
       (IF Len(e.out) # nok THEN {} ELSE
        UNION {OutputFaults(e.out[k], Combined(Prepared(G(k), o), o), o.super, VS) : k \in 1..nok})

(* Maps handed to the recentring itself, around columns e.cols (which may lie   *)
(* outside of the maps): all of what is returned for each of them, and the      *)
(* description of their grid.                                                   *)
RecentredFaults(e) ==
    LET sh == [q \in DOMAIN e.maps |-> ShiftToOrigin(MakeMap(e.g, e.maps[q]), e.cols[q])]
    IN IF ~Intersecting(sh) THEN {}
       ELSE IF e.exc # "" THEN {"Recentred"}
       ELSE IF Len(e.got) # Len(e.maps) THEN {"Count"}
       ELSE LET c == TLCEval(Intersect(sh))
            IN UNION {OutputFaults(e.got[q], c[q], 1, VS) : q \in DOMAIN e.maps} \cup
               Clause("Info", /\ e.info.shape = <<c[1].nx, c[1].ny>>
                              /\ e.info.num = c[1].nx * c[1].ny
                              /\ Near(e.info.x0, c[1].x0, 2) /\ Near(e.info.y0, c[1].y0, 2)
                              /\ (e.g.nx > 1 => Near(e.info.dx, e.g.dx, 2))
                              /\ (e.g.ny > 1 => Near(e.info.dy, e.g.dy, 2))) \cup
               Clause("Untouched", e.kept = 1)

Verdict(e) == CASE e.k = "job" -> JobFaults(e)
                [] e.k = "recentred" -> RecentredFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
