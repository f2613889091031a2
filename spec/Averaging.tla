------------------------------ MODULE Averaging ------------------------------
(* The averaging job: files -> groups -> cut -> recentre -> average ->        *)
(* combine -> super sample -> output maps.                                    *)
EXTENDS Maps, Interface

(* Options: [group, rolling, lim, recenter, combine, super, floor, cutoff,     *)
(*           cbins, radius]                                                    *)
NumGroups(nfiles, o) ==
    IF nfiles < o.group THEN 0
    ELSE IF o.rolling = 1 THEN nfiles - o.group + 1 ELSE nfiles \div o.group
GroupFiles(k, o) ==
    LET first == IF o.rolling = 1 THEN k ELSE (k - 1) * o.group + 1 IN [q \in 1..o.group |-> first + q - 1]

(* The column around which a map is recentred: the set of allowed ones, empty *)
(* if there is none.                                                          *)
MassCells(m) == [k \in Bins(m) |-> m.c[k][1]]
RecenterCols(m, o) ==
    CASE o.recenter = "com" -> IF IsTie(ComCol(m)) THEN {} ELSE {RoundRat(ComCol(m))}
      [] OTHER ->
           LET e == SpreadingEdgesOutIn(MassCells(m), m, o)
           IN IF e = <<>> THEN {} ELSE {IF o.recenter = "left" THEN e[1] ELSE e[2]}

(* The maps of a group, prepared for averaging; <<>> if the job must fail.     *)
Prepared(ms, o) ==
    LET cut == [q \in DOMAIN ms |-> Cut(ms[q], o.lim)]
    IN IF o.recenter = "" THEN cut
       ELSE IF \E q \in DOMAIN cut : RecenterCols(cut[q], o) = {} THEN <<>>
       ELSE LET sh == TLCEval([q \in DOMAIN cut |-> ShiftToOrigin(cut[q], CHOOSE c \in RecenterCols(cut[q], o) : TRUE)])
            IN IF Intersecting(sh) THEN Intersect(sh) ELSE <<>>

(* Is the result defined by the specification?  (Ties of the rounding of the   *)
(* centre of mass, and limits or blocks which leave nothing, are left open.)   *)
InDomain(ms, o) ==
    /\ \A q \in DOMAIN ms : Cuttable(ms[q], o.lim)
    /\ o.recenter = "com" => \A q \in DOMAIN ms : ~IsTie(ComCol(Cut(ms[q], o.lim)))

(* Some maps of a group are on another grid *)
Mismatch(ms, o) == \E q \in DOMAIN ms : ~SameGrid(Cut(ms[1], o.lim), Cut(ms[q], o.lim))

(* Average and combine *)
Combined(pm, o) ==
    LET a == Average(pm)
    IN IF o.combine = <<0, 0>> THEN a ELSE Combine(a, o.combine[1], o.combine[2])

(* Faults of an output record r for the map m, super sampled f times (f = 1:   *)
(* not at all).  Coordinates within 2 units, values within 1.                  *)
OutputFaults(r, m, f, vs) ==
    IF r.odd # "" THEN {"Readable"} ELSE
    LET nx == m.nx * f  ny == m.ny * f
    IN IF r.nx # nx \/ r.ny # ny THEN {"Shape"} ELSE
       Clause("Spacing", Near(r.dx, m.dx \div f, 2) /\ Near(r.dy, m.dy \div f, 2)) \cup
       Clause("Position", Near(r.x0, m.x0 - m.dx \div 2 + m.dx \div (2*f), 2)
                       /\ Near(r.y0, m.y0 - m.dy \div 2 + m.dy \div (2*f), 2)) \cup
       (IF Len(r.rows) # nx * ny THEN {"Size"} ELSE
        UNION {LET s == IF f = 1 THEN <<m.c[k], 1>> ELSE SuperBin(m, f, (k-1) \div ny, (k-1) % ny)
               IN StoredFaults(r.rows[k], s[1], m.n * s[2], vs, 1) : k \in 1..(nx * ny)})
=============================================================================
