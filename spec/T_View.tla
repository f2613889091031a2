------------------------------- MODULE T_View -------------------------------
(* Validation of recorded drawings.  Coordinates are scaled by 16000, values by *)
(* 1000, except for derived fields (see DerivedOk).                              *)
EXTENDS View, TraceLib

(* Is v the value shown for bin k? *)
ColourOk(e, f, k, v) ==
    LET r == f.rows[k] IN
    CASE e.colour \in DOMAIN LabelIndex -> Near(v, 1000 * r[LabelIndex[e.colour]], 1)
      [] e.colour = "flow"        -> Near(v, Speed(r, 1000), 2)
      [] e.colour = "visc"        -> IF r[1] = 0 THEN TRUE
                                     ELSE LET d == Dissipation(f.rows, f.g, e.kx, e.ky, k) IN NearRat(v, d[1], d[2], 1, 4 + (Abs(d[1]) \div (100000 * d[2])))
      [] e.colour = "radial"      -> RadialOk(v, f.rows, f.g, MassMoments(f.rows, f.g), e.ex, e.ey, k, 1000, 3)
      [] e.colour = "evaporation" -> Near(v, Evaporation4(f.rows, f.g, e.kx, e.ky, k), 1)
      [] e.colour = "grad_rho_x"  -> Near(v, GradX4(f.rows, f.g, e.kx, k), 1)
      [] e.colour = "grad_rho_y"  -> Near(v, GradY4(f.rows, f.g, e.ky, k), 1)
      [] OTHER -> v = 1000

PlaceX(g, k) == g.x0 + ((k-1) \div g.ny) * g.dx
PlaceY(g, k) == g.y0 + ((k-1) % g.ny) * g.dy
(* The bin at a coordinate, 0 if there is none *)
BinAt(g, x, y) ==
    LET i == (x - g.x0 + (g.dx \div 2)) \div g.dx  j == (y - g.y0 + (g.dy \div 2)) \div g.dy
        k == i * g.ny + j + 1
    IN IF x \in -1000000000..1000000000 /\ y \in -1000000000..1000000000 /\ i \in 0..(g.nx-1) /\ j \in 0..(g.ny-1) /\ Near(x, PlaceX(g, k), 4) /\ Near(y, PlaceY(g, k), 4) THEN k ELSE 0

ForCutoff(e, rows) == IF e.cl = 0 \/ e.cut[1] = 0 THEN [k \in DOMAIN rows |-> TRUE] ELSE [k \in DOMAIN rows |-> 2 * rows[k][e.cl] >= e.cut[2]]

(* The colours run from one limit to the other; what is not given is that of the *)
(* values which are shown.                                                       *)
RangeFaults(e, f, V) ==
    LET bad == V = {} \/ BAD \in V \/ (e.colour = "visc" /\ \E k \in DOMAIN f.rows : f.rows[k][1] = 0)
        lo == IF e.vlim[1][1] = 1 THEN e.vlim[1][2] ELSE MinOf(V)
        hi == IF e.vlim[2][1] = 1 THEN e.vlim[2][2] ELSE MaxOf(V)
    IN IF bad \/ Len(f.crange) # 2 \/ lo >= hi THEN {} ELSE Clause("ColourRange", Near(f.crange[1], lo, 1) /\ Near(f.crange[2], hi, 1))

ArrowFaults(e, f) ==
    LET ok == ForCutoff(e, f.rows)
        want == ArrowBins(f.g, f.rows, ok, e.lim)
        B == TLCEval([q \in DOMAIN f.out |-> BinAt(f.g, f.out[q][1], f.out[q][2])])
    IN Clause("ArrowPlaces", \A q \in DOMAIN B : B[q] # 0) \cup
       Clause("ArrowBins", Range(B) = want) \cup
       Clause("ArrowOnce", Len(f.out) = Cardinality(Range(B))) \cup
       (IF \E q \in DOMAIN B : B[q] = 0 THEN {} ELSE
        Clause("ArrowFlow", \A q \in DOMAIN B : LET r == f.rows[B[q]] IN Near(f.out[q][3], 1000 * r[4 + e.swap], 1) /\ Near(f.out[q][4], 1000 * r[5 - e.swap], 1)) \cup
        Clause("ArrowColour", \A q \in DOMAIN B : ColourOk(e, f, B[q], f.out[q][5])) \cup
        RangeFaults(e, f, {f.out[q][5] : q \in DOMAIN f.out}))

HeightFaults(e, f) ==
    LET ok == ForCutoff(e, f.rows)
        shown(k) == /\ ok[k]
                    /\ e.colour \in DOMAIN LabelIndex => Inside2(f.rows[k][LabelIndex[e.colour]], e.clim[1], e.clim[2])
                    /\ e.colour = "flow" => LET s == f.rows[k][4] * f.rows[k][4] + f.rows[k][5] * f.rows[k][5] IN
                            (e.clim[1][1] = 1 => e.clim[1][2] <= 0 \/ 4 * s >= e.clim[1][2] * e.clim[1][2])
                            /\ (e.clim[2][1] = 1 => e.clim[2][2] >= 0 /\ 4 * s <= e.clim[2][2] * e.clim[2][2])
                    /\ e.colour = "evaporation" => Inside2(Evaporation4(f.rows, f.g, e.kx, e.ky, k), <<e.clim[1][1], 4 * e.clim[1][2]>>, <<e.clim[2][1], 4 * e.clim[2][2]>>)
        judged == {k \in DOMAIN f.rows : ~(e.colour = "visc" /\ f.rows[k][1] = 0)}
    IN Clause("HeightShape", Len(f.out) = Len(f.rows)) \cup
       (IF Len(f.out) # Len(f.rows) THEN {} ELSE
        Clause("HeightHidden", \A k \in judged : ~shown(k) => f.out[k] = BAD) \cup
        Clause("HeightShown", \A k \in judged : shown(k) => f.out[k] # BAD) \cup
        Clause("HeightValues", \A k \in judged : shown(k) /\ f.out[k] # BAD => ColourOk(e, f, k, f.out[k])) \cup
        RangeFaults(e, f, {f.out[k] : k \in judged} \ {BAD}))

StreamFaults(e, f) ==
    LET ok == ForCutoff(e, f.rows)
        g == f.g
        box == StreamBox(g, ok, e.lim)
    IN IF box = <<>> THEN {} ELSE
       LET i0 == box[1]  j0 == box[3]  nx == box[2] - box[1] + 1  ny == box[4] - box[3] + 1
           bin(q) == (i0 + ((q-1) % nx)) * g.ny + j0 + ((q-1) \div nx) + 1       \* q-th cell, row by row
           S == 1..(nx*ny)
           kept == {q \in S : ok[bin(q)]}
           mmax == IF kept = {} THEN 0 ELSE MaxOf({f.rows[bin(q)][1] : q \in kept})
       IN IF nx < 2 \/ ny < 2 \/ kept = {} THEN {} ELSE
          Clause("StreamGrid", /\ Len(f.x) = nx /\ Len(f.y) = ny
                               /\ \A i \in 1..Len(f.x) : Near(f.x[i], g.x0 + (i0 + i - 1) * g.dx, 4)
                               /\ \A j \in 1..Len(f.y) : Near(f.y[j], g.y0 + (j0 + j - 1) * g.dy, 4)) \cup
          Clause("StreamCells", Len(f.out) = nx * ny) \cup
          (IF Len(f.out) # nx * ny THEN {} ELSE
           Clause("StreamMask", \A q \in S : (f.out[q][1] # BAD /\ f.out[q][2] # BAD) <=> ok[bin(q)]) \cup
           Clause("StreamFlow", \A q \in kept : Near(f.out[q][1], 1000 * f.rows[bin(q)][4 + e.swap], 1) /\ Near(f.out[q][2], 1000 * f.rows[bin(q)][5 - e.swap], 1)) \cup
           Clause("StreamColour", \A q \in kept : ColourOk(e, f, bin(q), f.out[q][3])) \cup
           Clause("StreamWidth", mmax > 0 => \A q \in kept : NearRat(f.out[q][4], 3 * f.rows[bin(q)][1], 2 * mmax, 1000, 2)))

ContourFaults(e, f) ==
    LET zv == [k \in DOMAIN f.rows |-> IF e.colour = "flow" THEN Speed(f.rows[k], 1000) ELSE 1000 * f.rows[k][LabelIndex[e.colour]]]
        z == TLCEval([k \in DOMAIN f.rows |-> IF e.explicit = 1 THEN zv[k] ELSE Clip(zv[k], <<e.clim[1][1], 500 * e.clim[1][2]>>, <<e.clim[2][1], 500 * e.clim[2][2]>>)])
        judged(L) == \A k \in DOMAIN z : Abs(z[k] - L) > 100
        tol == IF e.colour = "flow" THEN 800 ELSE 100
    IN Clause("ContourLevels", e.explicit = 1 => [q \in DOMAIN f.levels |-> f.levels[q]] = e.levels) \cup
       Clause("ContourColours", e.cycle = <<>> \/ (/\ Len(f.colours) = Len(f.levels) - e.filled
                                                 /\ \A q \in DOMAIN f.colours : f.colours[q] = e.cycle[1 + ((q - 1) % Len(e.cycle))])) \cup
       (IF e.filled = 1 \/ Len(f.lines) # Len(f.levels) THEN Clause("ContourLines", e.filled = 1) ELSE
        UNION {LET L == f.levels[q]
                   C == TLCEval(Crossings(f.g, z, L))
                   V == Range(f.lines[q])
               IN IF ~judged(L) THEN {} ELSE
                  Clause("ContourComplete", \A c \in C : \E v \in V : ClosePoints(c, v, tol)) \cup
                  Clause("ContourPlaces", \A v \in V : \E c \in C : ClosePoints(c, v, tol)) : q \in DOMAIN f.levels})

FileFaults(e, f) ==
    CASE e.k = "quiver"  -> ArrowFaults(e, f)
      [] e.k = "height"  -> HeightFaults(e, f)
      [] e.k = "stream"  -> StreamFaults(e, f)
      [] e.k = "contour" -> ContourFaults(e, f)

(* Indices selected by limits on any number of labels *)
IndsFaults(e) ==
    LET want == {q \in 1..e.n : \A l \in DOMAIN e.limits : Inside2(e.values[e.limits[l][1]][q], e.limits[l][2], e.limits[l][3])}
    IN Clause("Selected", e.exc = "" /\ e.out = SortSet(want))

(* draw_flowfield draws all of it, in order *)
DrawFaults(e) == Clause("DrawAll", e.exc = "" /\ e.out = e.values)

Verdict(e) ==
    CASE e.k = "inds" -> IndsFaults(e)
      [] e.k = "draw" -> DrawFaults(e)
      [] OTHER -> IF e.k = "stream" /\ \E q \in 1..e.num : StreamBox(e.g, ForCutoff(e, e.frames[q]), e.lim) = <<>> THEN {} ELSE
                  Clause("Error", e.exc = "") \cup Clause("Figures", Len(e.figs) = e.num) \cup Clause("Saved", e.saved = 1) \cup
                  (IF Len(e.figs) # e.num THEN {} ELSE UNION {FileFaults(e, [g |-> e.g, rows |-> e.frames[q]] @@ e.figs[q]) : q \in 1..e.num})

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
