------------------------------ MODULE T_Decor ------------------------------
(* Validation of recorded histories of drawing calls: what was in the figure   *)
(* when it was saved and shown, the image files, and what was left.            *)
EXTENDS Decor, TraceLib

(* Calls of drawing tools have more than the calls of the model: the limits of  *)
(* colours, the dimensions in pixels, fitted parameters                        *)
Call(s) == s.o

LimitFaults(name, ax, l, loose, all) ==
    IF loose THEN {} ELSE
    Clause(name \o "_From", ax.lo # <<>> => Near(l[1], ax.lo[1], 1)) \cup
    Clause(name \o "_To", ax.hi # <<>> => Near(l[2], ax.hi[1], 1)) \cup
    Clause(name \o "_InView", ax.fit => /\ (ax.lo = <<>> => \A v \in all : l[1] <= v + 1)
                                        /\ (ax.hi = <<>> => \A v \in all : l[2] + 1 >= v))

Points(lines, c) == UNION {{p[c] : p \in Range(lines[q].pts)} : q \in DOMAIN lines} \ {BAD}

LineFaults(o, want, pic) ==
    CASE o.tool \in {"quiver", "stream", "height", "contour"} -> {}
      [] o.tool = "fit" ->
           IF Len(pic.lines) # 2 * Len(want.lines) THEN {"FitLines"} ELSE
           Clause("FitData", \A q \in DOMAIN want.lines : pic.lines[2*q-1] = want.lines[q]) \cup
           Clause("FitNames", \A q \in DOMAIN o.fits : LET n == pic.lines[2*q].nums IN
                    Len(n) = 2 /\ Near(n[1], o.fits[q][1], 1) /\ Near(n[2], o.fits[q][2], 1))
      [] OTHER -> Clause("Lines", [q \in DOMAIN pic.lines |-> pic.lines[q].pts] = [q \in DOMAIN want.lines |-> want.lines[q].pts]) \cup
                  Clause("LineNames", [q \in DOMAIN pic.lines |-> pic.lines[q].label] = [q \in DOMAIN want.lines |-> want.lines[q].label])

BarFaults(o, pic) ==
    IF o.bar # 1 THEN Clause("NoBar", pic.bars = <<>>) ELSE
    IF Len(pic.bars) # 1 THEN {"Bar"} ELSE
    LET b == pic.bars[1] IN
    Clause("BarLabel", b.label = o.blabel) \cup
    Clause("BarTicks", o.bticks = <<>> \/ b.ticks = o.bticks) \cup
    Clause("BarTickNames", o.bnames = <<>> \/ b.names = o.bnames) \cup
    Clause("BarColours", Len(pic.maps) > 0 => b.cmap = pic.maps[1].cmap)

PictureFaults(fig, o, pic) ==
    LET want == Drawn(fig, o) IN
    Clause("Title", pic.title = want.title) \cup
    Clause("Labels", pic.xlabel = want.xlabel /\ pic.ylabel = want.ylabel) \cup
    Clause("Log", pic.log = <<IF want.log THEN 1 ELSE 0, IF want.log THEN 1 ELSE 0>>) \cup
    Clause("Off", pic.off = IF want.off THEN 1 ELSE 0) \cup
    Clause("Aspect", pic.aspect = want.aspect) \cup
    Clause("Legend", o.tool = "fit" \/ o.bar = 1 \/ pic.legend = want.legend) \cup
    Clause("FitLegend", o.tool # "fit" \/ pic.legend = IF LegendOf(o) THEN [q \in DOMAIN pic.lines |-> pic.lines[q].label] ELSE <<>>) \cup
    Clause("Colours", [q \in DOMAIN pic.maps |-> pic.maps[q].cmap] = want.maps) \cup
    Clause("ColourLimits", \A q \in DOMAIN pic.maps : /\ (o.vlim[1] # <<>> => Near(pic.maps[q].lo, o.vlim[1][1], 1))
                                                      /\ (o.vlim[2] # <<>> => Near(pic.maps[q].hi, o.vlim[2][1], 1))) \cup
    LineFaults(o, want, pic) \cup BarFaults(o, pic) \cup
    LimitFaults("X", want.x, pic.xlim, want.loose, Points(want.lines, 1)) \cup
    LimitFaults("Y", want.y, pic.ylim, want.loose, Points(want.lines, 2))

(* Equal scales without a box, and automatic ticks, are found when the picture is drawn *)
Bars(o, pic) == IF o.bticks # <<>> THEN pic.bars ELSE [q \in DOMAIN pic.bars |-> [pic.bars[q] EXCEPT !.ticks = <<>>, !.names = <<>>]]
Compared(fig, o, pic) ==
    LET p == [pic EXCEPT !.when = "", !.bars = Bars(o, pic)]
    IN IF Drawn(fig, o).loose THEN [p EXCEPT !.xlim = <<>>, !.ylim = <<>>] ELSE p

FileFaults(o, f) ==
    IF o.save = 0 THEN Clause("NoFile", f = <<>>) ELSE
    IF f = <<>> THEN {"Saved"} ELSE
    LET d == DpiOf(o)
        w == IF o.dims = <<>> THEN (64 * d) \div 10 ELSE o.dims[1]
        h == IF o.dims = <<>> THEN (48 * d) \div 10 ELSE o.dims[2]
    IN Clause("Pixels", Near(f[1], w, 1) /\ Near(f[2], h, 1)) \cup
       Clause("Transparent", f[3] = IF o.transparent = 1 THEN 1 ELSE 0)

StepFaults(fig, s) ==
    LET o == Call(s) IN
    Clause("Raised", s.exc = "") \cup
    Clause("Deeds", [q \in DOMAIN s.pics |-> s.pics[q].when] = Deeds(o)) \cup
    UNION {PictureFaults(fig, o, s.pics[q]) : q \in DOMAIN s.pics} \cup
    Clause("SamePicture", \A q \in DOMAIN s.pics : Compared(fig, o, s.pics[q]) = Compared(fig, o, s.pics[1])) \cup
    Clause("Figures", ClearOf(o) => s.open[2] <= Max2(1, s.open[1])) \cup
    FileFaults(o, s.file) \cup
    Clause("Cleared", ClearOf(o) => s.left = <<0, 0>>) \cup
    Clause("Kept", o.tool # "draw" \/ ClearOf(o) \/ s.left[2] = Len(Drawn(fig, o).lines)) \cup
    Clause("Refused", o.tool # "draw" \/ ((o.cmap \in ColourMaps \cup {""}) <=> s.said = 0))

HistoryFaults(e) ==
    LET calls == [k \in DOMAIN e.steps |-> Call(e.steps[k])]
    IN UNION {StepFaults(FigureBefore(calls, k), e.steps[k]) : k \in DOMAIN e.steps}

Verdict(e) == CASE e.k = "history" -> HistoryFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
