------------------------------- MODULE Decor -------------------------------
(* The current figure as a state, and what a drawing call does with it: it     *)
(* draws, labels, sets limits and scales, saves, shows, and clears the figure. *)
(* Points of lines are pairs of integers (thousandths).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num

(* A drawing call.  A limit is <<>> (not given) or <<v>>; limits are pairs of   *)
(* them.  Switches are -1 if not given.                                        *)
NoLimits == << <<>>, <<>> >>
Plain == [tool |-> "draw", title |-> "", xlabel |-> "", ylabel |-> "", xlim |-> NoLimits, ylim |-> NoLimits,
          axis |-> "", log |-> -1, legend |-> -1, off |-> -1, bar |-> -1, blabel |-> "", bticks |-> <<>>, bnames |-> <<>>,
          cmap |-> "", save |-> 0, show |-> -1, clf |-> -1, dpi |-> 0, transparent |-> -1, map |-> 0, lines |-> <<>>]

(* The colour maps there are; others are refused with a message *)
ColourMaps == {"viridis", "plasma", "gray", "jet", "Blues", "coolwarm"}
DefaultMap == "viridis"

(* Defaults of the drawing tools *)
AxisOf(o) == IF o.tool = "spreading" THEN "tight"
             ELSE IF o.axis # "" THEN o.axis
             ELSE CASE o.tool \in {"quiver", "stream", "height", "contour", "interfaces"} -> "scaled"
                    [] o.tool = "angles" -> "tight"
                    [] OTHER -> ""
OffOf(o) == IF o.off # -1 THEN o.off = 1 ELSE o.tool \in {"height", "contour"}
LegendOf(o) == IF o.legend # -1 THEN o.legend = 1 ELSE o.tool = "angles"
ShowOf(o) == o.show # 0
ClearOf(o) == o.clf # 0
DpiOf(o) == IF o.dpi = 0 THEN 150 ELSE o.dpi

(* One axis: the limits that were given, and whether it follows the data *)
FreeAxis == [lo |-> <<>>, hi |-> <<>>, fit |-> TRUE]
Empty == [lines |-> <<>>, maps |-> <<>>, log |-> FALSE, off |-> FALSE, aspect |-> "auto", loose |-> FALSE, legend |-> <<>>,
          bars |-> 0, x |-> FreeAxis, y |-> FreeAxis, title |-> "", xlabel |-> "", ylabel |-> ""]

Given(l) == l[1] # <<>> \/ l[2] # <<>>
(* An axis while the limits l are asked for, with the axis option a *)
Before(ax, a) == IF a # "" THEN FreeAxis ELSE ax
Limited(ax, l) == [lo |-> IF l[1] # <<>> THEN l[1] ELSE ax.lo, hi |-> IF l[2] # <<>> THEN l[2] ELSE ax.hi, fit |-> ax.fit]
(* Scaled and tight axes stay as they are, and so do those with limits *)
After(ax, l, a) == [Limited(Before(ax, a), l) EXCEPT !.fit = Before(ax, a).fit /\ ~Given(l) /\ a \in {"", "equal"}]

Names(lines) == LET labelled(l) == l.label # "" IN [k \in DOMAIN SelectSeq(lines, labelled) |-> SelectSeq(lines, labelled)[k].label]

(* The figure when the call o has drawn and decorated it: this is what is saved and shown *)
Drawn(fig, o) ==
    LET a == AxisOf(o)
        lines == fig.lines \o o.lines
    IN [lines |-> lines,
        maps |-> IF o.map = 1 THEN Append(fig.maps, IF o.cmap \in ColourMaps THEN o.cmap ELSE DefaultMap) ELSE fig.maps,
        log |-> fig.log \/ o.log = 1,
        off |-> fig.off \/ OffOf(o),
        aspect |-> IF a = "" THEN fig.aspect ELSE IF a \in {"scaled", "equal"} THEN "equal" ELSE "auto",
        loose |-> IF a = "" THEN fig.loose ELSE a = "equal",
        legend |-> IF LegendOf(o) THEN Names(lines) ELSE fig.legend,
        bars |-> fig.bars + (IF o.bar = 1 THEN 1 ELSE 0),
        x |-> Limited(Before(fig.x, a), o.xlim),
        y |-> Limited(Before(fig.y, a), o.ylim),
        title |-> o.title, xlabel |-> o.xlabel, ylabel |-> o.ylabel]

(* The figure that the next call finds *)
Left(fig, o) ==
    IF ClearOf(o) THEN Empty
    ELSE [Drawn(fig, o) EXCEPT !.x = After(fig.x, o.xlim, AxisOf(o)), !.y = After(fig.y, o.ylim, AxisOf(o))]

(* What happens to the picture, in order *)
Deeds(o) == (IF o.save # 0 THEN <<"save">> ELSE <<>>) \o (IF ShowOf(o) THEN <<"show">> ELSE <<>>)

(* The figure before call k of a history *)
RECURSIVE FigureBefore(_, _)
FigureBefore(calls, k) == IF k = 1 THEN Empty ELSE Left(FigureBefore(calls, k-1), calls[k-1])

=============================================================================
