------------------------------ MODULE MC_Decor ------------------------------
(* Histories of drawing calls.  Checked exhaustively for few options, and run  *)
(* with -simulate (GenDecor.cfg) for histories which the real code replays.    *)
EXTENDS Decor, Json

CONSTANTS MaxCalls, MaxOdd, Gen, Wide

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Rare(usual, S) == IF Gen THEN (IF RandomElement(1..3) = 1 THEN {RandomElement(S)} ELSE {usual}) ELSE {usual} \cup S

VARIABLES fig, calls, files, last
vars == <<fig, calls, files, last>>

Lows == {<<>>, <<1000>>, <<2500>>}
Highs == {<<>>, <<7000>>, <<9500>>, <<12000>>}
Limits == IF Gen THEN Lows \X Highs ELSE {NoLimits, << <<2500>>, <<>> >>, << <<>>, <<7000>> >>}
Axes == IF Gen THEN {"", "scaled", "tight", "equal", "auto"} ELSE {"", "tight", "equal"}
Bars(nth) == IF Gen THEN {[bar |-> 1, blabel |-> b, bticks |-> t, bnames |-> n] : b \in {"", "depth"}, t \in {<<>>, <<2000, 4000>>, <<0, 3125>>}, n \in {<<>>, <<"lo", "hi">>}} ELSE {}

(* In a generated history every line is another one *)
RandomLine(m) == [label |-> RandomElement({"", "one", "two", "three"}),
                  pts |-> [q \in 1..m |-> <<500 * RandomElement(2..18), 500 * RandomElement(2..18)>>]]
Lines(nth) == IF Gen THEN {[k \in 1..RandomElement(1..3) |-> RandomLine(RandomElement(2..4))]}
         ELSE {<<[label |-> "one", pts |-> <<<<1000, 2000>>, <<9000, 4000>>>>]>>, <<[label |-> "", pts |-> <<<<2000, 8000>>, <<3000, 9000>>>>]>>}

(* How many options of a call are not the usual ones *)
Odd(o) == Cardinality({f \in {"xlim", "ylim", "axis", "log", "legend", "off", "save", "show", "clf", "cmap", "map"} : o[f] # Plain[f]})
Call ==
    \E t \in Rare("", IF Gen THEN {"A b"} ELSE {}), xl \in Rare(NoLimits, Limits), yl \in (IF Gen \/ Wide THEN Rare(NoLimits, Limits) ELSE {NoLimits}), a \in Rare("", Axes),
       lg \in Rare(-1, {1}), le \in Rare(-1, IF Gen THEN {0, 1} ELSE {1}), off \in Rare(-1, IF Gen THEN {0, 1} ELSE {1}),
       sv \in Pick(IF Gen THEN {0, 1, 1, 2} ELSE {0, 1}), sh \in Pick(IF Gen \/ Wide THEN {-1, 0} ELSE {0}), cl \in Pick({-1, 0}), ls \in Lines(Len(calls)), mp \in Rare(0, {1}) :
    \E cm \in (IF mp = 1 \/ Gen THEN Rare("", IF Gen THEN {"plasma", "gray", "Blues", "nonsense"} ELSE {"plasma"}) ELSE {""}),
       br \in (IF mp = 1 /\ fig = Empty /\ cl # 0 THEN Rare([bar |-> 0], Bars(Len(calls))) ELSE {[bar |-> -1]}),
       tr \in (IF Gen THEN Rare(-1, {0, 1}) ELSE {-1}), dpi \in (IF Gen THEN Pick({0, 25, 40, 64}) ELSE {0}),
       xn \in (IF Gen THEN Rare("", {"x"}) ELSE {""}), yn \in (IF Gen THEN Rare("", {"y z"}) ELSE {""}) :
    LET o == [tool |-> "draw", title |-> t, xlabel |-> xn, ylabel |-> yn, xlim |-> xl, ylim |-> yl,
              (* no equal scales of logarithmic axes, nor of the axes of maps *)
              axis |-> IF (lg = 1 \/ fig.log) /\ a \in {"scaled", "equal"} THEN "" ELSE a,
              log |-> IF fig.aspect = "equal" THEN -1 ELSE lg, legend |-> IF br.bar = 1 THEN -1 ELSE le, off |-> off, bar |-> br.bar,
              blabel |-> IF br.bar = 1 THEN br.blabel ELSE "", bticks |-> IF br.bar = 1 THEN br.bticks ELSE <<>>,
              bnames |-> IF br.bar = 1 /\ br.bticks # <<>> THEN br.bnames ELSE <<>>,
              cmap |-> cm, save |-> sv, show |-> sh, clf |-> cl, dpi |-> dpi, transparent |-> tr, map |-> mp, lines |-> ls]
    IN /\ Gen \/ Odd(o) <= MaxOdd
       /\ last' = [fig |-> fig, o |-> o]
       /\ fig' = Left(fig, o)
       /\ files' = IF sv = 0 THEN files ELSE [files EXCEPT ![sv] = <<Drawn(fig, o)>>]
       /\ calls' = Append(calls, o)

Init == fig = Empty /\ calls = <<>> /\ files = [p \in 1..2 |-> <<>>] /\ last = <<>>
Next == Len(calls) < MaxCalls /\ Call
GenNext == \/ Next
           \/ /\ Len(calls) = MaxCalls /\ last # <<>> /\ last' = <<>> /\ UNCHANGED <<fig, calls, files>>
              /\ PrintT("BEH " \o ToJson([calls |-> calls]))
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

---------------------------------------------------------------------------
Replayed == fig = FigureBefore(calls, Len(calls) + 1)

(* The calls since the figure was last cleared, without the last one *)
Since == LET C == {k \in 1..(Len(calls) - 1) : ClearOf(calls[k])} IN IF C = {} THEN 1 ELSE MaxOf(C) + 1
Pic == Drawn(last.fig, last.o)

(* A picture has what was drawn since the figure was cleared, and nothing else *)
RECURSIVE Joined(_, _, _)
Joined(c, a, b) == IF a > b THEN <<>> ELSE c[a].lines \o Joined(c, a + 1, b)
OwnLines == last # <<>> => Pic.lines = Joined(calls, Since, Len(calls))
(* The first picture in a cleared figure depends on its own call only *)
Fresh == last # <<>> /\ Since = Len(calls) => Pic = Drawn(Empty, last.o)
(* Limits that are asked for are those of the picture *)
Asked == last # <<>> =>
    /\ last.o.xlim[1] # <<>> => Pic.x.lo = last.o.xlim[1]
    /\ last.o.xlim[2] # <<>> => Pic.x.hi = last.o.xlim[2]
    /\ last.o.ylim[1] # <<>> => Pic.y.lo = last.o.ylim[1]
    /\ last.o.ylim[2] # <<>> => Pic.y.hi = last.o.ylim[2]
(* All is in view where no limits were asked for since the figure was cleared *)
InView == last # <<>> /\ (\A k \in Since..Len(calls) : ~Given(calls[k].xlim) /\ calls[k].axis \in {"", "equal"})
            => Pic.x = FreeAxis
(* A file holds the last picture that was saved to it *)
LastSaved == last # <<>> /\ last.o.save # 0 => files[last.o.save] = <<Pic>>
Cleared == calls # <<>> /\ ClearOf(calls[Len(calls)]) => fig = Empty
=============================================================================
