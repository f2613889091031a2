------------------------------- MODULE Curves -------------------------------
(* Spreading curves: the files that hold them, scaling and synchronising, and   *)
(* fits of power laws.                                                          *)
(*                                                                              *)
(* A file is a sequence of lines, each a record [t, v]: t is "row" for numbers  *)
(* v, "sep" for the end of a set ('&' or '@target'), "note" for comments,       *)
(* instructions and empty lines, and "bad" for anything else.  A curve is a     *)
(* sequence of <<time, radius>>; a missing radius is BAD.                       *)
EXTENDS Num

(* The sets of rows in a file: a state machine over its lines *)
RECURSIVE SetsIn(_, _, _)
SetsIn(lines, sets, cur) ==
    LET flush == IF cur = <<>> THEN sets ELSE Append(sets, cur) IN
    IF lines = <<>> THEN flush ELSE
    LET l == Head(lines) IN
    CASE l.t = "row" -> SetsIn(Tail(lines), sets, Append(cur, l.v))
      [] l.t = "sep" -> SetsIn(Tail(lines), flush, <<>>)
      [] OTHER       -> SetsIn(Tail(lines), sets, cur)

Column(rows, c) == SelectSeq([q \in DOMAIN rows |-> <<rows[q][1], rows[q][c]>>], LAMBDA p : p[2] # BAD)
SetCurves(rows) == [c \in 1..(Len(rows[1]) - 1) |-> Column(rows, c + 1)]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Readable(lines) ==
    /\ \A q \in DOMAIN lines : lines[q].t # "bad"
    /\ LET S == SetsIn(lines, <<>>, <<>>) IN \A s \in DOMAIN S : \A q \in DOMAIN S[s] : Len(S[s][q]) = Len(S[s][1])
(* All curves of a file, in order; a file that is not readable has none *)
CurvesIn(lines) ==
    IF ~Readable(lines) THEN <<>>
    ELSE LET S == SetsIn(lines, <<>>, <<>>) IN Concat([s \in DOMAIN S |-> SetCurves(S[s])])

(* Curves are named by their file and their number in it *)
NamesOf(files) == Concat([f \in DOMAIN files |-> [k \in 1..Len(CurvesIn(files[f])) |-> <<f, k>>]])

(* How curves are saved *)
Saved(curves) ==
    Concat([c \in DOMAIN curves |->
        <<[t |-> "sep", v |-> <<>>], [t |-> "note", v |-> <<>>]>> \o [q \in DOMAIN curves[c] |-> [t |-> "row", v |-> curves[c][q]]]])

---------------------------------------------------------------------------
(* Scaled times are t * tq / tp for the factor tp/tq, likewise for radii        *)
ScaleCurve(c, unit, tau, R) ==
    [q \in DOMAIN c |-> <<(c[q][1] * unit * tau[2]) \div tau[1], (c[q][2] * unit * R[2]) \div R[1]>>]

(* The time at which a curve is closest to a radius, the first if there are more *)
ClosestAt(c, r) ==
    LET D == [q \in DOMAIN c |-> Abs(c[q][2] - r)]
        best == MinOf(Range(D))
    IN c[MinOf({q \in DOMAIN c : D[q] = best})][1]
Synced(curves, r) ==
    LET T == [k \in DOMAIN curves |-> ClosestAt(curves[k], r)]
        first == MinOf(Range(T))
    IN [k \in DOMAIN curves |-> [q \in DOMAIN curves[k] |-> <<curves[k][q][1] - T[k] + first, curves[k][q][2]>>]]

---------------------------------------------------------------------------
(* Power laws r = a t^k are lines y = log2 a + k x of logarithms.  Points are    *)
(* <<t, x, y>> with a scaled time t, and x, y the logarithms (BAD for t <= 0).   *)
(* Limits are closed, <<present, value>>; those which hold nothing are ignored.  *)
Within(p, lims) == (lims[1][1] = 1 => p[1] >= lims[1][2]) /\ (lims[2][1] = 1 => p[1] <= lims[2][2])
Chosen(ps, lims) ==
    LET K == {q \in DOMAIN ps : Within(ps[q], lims)} IN IF K = {} THEN DOMAIN ps ELSE K
ToFit(ps, lims) == {q \in Chosen(ps, lims) : ps[q][1] > 0}

(* <<numerator of k, denominator, numerator of log2 a, denominator>> *)
Fit(ps, F) ==
    LET n == Cardinality(F)
        sx == SumOn([q \in F |-> ps[q][2]], F)  sy == SumOn([q \in F |-> ps[q][3]], F)
        sxx == SumOn([q \in F |-> ps[q][2] * ps[q][2]], F)  sxy == SumOn([q \in F |-> ps[q][2] * ps[q][3]], F)
        N == n * sxy - sx * sy  D == n * sxx - sx * sx
    IN <<N, D, sy * D - N * sx, n * D>>
=============================================================================
