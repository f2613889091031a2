---------------------------- MODULE MC_Averaging ----------------------------
(* The averaging job as a machine that reads one map at a time and keeps the   *)
(* last ones, and the laws of the operations on the maps that it has read.     *)
EXTENDS Averaging
CONSTANTS Cols, Rows, Values, MaxFiles, Groups, Laws

VARIABLES g, o, files, buffer, fresh, out
vars == <<g, o, files, buffer, fresh, out>>

(* Contents: mass (= number) and a flow along x which tells columns apart *)
Make(v) == MakeMap(g, [k \in 1..(g.nx * g.ny) |-> <<v[k], v[k], 1, (k-1) \div g.ny, 2>>])
Grids == {[nx |-> a, ny |-> b, x0 |-> 0, y0 |-> 0, dx |-> 4, dy |-> 4] : a \in Cols, b \in Rows}
Options == {[group |-> q, rolling |-> r, lim |-> <<<<l, 4>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, recenter |-> c, combine |-> b,
             floor |-> <<0, 0>>, cutoff |-> <<1, 2>>, cbins |-> 0, radius |-> 4, unit |-> 1, one |-> 4]
            : q \in Groups, r \in {0, 1}, l \in {0, 1}, c \in {"", "com", "left", "right"}, b \in {<<0, 0>>, <<2, 1>>, <<1, 2>>}}

Init == /\ g \in Grids /\ o \in Options /\ files = <<>> /\ buffer = <<>> /\ fresh = 0 /\ out = <<>>
Result(ms) == IF ~InDomain(ms, o) THEN <<>> ELSE LET p == Prepared(ms, o) IN IF p = <<>> THEN <<>> ELSE Combined(p, o)
(* One more map: the buffer holds the last `group` maps, and an output is made   *)
(* whenever it is full; then it is emptied, or loses its first one if rolling.   *)
Read == /\ Len(files) < MaxFiles
        /\ \E v \in [1..(g.nx * g.ny) -> Values] :
             LET m == Make(v)  b == Append(buffer, m) IN
             /\ files' = Append(files, m)
             /\ IF Len(b) = o.group
                THEN /\ out' = Append(out, Result(b))
                     /\ buffer' = IF o.rolling = 1 THEN Tail(b) ELSE <<>>
                ELSE out' = out /\ buffer' = b
        /\ UNCHANGED <<g, o, fresh>>
Spec == Init /\ [][Read]_vars

(* The outputs are those of the groups which the job is said to have *)
OutputsOfGroups ==
    /\ Len(out) = NumGroups(Len(files), o)
    /\ \A k \in DOMAIN out : out[k] = Result([q \in 1..o.group |-> files[GroupFiles(k, o)[q]]])

-----------------------------------------------------------------------------
Total(m) == SumCells(m.c, Bins(m))
Even(m) == m.nx % 2 = 0 /\ m.ny % 2 = 0
Same(a, b) == SameGrid(a, b) /\ a.n = b.n /\ a.c = b.c
Mirror(m) == [m EXCEPT !.c = [k \in Bins(m) |-> LET c == m.c[(m.nx - 1 - (k-1) \div m.ny) * m.ny + ((k-1) % m.ny) + 1] IN c]]

ConservedByCombine == Laws => \A q \in DOMAIN files : Even(files[q]) =>
    LET m == files[q] IN /\ Total(Combine(m, 2, 1)) = Total(m) /\ Total(Combine(m, 1, 2)) = Total(m) /\ Total(Combine(m, 2, 2)) = Total(m)
                         /\ Same(Combine(Combine(m, 2, 1), 1, 2), Combine(m, 2, 2))
CombineCommutes == (Laws /\ Len(files) = MaxFiles) =>
    \A a \in 1..g.nx, b \in 1..g.ny : Same(Combine(Average(files), a, b), Average([q \in DOMAIN files |-> Combine(files[q], a, b)]))
AverageIsMean == (Laws /\ files # <<>>) =>
    /\ Total(Average(files)) = SumCells([q \in DOMAIN files |-> Total(files[q])], DOMAIN files)
    /\ Average(files).n = Len(files) /\ Same(Average(files), Average([q \in DOMAIN files |-> files[Len(files) + 1 - q]]))
(* A supersampled uniform field stays uniform, and the windows of all fine bins *)
(* cover coarse bins evenly away from the borders                               *)
WindowSizes == (Laws /\ files = <<>>) => \A f \in 2..3 : \A I \in 0..(g.nx * f - 1) :
    LET w == Window1(I, f, g.nx) IN
    /\ SumOn(w, DOMAIN w) = Cardinality({k \in 0..(g.nx * f - 1) : Abs(k - I) <= f - 1})
    /\ \A c \in DOMAIN w : w[c] \in 1..f
    /\ (I \div f) \in DOMAIN w /\ Cardinality(DOMAIN w) <= 3
UniformStays == (Laws /\ files # <<>>) =>
    LET m == files[Len(files)] IN (\A k \in Bins(m) : m.c[k][1] = m.c[1][1]) =>
    \A I \in 0..(2*m.nx - 1), J \in 0..(2*m.ny - 1) : LET s == SuperBin(m, 2, I, J) IN s[1][1] = s[2] * m.c[1][1]
(* Recentred maps cover the same region, have the chosen column at zero, and do  *)
(* not depend on where the map was                                               *)
Away(m) == [m EXCEPT !.x0 = @ + 4 * 7]
Recentred == (Laws /\ o.recenter # "" /\ Len(files) = o.group) =>
    LET ms == files  p == IF InDomain(ms, o) THEN Prepared(ms, o) ELSE <<>> IN
    p # <<>> =>
      LET cut == [q \in DOMAIN ms |-> Cut(ms[q], o.lim)]
          col(q) == CHOOSE c \in RecenterCols(cut[q], o) : TRUE
          lo == MaxOf({-col(q) : q \in DOMAIN cut})  hi == MinOf({cut[q].nx - 1 - col(q) : q \in DOMAIN cut}) IN
      /\ \A q \in DOMAIN p : SameGrid(p[1], p[q])
      /\ p[1].nx = hi - lo + 1
      /\ \A q \in DOMAIN p : \A i \in 0..(p[q].nx - 1) : \A j \in 0..(p[q].ny - 1) :
            At2(p[q], i, j) = At2(cut[q], lo + col(q) + i, j)
      /\ o.lim[1][1] = 0 => LET a == Prepared([q \in DOMAIN ms |-> Away(ms[q])], o) IN a = [q \in DOMAIN p |-> Away(p[q])]
MirrorSwaps == (Laws /\ o.recenter \in {"left", "right"} /\ files # <<>> /\ o.lim[1][1] = 0) =>
    LET m == files[Len(files)]  w == IF o.recenter = "left" THEN "right" ELSE "left" IN
    RecenterCols(Mirror(m), o) = {m.nx - 1 - c : c \in RecenterCols(m, [o EXCEPT !.recenter = w])}
=============================================================================
