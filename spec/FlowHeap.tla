------------------------------ MODULE FlowHeap ------------------------------
(* Flow data objects as values in a heap.                                     *)
(*                                                                            *)
(* An object is [rows, types, num, origin, shape, spacing]: rows are tuples   *)
(* with x and y first; num, origin, shape and spacing are the information on  *)
(* the grid, <<>> if it is not set.  Arrays from which objects are made       *)
(* belong to the caller, and are columns of numbers.  Every operation makes   *)
(* one new object, or changes one object or one array in place: nothing else. *)
EXTENDS Num, SequencesExt

Unset == <<>>
Within(v, lo, hi) == (lo = <<>> \/ v >= lo[1]) /\ (hi = <<>> \/ v <= hi[1])

Column(rows, l) == [k \in DOMAIN rows |-> rows[k][l]]
Kinds(rows, l)  == Cardinality({rows[k][l] : k \in DOMAIN rows})

(* A row of the columns *)
FromColumns(cols) == [k \in DOMAIN cols[1] |-> [l \in DOMAIN cols |-> cols[l][k]]]

New(rows, types, info) ==
    [rows |-> rows, types |-> types, num |-> info.num, origin |-> info.origin,
     shape |-> info.shape, spacing |-> info.spacing]

(* Selection: the rows within the closed limits, in their order.  What is left *)
(* needs not to be a grid.                                                     *)
Lims(o, l, lo, hi) ==
    LET r == SelectSeq(o.rows, LAMBDA w : Within(w[l], lo, hi))
    IN [o EXCEPT !.rows = r, !.num = <<Len(r)>>, !.origin = Unset, !.shape = Unset]

(* Cutting a grid along its axes leaves a grid *)
CutOrigin(o, xlo, ylo) ==
    LET x == IF xlo # <<>> THEN xlo ELSE IF o.origin = Unset THEN <<>> ELSE <<o.origin[1]>>
        y == IF ylo # <<>> THEN ylo ELSE IF o.origin = Unset THEN <<>> ELSE <<o.origin[2]>>
    IN IF x = <<>> \/ y = <<>> THEN Unset ELSE x \o y
Cut(o, xlo, xhi, ylo, yhi) ==
    LET r == SelectSeq(o.rows, LAMBDA w : Within(w[1], xlo, xhi) /\ Within(w[2], ylo, yhi))
        s == <<Kinds(r, 1), Kinds(r, 2)>>
    IN [o EXCEPT !.rows = r, !.num = <<s[1] * s[2]>>, !.shape = s, !.origin = CutOrigin(o, xlo, ylo)]

Moved(w, l, v) == [w EXCEPT ![l] = @ + v]
Translate(o, l, vs) ==      \* vs: one value for each row, or one for all
    [o EXCEPT !.rows = [k \in DOMAIN o.rows |-> Moved(o.rows[k], l, IF Len(vs) = 1 THEN vs[1] ELSE vs[k])]]

(* Order by y and then by x *)
Before(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Ordered(rows) == \A k \in 1..(Len(rows) - 1) : ~Before(rows[k + 1], rows[k])
Count(rows, w) == Cardinality({k \in DOMAIN rows : rows[k] = w})
Rearranged(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Count(a, a[k]) = Count(b, a[k])
Sorted(o) == [o EXCEPT !.rows = SortSeq(@, Before)]

Poke(o, k, l, v) == [o EXCEPT !.rows[k][l] = v]
SetInfo(o, info) == [o EXCEPT !.num = info.num, !.origin = info.origin, !.shape = info.shape, !.spacing = info.spacing]

(* The size that the information gives *)
Size(o) == IF o.shape = Unset \/ o.spacing = Unset THEN Unset ELSE <<o.shape[1] * o.spacing[1], o.shape[2] * o.spacing[2]>>
=============================================================================
