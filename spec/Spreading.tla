------------------------------ MODULE Spreading ------------------------------
(* The edges of a droplet at the floor, in a system that is periodic along x. *)
(*                                                                            *)
(* Positions are in columns.  The real droplet covers the columns l..r of an  *)
(* unbounded line; a map shows them modulo the size n of the system, so all   *)
(* that is seen of a state is <<l mod n, r mod n>>.  As long as no edge moves *)
(* half of the system or more between two maps, the motion of each edge is    *)
(* that to the closest image.                                                  *)
EXTENDS Num

(* Displacement from a to b along the shortest way, unique if it is not n/2 *)
Shortest(n, a, b) == LET d == (b - a) % n IN IF 2 * d < n THEN d ELSE d - n

(* The first state that is seen: the right edge is not left of the left one *)
Place(n, s) == IF s[1] > s[2] THEN <<s[1], s[2] + n>> ELSE s
(* The next one *)
Follow(n, w, s) == <<w[1] + Shortest(n, w[1], s[1]), w[2] + Shortest(n, w[2], s[2])>>

RECURSIVE Unwrap(_, _)
Unwrap(n, s) ==        \* s: sequence of what is seen
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) = 1 THEN <<Place(n, s[1])>>
    ELSE LET w == Unwrap(n, SubSeq(s, 1, Len(s) - 1)) IN Append(w, Follow(n, w[Len(w)], s[Len(s)]))

(* Motions that can be told apart: both edges move less than half of the     *)
(* system, at most one of them through a boundary.                            *)
Image(n, x) == x \div n
Traceable(n, v, w) ==
    /\ 2 * Abs(w[1] - v[1]) < n /\ 2 * Abs(w[2] - v[2]) < n
    /\ (Image(n, v[1]) = Image(n, w[1]) \/ Image(n, v[2]) = Image(n, w[2]))
    /\ w[1] <= w[2] /\ w[2] - w[1] < n
TraceableTo(n, ws) ==  \* length of the prefix that is traceable
    LET bad == {k \in 2..Len(ws) : ~Traceable(n, ws[k-1], ws[k])}
    IN IF bad = {} THEN Len(ws) ELSE MinOf(bad) - 1
=============================================================================
