------------------------------ MODULE T_Outline ------------------------------
(* Validation of recorded work on interface files: areas and lengths, averages, *)
(* and contact angles.  Coordinates of files are in units of 1/8.               *)
EXTENDS Outline, Angles, TraceLib

(* ------------------------------------------------------ series of samples *)
Sampled(e) == {q \in DOMAIN e.files : e.var = "length" \/ SameHeights(e.files[q])}
(* v: observed times 1000 *)
SampleIs(e, P, v) ==
    IF e.var = "area" THEN Near(v * 128, Area2(P) * 1000, 130)
    ELSE LET f == LengthFloor(P) IN v * 4 >= f - 4 /\ v * 4 <= f + LengthSlack(P) + 4
SampleFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET s == SortSet(Sampled(e)) IN
    (IF e.via = "cli" THEN {} ELSE
     Clause("Entries", Len(e.times) = Len(s) /\ Len(e.vals) = Len(s)) \cup
     (IF Len(e.times) # Len(s) \/ Len(e.vals) # Len(s) THEN {} ELSE
      Clause("Times", \A k \in DOMAIN s : Near(e.times[k], (s[k] - 1) * e.dt, 1)) \cup
      Clause("Values", \A k \in DOMAIN s : SampleIs(e, e.files[s[k]], e.vals[k])))) \cup
    (IF e.saved = 0 THEN Clause("NoFile", e.rows = <<>>) ELSE
     Clause("Rows", Len(e.rows) = Len(s) /\ \A k \in DOMAIN e.rows : Len(e.rows[k]) = 2) \cup
     (IF Len(e.rows) # Len(s) \/ \E k \in DOMAIN e.rows : Len(e.rows[k]) # 2 THEN {} ELSE
      Clause("FileTimes", \A k \in DOMAIN s : Near(e.rows[k][1], (s[k] - 1) * e.dt, 1)) \cup
      Clause("FileValues", \A k \in DOMAIN s : SampleIs(e, e.files[s[k]], e.rows[k][2]))))

(* ----------------------------------------------------------------- averages *)
Bundles(e) == Len(e.files) \div e.av
Bundle(e, b) == SubSeq(e.files, (b - 1) * e.av + 1, b * e.av)
Readable(B) == \A q \in DOMAIN B : B[q] # <<>>
(* points: observed coordinates times scale, going up and down again *)
OutlineIs(B, points, scale, tol) ==
    LET L == AverageLeft(B)  R == AverageRight(B)  n == Len(L)
    IN /\ Len(points) = n + Len(R)
       /\ \A k \in 1..n : /\ Near(points[k][1] * Len(B), L[k][1] * scale, tol * Len(B))
                          /\ Near(points[k][2], L[k][2] * scale, tol)
       /\ \A k \in 1..Len(R) : LET p == points[Len(points) + 1 - k]
                               IN Near(p[1] * Len(B), R[k][1] * scale, tol * Len(B)) /\ Near(p[2], R[k][2] * scale, tol)
ViewFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET good == SortSet({b \in 1..Bundles(e) : Readable(Bundle(e, b))})
        first == CeilDiv(e.begin, e.av)
        number(b) == first + b - 1
        drawn == {number(b) : b \in {c \in {good[k] : k \in DOMAIN good} :
                                        Len(AverageLeft(Bundle(e, c))) + Len(AverageRight(Bundle(e, c))) > 1}}
    IN (IF e.via = "cli" THEN {} ELSE
        Clause("Bundles", Len(e.ret) = Len(good)) \cup
        (IF Len(e.ret) # Len(good) THEN {} ELSE
         Clause("Average", \A k \in DOMAIN good : OutlineIs(Bundle(e, good[k]), e.ret[k], 120, 1)))) \cup
       Clause("Numbers", [k \in DOMAIN e.out |-> e.out[k].n] = IF e.saved = 0 THEN <<>> ELSE [k \in DOMAIN good |-> number(good[k])]) \cup
       (IF e.saved = 0 \/ Len(e.out) # Len(good) THEN {} ELSE
        Clause("Files", \A k \in DOMAIN good : OutlineIs(Bundle(e, good[k]), e.out[k].rows, 125, 1))) \cup
       Clause("Figures", {e.figs[k] : k \in DOMAIN e.figs} = IF e.figures = 1 THEN drawn ELSE {})

(* ------------------------------------------------------------------- angles *)
Dir(a, S) == <<0, 0>> \in S \/ \E s \in S : SameDirection(a[2], a[3], s[1], s[2])
AngleFaults(e) ==
    IF e.exc # "" THEN {"Raised"} ELSE
    LET n == Len(e.files)
        measured == e.height[1] = 1
        L(q) == LeftSlopes(e.files[q], e.height[2])
        R(q) == RightSlopes(e.files[q], e.height[2])
        clear(q) == <<0, 0>> \notin (L(q) \cup R(q))
        times(t) == \A q \in DOMAIN t : Near(t[q], (q - 1) * e.dt, 1)
        cols == 1 + (IF measured THEN 3 ELSE 0) + e.fit
        (* encoded angles: <<degrees * 1000, cos, sin>>, of half of the fitted one *)
        Checks(left, right, mean, fit) ==
            (IF ~measured THEN {} ELSE
             Clause("Left", \A q \in 1..n : Dir(left[q], L(q))) \cup
             Clause("Right", \A q \in 1..n : Dir(right[q], R(q))) \cup
             Clause("Mean", \A q \in 1..n : clear(q) => mean[q][1] # BAD /\ left[q][1] # BAD /\ right[q][1] # BAD /\ Near(2 * mean[q][1], left[q][1] + right[q][1], 4))) \cup
            (IF e.fit = 0 THEN {} ELSE
             Clause("Fit", \A q \in 1..n : LET s == SegmentHalf(e.files[q]) IN SameDirection(fit[q][2], fit[q][3], s[1], s[2])))
        Col(c) == [q \in 1..n |-> e.rows[q][c]]
        None == <<>>
    IN (IF e.via = "cli" THEN {} ELSE
        Clause("Times", times(e.times) /\ Len(e.times) = (IF measured \/ e.fit = 1 THEN n ELSE 0)) \cup
        Clause("Entries", Len(e.left) = (IF measured THEN n ELSE 0) /\ Len(e.right) = Len(e.left) /\ Len(e.mean) = Len(e.left)
                          /\ Len(e.fits) = (IF e.fit = 1 THEN n ELSE 0)) \cup
        (IF (measured /\ (Len(e.left) # n \/ Len(e.right) # n \/ Len(e.mean) # n)) \/ (e.fit = 1 /\ Len(e.fits) # n) THEN {}
         ELSE Checks(e.left, e.right, e.mean, e.fits))) \cup
       (IF e.saved = 0 THEN Clause("NoFile", e.rows = <<>>) ELSE
        IF cols = 1 THEN {} ELSE
        Clause("Rows", Len(e.rows) = n /\ \A q \in DOMAIN e.rows : Len(e.rows[q]) = cols) \cup
        (IF Len(e.rows) # n \/ \E q \in DOMAIN e.rows : Len(e.rows[q]) # cols THEN {} ELSE
         Clause("FileTimes", times([q \in 1..n |-> e.rows[q][1][1]])) \cup
         Checks(IF measured THEN Col(3) ELSE None, IF measured THEN Col(4) ELSE None, IF measured THEN Col(2) ELSE None,
                IF e.fit = 1 THEN e.filefits ELSE None)))

Verdict(e) == CASE e.k = "sample" -> SampleFaults(e)
                [] e.k = "view" -> ViewFaults(e)
                [] e.k = "angle" -> AngleFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
