----------------------------- MODULE MC_Curves -----------------------------
(* Design model of the curve files: any sequence of lines is written, read, and  *)
(* its curves are saved and read again; and curves are synchronised twice.       *)
EXTENDS Curves
CONSTANTS MaxLines, Width, Times, Radii

Rows == UNION {[1..w -> Times \cup Radii] : w \in 2..Width}
Lines == {[t |-> x, v |-> <<>>] : x \in {"sep", "note", "bad"}} \cup {[t |-> "row", v |-> r] : r \in Rows}

VARIABLES file, curves
vars == <<file, curves>>
Init == file = <<>> /\ curves = <<>>
Write == Len(file) < MaxLines /\ \E l \in Lines : file' = Append(file, l) /\ curves' = CurvesIn(file')
Next == Write
Spec == Init /\ [][Next]_vars

NonEmpty(cs) == \A k \in DOMAIN cs : cs[k] # <<>>

(* What is saved is read back as the same curves *)
RoundTrip == NonEmpty(curves) => CurvesIn(Saved(curves)) = curves
(* Separators at the ends and notes anywhere do not matter *)
NotesIgnored ==
    Readable(file) =>
    /\ CurvesIn(<<[t |-> "sep", v |-> <<>>]>> \o file) = curves
    /\ CurvesIn(SelectSeq(file, LAMBDA l : l.t # "note")) = curves
(* Every number of the file is in one place of the curves *)
Complete ==
    Readable(file) =>
    SumOn([k \in DOMAIN curves |-> Len(curves[k])], DOMAIN curves)
      = SumOn([q \in DOMAIN file |-> IF file[q].t = "row" THEN Len(file[q].v) - 1 ELSE 0], DOMAIN file)
(* After synchronisation all curves are at the radius at the same time, which    *)
(* was the earliest; a second time changes nothing, and no radius ever changes.  *)
SyncLaw ==
    \A r \in Radii : NonEmpty(curves) /\ curves # <<>> =>
        LET s == Synced(curves, r)  T == {ClosestAt(s[k], r) : k \in DOMAIN s} IN
        /\ T = {MinOf({ClosestAt(curves[k], r) : k \in DOMAIN curves})}
        /\ Synced(s, r) = s
        /\ \A k \in DOMAIN s : \A q \in DOMAIN s[k] : s[k][q][2] = curves[k][q][2] /\ s[k][q][1] <= curves[k][q][1]
=============================================================================
