--------------------------- MODULE MC_ContactLine ---------------------------
(* Design model of the contact line analysis.  A series of maps with the      *)
(* edges of one layer is read one by one into a buffer, from which a window   *)
(* is given out as soon as it is full (Spec).  And: laws of the extraction,   *)
(* for all small maps (CellSpec).                                             *)
EXTENDS ContactLine, Json

CONSTANTS NX, NY, Avs, Origins, MaxMaps, Gen, Width, Height, Sync

VARIABLES av, rolling, x0, series, buf, given, v
vars == <<av, rolling, x0, series, buf, given, v>>

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S

(* A map without an interface is <<>>.  The buffer holds the numbers of maps.   *)
Frames == {<<>>} \cup {<<l, r>> \in (0..(NX-1)) \X (0..(NX-1)) : l <= r}
Near1(f) == IF Gen /\ RandomElement(1..8) = 1 THEN {<<>>}
            ELSE IF Gen /\ f # <<>> /\ RandomElement(1..4) > 1
            THEN LET N == {<<l, r>> \in (0..(NX-1)) \X (0..(NX-1)) : l <= r /\ Abs(l - f[1]) <= 1 /\ Abs(r - f[2]) <= 1} IN {RandomElement(N)}
            ELSE Pick(Frames)
Last(s) == IF s = <<>> THEN <<>> ELSE s[Len(s)]

Init == /\ av \in Avs /\ rolling \in {0, 1} /\ x0 \in Origins
        /\ series = <<>> /\ buf = <<>> /\ given = <<>> /\ v = 0
Read == /\ Len(series) < MaxMaps
        /\ \E f \in Near1(Last(series)) :
             /\ series' = Append(series, f)
             /\ LET b == Append(buf, Len(series) + 1) IN
                IF Len(b) = av
                THEN /\ given' = Append(given, b)
                     /\ buf' = IF rolling = 1 THEN Tail(b) ELSE <<>>
                ELSE /\ buf' = b /\ UNCHANGED given
        /\ UNCHANGED <<av, rolling, x0, v>>
Show == /\ Gen /\ av # 0 /\ Len(series) = MaxMaps /\ av' = 0
        /\ PrintT("BEH " \o ToJson([nx |-> NX, x0 |-> x0 - 4, av |-> av, rolling |-> rolling, frames |-> series]))
        /\ UNCHANGED <<rolling, x0, series, buf, given, v>>
Spec == Init /\ [][Read]_vars
GenSpec == Init /\ [][(av # 0 /\ Read) \/ Show]_vars

(* The stream of windows is the one which is specified *)
WindowsAre == given = [k \in 1..NumWindows(Len(series), av, rolling) |-> WindowOf(k, av, rolling)]
(* Nothing is forgotten, and nothing is used twice (if not rolling) *)
EachOnce == rolling = 0 => \A k \in DOMAIN given : \A q \in DOMAIN given : k # q => Range(given[k]) \cap Range(given[q]) = {}

(* Placement of the last window, with columns of width 4 and x0 in fourths of them *)
DX == 4
Full0 == IF given = <<>> THEN {} ELSE {k \in Range(given[Len(given)]) : series[k] # <<>>}
Pos(k, s, shift) == x0 + (series[k][s] + shift) * DX
Sum0(s, shift) == SumOn([k \in Full0 |-> Pos(k, s, shift)], Full0)
One == [lo |-> 0, nx |-> 1]
Cols(rec, fuse, shift) == EdgeColumns(Sum0(1, shift), Sum0(2, shift), Cardinality(Full0), DX, rec, fuse, One, One)
Only(S) == CHOOSE k \in S : TRUE

Follows == Full0 # {} => \A s \in {1, 2} : Cols(0, 0, 3)[s] = {k + 3 : k \in Cols(0, 0, 0)[s]}
Centred == Full0 # {} => /\ Cols(1, 0, 3) = Cols(1, 0, 0)
                         /\ \E kl \in Cols(1, 0, 0)[1], kr \in Cols(1, 0, 0)[2] : kl + kr \in {-1, 0}
(* within a column of the mean position, and of the mean distance *)
AtMean == Full0 # {} =>
    LET n == Cardinality(Full0) IN
    /\ \A s \in {1, 2} : \A k \in Cols(0, 0, 0)[s] : Abs((2*k + 1) * DX * n - 2 * Sum0(s, 0)) <= DX * n
    /\ \A rec \in {0, 1} : \E kl \in Cols(rec, 0, 0)[1], kr \in Cols(rec, 0, 0)[2] :
          Abs((kr - kl) * DX * n - (Sum0(2, 0) - Sum0(1, 0))) <= DX * n
Together == Full0 # {} => Cols(0, 1, 0) = <<{-1}, {0}>>
(* Edges of a map never change sides *)
Ordered == Full0 # {} => \E kl \in Cols(0, 0, 0)[1], kr \in Cols(0, 0, 0)[2] : kl <= kr

---------------------------------------------------------------------------
G == [nx |-> NX, ny |-> NY, x0 |-> 0, y0 |-> 0, dx |-> 1, dy |-> 1]
O == [cutoff |-> <<1, 2>>, cbins |-> 0, radius |-> 1, unit |-> 1]
CellInit == /\ v \in [1..NY -> {0, 1}]
            /\ av = 0 /\ rolling = 0 /\ x0 = 0 /\ series = <<>> /\ buf = <<>> /\ given = <<>>
Grow == /\ Len(v) < NX * NY /\ \E f \in [1..(NX*NY - NY) -> {0, 1}] : v' = v \o f
        /\ UNCHANGED <<av, rolling, x0, series, buf, given>>
CellSpec == CellInit /\ [][Grow]_vars
All == Len(v) = NX * NY

None == <<0, 0>>
Extract(f, w, h, y) == LET l == LowLayers(f, G, O, None, None, h) IN
                       IF l = <<>> THEN <<{}, {}>> ELSE LET a == Areas(l, G, w, y) IN <<CellsOf(G, a[1]), CellsOf(G, a[2])>>
Flip(k) == LET c == CellOf(G, k) IN BinOf(G, <<NX - 1 - c[1], c[2]>>)
Mirror(f) == [k \in DOMAIN f |-> f[Flip(k)]]
Params == (0..Width) \X (0..Height) \X (0..Sync)

(* The mirror image of a map has the mirrored areas, with the sides swapped *)
MirrorLaw == All => \A p \in Params : LET a == Extract(v, p[1], p[2], p[3])  b == Extract(Mirror(v), p[1], p[2], p[3])
                               IN b[1] = {Flip(k) : k \in a[2]} /\ b[2] = {Flip(k) : k \in a[1]}
(* A wider area holds a narrower one, a higher one a lower one if it is placed at the bottom *)
Wider == All => \A p \in Params : LET a == Extract(v, p[1], p[2], p[3])  b == Extract(v, p[1] + 1, p[2], p[3])
                               c == Extract(v, p[1], p[2], 0)  d == Extract(v, p[1], p[2] + 1, 0)
                           IN \A s \in {1, 2} : a[s] \subseteq b[s] /\ c[s] \subseteq d[s]
(* The edges of every layer are inside, and no cell on the outside of all of them *)
HoldsEdges == All => \A p \in Params :
    LET a == Extract(v, p[1], p[2], p[3])  l == LowLayers(v, G, O, None, None, p[2]) IN
    /\ (l = <<>>) = (a = <<{}, {}>>)
    /\ \A q \in DOMAIN l : BinOf(G, <<l[q][2], l[q][1]>>) \in a[1] /\ BinOf(G, <<l[q][3], l[q][1]>>) \in a[2]
    /\ \A s \in {1, 2} : \A k \in a[s] : LET c == CellOf(G, k) IN
         /\ \E q \in DOMAIN l : IF s = 1 THEN c[1] >= l[q][2] ELSE c[1] <= l[q][3]
         /\ c[2] >= l[1][1] /\ c[2] <= l[Len(l)][1]
(* A wide and high enough area is that of the whole droplet on both sides *)
Whole == All => LET a == Extract(v, NX, NY, 0) IN
         \A k \in DOMAIN v : v[k] = 1 => (k \in a[1] \/ k \in a[2])
=============================================================================
