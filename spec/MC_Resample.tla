----------------------------- MODULE MC_Resample -----------------------------
(* Maps that are filled bin by bin with a mass, and a value which is weighted by *)
(* it, placed beside others on a lattice: laws of blocks, of fine bins, and of   *)
(* means on the common grid.                                                     *)
EXTENDS Resample
CONSTANTS Nx, Ny, Masses, Others, Offsets

VARIABLES m, k, ms
vars == <<m, k, ms>>
W == <<0, 1>>                       \* label 2 has the weight 1
D == 6
Blank(a, b, x, y) == [nx |-> a, ny |-> b, x0 |-> x * D, y0 |-> y * D, dx |-> D, dy |-> D, r |-> [q \in 1..(a*b) |-> <<0, 0>>]]
Init == m \in {Blank(a, b, 0, 0) : a \in Nx, b \in Ny} /\ k = 0 /\ ms = <<>>
Fill == /\ k < m.nx * m.ny /\ k' = k + 1 /\ ms' = ms
        /\ \E x \in Masses : m' = [m EXCEPT !.r[k + 1] = <<x, k + 1>>]
(* Another map beside it, which may be empty *)
Place1 == /\ k = m.nx * m.ny /\ Len(ms) < Others /\ UNCHANGED <<m, k>>
          /\ \E x \in Offsets, y \in Offsets, a \in 0..2 :
               ms' = Append(ms, [Blank(a, 1, x - 2, y - 2) EXCEPT !.r = [q \in 1..a |-> <<q, 3 - q>>]])
Next == Fill \/ Place1
Spec == Init /\ [][Next]_vars
Done == k = m.nx * m.ny

Eq(p, q) == p[1] * q[2] = q[1] * p[2] /\ (p[2] = 0) = (q[2] = 0)
Tot(l) == IF W[l] = 0 THEN SumOn([q \in DOMAIN m.r |-> m.r[q][l]], DOMAIN m.r) ELSE SumOn([q \in DOMAIN m.r |-> m.r[q][l] * m.r[q][W[l]]], DOMAIN m.r)
(* Blocks that cover all bins hold all of it *)
BlocksConserve == (Done /\ ms = <<>>) => \A a \in 1..m.nx, b \in 1..m.ny :
    (m.nx % a = 0 /\ m.ny % b = 0) => \A l \in 1..2 :
      LET S == (0..((m.nx \div a) - 1)) \X (0..((m.ny \div b) - 1)) IN
      SumOn([s \in S |-> BlockRat(m, W, l, 0, 0, a, b, s[1], s[2])[1]], S) = Tot(l)
BlockOfOne == (Done /\ ms = <<>>) => \A i \in 0..(m.nx-1), j \in 0..(m.ny-1) :
    LET p == BlockRat(m, W, 2, 0, 0, 1, 1, i, j)  v == BinVal(m, i, j) IN
    Eq(BlockRat(m, W, 1, 0, 0, 1, 1, i, j), <<v[1], 1>>) /\ (v[1] # 0 => Eq(p, <<v[2], 1>>))
(* A weighted mean lies between its values *)
MeanBetween == (Done /\ ms = <<>>) => \A f \in 1..3 : \A i \in 0..(f*m.nx-1), j \in 0..(f*m.ny-1) :
    LET p == FineRat(m, W, 2, f, i, j) IN p[2] > 0 => p[1] >= p[2] /\ p[1] <= (m.nx * m.ny) * p[2]
FineOfOne == (Done /\ ms = <<>>) => \A i \in 0..(m.nx-1), j \in 0..(m.ny-1) :
    Eq(FineRat(m, W, 1, 1, i, j), <<BinVal(m, i, j)[1], 1>>)
(* The fine bins see each other: (I sees K) = (K sees I) *)
SymmetricWindows == (k = 0) => \A f \in 2..3 : \A p, q \in 0..(f*m.nx - 1) :
    LET see(a, b) == Abs(a - b) <= f - 1
        count(a, c) == Cardinality({b \in (c*f)..(c*f+f-1) : see(a, b)}) IN
    \A c \in 0..(m.nx - 1) : (IF c \in DOMAIN FineWeights(p, f, m.nx) THEN FineWeights(p, f, m.nx)[c] ELSE 0) = count(p, c)

(* Means on the common grid *)
All == <<m>> \o ms
G == CommonGrid(All, D, D)
Contains == Done => \A q \in Filled(All) : \A i \in 0..(All[q].nx - 1), j \in 0..(All[q].ny - 1) :
    \E I \in 0..(G.nx-1), J \in 0..(G.ny-1) : Place(All[q], G, D, D, I, J) = <<i, j>>
Smallest == Done =>
    /\ \E q \in Filled(All) : All[q].x0 = G.x0
    /\ \E q \in Filled(All) : All[q].y0 = G.y0
    /\ \E q \in Filled(All) : All[q].x0 + (All[q].nx - 1) * D = G.x0 + (G.nx - 1) * D
    /\ \E q \in Filled(All) : All[q].y0 + (All[q].ny - 1) * D = G.y0 + (G.ny - 1) * D
MassOfAll == Done =>
    LET S == (0..(G.nx-1)) \X (0..(G.ny-1)) IN
    SumOn([s \in S |-> MeanRat(All, G, D, D, Len(All), W, 1, s[1], s[2])[1]], S)
      = SumOn([q \in DOMAIN All |-> SumOn([p \in DOMAIN All[q].r |-> All[q].r[p][1]], DOMAIN All[q].r)], DOMAIN All)
MeanOfOne == (Done /\ ms = <<>>) => \A i \in 0..(m.nx-1), j \in 0..(m.ny-1) :
    MeanRat(All, G, D, D, 1, W, 1, i, j) = <<BinVal(m, i, j)[1], 1>>
OrderIsNothing == Done => \A l \in 1..2 : \A I \in 0..(G.nx-1), J \in 0..(G.ny-1) :
    MeanRat(All, G, D, D, Len(All), W, l, I, J) = MeanRat([q \in DOMAIN All |-> All[Len(All)+1-q]], G, D, D, Len(All), W, l, I, J)
=============================================================================
