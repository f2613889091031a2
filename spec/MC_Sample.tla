------------------------------ MODULE MC_Sample ------------------------------
(* Directions around a point, met one by one, and fields on a small grid which  *)
(* are filled bin by bin: laws of angles, intervals, cutoffs, and dissipation.  *)
EXTENDS Sample, View
CONSTANTS Reach, Sizes, Nx, Ny, Levels

VARIABLES p, g, u, k
vars == <<p, g, u, k>>
Init == \/ p = <<-Reach, -Reach>> /\ g = [nx |-> 1, ny |-> 1] /\ u = <<0>> /\ k = 0
        \/ p = <<>> /\ g \in {[nx |-> a, ny |-> b, x0 |-> 0, y0 |-> 0, dx |-> 8, dy |-> 8] : a \in Nx, b \in Ny} /\ k = 0 /\ u = [q \in 1..(g.nx*g.ny) |-> 0]
Move == /\ p # <<>> /\ UNCHANGED <<g, u, k>>
        /\ p' = (IF p[1] < Reach THEN <<p[1] + 1, p[2]>> ELSE <<-Reach, p[2] + 1>>) /\ p'[2] <= Reach
Fill == /\ p = <<>> /\ k < g.nx * g.ny /\ k' = k + 1 /\ UNCHANGED <<p, g>>
        /\ \E x \in Levels : u' = [u EXCEPT ![k + 1] = x]
Next == Move \/ Fill
Spec == Init /\ [][Next]_vars

At0 == p # <<>> /\ p # <<0, 0>>
H == HalfDegrees(p[1], p[2])
InCircle == At0 => H \in 0..719
QuarterTurn == At0 => HalfDegrees(-p[2], p[1]) = (H + 180) % 720
(* Mirroring turns h into 720 - h, up to the rounding down *)
MirrorAngle == At0 => LET m == HalfDegrees(p[1], -p[2]) IN (m + H) % 720 \in {0, 719}
Ordered == At0 => \A q \in 1..3 : HalfDegrees(q * p[1], q * p[2]) = H
(* The intervals of the full circle share out all directions *)
OneInterval == At0 => \A s \in Sizes :
    LET b == [x |-> p[1], y |-> p[2]]  n == NumIntervals(0, 720, s) IN
    /\ IntervalOf(b, 0, s) \in 0..(n - 1)
    /\ \E q \in 0..(n-1) : q * s <= H /\ H < (q + 1) * s /\ q = IntervalOf(b, 0, s)

Done == p = <<>> /\ k = g.nx * g.ny
F(i, j) == u[i * g.ny + j + 1]
RowsOf == [q \in DOMAIN u |-> <<u[q], 1, 1, u[q], 0>>]
TopPasses == Done => \E q \in Passing(RowsOf, 1, <<0, 0>>) : \A r \in DOMAIN u : u[r] <= u[q]
HigherCutPassesLess == Done => \A c \in 0..4 : Passing(RowsOf, 1, <<1, c + 1>>) \subseteq Passing(RowsOf, 1, <<1, c>>)
(* Dissipation is not negative, zero for constant flow and rigid rotation, not   *)
(* changed by adding these, and quadratic                                        *)
Big == g.nx > 2 /\ g.ny > 2
Lin(a, b, c) == [x \in 0..(g.nx-1) |-> [y \in 0..(g.ny-1) |-> a + b*x + c*y]]
NotNegative == (Done /\ Big) => \A i \in 0..(g.nx-1), j \in 0..(g.ny-1) : \A b, c \in {-1, 0, 2} :
    Dissipation48(F, LAMBDA x, y : b*x + c*y, g.nx, g.ny, 1, 1, i, j) >= 0
RigidIsFree == (Done /\ Big) => \A i \in 0..(g.nx-1), j \in 0..(g.ny-1) :
    /\ Dissipation48(LAMBDA x, y : 3 - 2*y, LAMBDA x, y : 5 + 2*x, g.nx, g.ny, 1, 1, i, j) = 0
    /\ Dissipation48(LAMBDA x, y : F(x, y) + 4 - y, LAMBDA x, y : 1 + x, g.nx, g.ny, 1, 1, i, j)
         = Dissipation48(F, LAMBDA x, y : 0, g.nx, g.ny, 1, 1, i, j)
    /\ Dissipation48(LAMBDA x, y : 3 * F(x, y), LAMBDA x, y : 0, g.nx, g.ny, 1, 1, i, j)
         = 9 * Dissipation48(F, LAMBDA x, y : 0, g.nx, g.ny, 1, 1, i, j)
TransposeIsSame == (Done /\ Big) => \A i \in 0..(g.nx-1), j \in 0..(g.ny-1) :
    Dissipation48(F, LAMBDA x, y : x, g.nx, g.ny, 1, 2, i, j) = Dissipation48(LAMBDA y, x : x, LAMBDA y, x : F(x, y), g.ny, g.nx, 2, 1, j, i)

-----------------------------------------------------------------------------
(* Drawing: arrows, boxes of stream lines, contours, and gradients *)
NoLim == <<0, 0>>
Windows == {<<a, b, NoLim, d>> : a \in {NoLim, <<1, 0>>, <<1, 3>>}, b \in {NoLim, <<1, 8>>}, d \in {NoLim, <<1, 7>>}}
Ok(c) == [q \in DOMAIN u |-> u[q] >= c]
ArrowsShrink == (Done /\ Big) => \A w \in Windows : \A c \in 0..2 :
    LET A == ArrowBins(g, RowsOf, Ok(c), w) IN
    /\ A \subseteq ArrowBins(g, RowsOf, Ok(c), <<NoLim, NoLim, NoLim, NoLim>>)
    /\ ArrowBins(g, RowsOf, Ok(c + 1), w) \subseteq A
    /\ A = ArrowBins(g, RowsOf, Ok(c), <<w[1], NoLim, NoLim, NoLim>>) \cap ArrowBins(g, RowsOf, Ok(c), <<NoLim, w[2], w[3], w[4]>>)
BoxHoldsBins == (Done /\ Big) => \A w \in Windows : \A c \in 1..2 :
    LET b == StreamBox(g, Ok(c), w) IN \A q \in DOMAIN u : (u[q] >= c /\ InWindow(g, q, w)) =>
       b # <<>> /\ (q-1) \div g.ny \in b[1]..b[2] /\ (q-1) % g.ny \in b[3]..b[4]
(* A contour leaves every square of four bins as often as it comes in *)
ContoursClose == (Done /\ Big) => \A L \in {1, 3} : \A i \in 0..(g.nx-2), j \in 0..(g.ny-2) :
    LET z == [q \in DOMAIN u |-> 2 * u[q]]
        n(x, y) == x * g.ny + y + 1
        E == {<<n(i,j), n(i+1,j)>>, <<n(i,j+1), n(i+1,j+1)>>, <<n(i,j), n(i,j+1)>>, <<n(i+1,j), n(i+1,j+1)>>} IN
    /\ E \subseteq EdgeBins(g)
    /\ Cardinality({e \in E : Crossed(z, L, e)}) % 2 = 0
CrossingsBetween == (Done /\ Big) => \A L \in {1, 3} :
    LET z == [q \in DOMAIN u |-> 2 * u[q]] IN
    \A e \in {x \in EdgeBins(g) : Crossed(z, L, x)} : LET c == CrossingAt(g, z, L, e) IN
      /\ c[1] >= g.x0 + ((e[1]-1) \div g.ny) * g.dx /\ c[1] <= g.x0 + ((e[2]-1) \div g.ny) * g.dx
      /\ c[2] >= g.y0 + ((e[1]-1) % g.ny) * g.dy /\ c[2] <= g.y0 + ((e[2]-1) % g.ny) * g.dy
LinearGradient == (Done /\ Big) => \A b \in -2..2 : \A i \in 0..(g.nx-1) :
    D1(LAMBDA x : 3 + b*x, g.nx, i) = 2*b /\ D2(LAMBDA x : 3 + b*x, g.nx, i) = 2*b /\ D2(LAMBDA x : b*x*x, g.nx, i) = 4*b*i
=============================================================================
