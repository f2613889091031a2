------------------------------- MODULE MC_Lines -------------------------------
(* Maps as files: a map is kept in one of the formats, its bins in any order,  *)
(* and converted again and again.  A reader that places every bin by its       *)
(* coordinates gets the same map whatever the order of the bins; the bins with *)
(* mass survive every chain of conversions, bins without mass those which do   *)
(* not go through GMX_FLOW.                                                    *)
EXTENDS Num

CONSTANTS NX, NY, Us, Steps
F == INSTANCE Formats WITH Chunk <- 1, MaxHeader <- 1, MaxData <- 1,
        h <- 1, d <- 0, t <- 0, pos <- 0, state <- "", start <- 0

g == [nx |-> NX, ny |-> NY, x0 |-> 3, y0 |-> -4, dx |-> 2, dy |-> 4]
Bins == 1..(NX * NY)
XYOf(k) == <<g.x0 + ((k-1) \div NY) * g.dx, g.y0 + ((k-1) % NY) * g.dy>>
Row(k, mu) == <<mu[1], 1, 2, mu[2], k>>       \* no two bins are the same

VARIABLES map,    \* bin -> <<mass, flow>>, what the first file holds
          fmt,    \* format of the current file
          file,   \* simple: lines; GMX_FLOW: <<bin, row>> of the bins with mass
          lossy,  \* whether a GMX_FLOW file was on the way
          n
vars == <<map, fmt, file, lossy, n>>

Orders == {p \in [Bins -> Bins] : \A a, b \in Bins : a # b => p[a] # p[b]}
AsSimple(rows, p) == [q \in Bins |-> XYOf(p[q]) \o rows[p[q]]]
AsGmx(rows) == {<<k, rows[k]>> : k \in {k \in Bins : rows[k][1] # 0}}
Read(ft, fl) ==
    IF ft = "gmx" THEN [k \in Bins |-> IF \E e \in fl : e[1] = k THEN (CHOOSE e \in fl : e[1] = k)[2] ELSE <<0, 0, 0, 0, 0>>]
    ELSE F!Dense(fl, g, 0)

Init ==
    /\ map \in [Bins -> {0, 1} \X Us]
    /\ n = 0
    /\ LET rows == [k \in Bins |-> Row(k, map[k])]
       IN \/ fmt = "gmx" /\ file = AsGmx(rows) /\ lossy = TRUE
          \/ fmt \in {"simple", "simple_plain"} /\ lossy = FALSE /\ \E p \in Orders : file = AsSimple(rows, p)
(* Files are written in x-major order *)
Identity == [k \in Bins |-> k]
Convert(to) ==
    /\ n < Steps /\ n' = n + 1 /\ fmt' = to
    /\ LET rows == Read(fmt, file)
       IN file' = IF to = "gmx" THEN AsGmx(rows) ELSE AsSimple(rows, Identity)
    /\ lossy' = (lossy \/ to = "gmx")
    /\ UNCHANGED map
Next == \E to \in F!Formats : Convert(to)
Spec == Init /\ [][Next]_vars

Now == Read(fmt, file)
(* Every file of a simple format lists every bin of the grid once *)
WholeGrid == fmt # "gmx" => F!IsGrid(file, g, 0)
(* Bins with mass are where they were, with their values *)
MassKept == \A k \in Bins : map[k][1] # 0 => Now[k] = Row(k, map[k])
(* ... and so are the empty ones, as far as the formats hold them *)
EmptyKept == \A k \in Bins : Now[k] = F!Kept(Row(k, map[k]), lossy)
(* A round trip gives back the map *)
RoundTrip == \A to \in F!Formats : LET r == Read(to, IF to = "gmx" THEN AsGmx(Now) ELSE AsSimple(Now, Identity))
             IN \A k \in Bins : r[k] = F!Kept(Now[k], to = "gmx")
=============================================================================
