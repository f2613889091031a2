------------------------------- MODULE Formats -------------------------------
(* Map files: what reading one has to give.                                    *)
(*                                                                             *)
(* A GMX_FLOW file has a header, which ends with a NUL byte, and then NUMDATA   *)
(* values for each field, in the order of the fields of the header.  The simple *)
(* formats list all bins with the coordinates of their centres.                 *)
EXTENDS Num

Formats == {"gmx", "simple", "simple_plain"}

(* Grid of the map that was read: [nx, ny, x0, y0, dx, dy] with (x0, y0) the    *)
(* centre of the first bin.                                                     *)
GridFaults(r, g, tol) ==
    Clause("Shape", r.nx = g.nx /\ r.ny = g.ny) \cup
    Clause("Spacing", Near(r.dx, g.dx, tol) /\ Near(r.dy, g.dy, tol)) \cup
    Clause("Coordinates", Near(r.x0, g.x0, tol) /\ Near(r.y0, g.y0, tol))

(* A row <<M, N, T, U, V>>; files in the GMX_FLOW format keep nothing of bins   *)
(* without mass.                                                                *)
Kept(row, gmx) == IF gmx /\ row[1] = 0 THEN <<0, 0, 0, 0, 0>> ELSE row
RowNear(a, b, tol) == Len(a) = 5 /\ \A q \in 1..5 : Near(a[q], b[q], tol)
ValueFaults(rows, want, gmx, tol) ==
    IF Len(rows) # Len(want) THEN {"Size"}
    ELSE Clause("Values", \A k \in DOMAIN want : RowNear(rows[k], Kept(want[k], gmx), tol))

(* All coordinates which were read, against the regular grid, in x-major order  *)
CoordFaults(xy, g, tol) ==
    IF Len(xy) # g.nx * g.ny THEN {"Size"}
    ELSE Clause("Coordinates", \A k \in DOMAIN xy :
            LET i == (k-1) \div g.ny  j == (k-1) % g.ny
            IN Near(xy[k][1], g.x0 + i * g.dx, tol) /\ Near(xy[k][2], g.y0 + j * g.dy, tol))

(* A line of a file, or bin of a data set, is <<x, y, M, N, T, U, V>>; they may  *)
(* come in any order: what counts is where they are.                            *)
LineAt(lines, g, i, j, tol) ==
    {q \in DOMAIN lines : Near(lines[q][1], g.x0 + i * g.dx, tol) /\ Near(lines[q][2], g.y0 + j * g.dy, tol)}
IsGrid(lines, g, tol) ==
    /\ Len(lines) = g.nx * g.ny
    /\ \A i \in 0..(g.nx - 1) : \A j \in 0..(g.ny - 1) : Cardinality(LineAt(lines, g, i, j, tol)) = 1
Dense(lines, g, tol) ==
    [k \in 1..(g.nx * g.ny) |->
        LET q == CHOOSE q \in LineAt(lines, g, (k-1) \div g.ny, (k-1) % g.ny, tol) : TRUE
        IN SubSeq(lines[q], 3, 7)]

(* The one listed finding: the centre of the first bin of a simple map becomes  *)
(* the corner of the GMX_FLOW map.                                              *)
HalfBinShifted(from, to, r, g, tol) ==
    /\ from # "gmx" /\ to = "gmx"
    /\ r.nx = g.nx /\ r.ny = g.ny /\ Near(r.dx, g.dx, tol) /\ Near(r.dy, g.dy, tol)
    /\ Near(r.x0, g.x0 + g.dx \div 2, tol) /\ Near(r.y0, g.y0 + g.dy \div 2, tol)

---------------------------------------------------------------------------
(* The chunk wise reader of the header, as a machine: the file is the header   *)
(* (h bytes), its terminator, and d bytes of data, of which only the first t    *)
(* bytes are there.                                                             *)
CONSTANTS Chunk, MaxHeader, MaxData
VARIABLES h, d, t, pos, state, start
rvars == <<h, d, t, pos, state, start>>

ReaderInit ==
    /\ h \in 1..MaxHeader /\ d \in 0..MaxData /\ t \in 0..(h + 1 + d)
    /\ pos = 0 /\ state = "header" /\ start = -1
ReadChunk ==
    /\ state = "header"
    /\ LET next == Min2(pos + Chunk, t)
       IN IF next = pos THEN state' = "refused" /\ UNCHANGED <<pos, start>>     \* end of file
          ELSE IF h < next                                                      \* the terminator is at byte h
               THEN state' = "data" /\ start' = h + 1 /\ pos' = h + 1           \* seek behind it
               ELSE pos' = next /\ UNCHANGED <<state, start>>
    /\ UNCHANGED <<h, d, t>>
ReadData ==
    /\ state = "data"
    /\ state' = IF t - pos < d THEN "refused" ELSE "read"
    /\ pos' = Min2(t, pos + d)
    /\ UNCHANGED <<h, d, t, start>>
ReaderNext == ReadChunk \/ ReadData
ReaderSpec == ReaderInit /\ [][ReaderNext]_rvars /\ WF_rvars(ReaderNext)

Complete == t = h + 1 + d
(* Data begin right behind the terminator, whatever the length of the header *)
DataStart == state \in {"data", "read"} => start = h + 1
(* A complete file is read, a truncated one is refused *)
NoTruncatedData == state = "read" => Complete
NoCompleteRefused == state = "refused" => ~Complete
Terminates == <>(state \in {"refused", "read"})
=============================================================================
