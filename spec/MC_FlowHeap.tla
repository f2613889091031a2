---------------------------- MODULE MC_FlowHeap ----------------------------
(* The heap of flow data objects as a machine.  Checked exhaustively for small *)
(* heaps, and run with -simulate (GenFlowHeap.cfg) for histories that are      *)
(* replayed in the real code.                                                  *)
EXTENDS FlowHeap, Json

CONSTANTS MaxObjs, MaxOps, Cols, Gen

(* One choice at random for a history, all of them for the exploration *)
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S

VARIABLES objs, arr, hist, who
vars == <<objs, arr, hist, who>>

Types == [l \in 1..Cols |-> "f8"]
NoInfo == [num |-> <<>>, origin |-> Unset, shape |-> Unset, spacing |-> Unset]

(* who: what the last operation was allowed to change: <<"obj", k>>, <<"arr", 0>>, <<"new", k>> *)
Fresh(o, op) == /\ Len(objs) < MaxObjs
                /\ objs' = Append(objs, o) /\ who' = <<"new", Len(objs) + 1>> /\ hist' = Append(hist, op)
                /\ UNCHANGED arr
InPlace(k, o, op) == /\ objs' = [objs EXCEPT ![k] = o] /\ who' = <<"obj", k>> /\ hist' = Append(hist, op)
                     /\ UNCHANGED arr

Limit == IF Gen THEN {<<>>, <<-3>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<4>>, <<7>>} ELSE {<<>>, <<0>>, <<1>>}
Steps == IF Gen THEN {-5, -2, -1, 1, 2, 3} ELSE {-1, 1}

Grid == IF Gen
        THEN {[nx |-> a, ny |-> b, x0 |-> p, y0 |-> q, s |-> s] : a \in 1..4, b \in 1..4, p \in {-3, 0, 1}, q \in {0, 2}, s \in {1, 2}}
        ELSE {[nx |-> a, ny |-> b, x0 |-> 0, y0 |-> 0, s |-> 1] : a \in 1..2, b \in 1..2}
Cell(g, k) == <<g.x0 + g.s * ((k - 1) \div g.ny), g.y0 + g.s * ((k - 1) % g.ny)>>
Content(k, l) == (k * (l + 1)) % 5
Columns(g) == [l \in 1..Cols |-> [k \in 1..(g.nx * g.ny) |-> IF l <= 2 THEN Cell(g, k)[l] ELSE Content(k, l)]]
GridInfo(g) == [num |-> <<g.nx * g.ny>>, origin |-> <<g.x0, g.y0>>, shape |-> <<g.nx, g.ny>>, spacing |-> <<g.s, g.s>>]

Init == /\ \E g \in Grid : arr = Columns(g) /\ \E w \in BOOLEAN :
            /\ hist = <<[op |-> "new", g |-> g, info |-> w]>>
            /\ objs = <<New(FromColumns(Columns(g)), Types, IF w THEN GridInfo(g) ELSE NoInfo)>>
        /\ who = <<"new", 1>>

DoNew == \E w \in Pick(BOOLEAN) : Fresh(New(FromColumns(arr), Types, NoInfo), [op |-> "again", w |-> w])
DoCopy == \E k \in Pick(DOMAIN objs) : Fresh(objs[k], [op |-> "copy", o |-> k])
DoFrom == \E k \in Pick(DOMAIN objs) : Fresh(New(objs[k].rows, Types, NoInfo), [op |-> "from", o |-> k])
DoLims == \E k \in Pick(DOMAIN objs), l \in Pick(1..Cols), lo \in Pick(Limit), hi \in Pick(Limit) :
            Fresh(Lims(objs[k], l, lo, hi), [op |-> "lims", o |-> k, l |-> l, lo |-> lo, hi |-> hi])
DoCut == \E k \in Pick(DOMAIN objs), a \in Pick(Limit), b \in Pick(Limit), c \in Pick(Limit), d \in Pick(Limit) :
            Fresh(Cut(objs[k], a, b, c, d), [op |-> "cut", o |-> k, lim |-> <<a, b, c, d>>])
DoTranslate == \E k \in Pick(DOMAIN objs), l \in Pick(1..Cols), v \in Pick(Steps) :
            \/ Fresh(Translate(objs[k], l, <<v>>), [op |-> "translate", o |-> k, l |-> l, v |-> v])
            \/ Fresh(Translate(objs[k], l, [q \in DOMAIN objs[k].rows |-> v * q]), [op |-> "translates", o |-> k, l |-> l, v |-> v])
DoSort == \E k \in Pick(DOMAIN objs) : InPlace(k, Sorted(objs[k]), [op |-> "sort", o |-> k])
DoPoke == \E k \in Pick(DOMAIN objs), l \in Pick(1..Cols), v \in Pick(Steps) : objs[k].rows # <<>> /\
            \E r \in Pick(DOMAIN objs[k].rows) : InPlace(k, Poke(objs[k], r, l, v), [op |-> "poke", o |-> k, r |-> r, l |-> l, v |-> v])
DoArray == \E l \in Pick(1..Cols), q \in Pick(DOMAIN arr[1]), v \in Pick(Steps) :
            /\ arr' = [arr EXCEPT ![l][q] = v] /\ who' = <<"arr", 0>>
            /\ hist' = Append(hist, [op |-> "array", l |-> l, q |-> q, v |-> v]) /\ UNCHANGED objs
DoInfo == \E k \in Pick(DOMAIN objs), g \in Pick(Grid) : InPlace(k, SetInfo(objs[k], GridInfo(g)), [op |-> "info", o |-> k, g |-> g])
(* Functions that take objects: whatever they give, it is a new value *)
DoCall == Gen /\ \E k \in Pick(DOMAIN objs), f \in Pick(1..12) :
            Fresh(objs[k], [op |-> "call", o |-> k, f |-> f])

View == <<objs, arr, who, Len(hist)>>

Next == /\ Len(hist) < MaxOps
        /\ (DoNew \/ DoCopy \/ DoFrom \/ DoLims \/ DoCut \/ DoTranslate \/ DoSort \/ DoPoke \/ DoArray \/ DoInfo \/ DoCall)
GenNext == \/ Next
           \/ /\ Len(hist) = MaxOps /\ who[1] # "end" /\ who' = <<"end", 0>> /\ UNCHANGED <<objs, arr, hist>>
              /\ PrintT("BEH " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

---------------------------------------------------------------------------
(* Nothing but what an operation is about has changed *)
Isolated == [][ /\ \A k \in DOMAIN objs : objs'[k] = objs[k] \/ who' = <<"obj", k>>
                /\ (arr' = arr \/ who' = <<"arr", 0>>) ]_vars

(* Laws of the operations, on every object that can be reached *)
Laws == \A k \in {who[2]} \cap DOMAIN objs : LET o == objs[k] IN
    /\ Ordered(Sorted(o).rows) /\ Rearranged(Sorted(o).rows, o.rows)
    /\ Sorted(Sorted(o)).rows = Sorted(o).rows
    /\ \A l \in 1..Cols, lo \in Limit, hi \in Limit : LET s == Lims(o, l, lo, hi) IN
          /\ Lims(s, l, lo, hi) = s
          /\ s.num = <<Len(s.rows)>>
          /\ Lims(Lims(o, l, lo, <<>>), l, <<>>, hi).rows = s.rows
          /\ \A v \in Steps : LET t == Translate(o, l, <<v>>) IN
                /\ Translate(t, l, <<-v>>) = o
                (* selections move with the data *)
                /\ Lims(t, l, IF lo = <<>> THEN lo ELSE <<lo[1] + v>>, IF hi = <<>> THEN hi ELSE <<hi[1] + v>>).rows
                     = Translate(s, l, <<v>>).rows
    /\ \A a \in Limit, d \in Limit :
          /\ Cut(o, a, <<>>, <<>>, d).rows = Lims(Lims(o, 1, a, <<>>), 2, <<>>, d).rows
          /\ Cut(Cut(o, a, <<>>, <<>>, <<>>), <<>>, <<>>, <<>>, d).rows = Cut(o, a, <<>>, <<>>, d).rows
(* Cutting away bins of a full grid leaves a full grid *)
Grids == \A k \in {who[2]} \cap DOMAIN objs : LET o == objs[k] IN
    (o.shape # Unset /\ o.num = <<Len(o.rows)>> /\ o.shape = <<Kinds(o.rows, 1), Kinds(o.rows, 2)>>
       /\ Cardinality({<<o.rows[q][1], o.rows[q][2]>> : q \in DOMAIN o.rows}) = Len(o.rows))
    => \A a \in Limit, b \in Limit, c \in Limit : LET s == Cut(o, a, b, c, <<>>) IN s.num = <<Len(s.rows)>>
=============================================================================
