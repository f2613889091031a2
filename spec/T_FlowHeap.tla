----------------------------- MODULE T_FlowHeap -----------------------------
(* Validation of recorded histories of flow data objects.  An event is a       *)
(* history: all objects and arrays are recorded after every operation.         *)
EXTENDS FlowHeap, TraceLib

Value(o) == [rows |-> o.rows, types |-> o.types, num |-> o.num, origin |-> o.origin, shape |-> o.shape, spacing |-> o.spacing]
NoInfo == [num |-> <<>>, origin |-> Unset, shape |-> Unset, spacing |-> Unset]

(* What an object tells about itself *)
SelfFaults(o) ==
    Clause("Properties", o.labels = <<"X", "Y", "M", "U", "V">>) \cup
    Clause("GetData", o.got = o.rows) \cup
    Clause("GetNothing", o.none = 1) \cup
    Clause("Size", o.size = Size(o))

Same(pre, post, but) == \A k \in (DOMAIN pre) \ but : Value(post[k]) = Value(pre[k])

(* The faults of one new or changed object *)
Compare(name, o, want) ==
    Clause(name \o "_Rows", o.rows = want.rows) \cup
    Clause(name \o "_Types", o.types = want.types) \cup
    Clause(name \o "_Info", o.num = want.num /\ o.origin = want.origin /\ o.shape = want.shape /\ o.spacing = want.spacing)

Makes(pre, post, want, name) ==
    IF Len(post) # Len(pre) + 1 THEN {name \o "_Made"} ELSE Compare(name, post[Len(post)], want)

StepFaults(pre, arr, s) ==
    LET p == s.op  post == s.objs  changes == IF p.op \in {"sort", "poke", "info"} \/ (p.op = "call" /\ p.sorts = 1) THEN {p.o} ELSE {} IN
    IF Len(post) < Len(pre) THEN {"Lost"} ELSE
    Clause("Isolated", Same(pre, post, changes)) \cup
    Clause("Arrays", p.op = "array" \/ s.arr = arr) \cup
    UNION {SelfFaults(post[k]) : k \in DOMAIN post} \cup
    CASE p.op = "again" -> Makes(pre, post, New(FromColumns(arr), p.types, p.info), "New")
      [] p.op = "from"  -> Makes(pre, post, New(pre[p.o].rows, pre[p.o].types, p.info), "New")
      [] p.op = "copy"  -> Makes(pre, post, pre[p.o], "Copy")
      [] p.op = "lims"  -> Makes(pre, post, Lims(pre[p.o], p.l, p.lo, p.hi), "Lims")
      [] p.op = "cut"   -> Makes(pre, post, Cut(pre[p.o], p.lim[1], p.lim[2], p.lim[3], p.lim[4]), "Cut")
      [] p.op = "translate" ->
            IF Len(post) # Len(pre) + 1 THEN {"Translate_Made"} ELSE
            LET o == post[Len(post)]  w == Translate(pre[p.o], p.l, p.vs) IN
            (* the origin may follow the coordinates *)
            Compare("Translate", IF p.l <= 2 THEN [o EXCEPT !.origin = w.origin] ELSE o, w)
      [] p.op = "sort"  ->
            LET o == post[p.o]  q == pre[p.o] IN
            Clause("Sort_Order", Ordered(o.rows)) \cup Clause("Sort_Rows", Rearranged(o.rows, q.rows)) \cup
            Clause("Sort_Info", Value(o) = [Value(q) EXCEPT !.rows = o.rows])
      [] p.op = "poke"  -> Compare("Poke", post[p.o], Poke(pre[p.o], p.r, p.l, p.v))
      [] p.op = "info"  -> Compare("SetInfo", post[p.o], SetInfo(pre[p.o], p.info))
      [] p.op = "array" -> {}
      [] p.op = "call"  ->
            Clause("Refused", p.bad = 0 \/ s.exc # "") \cup
            (* sorting is the only thing it may do, and the order is kept otherwise *)
            Clause("Call_Sorts", p.sorts = 0 \/ (Rearranged(post[p.o].rows, pre[p.o].rows)
                                                 /\ Value(post[p.o]) = [Value(pre[p.o]) EXCEPT !.rows = post[p.o].rows]))
      [] OTHER -> {"UnknownOperation"}

HistoryFaults(e) ==
    LET Pre(k) == IF k = 1 THEN <<>> ELSE e.steps[k-1].objs
        Arr(k) == IF k = 1 THEN e.arr ELSE e.steps[k-1].arr
    IN UNION {StepFaults(Pre(k), Arr(k), e.steps[k]) : k \in DOMAIN e.steps} \cup
       Clause("Raised", \A k \in DOMAIN e.steps : e.steps[k].op.op = "call" \/ e.steps[k].exc = "")

Verdict(e) == CASE e.k = "history" -> HistoryFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
