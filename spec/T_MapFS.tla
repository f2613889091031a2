------------------------------- MODULE T_MapFS -------------------------------
(* Validation of recorded file selections, jobs and crashes.                    *)
EXTENDS MapFS, TraceLib

(* Trace records hold a directory as a sequence of [p, id, val, same]: the path, *)
(* its number before the job, the values in it, and the numbers of all files     *)
(* from before the job with the same bytes.                                      *)
AsFS(l) == [p \in {l[q].p : q \in DOMAIN l} |->
              LET r == l[CHOOSE q \in DOMAIN l : l[q].p = p] IN [id |-> r.id, val |-> r.val, same |-> Range(r.same)]]

Outs(steps) == {steps[q].out : q \in DOMAIN steps}

---------------------------------------------------------------------------
(* Selections: file names given by the finders, and those which contributed.   *)
FinderFaults(e) ==
    LET E == Range(e.names)
        j == e.j
        want == CASE e.how = "singles" -> SelectFrom(E, j.base, j.begin, j.end, j.ext)
                  [] e.how = "groups" -> JobBundles(E, j)
                  [] e.how = "pairs" -> LET s == Steps(E, j) IN [q \in DOMAIN s |-> <<s[q].in[1][1], Full(s[q].out)>>]
                  [] e.how = "gpairs" -> LET s == Steps(E, j) IN [q \in DOMAIN s |-> <<s[q].in[1], Full(s[q].out)>>]
                  [] e.how = "names" -> [q \in 1..Len(e.got) |-> Full(FileName(j.base, j.begin + q - 1, j.ext))]
        first == Full(FileName(j.base, j.begin, j.ext)) \in E
        looks == j.end = -1 \/ j.begin + (IF e.how \in {"groups", "gpairs"} THEN j.group - 1 ELSE 0) <= j.end
    IN IF e.exc # "" THEN {"Raised"} ELSE
       Clause("Selection", e.got = want) \cup
       Clause("Count", e.how = "names" => Len(e.got) = IF j.end = -1 THEN e.limit ELSE Min2(e.limit, Max2(0, j.end - j.begin + 1))) \cup
       Clause("WarnsIfMissing", (e.how # "names" /\ ~first /\ looks) => e.warned = 1) \cup
       Clause("NoWarningIfFound", (e.how \in {"singles", "pairs"} /\ first /\ looks) => e.warned = 0)

SeriesFaults(e) ==
    LET fs == AsFS(e.pre)
        s == Steps(DOMAIN fs, e.j)[1]
    IN IF ~StepReadable(fs, s) THEN {} ELSE
       IF e.exc # "" THEN (IF s.in = <<>> /\ e.maybe = 1 THEN {} ELSE {"Raised"}) ELSE
       Clause("Series", e.got = StepValue(fs, s))

---------------------------------------------------------------------------
(* What is left of a job.                                                      *)
NoLoss(pre, post, outs) ==
    \A p \in DOMAIN pre :
        \/ p \in DOMAIN post /\ pre[p].id \in post[p].same
        \/ \E f \in outs : Full(f) = p /\ \E b \in BackupsOf(f, Cardinality(DOMAIN post)) : b \in DOMAIN post /\ pre[p].id \in post[b].same
Untouched(pre, post, outs) ==
    LET mine == {Full(f) : f \in outs}
    IN \A p \in DOMAIN pre \ mine : p \in DOMAIN post /\ pre[p].id \in post[p].same

(* The observed directory is as wanted *)
Agrees(post, want, anyval) ==
    Clause("Names", DOMAIN post = DOMAIN want) \cup
    Clause("Kept", \A p \in DOMAIN want \cap DOMAIN post : want[p].id > 0 => want[p].id \in post[p].same) \cup
    Clause("Content", anyval = 1 \/ \A p \in DOMAIN want \cap DOMAIN post : want[p].id = 0 => post[p].val = want[p].val)

(* The job stopped after some number of steps, perhaps within the next one.    *)
Stopped(pre, post, j, runs, steps) ==
    \E k \in 0..Len(steps) :
        /\ k > 0 => k <= Len(runs)
        /\ LET done == IF k = 0 THEN pre ELSE runs[k]
               free == IF k < Len(steps) THEN {Full(steps[k + 1].out)} \cup BackupsOf(steps[k + 1].out, Cardinality(DOMAIN post)) ELSE {}
           IN \A p \in (DOMAIN done) \ free :
                 /\ p \in DOMAIN post
                 /\ IF done[p].id > 0 THEN done[p].id \in post[p].same ELSE (j.anyval = 1 \/ post[p].val = done[p].val)

JobFaults(e) ==
    LET pre == AsFS(e.pre)  post == AsFS(e.post)
        pre2 == [p \in DOMAIN pre |-> [id |-> pre[p].id, val |-> pre[p].val]]
        steps == Steps(DOMAIN pre, e.j)
        outs == Outs(steps)
        runs == Run(pre2, e.j)
        (* jobs may or may not notice unreadable files behind the last bundle *)
        sel == SelectFrom(DOMAIN pre, e.j.base, e.j.begin, e.j.end, e.j.ext)
        spare == e.j.anyval = 0 /\ ~Readable(pre2, sel)
        ok == e.j.anyval = 1 \/ Completes(pre2, e.j)
        final == IF e.j.anyval = 1 THEN [x \in DOMAIN Moved(pre2, e.j.out) \cup {Full(e.j.out)} |->
                                            IF x = Full(e.j.out) THEN [id |-> 0, val |-> <<>>] ELSE Moved(pre2, e.j.out)[x]]
                 ELSE IF runs = <<>> THEN pre2 ELSE runs[Len(runs)]
    IN Clause("NoLoss", NoLoss(pre, post, outs)) \cup
       Clause("Untouched", Untouched(pre, post, outs)) \cup
       (IF e.stopped = 1 THEN (IF e.j.anyval = 1 \/ e.limited = 1 THEN {} ELSE Clause("PrefixOfJob", Stopped(pre2, post, e.j, runs, steps)))
        ELSE Clause("FailsIffUnreadable", ((e.exc = "") <=> ok) \/ (ok /\ spare)) \cup
             (IF (e.exc = "") # ok THEN (IF ok /\ spare THEN Agrees(post, final, e.j.anyval) ELSE {}) ELSE
              IF ~ok THEN Clause("PrefixOfJob", Stopped(pre2, post, e.j, runs, steps))
              ELSE Agrees(post, final, e.j.anyval)))

Verdict(e) == CASE e.k = "finder" -> FinderFaults(e)
                [] e.k = "series" -> SeriesFaults(e)
                [] e.k = "job" -> JobFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
