------------------------------ MODULE MC_MapFS ------------------------------
(* Jobs as machines which take one file system operation at a time, and can    *)
(* crash before and within each of them.                                       *)
EXTENDS MapFS
CONSTANTS Numbers, Groups_, Runs

RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqOf(S \ {x})

In == <<"", "a">>
Other == <<"", "b">>
X == ".x"
Val(n) == 12 * (n + 1) * (n + 2)     \* divisible, and different sums for different bundles

(* A directory: some of the numbered files, perhaps some which look like        *)
(* outputs, and perhaps a backup from before.                                   *)
Dirs == {LET D == {Full(FileName(In, n, X)) : n \in S} \cup
                  (IF o = 1 THEN {Full(FileName(Other, 1, X))} ELSE {}) \cup
                  (IF bk = 1 THEN {Backup(FileName(In, 1, X), 1)} ELSE {})
             s == SetToSeqOf(D)
         IN [p \in D |-> [id |-> CHOOSE i \in DOMAIN s : s[i] = p,
                          val |-> IF \E n \in S : p = Full(FileName(In, n, X))
                                  THEN <<Val(CHOOSE n \in S : p = Full(FileName(In, n, X)))>> ELSE <<>>]]
         : S \in SUBSET Numbers, o \in {0, 1}, bk \in {0, 1}}

Jobs == [base : {In}, out : {In, Other}, begin : Numbers, end : {-1, 2}, ext : {X}, oext : {X},
         group : Groups_, rolling : {0, 1}, numbering : {"bundle", "count"}, skips : {0}]
        \cup [base : {In}, out : {In, Other}, begin : Numbers, end : {-1}, ext : {X}, oext : {X},
         group : {1}, rolling : {0}, numbering : {"one"}, skips : {0}]

VARIABLES fs, start, job, todo, value, phase, runs
vars == <<fs, start, job, todo, value, phase, runs>>

NoJob == <<>>
Init == /\ fs \in Dirs /\ start = fs /\ job = NoJob /\ todo = <<>> /\ value = 0 /\ phase = "idle" /\ runs = 0

Start(j) == /\ phase = "idle" /\ runs < Runs
            /\ job' = j /\ todo' = Steps(DOMAIN fs, j) /\ phase' = "read" /\ runs' = runs + 1
            /\ start' = IF runs = 0 THEN fs ELSE start
            /\ UNCHANGED <<fs, value>>
Read ==     /\ phase = "read" /\ todo # <<>>
            /\ IF StepReadable(fs, todo[1])
               THEN value' = StepValue(fs, todo[1]) /\ phase' = "backup" /\ UNCHANGED <<job, todo>>
               ELSE phase' = "idle" /\ job' = NoJob /\ todo' = <<>> /\ UNCHANGED value       \* error
            /\ UNCHANGED <<fs, start, runs>>
Back ==     /\ phase = "backup" /\ fs' = Moved(fs, todo[1].out) /\ phase' = "open"
            /\ UNCHANGED <<start, job, todo, value, runs>>
Open ==     /\ phase = "open" /\ fs' = Put(fs, Full(todo[1].out), [id |-> 0, val |-> <<-1>>]) /\ phase' = "close"
            /\ UNCHANGED <<start, job, todo, value, runs>>
Close ==    /\ phase = "close" /\ fs' = Put(fs, Full(todo[1].out), [id |-> 0, val |-> value]) /\ phase' = "read"
            /\ todo' = Tail(todo)
            /\ UNCHANGED <<start, job, value, runs>>
Finish ==   /\ phase = "read" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<fs, start, job, todo, value, runs>>
Forget ==   /\ phase = "done" /\ phase' = "idle" /\ job' = NoJob /\ UNCHANGED <<fs, start, todo, value, runs>>
Crash ==    /\ phase \in {"read", "backup", "open", "close"} /\ phase' = "idle" /\ job' = NoJob /\ todo' = <<>>
            /\ UNCHANGED <<fs, start, value, runs>>
Next == (\E j \in Jobs : Start(j)) \/ Read \/ Back \/ Open \/ Close \/ Finish \/ Forget \/ Crash
Spec == Init /\ [][Next]_vars

(* Whatever was there before the first of the jobs is still to be found, under  *)
(* its own name or a backup name of it, whenever jobs crash.                    *)
FilesOf == {FileName(b, n, X) : b \in {In, Other}, n \in 0..9}
NoLoss == \A f \in FilesOf : Full(f) \in DOMAIN start =>
              \E p \in {Full(f)} \cup BackupsOf(f, 12) : p \in DOMAIN fs /\ fs[p] = start[Full(f)]
(* A finished first job has the outputs of the specification *)
AsSpecified == (phase = "done" /\ runs = 1) => fs = Final(start, job)
(* ... and these do not depend on whether the outputs replace the inputs        *)
InPlaceSame == (phase = "done" /\ runs = 1 /\ job.out = In) =>
                  LET j2 == [job EXCEPT !.out = <<"", "c">>]
                      f2 == Final(start, j2)
                      n  == Len(Steps(DOMAIN start, job))
                  IN \A q \in 1..n : fs[Full(Steps(DOMAIN start, job)[q].out)].val = f2[Full(Steps(DOMAIN start, j2)[q].out)].val
(* Nothing but outputs and backups of outputs changes *)
OthersUntouched == (runs = 1 /\ job # NoJob) =>
    LET outs == {Steps(DOMAIN start, job)[q].out : q \in DOMAIN Steps(DOMAIN start, job)}
    IN \A p \in DOMAIN start \cup DOMAIN fs :
          p \notin ({Full(f) : f \in outs} \cup UNION {BackupsOf(f, 12) : f \in outs}) =>
              p \in DOMAIN start /\ p \in DOMAIN fs /\ fs[p] = start[p]
=============================================================================
