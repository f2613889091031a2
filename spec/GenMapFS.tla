------------------------------ MODULE GenMapFS ------------------------------
(* Histories of jobs in one directory, some of which crash, for replay in the  *)
(* real code.  Run with -simulate; every history is printed when it is         *)
(* complete.  The options of a job are chosen one at a time.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES files, hist, cur, done
vars == <<files, hist, cur, done>>

N == 0..6
Jobs == 3
Options == <<
    <<"kind", {"average", "average_cli", "convert", "convert_cli", "clc"}>>,
    <<"out", {"a", "b", "sub/a"}>>,
    <<"begin", {0, 1, 2, 3}>>,
    <<"end", {-1, 2, 4, 5}>>,
    <<"group", {1, 2, 4}>>,
    <<"rolling", {0, 1}>>,
    <<"crash", {0, 0, 1, 2, 3, 4, 5, 6, 8}>>,      \* before which operation, 0: not at all
    <<"cut", {0, 60, 200}>> >>                      \* size that no file can exceed, 0: none

Init == /\ files \in {S \in SUBSET N : Cardinality(S) >= 4} /\ hist = <<>> /\ cur = <<>> /\ done = 0
Choose == /\ Len(hist) < Jobs /\ Len(cur) < Len(Options)
          /\ \E v \in Options[Len(cur) + 1][2] :
               (* the contact line of a contact line is not the same any more *)
               /\ (IF Len(cur) = 0 THEN v = "clc" ELSE FALSE) => Len(hist) = Jobs - 1
               /\ cur' = Append(cur, v)
          /\ UNCHANGED <<files, hist, done>>
Take == /\ Len(cur) = Len(Options)
        /\ hist' = Append(hist, [o \in {Options[q][1] : q \in DOMAIN Options} |->
                                    cur[CHOOSE q \in DOMAIN Options : Options[q][1] = o]])
        /\ cur' = <<>> /\ UNCHANGED <<files, done>>
Show == /\ Len(hist) = Jobs /\ done = 0 /\ done' = 1
         /\ PrintT("BEH " \o ToJson([files |-> files, jobs |-> hist]))
         /\ UNCHANGED <<files, hist, cur>>
Next == Choose \/ Take \/ Show
Spec == Init /\ [][Next]_vars
=============================================================================
