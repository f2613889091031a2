-------------------------------- MODULE MapFS --------------------------------
(* Numbered map files, the jobs which read and write them, and what is left    *)
(* of them at every point of a job.                                            *)
(*                                                                             *)
(* A file system is a function from paths (strings, relative to some root) to   *)
(* contents [id, val]: id > 0 is the identity of a file that was there before,  *)
(* id = 0 marks a file which was written by a job, and val is the sequence of   *)
(* values that it holds.  val = <<>> for files which cannot be read as a map,   *)
(* and <<-1>> for files which are not complete.                                 *)
EXTENDS Num

Pad5(n) == LET s == ToString(n)
           IN CASE Len(s) = 1 -> "0000" \o s [] Len(s) = 2 -> "000" \o s
                [] Len(s) = 3 -> "00" \o s [] Len(s) = 4 -> "0" \o s [] OTHER -> s

(* A base is <<directory, file>>, where the directory ends with a slash or is  *)
(* empty.  The outputs are pairs of the same kind.                             *)
FileName(b, n, ext) == <<b[1], b[2] \o Pad5(n) \o ext>>
Full(f) == f[1] \o f[2]
Backup(f, i) == f[1] \o "#" \o f[2] \o "." \o ToString(i) \o "#"

---------------------------------------------------------------------------
(* Selection.  end = -1 is no end.                                            *)

RECURSIVE SelectFrom(_, _, _, _, _)
SelectFrom(E, b, n, end, ext) ==
    IF (end # -1 /\ n > end) \/ Full(FileName(b, n, ext)) \notin E THEN <<>>
    ELSE <<Full(FileName(b, n, ext))>> \o SelectFrom(E, b, n + 1, end, ext)

Bundles(sel, g, rolling) ==
    LET k == IF Len(sel) < g THEN 0 ELSE IF rolling = 1 THEN Len(sel) - g + 1 ELSE Len(sel) \div g
    IN [q \in 1..k |-> LET first == IF rolling = 1 THEN q ELSE (q - 1) * g + 1
                       IN [p \in 1..g |-> sel[first + p - 1]]]

(* The number of the q:th output.  "one": outputs keep the number of their      *)
(* input; "bundle": numbers are those of bundles; "count": outputs are counted  *)
(* from the begin number.                                                       *)
OutNumber(j, q) ==
    CASE j.numbering = "bundle" /\ j.rolling # 1 -> CeilDiv(j.begin, j.group) + q - 1
      [] OTHER -> j.begin + q - 1

(* The steps of a job which reads from the files E: a sequence of               *)
(* [in |-> paths, out |-> file].                                                *)
JobBundles(E, j) == Bundles(SelectFrom(E, j.base, j.begin, j.end, j.ext), j.group, j.rolling)
Steps(E, j) ==
    LET bs == JobBundles(E, j)
    IN IF j.numbering = "single" THEN <<[in |-> bs, out |-> j.out]>>
       ELSE [q \in 1..Len(bs) |-> [in |-> <<bs[q]>>, out |-> FileName(j.out, OutNumber(j, q), j.oext)]]

---------------------------------------------------------------------------
(* Writing                                                                    *)

FirstFree(fs, f) ==
    LET RECURSIVE Free(_)
        Free(i) == IF Backup(f, i) \in DOMAIN fs THEN Free(i + 1) ELSE i
    IN Free(1)

Put(fs, p, c) == [x \in DOMAIN fs \cup {p} |-> IF x = p THEN c ELSE fs[x]]
Moved(fs, f) ==        \* the existing file f is moved to its first free backup name
    IF Full(f) \notin DOMAIN fs THEN fs
    ELSE LET bak == Backup(f, FirstFree(fs, f))
         IN [x \in (DOMAIN fs \ {Full(f)}) \cup {bak} |-> IF x = bak THEN fs[Full(f)] ELSE fs[x]]
Written(fs, f, v) == Put(Moved(fs, f), Full(f), [id |-> 0, val |-> v])

(* The value of an output from a bundle of inputs: their mean.                 *)
MeanOf(fs, b) == SumOn([p \in DOMAIN b |-> fs[b[p]].val[1]], DOMAIN b) \div Len(b)
Readable(fs, b) == \A p \in DOMAIN b : Len(fs[b[p]].val) = 1 /\ fs[b[p]].val[1] >= 0
StepValue(fs, s) == [q \in DOMAIN s.in |-> MeanOf(fs, s.in[q])]
StepReadable(fs, s) == \A q \in DOMAIN s.in : Readable(fs, s.in[q])

(* The steps of a job that are carried out: those before the first which has    *)
(* an unreadable input, at which the job ends with an error, or all but the     *)
(* unreadable ones if the job skips them (j.skips = 1).                         *)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(fs, j, steps, q) ==       \* sequence of file systems after each step
    IF q > Len(steps) THEN <<>>
    ELSE IF ~StepReadable(fs, steps[q])
         THEN IF j.skips = 1 THEN <<fs>> \o RunFrom(fs, j, steps, q + 1) ELSE <<>>
         ELSE LET n == TLCEval(Written(fs, steps[q].out, StepValue(fs, steps[q])))
              IN <<n>> \o RunFrom(n, j, steps, q + 1)
Run(fs, j) == RunFrom(fs, j, Steps(DOMAIN fs, j), 1)
Final(fs, j) == LET r == Run(fs, j) IN IF r = <<>> THEN fs ELSE r[Len(r)]
Completes(fs, j) == Len(Run(fs, j)) = Len(Steps(DOMAIN fs, j))

---------------------------------------------------------------------------
(* Properties of a file system `now` that was `old` when a job began.          *)

(* All names which may hold the contents of the file at path p, if p is an     *)
(* output of the job.                                                          *)
(* a backup gets the first free number, so at most one more than there are files *)
BackupsOf(f, n) == {Backup(f, i) : i \in 1..n}
=============================================================================
