------------------------------- MODULE T_Cli -------------------------------
(* Validation of recorded runs: the command line against the library call that   *)
(* the specification of the commands makes of it.                                *)
EXTENDS Cli, TraceLib

Clause(name, ok) == IF ok THEN {} ELSE {name}
Header(e) == CASE e.print = "spreading" -> <<"Time (ps) Radius (nm)">>
               [] e.print = "fit" -> <<"Found fitting parameters (a, k) for r = a*t^k:">>
               [] OTHER -> <<>>
Printed(e) == e.lib.out \o (IF e.echo = 1 /\ e.lib.exc = "" THEN Header(e) \o e.values ELSE <<>>)

RunFaults(e) ==
    IF e.works = 0 THEN Clause("NothingToDo", e.cli.exc = "" /\ e.cli.files = e.before) ELSE
    Clause("SameOutcome", e.cli.exc = e.lib.exc) \cup
    Clause("SameFiles", {e.cli.files[q][1] : q \in DOMAIN e.cli.files} = {e.lib.files[q][1] : q \in DOMAIN e.lib.files}) \cup
    Clause("SameContents", {e.cli.files[q] : q \in DOMAIN e.cli.files} = {e.lib.files[q] : q \in DOMAIN e.lib.files}) \cup
    Clause("SamePrinted", e.cli.exc # "" \/ e.cli.out = Printed(e))

(* The library call alone in a new interpreter does what it does next to all of  *)
(* the other modules: no function relies on what another one has imported.       *)
AloneFaults(e) ==
    Clause("AloneOutcome", e.alone.exc = e.lib.exc) \cup
    Clause("AloneContents", {e.alone.files[q] : q \in DOMAIN e.alone.files} = {e.lib.files[q] : q \in DOMAIN e.lib.files})

Verdict(e) == CASE e.k = "run" -> RunFaults(e)
                [] e.k = "alone" -> AloneFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
