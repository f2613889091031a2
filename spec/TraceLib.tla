------------------------------ MODULE TraceLib ------------------------------
(* Reading a recorded trace, and reporting on each event.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

At(i)        == PrintT("AT " \o ToString(i))
Report(i, f) == f = {} \/ PrintT("FAIL " \o ToString(i) \o " " \o ToString(f))
Consumed(i)  == (i = Len(Trace)) => PrintT("CONSUMED " \o ToString(i))
=============================================================================
