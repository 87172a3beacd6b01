------------------------------- MODULE TraceLib -------------------------------
(***************************************************************************)
(* Common part of the conformance specifications: a recorded trace is a    *)
(* sequence of events (one JSON object per line); the specification's      *)
(* actions consume it one event per step, and the trace is a behaviour of  *)
(* the specification iff every event gets consumed.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Events == TLCEval(ndJsonDeserialize(IOEnv.MXV_TRACE))

VARIABLE l         \* next event
More == l <= Len(Events)
Ev == Events[l]
IsEvent(a) == More /\ Ev.a = a /\ l' = l + 1

\* a deviation of the library that is recorded in known-findings.txt: consumed, but reported
Known(id, what) == PrintT(<<"KNOWN", id, what>>)

\* diagnosis of a rejected event
Why(x) == PrintT(<<"WHY", x>>) /\ FALSE

Accepted == LET d == TLCGet("stats").diameter - 1
            IN d = Len(Events) \/ (PrintT(<<"REJECTED", d + 1>>) /\ FALSE)

\* {<<key, multiplicity>>} comparison of a sequence with recorded distinct <<..., multiplicity>> tuples
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
=============================================================================
