----------------------------- MODULE TraceCollector -----------------------------
(***************************************************************************)
(* Conformance of the error collector, parse results and error conversion  *)
(* (C16).  Errors and values are recorded by number, 0 for anything that   *)
(* is not one of the errors / the value put in.                            *)
(***************************************************************************)
EXTENDS TraceLib
C == INSTANCE Collector
R == INSTANCE ParseResult

Step(c, op) == IF op[1] = "add" THEN C!Add(c, op[2]) ELSE C!AddCritical(c, op[2])
Obs(c) == <<C!Count(c), C!HasErrors(c), C!HasCritical(c)>>
RECURSIVE Run(_, _, _, _)
Run(c, ops, obs, k) ==
  /\ Obs(c) = obs[k]
  /\ IF k > Len(ops) THEN C!Errors(c) = Ev.end ELSE Run(Step(c, ops[k]), ops, obs, k + 1)

Collector == IsEvent("Collector") /\ Len(Ev.obs) = Len(Ev.ops) + 1 /\ Run(C!Empty, Ev.ops, Ev.obs, 1)

Made == CASE Ev.kind = "S" -> R!Success(Ev.val) [] Ev.kind = "P" -> R!Partial(Ev.val, Ev.errs) [] Ev.kind = "F" -> R!Failure(Ev.errs)
Result == /\ IsEvent("Result")
          /\ Ev.obs = <<R!IsSuccess(Made), R!IsFailure(Made), R!Value(Made), R!Errors(Made), R!ToResult(Made)>>

\* equality tells apart exactly the results that differ
Same == IsEvent("Same") /\ Ev.eq = (Ev.l = Ev.r)

\* error conversion and construction keep all four parts
Convert == IsEvent("Convert") /\ Ev.out = Ev.e /\ Ev.via \in {"MxError", "builder", "clone"}

Init == l = 1
Next == Collector \/ Result \/ Same \/ Convert
Spec == Init /\ [][Next]_l
===============================================================================
