------------------------------- MODULE TraceLeaf ------------------------------
(***************************************************************************)
(* Conformance of the single rule checks (C03).  Each event is one call    *)
(* with its argument (text as code points), result, and the errors the     *)
(* call added to a collector that already held `pre' errors (of which      *)
(* critical iff `precrit').                                                *)
(***************************************************************************)
EXTENDS MXData, TraceLib, Collector

\* call of a rule that breaks with codes cs (in any order of evaluation the same set, at most one under fail-fast)
CallOk(ev, cs) ==
  LET silent == ev.ff /\ ev.pre > 0
      added == ev.errs
      asErr(c) == <<c, ev.field, ev.path>>
  IN IF cs = {} THEN /\ added = <<>> /\ ev.crit = ev.precrit
                     /\ (ev.ret \/ silent)
     ELSE /\ ~ev.ret
          /\ IF silent THEN added = <<>> /\ ev.crit = ev.precrit
             ELSE IF ev.ff THEN /\ Len(added) = 1 /\ \E c \in cs : added[1] = asErr(c)
                                /\ ev.crit
             ELSE /\ Len(added) = Cardinality(cs) /\ {added[i] : i \in DOMAIN added} = {asErr(c) : c \in cs}
                  /\ ev.crit = ev.precrit

Length == /\ IsEvent("Length")
          /\ CallOk(Ev, (IF Ev.min >= 0 /\ Shortfall(Ev.v, Ev.min) THEN {TooShort} ELSE {})
                          \cup (IF Ev.max >= 0 /\ Excess(Ev.v, Ev.max) THEN {TooLong} ELSE {}))

\* n times the same character
LongLength == /\ IsEvent("LongLength")
              /\ CallOk(Ev, (IF Ev.min >= 0 /\ Ev.n < Ev.min THEN {TooShort} ELSE {})
                              \cup (IF Ev.max >= 0 /\ Ev.n > Ev.max THEN {TooLong} ELSE {}))

Pattern == /\ IsEvent("Pattern")
           /\ CallOk(Ev, IF FullMatch(MXPats[Ev.pat].ast, Trim(Ev.v)) THEN {} ELSE {Mismatch})

\* an absent mandatory value is always critical
RequiredCheck == /\ IsEvent("Required")
                 /\ IF Ev.present THEN Ev.errs = <<>> /\ Ev.crit = Ev.precrit /\ (Ev.ret \/ (Ev.ff /\ Ev.pre > 0))
                    ELSE /\ ~Ev.ret
                         /\ IF Ev.ff /\ Ev.pre > 0 THEN Ev.errs = <<>>
                            ELSE Ev.errs = << <<Required, Ev.field, Ev.path>> >> /\ Ev.crit

ChildPath == /\ IsEvent("Child")
             /\ Ev.out = IF Ev.parent = "" THEN Ev.name ELSE Ev.parent \o "." \o Ev.name

Init == l = 1
Next == Length \/ LongLength \/ Pattern \/ RequiredCheck \/ ChildPath
Spec == Init /\ [][Next]_l
=============================================================================
