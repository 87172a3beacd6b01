------------------------------ MODULE TraceRules ------------------------------
(***************************************************************************)
(* Conformance of recorded validations of real messages (C01, C02).        *)
(*  Validate: one message into a fresh collector, one configuration        *)
(*  Modes:    one message under several configurations, fresh collectors   *)
(*  Session:  several messages into one collector                          *)
(* Errors are recorded as distinct <<code, element, path, multiplicity>>:  *)
(* the order in which independent rules are checked is not part of the     *)
(* contract.                                                               *)
(***************************************************************************)
EXTENDS MXData, TraceLib

\* besides the values of its class (1, 2, ...) a text field may hold a text of the domain list (1001, ...)
DomCodes == TLCEval([c \in DOMAIN MXClasses |-> TLCEval([k \in DOMAIN Dict.dom |-> TLCEval(LeafCodes(MXPats, MXClasses[c], Dict.domcps[k]))])])
AllCodes(c, w) == IF w > 1000 THEN DomCodes[c][w - 1000] ELSE MXCodes[c][w]
W == INSTANCE Walk WITH Types <- MXTypes, Codes <- AllCodes

Total(rec) == SumTo([i \in DOMAIN rec |-> rec[i][4]], Len(rec))
SameBag(es, rec) ==
  /\ Len(es) = Total(rec)
  /\ \A i \in DOMAIN rec :
       LET e == <<rec[i][1], rec[i][2], rec[i][3]>>
       IN Cardinality({j \in DOMAIN es : es[j] = e}) = rec[i][4]

\* what one validation run may leave in a fresh collector
Outcome(run, es) ==
  IF ~run.cfg.ff THEN SameBag(es, run.errs) /\ ~run.crit
  ELSE IF es = <<>> THEN run.errs = <<>> /\ ~run.crit
  ELSE /\ Total(run.errs) = 1 /\ run.crit
       /\ \E j \in DOMAIN es : es[j] = <<run.errs[1][1], run.errs[1][2], run.errs[1][3]>>

Validate == /\ IsEvent("Validate")
            /\ Outcome(Ev, W!Errs(Ev.r, Ev.m, Ev.p, Ev.cfg.opt))

Modes == /\ IsEvent("Modes")
         /\ LET full == W!Errs(Ev.r, Ev.m, Ev.p, TRUE)
                lenient == W!Errs(Ev.r, Ev.m, Ev.p, FALSE)
            IN \A k \in DOMAIN Ev.runs : Outcome(Ev.runs[k], IF Ev.runs[k].cfg.opt THEN full ELSE lenient)

\* without fail-fast a collector that is used again accumulates
Session == /\ IsEvent("Session")
           /\ SameBag(W!FlattenSeq([k \in DOMAIN Ev.ms |-> W!Errs(Ev.ms[k].r, Ev.ms[k].m, Ev.ms[k].p, Ev.cfg.opt)]), Ev.errs)
           /\ ~Ev.crit

Init == l = 1
Next == Validate \/ Modes \/ Session
Spec == Init /\ [][Next]_l
=============================================================================
