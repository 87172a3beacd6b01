------------------------------- MODULE MCPipeline -------------------------------
(***************************************************************************)
(* All histories of MaxLen steps over a small world of values: X complete  *)
(* message, B bare document, junk; W a wrapper of X; J, D what parsing     *)
(* gives; P the XML publishing gives; S, R scenarios generating GJ (a      *)
(* message as JSON) and GW (a wrapper); V+, V- validation results.         *)
(* Each history is written out for replay.                                 *)
(***************************************************************************)
EXTENDS GenLib, FiniteSets
CONSTANTS MaxLen, Wide
PayC(v) == CASE v \in {"X", "B", "P", "junk"} -> v [] OTHER -> "junk"
StrC(v) == CASE v \in {"X", "B", "P", "junk"} -> v [] OTHER -> "none"
WrapC(v) == CASE v = "W" -> "X" [] v = "GW" -> "X" [] OTHER -> "none"
Parse(c) == CASE c \in {"X", "P"} -> <<"ok", "J", "mJ">> [] c = "B" -> <<"ok", "D", "mD">> [] OTHER -> <<"!">>
Valid(c) == IF c = "junk" THEN <<"ok", "V-", "mV">> ELSE <<"ok", "V+", "mV">>
Publ(v) == IF v \in {"J", "GJ"} THEN <<"ok", "P">> ELSE <<"!">>
Genr(v) == CASE v = "S" -> <<"ok", "GJ">> [] v = "R" -> <<"ok", "GW">> [] OTHER -> <<"!">>
P == INSTANCE Pipeline WITH PayloadContent <- PayC, StringContent <- StrC, WrapperContent <- WrapC, ParseOf <- Parse, ValidateOf <- Valid, PublishOf <- Publ, GenerateOf <- Genr, Null <- "null", None <- "none"

Names == {"payload", "a", "validation"}
Ok == {[op |-> o, src |-> s, tgt |-> t, cfg |-> "ok"] : o \in {"parse", "validate", "publish"}, s \in Names, t \in Names}
      \cup {[op |-> "generate", src |-> "a", tgt |-> t, cfg |-> "ok"] : t \in Names}
Bad == {[op |-> o, src |-> "payload", tgt |-> "a", cfg |-> c] : o \in {"parse", "validate", "publish", "generate"}, c \in {"nosrc", "notgt", "wrong"}}
Steps(n) == IF Wide \/ n = 0 THEN Ok \cup Bad ELSE Ok
E == <<>>
Payloads == {"X", "B", "junk", "S", "R", "num"}
Datas == { E, "a" :> "J", ("a" :> "W") @@ ("validation" :> "num"), ("a" :> "junk") @@ ("validation" :> "X"), ("payload" :> "J") @@ ("a" :> "B"), ("a" :> "null") }
Start == {[payload |-> p, dobj |-> TRUE, mobj |-> TRUE, data |-> d, meta |-> m] : p \in Payloads, d \in Datas, m \in {E, ("a" :> "m0") @@ ("keep" :> "m1")}}
         \cup {[payload |-> p, dobj |-> FALSE, mobj |-> FALSE, data |-> E, meta |-> E] : p \in Payloads}
         \cup {[payload |-> p, dobj |-> FALSE, mobj |-> TRUE, data |-> E, meta |-> m] : p \in Payloads, m \in {E, ("validation" :> "m0") @@ ("keep" :> "m1")}}
         \cup {[payload |-> p, dobj |-> TRUE, mobj |-> FALSE, data |-> d, meta |-> E] : p \in Payloads, d \in Datas}
Few(s) == Wide \/ ((s.payload \in {"X", "B", "S"} \/ s.data \in {E}) /\ (s.meta = E) = (s.data \in {E, "a" :> "J"}) /\ s.dobj /\ s.mobj) \/ (~(s.dobj /\ s.mobj) /\ MaxLen = 1)

VARIABLES s0, s, hist, chs
vars == <<s0, s, hist, chs>>
Init == s0 \in Start /\ Few(s0) /\ s = s0 /\ hist = <<>> /\ chs = <<>>
Do(o) == /\ Len(hist) < MaxLen
         /\ hist' = Append(hist, o) /\ s' = P!After(s, o) /\ UNCHANGED s0
         /\ chs' = IF P!Succeeds(s, o) THEN Append(chs, P!Change(s, o, P!Result(s, o)[2])) ELSE chs
Next == \E o \in Steps(Len(hist)) : Do(o)
Spec == Init /\ [][Next]_vars

OneStep == [][\E o \in Ok \cup Bad : hist' = Append(hist, o) /\ P!OnlyTarget(s, o, s') /\ (~P!Succeeds(s, o) => s' = s)]_vars
Truthful == s.dobj => P!Paths(s.data) = P!Replay(P!Paths(s0.data), chs, 1)
Undone == s.dobj => LET u == P!Undo(P!Paths(s.data), chs, Len(chs)) IN \A p \in DOMAIN u : u[p] = (IF P!Has(P!Paths(s0.data), p) THEN P!Paths(s0.data)[p] ELSE "null")
\* parsing what was published gives what was published
Inverse == \A v \in {"J", "GJ"} : Parse(Publ(v)[2])[1] = "ok"
Written == Len(hist) = MaxLen => Emit([start |-> s0, steps |-> hist])
=================================================================================
