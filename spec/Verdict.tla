--------------------------------- MODULE Verdict ---------------------------------
(***************************************************************************)
(* Three ways of judging one input: the pipeline's validation step, its    *)
(* parsing step, and the library's envelope check.  Each is specified as   *)
(* the procedure it is (take the content from where it lies; tell complete *)
(* messages from bare documents; find the type of a bare document; read),  *)
(* over the tokens of Envelope and a flag saying whether the structure of  *)
(* header and document is sound.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
E == INSTANCE Envelope

\* where the content comes from: a string is itself, an object may carry it
Contents == {"payload", "string", "wrapper", "missing", "other"}
HasContent(src) == src \in {"payload", "string", "wrapper"}

\* the type a bare document is of, as detected without reading it
Detected(toks) == LET s == E!Reading(toks) IN IF s.root = "known" THEN "known" ELSE "none"
ReadMx(toks, sound)  == E!Complete(E!Reading(toks)) /\ sound
ReadDoc(toks, sound) == E!Bare(E!Reading(toks)) /\ sound

\* [verdict, number of errors]
Judge(toks, sound) ==
  IF E!Envelope(toks) THEN IF ReadMx(toks, sound) THEN <<"valid", 0>> ELSE <<"invalid", 1>>
  ELSE IF Detected(toks) = "none" THEN <<"invalid", 1>>
  ELSE IF ReadDoc(toks, sound) THEN <<"valid", 0>> ELSE <<"invalid", 1>>
ValidateStep(src, toks, sound) == IF HasContent(src) THEN Judge(toks, sound) ELSE <<"error", 0>>
ParseStep(src, toks, sound) ==
  IF ~HasContent(src) THEN "error"
  ELSE IF E!Envelope(toks) THEN IF ReadMx(toks, sound) THEN "ok" ELSE "error"
  ELSE IF Detected(toks) = "none" THEN "error" ELSE IF ReadDoc(toks, sound) THEN "ok" ELSE "error"
\* ty: the type asked for, "own" or "foreign"
EnvelopeCheck(toks, sound, ty) ==
  IF E!Envelope(toks) THEN IF ReadMx(toks, sound) THEN "ok" ELSE "error"
  ELSE IF ty = "own" /\ Detected(toks) # "none" /\ ReadDoc(toks, sound) THEN "ok" ELSE "error"

\* ------------------------------------------------------------ what is required
\* v: <<verdict, errors>>; p, c: "ok" or "error"; c is "-" where the check was not asked
Agree(v, n, p, c) ==
  /\ v \in {"valid", "invalid", "error"} /\ p \in {"ok", "error"} /\ c \in {"ok", "error", "-"}
  /\ (v = "valid") = (p = "ok")
  /\ (v = "invalid") = (n > 0)
  /\ c # "-" => (v = "valid") = (c = "ok")
==================================================================================
