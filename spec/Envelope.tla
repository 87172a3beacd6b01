-------------------------------- MODULE Envelope --------------------------------
(***************************************************************************)
(* Framing of messages.  An input is a sequence of tokens:                 *)
(*   <<"decl", k>>            XML declaration                              *)
(*   <<"ws", k>>              white space                                  *)
(*   <<"note", k>>            a comment or a processing instruction, with  *)
(*                            content that may look like framing           *)
(*   <<"open", name, attrs>>  opening tag of a framing element             *)
(*   <<"close", name>>        its closing tag                              *)
(*   <<"text", s>>            content of a foreign element                 *)
(*   <<"hdr">>                content of a header                          *)
(*   <<"root", name, attrs>>  root element with the content of a document; *)
(*                            name "" is the root element of its type      *)
(* attrs is a sequence of <<name, v, style>>: v numbers a value.           *)
(*                                                                         *)
(* Reading is an automaton over the tokens: it keeps the open elements,    *)
(* whether the header's opening tag has been met, what is the header and   *)
(* what is the document's root, and the namespaces declared so far.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Start == [open |-> <<>>, met |-> FALSE, hdr |-> FALSE, root |-> "none", ns |-> <<0, 0>>, bad |-> FALSE]

\* first declaration of each namespace, 0: none
Declared(attrs, name) == LET xs == SelectSeq(attrs, LAMBDA a : a[1] = name) IN IF xs = <<>> THEN 0 ELSE xs[1][2]
First(a, b) == IF a # 0 THEN a ELSE b
Declare(ns, attrs) == <<First(ns[1], Declared(attrs, "xmlns")), First(ns[2], Declared(attrs, "xmlns:xsi"))>>

Inside(s, name) == s.open # <<>> /\ Last(s.open) = name
Read1(s, t) ==
  CASE t[1] \in {"decl", "ws", "note", "text"} -> s
    [] t[1] = "open"  -> [s EXCEPT !.open = Append(@, t[2]), !.met = @ \/ t[2] = "AppHdr",
                                   !.ns = IF s.met THEN @ ELSE Declare(@, t[3])]
    [] t[1] = "close" -> IF Inside(s, t[2]) THEN [s EXCEPT !.open = Front(@)] ELSE [s EXCEPT !.bad = TRUE]
    [] t[1] = "hdr"   -> [s EXCEPT !.hdr = @ \/ Inside(s, "AppHdr")]
    [] t[1] = "root"  -> IF Inside(s, "Document") THEN [s EXCEPT !.root = IF t[2] = "" THEN "known" ELSE "unknown"] ELSE s
RECURSIVE ReadAll(_, _, _)
ReadAll(s, toks, k) == IF k > Len(toks) THEN s ELSE ReadAll(Read1(s, toks[k]), toks, k + 1)
Reading(toks) == ReadAll(Start, toks, 1)

WellFormed(s) == ~s.bad /\ s.open = <<>>
\* reading a complete message: accepted iff it has a header and a document of a known type
Complete(s) == WellFormed(s) /\ s.hdr /\ s.root = "known"
\* reading a document alone
Bare(s) == WellFormed(s) /\ s.root = "known"
\* the pipeline takes an input for a complete message if it has a header or an envelope
Envelope(toks) == \E k \in DOMAIN toks : toks[k][1] = "open" /\ toks[k][2] \in {"AppHdr", "Envelope"}
Valid(toks) == LET s == Reading(toks) IN IF Envelope(toks) THEN Complete(s) ELSE Bare(s)
=================================================================================
