------------------------------- MODULE MXData --------------------------------
(***************************************************************************)
(* The constants of the specification for the real library: the schema     *)
(* dictionary (spec/dict.json, transcribed once from the pinned commit),   *)
(* with the verdict of every leaf rule on every listed value computed here *)
(* from the rule's definition.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rules, Json, IOUtils, TLC

Dict == TLCEval(JsonDeserialize(IOEnv.MXV_DICT))

MXTypes   == TLCEval(Dict.types)
MXClasses == TLCEval(Dict.classes)
MXPats    == TLCEval(Dict.pats)

\* codes broken by the w-th value of class c
MXCodes == TLCEval([c \in DOMAIN MXClasses |->
              TLCEval([w \in DOMAIN MXClasses[c].w |->
                TLCEval(LeafCodes(MXPats, MXClasses[c], Dict.cps[MXClasses[c].w[w]]))])])
MXCodesOf(c, w) == MXCodes[c][w]

=============================================================================
