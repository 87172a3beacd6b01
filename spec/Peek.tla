---------------------------------- MODULE Peek ----------------------------------
(***************************************************************************)
(* Reading the type of a message without reading the message.  A message   *)
(* carries its own identifier (or none), perhaps a related header with     *)
(* another message's identifier, and texts that look like identifiers.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Own    == {"absent", "full", "short", "other", "version", "case", "padded", "escaped", "markup", "blank", "long"}
Rltd   == {"none", "full", "short", "other"}
\* texts that look like identifiers: in the header, in the document, in foreign parts of the message before or after the header
Decoy  == {"none", "header", "document", "before", "after"}
Layout == 1..8       \* XML framing / order of JSON members
Msgs == [own : Own, rltd : Rltd, decoy : Decoy, lay : Layout]
\* what a peek may depend on
Key(m) == m.own
=================================================================================
