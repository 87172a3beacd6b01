---------------------------------- MODULE Junk ----------------------------------
(***************************************************************************)
(* The malformed input alphabet: fragments on which scanners for messages  *)
(* take decisions.  Inputs are strings of fragments.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Fragments == << "<", ">", "/", "</", "<Document", "<Document>", "</Document>", "<AppHdr", "<AppHdr>", "</AppHdr>", "<Envelope>", "</Envelope>",
                "<Rcpt>", "</Rcpt>", "<MsgDefIdr>", "</MsgDefIdr>", "<Rltd>", " ", "\n", "x", "\"", "'", "=", "xmlns=\"", "&", "&#0;", "é", "<?xml", "?>", "<!--", "-->", "<![CDATA[", "]]>", ":",
                "<a", "{", "\"AppHdr\"", "null" >>
=================================================================================
