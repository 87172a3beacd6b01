--------------------------------- MODULE Stretch ---------------------------------
(***************************************************************************)
(* Malformed inputs made by stretching: a valid message with one part of   *)
(* it replaced by a long run of one character, whose bytes any cut at a    *)
(* fixed place falls into the middle of (pre shifts the run by a byte).    *)
(***************************************************************************)
EXTENDS Naturals
\* parts of XML
Xml  == {"before", "decl", "declenc", "comment", "pi", "doctype", "wrapper", "between", "after", "hdrname", "hdrattrname", "hdrattr", "hdrtext", "hdrns", "idr", "bizid", "date", "hdrunknown",
         "docname", "docns", "docattrname", "docattr", "doctext", "root", "rootns", "rootattr", "roottext", "unknown", "leaf", "endtag", "entity", "cdata", "dup"}
\* parts of JSON
Json == {"jbefore", "jtop", "jtopnull", "jhdrkey", "jidr", "jidrkey", "jdockey", "jroot", "jleaf", "jnumber", "jdoctext", "jhdrtext", "jns", "jafter"}
\* names: message types, configuration, field names and paths
Name == {"type", "field"}
Char == {"a", "0", " ", "e2", "j3", "s4"}        \* of 1, 2, 3 and 4 bytes
Pre  == 0..3
Len  == {1, 2, 5, 11, 50, 300, 3000}
Kinds == [slot : Xml \cup Json \cup Name, ch : Char, pre : Pre, len : Len]
==================================================================================
