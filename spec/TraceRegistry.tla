----------------------------- MODULE TraceRegistry -----------------------------
(***************************************************************************)
(* Conformance of every lookup and dispatch between type names (C08).      *)
(*  Table:   the public registry itself                                    *)
(*  Lookup:  <<function, argument, result>>                                *)
(*  Types:   a message of type rt, and every name under which the library  *)
(*           treats it: namespaces, elements written, types read           *)
(***************************************************************************)
EXTENDS MXWire
Reg == SelectSeq(Dict.roots, LAMBDA r : r.mt # "")
Rows == [i \in DOMAIN Reg |-> [short |-> Reg[i].mt, full |-> Reg[i].full, el |-> Reg[i].el, rust |-> Reg[i].t]]
R == INSTANCE Registry WITH Table <- Rows
ASSUME R!Wellformed

Want(f, a) ==
  CASE f = "get_namespace" -> R!Namespace(a)
    [] f = "get_namespace_for_message_type" -> R!Namespace(a)
    [] f = "normalize" -> R!Normalize(a)
    [] f = "mx_normalize" -> R!Normalize(a)
    [] f = "element_to_type" -> R!OfElement(a)
    [] f = "type_to_element" -> R!Element(a)
    [] f = "type_to_rust" -> R!RustType(a)
    [] f = "full_form" -> R!FullForm(a)
    [] f = "detect" -> R!Detect(a)
    \* message type of JSON / XML whose Document holds that element (JSON also: whose message_type says so)
    [] f = "detect_json" -> R!Detect(a)
    [] f = "detect_xml" -> R!Detect(a)
    \* a message whose header says a
    [] f = "mx_namespace" -> R!Namespace(a)
    [] f = "mx_type" -> a

Lookup == /\ IsEvent("Lookup")
          /\ \A k \in DOMAIN Ev.list : LET x == Ev.list[k] IN Want(x[1], x[2]) = x[3] \/ Why(<<x, Want(x[1], x[2])>>)

Table == /\ IsEvent("Table")
         /\ Len(Ev.rows) = Len(Rows)
         /\ \A i \in DOMAIN Rows : \E k \in DOMAIN Ev.rows : Ev.rows[k] = <<Rows[i].short, Rows[i].full, Rows[i].el, Rows[i].rust>>

TypesOk(e) ==
            LET row == Rows[CHOOSE i \in DOMAIN Rows : Rows[i].short = DocRoot(e.rt).mt] IN
            /\ e.doc_ns = R!Namespace(row.short)        \* the document's own namespace
            /\ e.mx_ns = R!Namespace(row.short)         \* the message's, its header naming the type
            /\ e.json_el = row.el                        \* member of Document in JSON
            /\ e.xml_el = row.el                         \* root element in XML
            /\ e.variant_json = row.short /\ e.variant_xml = row.short   \* type of document read from JSON / XML
            /\ e.peek_xml = row.short /\ e.peek_json = row.short
            /\ e.pipe_json = row.short /\ e.pipe_xml = row.short         \* the pipeline's detection
            /\ e.pipe_meta = row.short                   \* message type in the parse step's metadata
            /\ e.doconly_el = row.el
            \* offered as any type: refused unless it is its own
            /\ \A k \in DOMAIN e.offered :
                 LET x == e.offered[k]
                 IN x[2] = (IF x[1] = row.short THEN row.el ELSE "refused") \/ Why(x)
            \* its content as the content of every other root element, in XML and JSON: never accepted as another type's
            /\ \A k \in DOMAIN e.relabelled : e.relabelled[k][2] \in {"refused", R!OfElement(e.relabelled[k][1])} \/ Why(e.relabelled[k])

Types == IsEvent("Types") /\ (TypesOk(Ev) \/ Why([Ev EXCEPT !.offered = 0, !.relabelled = 0]))

Init == l = 1
Next == Lookup \/ Table \/ Types
Spec == Init /\ [][Next]_l
================================================================================
