-------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* The message types and their names.  Table is a sequence of records      *)
(* [short, full, el, rust]; every lookup of the library is a function of   *)
(* it.  Unknown: no such type; names that are not in the table are passed  *)
(* through by Normalize and Namespace.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Table

Unknown == "?"
NsPrefix == "urn:iso:std:iso:20022:tech:xsd:"
Rows == DOMAIN Table
\* aliases the pipeline accepts besides the root elements
Alias == ("FinInstnCdtTrf" :> "pacs.009") @@ ("Rct" :> "camt.025") @@ ("ClmNonRct" :> "camt.027") @@ ("ClaimNonReceiptV07" :> "camt.027")

ById(n) == {i \in Rows : n \in {Table[i].short, Table[i].full}}
ByEl(n) == {i \in Rows : n \in {Table[i].el, Table[i].rust}}
Pick(S, Get(_), default) == IF S = {} THEN default ELSE Get(CHOOSE i \in S : TRUE)

FullForm(n)  == Pick(ById(n), LAMBDA i : Table[i].full, Unknown)
Element(n)   == Pick(ById(n), LAMBDA i : Table[i].el, Unknown)
RustType(n)  == Pick(ById(n), LAMBDA i : Table[i].rust, Unknown)
Normalize(n) == Pick(ById(n), LAMBDA i : Table[i].short, n)
Namespace(n) == NsPrefix \o Pick(ById(n), LAMBDA i : Table[i].full, n)
OfElement(n) == Pick(ByEl(n), LAMBDA i : Table[i].short, Unknown)
\* the pipeline's detection
Detect(n)    == IF ByEl(n) # {} THEN OfElement(n) ELSE IF n \in DOMAIN Alias THEN Alias[n] ELSE Unknown

\* ------------------------------------------------------------ what must hold of the table
OneToOne(Get(_)) == Cardinality({Get(i) : i \in Rows}) = Len(Table)
Wellformed ==
  /\ OneToOne(LAMBDA i : Table[i].short) /\ OneToOne(LAMBDA i : Table[i].full)
  /\ OneToOne(LAMBDA i : Table[i].el) /\ OneToOne(LAMBDA i : Table[i].rust)
  \* no name means two types, whichever lookup it is given to
  /\ \A i, j \in Rows : i # j => {Table[i].short, Table[i].full, Table[i].el, Table[i].rust} \cap {Table[j].short, Table[j].full, Table[j].el, Table[j].rust} = {}
  /\ \A i \in Rows : Table[i].el \notin DOMAIN Alias /\ Table[i].rust \notin DOMAIN Alias
  \* going there and back
  /\ \A i \in Rows : LET t == Table[i] IN
       /\ \A n \in {t.short, t.full} : OfElement(Element(n)) = t.short /\ Normalize(n) = t.short /\ FullForm(n) = t.full
       /\ \A n \in {t.el, t.rust} : FullForm(OfElement(n)) = t.full /\ Element(OfElement(n)) = t.el
       /\ Normalize(FullForm(t.short)) = t.short /\ Namespace(t.short) = Namespace(t.full)
================================================================================
