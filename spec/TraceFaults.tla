------------------------------ MODULE TraceFaults ------------------------------
(***************************************************************************)
(* Conformance of structural acceptance (C07).  Each event is a well-      *)
(* shaped message, what reading its JSON and XML gave, and a list of       *)
(* faults <<path, field, op, value, medium, accepted>>: the message with   *)
(* that one change, offered in that medium, was accepted or not.  The      *)
(* verdict the specification gives is Shaped of the changed message.       *)
(* kept: the XML was written such that no outer white space is lost.       *)
(***************************************************************************)
EXTENDS MXWire

NewInsts(insts, op, v) == CASE op = "drop" -> <<>> [] op = "dup" -> Append(insts, insts[1]) [] op = "many" -> [k \in 1..v |-> insts[1]] [] op = "set" -> <<v>>
RECURSIVE Changed(_, _, _, _, _)
Changed(m, path, i, op, v) ==
  IF path = <<>> THEN [m EXCEPT ![i] = NewInsts(@, op, v)]
  ELSE LET a == path[1][1] b == path[1][2]
       IN [m EXCEPT ![a] = [@ EXCEPT ![b] = Changed(@, Tail(path), i, op, v)]]

\* only the structure around the change can make a difference, the rest of m being well-shaped
Sound(t, m, list) ==
  \A k \in DOMAIN list :
    LET x == list[k] IN X!Shaped(t, Changed(m, x[1], x[2], x[3], x[4])) = x[6] \/ Why(x)

\* a code field accepts exactly its codes, out of many texts <<path, field, number tried, those accepted>>
RECURSIVE TypeAt(_, _)
TypeAt(t, path) == IF path = <<>> THEN t ELSE TypeAt(MXTypes[t][path[1][1]].r, Tail(path))
CodesExact(t, list) ==
  \A k \in DOMAIN list :
    LET x == list[k] f == MXTypes[TypeAt(t, x[1])][x[2]] codes == Dict.enums[f.r]
    IN \/ f.k = "e" /\ Len(x[4]) = Len(codes) /\ {x[4][i] : i \in DOMAIN x[4]} = {codes[i] : i \in DOMAIN codes}
       \/ Why(<<f.x, {x[4][i] : i \in DOMAIN x[4]}, {codes[i] : i \in DOMAIN codes}>>)

Faults == /\ IsEvent("Faults")
          /\ X!Shaped(Ev.r, Ev.m)
          /\ X!JObj(Ev.r, Ev.m, Ev.jb) \/ Why(<<"json", X!JWhy(Ev.r, Ev.m, Ev.jb, "")>>)
          /\ \/ X!JObj(Ev.r, Ev.m, Ev.xb)
             \/ ~Ev.kept /\ XR!JObj(Ev.r, Ev.m, Ev.xb) /\ Known("F-trim", "white space lost")
             \/ Why(<<"xml", XR!JWhy(Ev.r, Ev.m, Ev.xb, "")>>)
          /\ Sound(Ev.r, Ev.m, Ev.list)
          /\ CodesExact(Ev.r, Ev.codes)

MxFaults == /\ IsEvent("MxFaults")
            /\ MxJ(Ev, Ev.jb) \/ Why("json")
            /\ MxJ(Ev, Ev.xb) \/ (~Ev.kept /\ MxJRead(Ev, Ev.xb) /\ Known("F-trim", "white space lost")) \/ Why("xml")
            /\ Ev.part = "h" => X!Shaped(DocT(Ev.rt), Ev.d) /\ Sound(HdrT, Ev.h, Ev.list)
            /\ Ev.part = "d" => X!Shaped(HdrT, Ev.h) /\ Sound(DocT(Ev.rt), Ev.d, Ev.list)

Init == l = 1
Next == Faults \/ MxFaults
Spec == Init /\ [][Next]_l
===============================================================================
