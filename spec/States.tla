--------------------------------- MODULE States ---------------------------------
(* Message states and step configurations a pipeline step may be started in. *)
EXTENDS Naturals, Sequences
Shapes  == {"object", "null", "array", "string", "number", "bool", "missing"}
Payload == {"xml", "bare", "junk", "empty", "object", "array", "number", "null", "scenario", "badscenario", "string-scenario"}
\* payloads and field values of every small kind
Small   == {"digit", "negative", "float", "true", "emptyarray", "emptyobject", "emptytext", "char", "quote", "quotes", "multibyte", "backslash", "space", "lt", "nul", "mxnumber", "mxnull", "mxempty", "mxnested", "mxarray", "bignum", "deeparray"}
Cfg     == {"ok", "null", "array", "string", "nosrc", "notgt", "srcnum", "tgtnum", "map", "validation", "missing", "self", "emptynames"}
Ops     == {"parse", "publish", "validate", "generate"}
Where   == {"object"} \cup {"null", "array", "string", "number"}    \* the context itself
All == [ctx : {"object"}, data : Shapes, meta : Shapes, payload : Payload, cfg : Cfg, op : Ops]
       \cup [ctx : {"object"}, data : {"object", "missing"}, meta : {"object"}, payload : Small, cfg : {"ok", "self", "emptynames"}, op : Ops]
       \cup [ctx : Where, data : {"object"}, meta : {"object"}, payload : Payload, cfg : Cfg, op : Ops]
=================================================================================
