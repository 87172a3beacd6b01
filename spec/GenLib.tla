-------------------------------- MODULE GenLib --------------------------------
(* Behaviours to replay: one JSON line per behaviour, appended to $MXV_OUT. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Emit(rec) ==
  Serialize(ToJson(rec) \o "\n", IOEnv.MXV_OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
