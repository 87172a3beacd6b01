------------------------------- MODULE Collector ------------------------------
(***************************************************************************)
(* The error collector as an abstract data type: a log of errors and a     *)
(* critical flag.  An entry is [e |-> error, crit |-> added as critical?]. *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Empty == [log |-> <<>>, critical |-> FALSE]

Add(c, e)         == [log |-> Append(c.log, e), critical |-> c.critical]
AddCritical(c, e) == [log |-> Append(c.log, e), critical |-> TRUE]

HasErrors(c)   == c.log # <<>>
Count(c)       == Len(c.log)
HasCritical(c) == c.critical
Errors(c)      == c.log

\* one rule check under fail-fast (ff) or not: what happens to the collector when the rule breaks with error e
Report(c, ff, e) == IF ff THEN (IF HasErrors(c) THEN c ELSE AddCritical(c, e)) ELSE Add(c, e)
RECURSIVE ReportAll(_, _, _)
ReportAll(c, ff, es) == IF es = <<>> THEN c ELSE ReportAll(Report(c, ff, Head(es)), ff, Tail(es))
=============================================================================
