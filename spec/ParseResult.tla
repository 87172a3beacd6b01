------------------------------ MODULE ParseResult ------------------------------
(***************************************************************************)
(* A parse result is a success with a value, a partial success with a      *)
(* value and errors, or a failure with errors: [kind, val, errs] with kind *)
(* "S", "P" or "F"; NoValue where there is none.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

NoValue == 0
Success(v)     == [kind |-> "S", val |-> v, errs |-> <<>>]
Partial(v, es) == [kind |-> "P", val |-> v, errs |-> es]
Failure(es)    == [kind |-> "F", val |-> NoValue, errs |-> es]

IsSuccess(r) == r.kind = "S"
IsFailure(r) == r.kind = "F"
Value(r)     == r.val
Errors(r)    == r.errs
\* conversion to a plain result keeps the value if there is one and the errors otherwise
ToResult(r)  == IF r.kind = "F" THEN <<"err", r.errs>> ELSE <<"ok", r.val>>
=============================================================================
