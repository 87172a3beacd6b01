------------------------------- MODULE Validator ------------------------------
(***************************************************************************)
(* Validation as the library performs it: a walk over the message with an  *)
(* explicit stack, one rule check per step, all errors going to a shared   *)
(* collector.  A session validates a sequence of messages into one         *)
(* collector under one configuration.  The properties relate the walk to   *)
(* the declarative meaning (Walk!Errs):                                    *)
(*   C01  without fail-fast the collector ends with exactly Errs;          *)
(*   C02  fail-fast ends with the first of them, critical, and lenient     *)
(*        validation drops exactly what lies in optional components.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Collector

CONSTANTS Types, Codes(_, _), Root, Messages(_), MaxMessages

W == INSTANCE Walk

VARIABLES cfg,       \* [ff, opt]
          todo,      \* messages not started yet
          done,      \* messages validated
          stack,     \* frames [t, m, path, i]: next field i of structure instance m
          col        \* the collector
vars == <<cfg, todo, done, stack, col>>

Configs == [ff : BOOLEAN, opt : BOOLEAN]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}

Init == /\ cfg \in Configs
        /\ todo \in SeqsUpTo(Messages(Root), MaxMessages)
        /\ done = <<>>
        /\ stack = <<>>
        /\ col = Empty

Top == stack[Len(stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Bump(s) == [s EXCEPT ![Len(s)].i = @ + 1]
Field == Types[Top.t][Top.i]
Insts == Top.m[Top.i]
Busy == stack # <<>>

Begin == /\ ~Busy /\ todo # <<>>
         /\ stack' = <<[t |-> Root, m |-> Head(todo), path |-> "", i |-> 1]>>
         /\ UNCHANGED <<cfg, todo, done, col>>

AtField == Busy /\ Top.i <= Len(Types[Top.t])

CheckText == /\ AtField /\ Field.k = "s"
             /\ col' = ReportAll(col, cfg.ff,
                          W!FlattenSeq([j \in DOMAIN Insts |-> W!LeafErrs(Field, Insts[j], Top.path)]))
             /\ stack' = Bump(stack)
             /\ UNCHANGED <<cfg, todo, done>>

\* numbers, booleans, codes and absent components have no field rules
SkipPlain == /\ AtField /\ Field.k # "s" /\ (Field.k # "t" \/ Insts = <<>>)
             /\ stack' = Bump(stack)
             /\ UNCHANGED <<cfg, todo, done, col>>

SkipOptional == /\ AtField /\ Field.k = "t" /\ Insts # <<>> /\ Field.o = 1 /\ ~cfg.opt
                /\ stack' = Bump(stack)
                /\ UNCHANGED <<cfg, todo, done, col>>

Frames(s) == [j \in DOMAIN Insts |->
                [t |-> Field.r, m |-> Insts[Len(Insts) + 1 - j], path |-> W!Child(Top.path, Field.x), i |-> 1]]
Descend == /\ AtField /\ Field.k = "t" /\ Insts # <<>> /\ (Field.o = 0 \/ cfg.opt)
           /\ stack' = Bump(stack) \o Frames(stack)
           /\ UNCHANGED <<cfg, todo, done, col>>

Leave == /\ Busy /\ Top.i > Len(Types[Top.t])
         /\ stack' = Pop(stack)
         /\ IF Len(stack) = 1 THEN done' = Append(done, Head(todo)) /\ todo' = Tail(todo)
                              ELSE UNCHANGED <<done, todo>>
         /\ UNCHANGED <<cfg, col>>

Next == Begin \/ CheckText \/ SkipPlain \/ SkipOptional \/ Descend \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Full(ms, opt) == W!FlattenSeq([k \in DOMAIN ms |-> W!Errs(Root, ms[k], "", opt)])

\* C01: the walk reports exactly what the rules say, in order, and only as it reaches it
ExactWhenDone == (~Busy /\ ~cfg.ff) => col.log = Full(done, cfg.opt)
\* C02
NotCritical  == ~cfg.ff => ~col.critical
FailFast     == (~Busy /\ cfg.ff) =>
                   LET F == Full(done, cfg.opt)
                   IN IF F = <<>> THEN col = Empty ELSE col.log = <<F[1]>> /\ col.critical
AtMostOne    == cfg.ff => Len(col.log) <= 1
LenientSubset == \A k \in DOMAIN done :
                   LET A == W!Errs(Root, done[k], "", FALSE) B == W!Errs(Root, done[k], "", TRUE)
                   IN \A e \in W!ToSetS(A) : Cardinality({i \in DOMAIN A : A[i] = e}) <= Cardinality({i \in DOMAIN B : B[i] = e})
CriticalHasError == col.critical => HasErrors(col)
GrowsOnly    == [][\A i \in DOMAIN col.log : i \in DOMAIN col'.log /\ col'.log[i] = col.log[i]]_vars
Terminates   == <>(todo = <<>> /\ ~Busy)
=============================================================================
