------------------------------- MODULE StoreObs -------------------------------
(* What can be said about the answers of a Store from calls and returns     *)
(* alone: since entries are only ever added, an answer is right iff          *)
(*  - an entry found was being written, or had been, by the time of return;  *)
(*  - an entry not found had neither been written nor been found by the time *)
(*    of the call.                                                           *)
(* MCStore shows that these are exactly the histories of Store.             *)
EXTENDS Store

VARIABLES begun,     \* contents whose writing has been asked for
          seen,      \* contents whose writing has returned, or that were found
          at         \* thread -> seen at the time of its call
ovars == <<begun, seen, at>>

OInit == begun = {} /\ seen = {} /\ at = [ t \in Threads |-> {} ]
IsWrite(op) == op.o \in {"write", "writetok"}
IsRead(op) == op.o \in {"read", "readtok", "require"}

OCall(t, op) == /\ begun' = IF IsWrite(op) THEN begun \cup {op.c} ELSE begun
                /\ at' = [ at EXCEPT ![t] = seen ]
                /\ UNCHANGED seen
OReturn(t, op, res) ==
                /\ seen' = IF IsWrite(op) THEN seen \cup {op.c}
                           ELSE IF res.r = "bytes" THEN seen \cup {res.c} ELSE seen
                /\ UNCHANGED <<begun, at>>

\* the answers allowed to op of thread t at its return
Allowed(t, op, res) ==
    IF ~IsRead(op) THEN res = Result(op, {})
    ELSE \/ Same(op, res, Result(op, begun))
         \/ Same(op, res, Result(op, at[t]))
=============================================================================
