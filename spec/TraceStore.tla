------------------------------ MODULE TraceStore ------------------------------
(* Validates recorded histories of the in-memory store (P13), sequential or *)
(* from real threads: calls and returns in the order they happened.         *)
EXTENDS StoreObs, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
TThreads == 1..8

VARIABLES tid, l, bad
Ev == Traces[tid].ev
E  == Ev[l]

Init == /\ tid \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ OInit
        /\ kind = Traces[tid].kinds /\ mem = {} /\ pend = [ t \in Threads |-> Idle ]
IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))
If(p, x) == IF p THEN {x} ELSE {}

TCall == IsEv("call") /\ Call(E.t, E.op) /\ OCall(E.t, E.op) /\ Blame({})
TRet ==  IsEv("ret") /\ UNCHANGED <<kind, mem>> /\ pend' = [ pend EXCEPT ![E.t] = Idle ]
         /\ LET op == pend[E.t].op IN
            /\ OReturn(E.t, op, E.res)
            /\ Blame(If(~Allowed(E.t, op, E.res), "P13"))
\* the address the token builder cites for a token, and the one the store gives it
TCite == IsEv("cite") /\ UNCHANGED <<vars, ovars>> /\ Blame(If(E.cited # Addr(E.c), "P13"))

Next == TCall \/ TRet \/ TCite
Spec == Init /\ [][Next]_<<vars, ovars, tid, l, bad>>
=============================================================================
