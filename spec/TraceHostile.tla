----------------------------- MODULE TraceHostile -----------------------------
(* Validates recorded programs over data from others (P16): every call ends  *)
(* with a value or an error, and is made on a value that exists.             *)
EXTENDS Hostile, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
Ev == Traces[tid].ev
E  == Ev[l]
TInit == Init /\ tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))

TMake == IsEv("make") /\ E.ty \in Sources /\ Make(E.ty) /\ Blame({})
\* on a value that failed calls should have given, nothing can be called
TSkip == IsEv("call") /\ E.res = "skip" /\ vals[E.k] = "dead" /\ UNCHANGED pending /\ Blame({})
         /\ vals' = IF Op[E.o][2] = "none" THEN vals ELSE Append(vals, "dead")
TCall == IsEv("call") /\ E.res # "skip" /\ pending = <<>> /\ UNCHANGED pending
         /\ vals[E.k] = Op[E.o][1]
         /\ vals' = (IF Op[E.o][2] = "none" THEN vals ELSE Append(vals, IF E.res = "ok" THEN Op[E.o][2] ELSE "dead"))
         /\ Blame(IF E.res \in {"ok", "err"} THEN {} ELSE {"P16"})
TNext == TMake \/ TSkip \/ TCall
Spec == TInit /\ [][TNext]_<<vars, tid, l, bad>>
=============================================================================
