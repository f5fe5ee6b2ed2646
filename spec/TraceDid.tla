------------------------------- MODULE TraceDid -------------------------------
(* Validates recorded histories of DID parsers against Did (P14).           *)
EXTENDS Did, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
Ev == Traces[tid].ev
E  == Ev[l]
Dids == Traces[tid].dids
Regs == Traces[tid].regs
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))
If(p, x) == IF p THEN {x} ELSE {}
SetOf(s) == { s[i] : i \in DOMAIN s }

TParse == IsEv("parse") /\ Blame(If(E.res # Resolve(SetOf(Regs[E.p]), Dids[E.d]), "P14"))
Next == TParse
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
