------------------------------- MODULE TraceKeys -------------------------------
(* Validates recorded uses of keys against Keys (P17).                      *)
EXTENDS Keys, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad,
          dids, algs      \* <<key, text>> observed so far
Ev == Traces[tid].ev
E  == Ev[l]
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ dids = {} /\ algs = {}
IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))
If(p, x) == IF p THEN {x} ELSE {}

\* one DID per key however held, the one made of its type and public bytes; none shared
TDid == IsEv("did") /\ UNCHANGED algs /\ dids' = dids \cup { <<E.k, E.did>> }
        /\ Blame(If(E.did # E.want \/ \E x \in dids : (x[1] = E.k) # (x[2] = E.did), "P17"))
TAlg == IsEv("alg") /\ UNCHANGED dids /\ algs' = algs \cup { <<E.k, E.alg>> }
        /\ Blame(If(E.alg # E.want \/ \E x \in algs : x[1] = E.k /\ x[2] # E.alg, "P17"))
TSign == IsEv("sign") /\ UNCHANGED <<dids, algs>>
         /\ Blame(If(E.res # (IF SignOk(E.priv) THEN "ok" ELSE "err"), "P17"))
TVerify == IsEv("verify") /\ UNCHANGED <<dids, algs>>
         /\ Blame(If(E.res # (IF VerifyOk(E.k, E.m, E.s) THEN "ok" ELSE "err"), "P17"))
Next == TDid \/ TAlg \/ TSign \/ TVerify
Spec == Init /\ [][Next]_<<tid, l, bad, dids, algs>>
=============================================================================
