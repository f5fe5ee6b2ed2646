------------------------------- MODULE TraceWire -------------------------------
(* Validates recorded parsings of token texts (P11).                        *)
EXTENDS Wire, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
Ev == Traces[tid].ev
E  == Ev[l]
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))
If(p, x) == IF p THEN {x} ELSE {}

\* every way of parsing agrees; E.odd: the text leans on what JSON leaves open
Faithful == /\ E.enc = E.text                                   \* re-encoding
            /\ E.again = "equal"                                \* parsing that again
            /\ \A i \in DOMAIN E.cids : E.cids[i][2] = E.cids[i][3]
            /\ E.odd \/ Reports(E.want, E.acc)
            /\ E.data = E.text2                                 \* the signed part of it
            /\ E.sig[1] = E.sig[2]                              \* signature verdict before and after
TParse == IsEv("parse")
          /\ LET r == { E.res[i] : i \in DOMAIN E.res } IN
             Blame(IF r = {"err"} THEN If(~E.odd /\ Accept(E.w), "P11")
                   ELSE IF r = {"ok"} THEN If((~E.odd /\ ~Accept(E.w)) \/ ~Faithful, "P11")
                   ELSE {"P11"})
Next == TParse
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
