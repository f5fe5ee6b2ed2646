------------------------------- MODULE TraceIpld -------------------------------
(* Validates recorded conversions against Ipld (P15).                       *)
EXTENDS Ipld, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad,
          text,            \* text and CID of the token
          cbor,            \* its DAG-CBOR, once seen
          prins            \* <<DID, principal>> seen so far
Ev == Traces[tid].ev
E  == Ev[l]
tvars == <<text, cbor, prins>>
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ text = "" /\ cbor = "" /\ prins = {} /\ form = "none" /\ content = <<>>
IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))
If(p, x) == IF p THEN {x} ELSE {}

\* the token built, and what it says
TToken == IsEv("token") /\ form' = "token" /\ content' = E.c /\ text' = E.text /\ UNCHANGED <<cbor, prins>>
          /\ Blame(If(E.res # "ok", "P15"))
\* one conversion; a refused one leaves things as they are
TMove == /\ IsEv("move") /\ UNCHANGED prins
         /\ LET ok == E.m = "toipld" => Convertible(content.alg, E.did = "yes")
                may == E.m = "toipld" /\ E.did = "may" /\ E.res = "err"
                to == Moves[E.m][2]
            IN /\ IF E.res = "ok" THEN form' = to /\ UNCHANGED content ELSE UNCHANGED ivars
               /\ cbor' = IF E.res = "ok" /\ to = "cbor" THEN E.cbor ELSE cbor
               /\ UNCHANGED text
               /\ Blame(If(\/ form # Moves[E.m][1]
                           \/ ~may /\ E.res # (IF ok \/ (E.m = "toipld" /\ E.did = "may" /\ content.alg \in JwtAlgs) THEN "ok" ELSE "err")
                           \/ E.res = "ok" /\ to \in {"token", "text", "ipld"} /\ E.c # content
                           \/ E.res = "ok" /\ to \in {"token", "text"} /\ (E.text # text \/ ~E.verifies)
                           \/ E.res = "ok" /\ to \in {"token", "ipld"} /\ E.same # "equal"
                           \/ E.res = "ok" /\ to = "cbor" /\ cbor # "" /\ E.cbor # cbor, "P15"))

\* E.must: "ok" a DID of a supported key or of another method, "err" not a DID, "any" neither
TPrin == /\ IsEv("prin") /\ UNCHANGED <<ivars, text, cbor>>
         /\ prins' = IF E.res = "ok" THEN prins \cup { <<E.did, E.p>> } ELSE prins
         /\ Blame(If(\/ E.must # "any" /\ E.res # E.must
                     \/ E.res \notin {"ok", "err"}
                     \/ E.res = "ok" /\ ( E.back # E.did \/ E.cborback # E.did
                                         \/ \E x \in prins : (x[1] = E.did) # (x[2] = E.p) ), "P15"))
\* a signature of algorithm E.alg and length E.n to prefixed form and back
TVarsig == /\ IsEv("varsig") /\ UNCHANGED <<ivars, tvars>>
           /\ Blame(If(IF E.alg \in JwtAlgs THEN E.res # "ok" \/ E.alg2 # E.alg \/ E.n2 # E.n \/ ~E.same ELSE E.res # "err", "P15"))
\* the number of a prefix and back
TPrefix == IsEv("prefix") /\ UNCHANGED <<ivars, tvars>> /\ Blame(If(E.res # "ok" \/ E.back # E.p, "P15"))
Next == TToken \/ TMove \/ TPrin \/ TVarsig \/ TPrefix
Spec == Init /\ [][Next]_<<ivars, tid, l, bad, tvars>>
=============================================================================
