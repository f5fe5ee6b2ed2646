------------------------------ MODULE TraceBuild ------------------------------
(* Validates recorded builder histories against Builder (P12, P06).         *)
EXTENDS Builder, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, bad
Ev == Traces[tid].ev
E  == Ev[l]
Algs == Traces[tid].algs

Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ BInit
IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))
If(p, x) == IF p THEN {x} ELSE {}
In(x, s) == \E i \in DOMAIN s : s[i] = x

TCall == IsEv("call") /\ DoCall(E.op) /\ Blame(If(E.res # "ok", "P12"))
TClone == IsEv("clone") /\ DoClone(E.op) /\ Blame(If(E.res # "ok", "P12"))
TWait == IsEv("wait") /\ UNCHANGED vars /\ Blame({})
TBuild ==
    /\ IsEv("build")
    /\ LET r == hs[E.op.h] IN
       Blame(If(E.res # (IF BuildOk(r) THEN "ok" ELSE "err") \/ (E.res = "ok" /\ ~In(ExpWhy(r), E.exp)), "P12"))
    /\ DoBuild(E.op, E.expv)

SameList(a, b) == a = b
Says(r, o) ==
    /\ o.iss = r.iss /\ o.aud = r.aud /\ o.alg = Algs[r.iss]
    /\ In(ExpWhy(r), o.exp) /\ In(NbfWhy(r), o.nbf)
    /\ { <<o.facts[i][1], o.facts[i][2]>> : i \in DOMAIN o.facts } = FactSet(r)
    /\ Len(o.facts) = Cardinality(FactSet(r))
    /\ o.prf = r.prf
    /\ SameEntries(r.caps, o.caps)

\* E.out is what the token's accessors say, E.raw what its text says
TSign ==
    /\ IsEv("sign")
    /\ IF E.op.n > Len(sg) THEN UNCHANGED vars /\ Blame({"P12"})
       ELSE LET r == sg[E.op.n].req
                ok == SignOk(r)
            IN /\ Blame(IF ~ok THEN If(E.res # "err", "P12")
                        ELSE IF E.res # "ok" THEN {"P12"}
                        ELSE If(~Says(r, E.out) \/ ~Says(r, E.raw) \/ ~E.verifies \/ ~E.reparses
                                \/ ~TextOk(E.op.n, E.nonce, E.text), "P12")
                             \cup If(r.del /\ (E.out.prf # r.prf \/ ~SameEntries(r.caps, E.out.caps)), "P06"))
               /\ IF E.res = "ok" THEN DoSign(E.op.n, E.nonce, E.text) ELSE UNCHANGED vars

Next == TCall \/ TClone \/ TWait \/ TBuild \/ TSign
Spec == Init /\ [][Next]_<<vars, tid, l, bad>>
=============================================================================
