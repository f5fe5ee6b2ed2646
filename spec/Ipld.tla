--------------------------------- MODULE Ipld ---------------------------------
(* The forms a token can take and the conversions between them (P15).       *)
(* The content of a token (version, issuer, audience, window, facts, nonce,  *)
(* proofs, capabilities, algorithm, signature) is the same in every form,    *)
(* and so is the text it has in the forms that have one.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Forms == { "token", "text", "ipld", "cbor", "value" }
\* conversion -> form it starts from, form it leads to
Moves == [ encode   |-> <<"token", "text">>,  parse    |-> <<"text", "token">>,
           toipld   |-> <<"token", "ipld">>,  fromipld |-> <<"ipld", "token">>,
           tocbor   |-> <<"ipld", "cbor">>,   fromcbor |-> <<"cbor", "ipld">>,
           tovalue  |-> <<"ipld", "value">>,  fromvalue |-> <<"value", "ipld">> ]
JwtAlgs == { "EdDSA", "RS256", "ES256", "ES384", "ES512" }

\* a token whose principals are DIDs and whose algorithm has a prefix has an IPLD form
Convertible(alg, audIsDid) == alg \in JwtAlgs /\ audIsDid

VARIABLES form, content
ivars == <<form, content>>
Move(m, conv) == /\ form = Moves[m][1]
                 /\ m = "toipld" => conv
                 /\ form' = Moves[m][2]
                 /\ UNCHANGED content

-----------------------------------------------------------------------------
(* Principals.  A DID is [key |-> TRUE, b |-> bytes] for did:key, or the     *)
(* text after "did:" as [key |-> FALSE, b |-> bytes]; Mark is the marker of  *)
(* the latter kind.                                                          *)
Starts(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Refused == "refused"
ToPrincipal(d, Mark) == IF ~d.key THEN [ r |-> "ok", b |-> Mark \o d.b ]
                        ELSE IF Starts(Mark, d.b) THEN [ r |-> Refused, b |-> <<>> ]
                        ELSE [ r |-> "ok", b |-> d.b ]
FromPrincipal(b, Mark) == IF Starts(Mark, b) THEN [ key |-> FALSE, b |-> SubSeq(b, Len(Mark) + 1, Len(b)) ]
                          ELSE [ key |-> TRUE, b |-> b ]

-----------------------------------------------------------------------------
(* Signatures: a variable-length number for the algorithm, one for the       *)
(* length, then the bytes.  Digits of numbers are base D, D added to all but *)
(* the last.                                                                 *)
RECURSIVE VarInt(_, _)
VarInt(n, D) == IF n < D THEN <<n>> ELSE << (n % D) + D >> \o VarInt(n \div D, D)
RECURSIVE ReadInt(_, _)
ReadInt(s, D) ==       \* [n, rest], n = -1 when cut short
    IF s = <<>> THEN [ n |-> -1, rest |-> <<>> ]
    ELSE IF Head(s) < D THEN [ n |-> Head(s), rest |-> Tail(s) ]
    ELSE LET r == ReadInt(Tail(s), D) IN
         IF r.n = -1 THEN r ELSE [ n |-> r.n * D + (Head(s) - D), rest |-> r.rest ]
EncSig(code, sig, D) == VarInt(code, D) \o VarInt(Len(sig), D) \o sig
DecSig(s, Codes, D) ==
    LET c == ReadInt(s, D)
        k == ReadInt(c.rest, D)
    IN IF c.n \notin Codes \/ k.n = -1 \/ k.n > Len(k.rest) THEN [ r |-> "err" ]
       ELSE [ r |-> "ok", code |-> c.n, sig |-> SubSeq(k.rest, 1, k.n) ]
=============================================================================
