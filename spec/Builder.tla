------------------------------- MODULE Builder -------------------------------
(* The token builder (P12; P06 for redelegation): requests made by calls on *)
(* builder handles, signables made from them, tokens signed.                *)
(*                                                                          *)
(* A request: issuer and audience ("" when missing), 1-based indices of the *)
(* lifetime, expiration and not-before asked for (0 when not), facts by key, *)
(* nonce, proofs <<token, hasher>>, claims <<resource, ability, caveat>>.    *)
(* Caveat "bad" is not an object, "{}" the empty one; fact value "bad" has   *)
(* no JSON form.                                                            *)
EXTENDS CapMap

CONSTANTS NoDid,      \* issuers whose DID cannot be determined
          Mute        \* issuers that refuse to sign

Empty == [ iss |-> "", aud |-> "", life |-> 0, exp |-> 0, nbf |-> 0, facts |-> <<>>,
           nonce |-> FALSE, prf |-> <<>>, caps |-> <<>>, del |-> FALSE ]

Hash(x) == IF x = "dflt" THEN "blake" ELSE x
Redel(i) == << "prf:" \o ToString(i), "ucan/DELEGATE", "{}" >>

\* effect of one call on a request
Call(r, o) ==
    CASE o.o = "iss"   -> [ r EXCEPT !.iss = o.x ]
      [] o.o = "aud"   -> [ r EXCEPT !.aud = o.x ]
      [] o.o = "life"  -> [ r EXCEPT !.life = o.n ]
      [] o.o = "exp"   -> [ r EXCEPT !.exp = o.n ]
      [] o.o = "nbf"   -> [ r EXCEPT !.nbf = o.n ]
      [] o.o = "fact"  -> IF o.y = "bad" THEN r ELSE [ r EXCEPT !.facts = (o.x :> o.y) @@ r.facts ]
      [] o.o = "nonce" -> [ r EXCEPT !.nonce = TRUE ]
      [] o.o = "wit"   -> [ r EXCEPT !.prf = Append(@, <<o.n, Hash(o.x)>>) ]
      [] o.o = "del"   -> [ r EXCEPT !.prf = Append(@, <<o.n, Hash(o.x)>>),
                                     !.caps = Append(@, Redel(Len(r.prf))),
                                     !.del = TRUE ]
      [] o.o = "claim" -> [ r EXCEPT !.caps = @ \o o.c ]

RECURSIVE Fold(_, _)
Fold(r, os) == IF os = <<>> THEN r ELSE Fold(Call(r, Head(os)), Tail(os))

BuildOk(r) == r.iss # "" /\ r.aud # ""
SignOk(r) == BuildOk(r) /\ r.iss \notin NoDid /\ r.iss \notin Mute /\ ListOk(r.caps)

\* how the expiry of the token comes about
ExpWhy(r) == IF r.exp # 0 THEN "e" \o ToString(r.exp)
             ELSE IF r.life # 0 THEN "l" \o ToString(r.life) ELSE "none"
NbfWhy(r) == IF r.nbf # 0 THEN "n" \o ToString(r.nbf) ELSE "none"
FactSet(r) == { <<k, r.facts[k]>> : k \in DOMAIN r.facts }

\* what the text of a token without nonce is determined by; e is its expiry
Canon(r, e) == [ iss |-> r.iss, aud |-> r.aud, exp |-> e, nbf |-> r.nbf, facts |-> FactSet(r),
                 prf |-> r.prf, caps |-> { <<k, Of(r.caps, k[1], k[2])>> : k \in Keys(r.caps) } ]

-----------------------------------------------------------------------------
VARIABLES hs,       \* handle -> request ("" : none)
          sg,       \* signables: [req, expv]
          texts     \* tokens signed: [canon, nonce, text]
vars == <<hs, sg, texts>>

Handles == 1..4
BInit == hs = [ h \in Handles |-> Empty ] /\ sg = << >> /\ texts = {}

DoCall(o)  == hs' = [ hs EXCEPT ![o.h] = Call(@, o) ] /\ UNCHANGED <<sg, texts>>
DoClone(o) == hs' = [ hs EXCEPT ![o.n] = hs[o.h] ] /\ UNCHANGED <<sg, texts>>
DoNew(o)   == hs' = [ hs EXCEPT ![o.h] = Empty ] /\ UNCHANGED <<sg, texts>>
\* the handle is used up; e is the expiry fixed at this time
DoBuild(o, e) == /\ hs' = [ hs EXCEPT ![o.h] = Empty ]
                 /\ sg' = IF BuildOk(hs[o.h]) THEN Append(sg, [ req |-> hs[o.h], expv |-> e ]) ELSE sg
                 /\ UNCHANGED texts
\* nonce text n ("" without nonce), token text t
DoSign(k, n, t) == /\ texts' = texts \cup { [ canon |-> Canon(sg[k].req, sg[k].expv), nonce |-> n, text |-> t ] }
                   /\ UNCHANGED <<hs, sg>>
\* what a newly signed token's text may be
TextOk(k, n, t) ==
    LET c == Canon(sg[k].req, sg[k].expv) IN
    IF sg[k].req.nonce
    THEN n # "none" /\ \A x \in texts : x.nonce # n /\ x.text # t
    ELSE n = "none" /\ \A x \in texts : (x.canon = c /\ x.nonce = "none") <=> (x.text = t)
=============================================================================
