----------------------------- MODULE Delegation -----------------------------
(* Tokens, the acceptance of a proof chain, and the meaning of reducing it. *)
(*                                                                          *)
(* A token world is a sequence `toks`; a token cites earlier tokens by      *)
(* position (content addressing makes every citation graph acyclic).        *)
(* Token record:                                                            *)
(*   iss, aud   : principals                                                *)
(*   nbf, exp   : ranks on a discrete time line, NoBound when absent        *)
(*   prf        : cited positions in order; BadCid / WrongCodec / Unknown   *)
(*                are citations that can never be served                    *)
(*   claims     : sequence of claims                                        *)
(*   by         : principal whose private key made the signature            *)
(*   over       : what was signed: "self" is the exact header and payload   *)
(*                text of the token, anything else a different text         *)
(*   raw        : what became of the signature bytes: "intact" or damaged   *)
(*   lay        : JSON layout of the token text (no influence on meaning)   *)
(*   hdr, fct   : algorithm the header names, whether there are facts (none *)
(*                either)                                                   *)
(* Claim record: k = "cap" (with c: capability), "idx" (redelegate proof n),*)
(* "all" (redelegate every proof), "junk" (anything else).                  *)
EXTENDS Caps

(* claims that are neither a capability under the semantics in use nor a   *)
(* redelegation, however much they resemble one                             *)
JunkKinds == { "prf0read", "prfneg", "prfempty", "prfword", "prf0none", "xdeleg", "starother",
               "notauri", "foreign", "myprf", "asprf", "prflow", "prfslash", "badability", "nodid",
               "myprfall", "myall", "asprfall", "asall", "prfstarread", "prfallnone", "prfstar0", "prf0star",
               "prfstarany", "prf0any", "prfcomma" }

NoBound    == -1
BadCid     == 0
WrongCodec == -1
Unknown    == -2

SigOk(t) == t.by = t.iss /\ t.over = "self" /\ t.raw = "intact"

Expired(t, now)  == t.exp # NoBound /\ t.exp < now
TooEarly(t, now) == t.nbf # NoBound /\ t.nbf > now
InWindow(t, now) == ~Expired(t, now) /\ ~TooEarly(t, now)

Encloses(p, t) ==
    /\ p.nbf = NoBound \/ (t.nbf # NoBound /\ p.nbf <= t.nbf)
    /\ p.exp = NoBound \/ (t.exp # NoBound /\ p.exp >= t.exp)

LinkOk(p, t) == p.aud = t.iss /\ Encloses(p, t)

ClaimsOf(t) == { t.claims[i] : i \in DOMAIN t.claims }

(* zero-based positions explicitly named, and whether all are redelegated *)
NamedIdx(t) == { cl.n : cl \in { x \in ClaimsOf(t) : x.k = "idx" } }
RedelAll(t) == \E cl \in ClaimsOf(t) : cl.k = "all"
IdxOk(t)    == \A n \in NamedIdx(t) : n < Len(t.prf)
IsRedel(t, i) == RedelAll(t) \/ (i - 1) \in NamedIdx(t)      \* i is one-based

Local(t, now) == SigOk(t) /\ InWindow(t, now) /\ IdxOk(t)

(* Acceptance of toks[r] when exactly the tokens in `served` can be fetched *)
RECURSIVE Accept(_, _, _, _)
Accept(toks, served, r, now) ==
    LET t == toks[r] IN
    /\ Local(t, now)
    /\ \A i \in DOMAIN t.prf :
         LET p == t.prf[i] IN
         /\ p \in served
         /\ LinkOk(toks[p], t)
         /\ Accept(toks, served, p, now)

(* Tokens reachable from r, r included, not looking beyond unserved ones *)
RECURSIVE Reach(_, _)
Reach(toks, r) ==
    {r} \cup UNION { IF p > 0 THEN Reach(toks, p) ELSE {} :
                     p \in { toks[r].prf[i] : i \in DOMAIN toks[r].prf } }

(* The chain the library is expected to build: <<id, <<chains of proofs>>>> *)
RECURSIVE Shape(_, _)
Shape(toks, r) ==
    << r, [ i \in DOMAIN toks[r].prf |-> Shape(toks, toks[r].prf[i]) ] >>

-----------------------------------------------------------------------------
(* Meaning of reduction under the semantics of family `fam`: the set of     *)
(* pairs <<capability, originator>> the chain rooted at r confers.          *)
Own(t, fam) == { cl.c : cl \in { x \in ClaimsOf(t) : x.k = "cap" /\ x.c.fam = fam } }

RECURSIVE Info(_, _, _)
Info(toks, r, fam) ==
    LET t   == toks[r]
        Sub == [ i \in DOMAIN t.prf |-> Info(toks, t.prf[i], fam) ]
        inh == UNION { Sub[i] : i \in { j \in DOMAIN t.prf : ~IsRedel(t, j) } }
        red == UNION { Sub[i] : i \in { j \in DOMAIN t.prf : IsRedel(t, j) } }
        src(c) == { x[2] : x \in { y \in inh : Enables(y[1], c) } }
        own == UNION { IF src(c) = {} THEN { <<c, t.iss>> }
                                      ELSE { <<c, o>> : o \in src(c) } :
                       c \in Own(t, fam) }
    IN own \cup red

Covers(S, x) == \E y \in S : y[2] = x[2] /\ Enables(y[1], x[1])
MutualCover(S, T) == (\A x \in S : Covers(T, x)) /\ (\A x \in T : Covers(S, x))

-----------------------------------------------------------------------------
(* Path formulation of P04, independent of Info: O is a legitimate source   *)
(* of C at r iff there is an unbroken path of tokens from one issued by O.  *)
(* Conf(r, c): the pairs by which the chain at r confers capability c.      *)
RECURSIVE Legit(_, _, _, _, _)
Legit(toks, r, fam, o, c) ==
    LET t == toks[r]
        kept == { j \in DOMAIN t.prf : ~IsRedel(t, j) } IN
    \/ \E d \in Own(t, fam) :
         /\ Enables(d, c)
         /\ \/ /\ o = t.iss
               /\ \A j \in kept : \A q \in { toks[x].iss : x \in Reach(toks, t.prf[j]) } :
                     ~Legit(toks, t.prf[j], fam, q, d)
            \/ \E j \in kept : Legit(toks, t.prf[j], fam, o, d)
    \/ \E j \in DOMAIN t.prf \ kept : Legit(toks, t.prf[j], fam, o, c)

-----------------------------------------------------------------------------
(* The reduction algorithm as implemented (claims in map order, stack-wise  *)
(* merge).  An info is [c |-> capability, o |-> set of originators].        *)
(* MergeRule "guarded" is the implemented rule; "greedy" folds a narrower   *)
(* entry into any broader one (kept as a regression of the design).         *)
CanFold(rule, broad, info) ==
    /\ Enables(broad.c, info.c)
    /\ rule = "guarded" => Enables(info.c, broad.c) \/ info.o \subseteq broad.o

RECURSIVE Merge(_, _, _)
Merge(rule, work, done) ==
    IF work = <<>> THEN done
    ELSE LET info == work[Len(work)]
             rest == SubSeq(work, 1, Len(work) - 1)
             hits == { i \in DOMAIN rest : CanFold(rule, rest[i], info) }
         IN IF hits = {} THEN Merge(rule, rest, Append(done, info))
            ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
                 IN Merge(rule, [ rest EXCEPT ![i].o = @ \cup info.o ], done)

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))

RECURSIVE ReduceAlg(_, _, _, _)
ReduceAlg(rule, toks, r, fam) ==
    LET t    == toks[r]
        subs == [ i \in DOMAIN t.prf |-> ReduceAlg(rule, toks, t.prf[i], fam) ]
        inh  == ConcatAll([ i \in DOMAIN t.prf |-> IF IsRedel(t, i) THEN <<>> ELSE subs[i] ])
        red  == ConcatAll([ i \in DOMAIN t.prf |-> IF IsRedel(t, i) THEN subs[i] ELSE <<>> ])
        mine == SelectSeq(t.claims, LAMBDA x : x.k = "cap" /\ x.c.fam = fam)
        src(c) == UNION { inh[i].o : i \in { j \in DOMAIN inh : Enables(inh[j].c, c) } }
        own  == [ i \in DOMAIN mine |->
                    [ c |-> mine[i].c,
                      o |-> IF src(mine[i].c) = {} THEN {t.iss} ELSE src(mine[i].c) ] ]
    IN Merge(rule, own \o red, <<>>)

Pairs(infos) == UNION { { <<infos[i].c, o>> : o \in infos[i].o } : i \in DOMAIN infos }
=============================================================================
