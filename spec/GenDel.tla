------------------------------- MODULE GenDel -------------------------------
(* Generator of behaviours of Verifier for replay on the implementation:    *)
(* run with TLC -simulate.  Every behaviour issues NTok tokens, then        *)
(* performs NOps store / validation operations; it is printed as JSON when  *)
(* complete.  Random draws are biased towards accepted chains with one or   *)
(* two faults; nothing here constrains the checks.                          *)
EXTENDS Verifier, TLC, IOUtils, Json

Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d

NTok   == Env("G_NTOK", 4)      \* tokens per world
NOps   == Env("G_NOPS", 4)      \* operations after issuing
PFault == Env("G_FAULT", 6)     \* percent: faulty token / missing proof
PRedel == Env("G_REDEL", 25)    \* percent: token with redelegation claims
PWild  == Env("G_WILD", 25)     \* percent: capability from the full universe
PMany  == Env("G_MANY", 3)      \* percent: token citing many proofs
MaxCl  == Env("G_CLAIMS", 3)
PHist  == Env("G_HIST", 30)     \* percent: store / time changes between validations
PConc  == Env("G_CONC", 0)      \* percent: interleaved validations
PTwin  == Env("G_TWIN", 1)      \* percent: audience nearly the DID of a principal
PHuge  == Env("G_HUGE", 0)      \* percent: token citing hundreds of proofs
PStolen == Env("G_STOLEN", 0)   \* percent: token carrying another one's signature
PFan   == Env("G_FAN", 0)       \* percent: worlds of many roots delegating to one audience
PDeep  == Env("G_DEEP", 0)      \* percent: worlds that are one long chain
PKeep  == Env("G_KEEP", 55)     \* percent: claim taken from what the proofs confer
Via    == Env("G_VIA", 0)       \* 1: tokens are made with the builder, so each is well-formed and signed
Wait   == Env("G_WAIT", 0)      \* 1: the clock moves on half way through
MaxT   == 4                     \* time ranks 0..MaxT

VARIABLES phase, ops, kind

\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF phase = "" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Chance(n) == Pick(1..100) <= n

Princ == {"A", "B", "C", "D", "E"}

\* texts that are nearly a principal's DID, and the principal they resemble
Twin(p, r) == << [ A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e" ],
                 [ A |-> "a'", B |-> "b'", C |-> "c'", D |-> "d'", E |-> "e'" ] >>[r][p]
Resembles(p) == IF p \in Princ \cup {"F", "G"} THEN p
                ELSE CHOOSE q \in Princ : p \in { Twin(q, 1), Twin(q, 2) }

Cap(fam, form, did, wild, path, ab, cav) ==
    [ fam |-> fam, form |-> form, did |-> did, wild |-> wild, path |-> path,
      ab |-> ab, bad |-> FALSE, cav |-> cav ]

X1 == <<"x", "v1">>  X2 == <<"x", "v2">>  Y1 == <<"y", "v1">>
Cavs  == { <<>>, <<X1>>, <<X2>>, <<X1, Y1>>, <<Y1>> }
Paths == { <<>>, <<"a">>, <<"a", "b">>, <<"ab">>, <<"b">> }
Forms == { <<"res", "">>, <<"my", "">>, <<"as", "A">>, <<"as", "B">>, <<"as", "a">> }

Near == { Cap("fs", "res", "", FALSE, p, a, c) :
            p \in { <<>>, <<"a">>, <<"a", "b">>, <<"b">> }, a \in {0, 1}, c \in { <<>>, <<X1>> } }
Far  == { Cap("fs", f[1], f[2], FALSE, p, a, c) : f \in Forms, p \in Paths, a \in 0..2, c \in Cavs }
        \cup { Cap("fs", f[1], f[2], TRUE, <<>>, a, c) : f \in Forms, a \in 0..2, c \in Cavs }
Mail == { Cap("mb", f[1], f[2], FALSE, <<p>>, a, c) : f \in Forms, p \in {"m1", "m2"}, a \in 0..1, c \in Cavs }

CapsOf(t) == { cl.c : cl \in { x \in ClaimsOf(t) : x.k = "cap" } }

RandCap(par) ==
    LET below == { c \in Near : \E d \in par : Enables(d, c) } IN
    IF par # {} /\ Chance(PKeep)
    THEN IF Chance(50) /\ below # {} THEN Pick(below)
         ELSE IF Chance(50) THEN Pick(par)
         ELSE LET far == { c \in Far \cup Mail : \E d \in par : Enables(d, c) } IN
              IF far = {} THEN Pick(Near) ELSE Pick(far)
    ELSE IF Chance(PWild) THEN (IF Chance(25) THEN Pick(Mail) ELSE Pick(Far)) ELSE Pick(Near)

RawClaim(par, nprf) ==
    IF nprf > 0 /\ Chance(PRedel)
    THEN IF Chance(30) THEN [ k |-> "all" ]
         ELSE IF nprf > 200 /\ Chance(80)
         THEN [ k |-> "idx", n |-> Pick({ 0, 1, 10, 100, 127, 128, 254, 255, 256, 257, nprf - 1 }) ]
         ELSE [ k |-> "idx", n |-> IF Chance(4) THEN nprf ELSE Pick(0..(nprf - 1)) ]
    ELSE IF Chance(1) THEN [ k |-> "idx", n |-> nprf ]
    ELSE IF Chance(8) THEN [ k |-> "junk", s |-> Pick(JunkKinds) ]
    ELSE [ k |-> "cap", c |-> RandCap(par) ]

\* a redelegation may carry caveats, which restrict nothing (cv: how many members)
RandCv == IF Chance(75) THEN 0 ELSE Pick(1..4)
RandClaim(par, nprf) ==
    LET r == TLCEval(RawClaim(par, nprf)) IN
    IF r.k = "all" THEN [ k |-> "all", cv |-> RandCv ] ELSE IF r.k = "idx" THEN [ k |-> "idx", n |-> r.n, cv |-> RandCv ] ELSE r

RECURSIVE RandClaims(_, _, _)
RandClaims(n, par, nprf) ==
    IF n = 0 THEN <<>> ELSE << RandClaim(par, nprf) >> \o RandClaims(n - 1, par, nprf)

Wins == ((-1)..MaxT) \X ((-1)..MaxT)
NiceWins(ps) ==
    { w \in Wins : \A p \in ps : Encloses(toks[p], [nbf |-> w[1], exp |-> w[2]]) }
    \cap { w \in Wins : w[1] = -1 \/ w[2] = -1 \/ w[1] <= w[2] }

Turning(ps) == { w \in NiceWins(ps) : w[1] = 2 \/ w[2] = 2 }
RandWin(ps) ==
    IF Wait = 1 /\ Chance(75) /\ Turning(ps) # {} THEN Pick(Turning(ps))
    ELSE IF Chance(IF kind = "fan" /\ ps = {} THEN (IF NTok > 10 THEN 97 ELSE 85) ELSE 40) /\ <<-1, -1>> \in NiceWins(ps) THEN <<-1, -1>>
    ELSE IF Chance(100 - PFault) /\ NiceWins(ps) # {} THEN Pick(NiceWins(ps))
    ELSE Pick(Wins)

Layouts == { "canon", "canon", "pretty", "reorder", "extra", "escaped", "header", "long" }

RandSig(iss) ==
    IF Via = 1 THEN << iss, "self", "intact" >>
    ELSE IF toks # <<>> /\ Chance(PStolen) THEN << iss, "stolen", "intact" >>
    ELSE IF Chance(100 - PFault) THEN << iss, "self", "intact" >>
    ELSE LET r == Pick(1..4) IN
         CASE r = 1 -> << Pick(Princ \ {iss}), "self", "intact" >>
           [] r = 2 -> << iss, Pick({ "stolen", "payload", "header", "other", "swap", "canon", "noheader", "nodot", "decoded", "head", "tail", "hash", "all" }), "intact" >>
           [] r = 3 -> << iss, "self", Pick({ "flip", "cut", "extend", "empty", "zero", "flip2", "doubled", "der", "hex", "text", "little", "swap", "wrapped", "recovery" }) >>
           [] OTHER -> << Pick(Princ \ {iss}), "self", "intact" >>

RECURSIVE RandPrf(_, _, _)
RandPrf(n, iss, cands) ==
    IF n = 0 THEN <<>>
    ELSE << IF Chance(PFault) /\ Chance(50) THEN (IF Via = 1 THEN Unknown ELSE Pick({BadCid, WrongCodec, Unknown}))
            ELSE IF Chance(PFault) \/ cands = {} THEN Pick(DOMAIN toks)
            ELSE Pick(cands) >> \o RandPrf(n - 1, iss, cands)

Real(prf) == { prf[i] : i \in DOMAIN prf } \cap DOMAIN toks

RandToken ==
    LET n == Len(toks) IN
    IF n = 0 \/ (kind = "mixed" /\ Chance(30)) \/ (kind = "fan" /\ n < NTok - 2)
    THEN \* a fresh root of authority
         { << Pick(IF kind = "fan" /\ NTok > 10 THEN Princ \cup {"F", "G"} ELSE Princ), <<>> >> }
    ELSE \* continue from an earlier token's audience
         LET base == IF kind = "deep" THEN n ELSE IF Chance(60) THEN n ELSE Pick(1..n)
             iss  == Resembles(toks[base].aud)
             cands == { i \in 1..n : toks[i].aud = iss }
             m == IF kind = "deep" THEN 1
                  ELSE IF kind = "fan" /\ n = NTok - 2 /\ PHuge = 0 THEN Pick((IF NTok > 10 THEN 9 ELSE 2)..(n + 1))
                  ELSE IF n = NTok - 1 /\ Chance(PHuge) THEN Pick(257..300)
                  ELSE IF Chance(PMany) THEN Pick(9..13) ELSE Pick({1, 2, 3})
         IN { << iss, IF m = 1 /\ ~Chance(PFault) THEN << base >> ELSE RandPrf(m, iss, cands) >> }

DoIssue ==
    /\ phase = "issue"
    /\ Len(toks) < NTok
    /\ \E ip \in { TLCEval(x) : x \in RandToken } :
       \E win \in { TLCEval(RandWin(Real(ip[2]))) } :
       \E par \in { UNION { CapsOf(toks[p]) : p \in IF kind = "fan" THEN DOMAIN toks ELSE Real(ip[2]) } } :
       \E cl  \in { TLCEval(RandClaims(Pick((IF kind = "fan" \/ PKeep > 90 THEN 1 ELSE 0)..MaxCl), par, Len(ip[2]))) } :
       \E sg  \in { TLCEval(RandSig(ip[1])) } :
       \E lay \in { TLCEval(IF sg[2] = "canon" THEN "pretty"
                           ELSE IF Chance(60) THEN "canon" ELSE Pick(Layouts)) } :
       \E aud \in { TLCEval(IF Chance(PTwin) THEN Twin(Pick(Princ), Pick({1, 2}))
                           ELSE IF kind = "fan" /\ Len(toks) < NTok - 2 /\ Chance(90) THEN "E"
                           ELSE IF Chance(12) THEN ip[1] ELSE Pick(Princ)) } :
       \E iss \in { TLCEval(IF Via = 0 /\ sg[2] = "self" /\ Chance(PFault) /\ Chance(20) /\ ip[1] \in Princ
                           THEN Twin(ip[1], Pick({1, 2})) ELSE ip[1]) } :
          Issue([ iss |-> iss, aud |-> aud, nbf |-> win[1], exp |-> win[2],
                  prf |-> ip[2], claims |-> cl, by |-> sg[1], over |-> sg[2],
                  raw |-> sg[3], lay |-> lay,
                  hdr |-> IF Chance(90) THEN "own" ELSE Pick({ "none", "None", "hmac", "other", "empty" }),
                  fct |-> Chance(15) ])
    /\ UNCHANGED <<phase, ops, kind>>

\* how the library enters, and whether the time is given or left to the clock
Entries4 == { "str", "ucan", "cid" }

DoStart ==
    /\ phase = "issue" /\ Len(toks) = NTok
    /\ phase' = "ops"
    /\ \E held \in { TLCEval({ i \in DOMAIN toks : Chance(PFault) }) } :
          /\ store' = DOMAIN toks \ held
          /\ ops' = << [ op |-> "putall", held |-> held ] >>
    /\ UNCHANGED <<toks, vs, kind>>

RandRoot == IF kind = "fan" /\ Chance(40) THEN NTok - 1 ELSE IF Chance(70) THEN NTok ELSE Pick(1..NTok)
GoodNow(i) == { n \in 0..MaxT : InWindow(toks[i], n) }
RandNow(i) == IF Chance(80) /\ GoodNow(i) # {} THEN Pick(GoodNow(i)) ELSE Pick(0..MaxT)

OpVer == \E i \in { TLCEval(RandRoot) } : \E n \in { TLCEval(RandNow(i)) } :
            \E m \in { TLCEval(IF Wait = 1 THEN Pick({"clock", "clock", "clock", "given"}) ELSE Pick({"given", "given", "given", "clock"})) } :
            \E e \in { TLCEval(Pick(Entries4)) } :
            /\ ops' = Append(ops, [ op |-> "ver", v |-> 1, i |-> i, now |-> n, mode |-> m, entry |-> e ])
            /\ UNCHANGED store

OpOne == \E i \in { TLCEval(RandRoot) } : \E n \in { TLCEval(Pick(0..MaxT)) } :
            \E o \in { TLCEval(Pick({ "sig", "val", "exp", "early", "enc" })) } :
            \E j \in { TLCEval(Pick(1..NTok)) } :
            /\ ops' = Append(ops, [ op |-> o, i |-> i, j |-> j, now |-> n,
                                    mode |-> IF n = 0 \/ (Wait = 1 /\ Chance(80)) THEN "clock" ELSE "given" ])
            /\ UNCHANGED store

OpStore == \E i \in { TLCEval(Pick(1..NTok)) } :
            IF i \in store
            THEN ops' = Append(ops, [ op |-> "del", i |-> i ]) /\ store' = store \ {i}
            ELSE ops' = Append(ops, [ op |-> "put", i |-> i ]) /\ store' = store \cup {i}

OpHold == \E held \in { DOMAIN toks \ store } : held # {} /\
            \E i \in { TLCEval(Pick(held)) } :
               ops' = Append(ops, [ op |-> "put", i |-> i ]) /\ store' = store \cup {i}

OpConc == \E i \in { TLCEval(RandRoot) } : \E n \in { TLCEval(RandNow(i)) } :
            \E v \in { TLCEval(Pick({1, 2, 3})) } :
            \E o \in { TLCEval(IF Chance(30) THEN "begin" ELSE "step") } :
            /\ ops' = Append(ops, [ op |-> o, v |-> v, i |-> i, now |-> n, mode |-> "given",
                                    entry |-> "ucan" ])
            /\ UNCHANGED store

DoOp ==
    /\ phase = "ops" /\ Len(ops) <= NOps
    /\ \E r \in { TLCEval(Pick(1..100)) } :
         IF Wait = 1 /\ Len(ops) = NOps \div 2
         THEN ops' = Append(ops, [ op |-> "wait" ]) /\ UNCHANGED store
         ELSE IF r <= PHist THEN (IF DOMAIN toks \ store # {} /\ Chance(50) THEN OpHold ELSE OpStore)
         ELSE IF r <= PHist + PConc THEN OpConc
         ELSE IF r <= PHist + PConc + 15 THEN OpOne
         ELSE OpVer
    /\ UNCHANGED <<toks, vs, phase, kind>>

DoEmit ==
    /\ phase = "ops" /\ Len(ops) > NOps
    /\ PrintT("SCEN " \o ToJson([ toks |-> toks, ops |-> ops, via |-> IF Via = 1 THEN "builder" ELSE "text" ]))
    /\ phase' = "done"
    /\ UNCHANGED <<toks, store, vs, ops, kind>>

Init == /\ toks = <<>> /\ store = {} /\ vs = [ v \in Slots |-> Idle ]
        /\ phase = "kind" /\ ops = <<>> /\ kind = ""
DoKind ==
    /\ phase = "kind" /\ phase' = "issue"
    /\ \E k \in { TLCEval(IF Chance(PDeep) THEN "deep" ELSE IF Chance(PFan) THEN "fan" ELSE "mixed") } : kind' = k
    /\ UNCHANGED <<vars, ops>>

Next == DoKind \/ DoIssue \/ DoStart \/ DoOp \/ DoEmit
Spec == Init /\ [][Next]_<<vars, phase, ops, kind>>
=============================================================================
