-------------------------------- MODULE GenDid --------------------------------
(* Random histories of DID parsers over a pool of DIDs (run with -simulate). *)
EXTENDS Did, IOUtils, Json

Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N    == Env("G_N", 30)        \* resolutions
Pool == Env("G_POOL", 12)     \* DIDs
NP   == Env("G_PARSERS", 2)
Loop == Env("G_LOOP", 0)      \* go through the whole pool over and over instead
Real == Env("G_REAL", 50)     \* percent: the library's own key types

VARIABLES ops, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(ops) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Chance(n) == Pick(1..100) <= n
One(x) == { TLCEval(x) }

RealTypes == {"ed", "rsa", "p256"}
RecTypes == {"r1", "r2", "r3"}
Types == RealTypes \cup RecTypes \cup {"secp", "other"}
Forms == { "noz", "upper", "lead", "trail", "web", "badchar", "frag", "one", "nothing", "multi", "bare", "slash" }

RandDid(i) ==
    LET k == Pick(1..100) IN
    [ form |-> IF Chance(75) THEN "key" ELSE Pick(Forms),
      ty |-> IF Chance(Real) THEN Pick(RealTypes) ELSE IF Chance(85) THEN Pick(RecTypes) ELSE Pick(Types),
      \* intact, damaged, or close to another DID of the pool
      how |-> IF k <= 45 THEN "intact"
              ELSE IF k <= 75 /\ i > 1 THEN Pick({"case", "lastbyte", "firstbyte", "longer", "shorter", "retype"})
              ELSE Pick({"cut", "extend", "flip", "empty", "zeros", "alt", "twice", "inner", "hex", "base58", "wrap"}),
      of |-> IF i > 1 THEN Pick(1..(i - 1)) ELSE 1 ]

RECURSIVE RandPool(_)
RandPool(i) == IF i > Pool THEN <<>> ELSE << TLCEval(RandDid(i)) >> \o RandPool(i + 1)
RandReg(z) == [ p \in 1..NP |-> { t \in RealTypes \cup RecTypes : Chance(IF NP = 1 THEN 100 ELSE 80) } ]

Init == ops = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(ops) < N /\ UNCHANGED done
           /\ \E d \in One(IF Loop = 1 THEN 1 + (Len(ops) % Pool) ELSE Pick(1..Pool)), p \in One(Pick(1..NP)) :
                 ops' = Append(ops, [ p |-> p, d |-> d ])
        \/ ~done /\ Len(ops) = N /\ done' = TRUE /\ UNCHANGED ops
           /\ PrintT("SCEN " \o ToJson([ pool |-> RandPool(1), regs |-> RandReg(0), ops |-> ops ]))
Spec == Init /\ [][Next]_<<ops, done>>
=============================================================================
