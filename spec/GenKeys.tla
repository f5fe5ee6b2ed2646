-------------------------------- MODULE GenKeys --------------------------------
(* Random histories of naming, signing and verifying with several keys.     *)
EXTENDS Keys, IOUtils, Json
Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N == Env("G_N", 40)
VARIABLES ops, nsig, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(ops) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
One(x) == { TLCEval(x) }
Ids == {"ed1", "ed2", "ed3", "rsa1", "rsa2", "p2561", "p2562", "p2563"}
Own == { "direct", "box", "arc", "arcbox", "arcarc", "clone" }
Pub == { "ctor", "parsed", "cached", "public" }
Msgs == {"m1", "m2", "m3", "m4", "m5"}
Raws == { "intact", "flip", "flip2", "cut", "cuthead", "extend", "prepend", "empty", "zero", "doubled", "random", "half", "reverse", "der", "hex", "text", "little", "swap", "wrapped", "recovery" }
Op == LET k == Pick(1..10) IN
    CASE k <= 2 -> [ o |-> "did", k |-> Pick(Ids), via |-> Pick(Own \cup Pub) ]
      [] k <= 3 -> [ o |-> "alg", k |-> Pick(Ids), via |-> Pick(Own \cup Pub) ]
      [] k <= 6 \/ nsig = 0 -> [ o |-> "sign", k |-> Pick(Ids), via |-> IF Pick(1..6) = 1 THEN Pick(Pub) ELSE Pick(Own), m |-> Pick(Msgs) ]
      [] OTHER -> [ o |-> "verify", k |-> IF Pick(1..3) = 1 THEN "own" ELSE Pick(Ids), via |-> Pick(Own \cup Pub),
                    m |-> IF Pick(1..2) = 1 THEN "own" ELSE Pick(Msgs), n |-> Pick(1..nsig),
                    raw |-> IF Pick(1..3) # 1 THEN "intact" ELSE Pick(Raws) ]
Init == ops = <<>> /\ nsig = 0 /\ done = FALSE
Next == \/ ~done /\ Len(ops) < N /\ UNCHANGED done
           /\ \E o \in One(Op) : ops' = Append(ops, o) /\ nsig' = IF o.o = "sign" THEN nsig + 1 ELSE nsig
        \/ ~done /\ Len(ops) = N /\ done' = TRUE /\ UNCHANGED <<ops, nsig>>
           /\ PrintT("SCEN " \o ToJson([ kind |-> "history", ops |-> ops ]))
Spec == Init /\ [][Next]_<<ops, nsig, done>>
=============================================================================
