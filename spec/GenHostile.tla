------------------------------ MODULE GenHostile ------------------------------
(* Random programs over data from others: several values of several sources, *)
(* used in any order, and reused.                                            *)
EXTENDS Hostile, IOUtils, Json
Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N == Env("G_N", 30)
PLAIN == Env("G_PLAIN", 60)     \* per cent of aspects left as they are
VARIABLES steps, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(steps) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
One(x) == { TLCEval(x) }
Shape(src, z) == [ a \in Aspects(src) |-> IF Pick(1..100) <= PLAIN THEN Plain(src)[a] ELSE Pick(Forms(src, a)) ]
Able(z) == { x \in (DOMAIN Op) \X (DOMAIN vals) : Op[x[1]][1] = vals[x[2]] }
GInit == Init /\ steps = <<>> /\ done = FALSE
\* the generator supposes that every call succeeds
GMake == \E src \in One(Pick(Sources)) : \E sh \in One(Shape(src, 0)) :
            /\ vals' = Append(vals, src) /\ UNCHANGED <<pending, done>>
            /\ steps' = Append(steps, [ o |-> "make", src |-> src, shape |-> sh ])
GCall == \E x \in One(Pick(Able(0))) :
            /\ vals' = (IF Op[x[1]][2] = "none" THEN vals ELSE Append(vals, Op[x[1]][2])) /\ UNCHANGED <<pending, done>>
            /\ steps' = Append(steps, [ o |-> x[1], k |-> x[2], gives |-> Op[x[1]][2] # "none" ])
GNext == \/ ~done /\ Len(steps) < N /\ (Len(vals) < 3 \/ Pick(1..100) <= 15) /\ GMake
         \/ ~done /\ Len(steps) < N /\ Len(vals) >= 3 /\ Able(0) # {} /\ GCall
         \/ ~done /\ Len(steps) = N /\ done' = TRUE /\ UNCHANGED <<vals, pending, steps>> /\ PrintT("SCEN " \o ToJson([ steps |-> steps ]))
GSpec == GInit /\ [][GNext]_<<vals, pending, steps, done>>
=============================================================================
