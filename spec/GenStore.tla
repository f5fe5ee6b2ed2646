------------------------------- MODULE GenStore -------------------------------
(* Random operations of several threads on a store, to be run one after     *)
(* another or in parallel (run with -simulate).                             *)
EXTENDS Store, IOUtils, Json

Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N  == Env("G_N", 20)
NT == Env("G_THREADS", 3)
NC == Env("G_CONTENTS", 6)
Par == Env("G_PAR", 0)
Bulk == Env("G_BULK", 0)        \* begin by writing every content once

VARIABLES ops, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(ops) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Chance(n) == Pick(1..100) <= n
One(x) == { TLCEval(x) }

\* biased towards contents written not long ago
Near == LET W == mem IN
        IF W # {} /\ Chance(70) THEN Pick(W) ELSE Pick(1..NC)
RandAddr == [ c |-> Near, codec |-> IF Chance(88) THEN "raw" ELSE Pick({"cbor", "pb", "json", "identity0"}),
              hash |-> IF Chance(90) THEN "blake3" ELSE Pick({"sha256", "blake2", "short", "id"}) ]
RandOp == LET k == Pick(1..20) IN
    CASE k <= 8 -> LET c == IF Chance(30) THEN Near ELSE Pick(1..NC) IN
                   [ o |-> IF Chance(50) THEN "write" ELSE "writetok", c |-> c ]
      [] k = 9 -> [ o |-> "badwrite", c |-> 0 ]
      [] k \in 10..13 -> [ o |-> "read", a |-> RandAddr ]
      [] k \in 14..17 -> [ o |-> "readtok", a |-> RandAddr ]
      [] OTHER -> [ o |-> "require", a |-> RandAddr ]
\* text written as a token, anything else as bytes
Fit(op, ks) == IF op.o = "writetok" /\ ks[op.c] = "bin" THEN [ op EXCEPT !.o = "write" ] ELSE op

Init == /\ kind \in { TLCEval([ c \in 1..NC |-> IF RandomElement(1..100 + 0 * i) <= 75 THEN "text" ELSE "bin" ]) : i \in 1..20 }
        /\ mem = {} /\ pend = [ t \in Threads |-> Idle ] /\ ops = <<>> /\ done = FALSE
Next == \/ /\ ~done /\ Len(ops) < N /\ UNCHANGED <<pend, done, kind>>
           /\ \E t \in One(Pick(1..NT)), o \in One(IF Bulk = 1 /\ Len(ops) < NC
                                             THEN Fit([ o |-> IF Chance(50) THEN "write" ELSE "writetok", c |-> Len(ops) + 1 ], kind)
                                             ELSE Fit(RandOp, kind)) :
                 ops' = Append(ops, [ t |-> t, op |-> o ]) /\ mem' = Effect(o, mem)
        \/ /\ ~done /\ Len(ops) = N /\ done' = TRUE /\ UNCHANGED <<vars, ops>>
           /\ PrintT("SCEN " \o ToJson([ kinds |-> kind, ops |-> ops, par |-> Par,
                post |-> [ c \in 1..NC |-> [ t |-> 8, op |-> [ o |-> "read", a |-> Addr(c) ] ] ] ]))
Spec == Init /\ [][Next]_<<vars, ops, done>>
=============================================================================
