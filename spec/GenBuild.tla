------------------------------- MODULE GenBuild -------------------------------
(* Random histories of builder calls on several handles, with clones,       *)
(* builds and repeated signatures (run with -simulate).                     *)
EXTENDS Builder, IOUtils, Json

Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N     == Env("G_N", 30)
PBad  == Env("G_BAD", 4)
PWait == Env("G_WAIT", 0)

VARIABLES ops, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(ops) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Chance(n) == Pick(1..100) <= n
C(o, h, n, x, y, c) == [ o |-> o, h |-> h, n |-> n, x |-> x, y |-> y, c |-> c ]

RECURSIVE RandClaims(_)
RandClaims(n) == IF n = 0 THEN <<>> ELSE
    << << Pick({"r1", "r2", "r3"}), Pick({"a1", "a2"}),
          IF Chance(PBad) THEN "bad" ELSE Pick({"{}", "c1", "c2"}) >> >> \o RandClaims(n - 1)

RandCall(h) ==
    LET k == Pick(1..20) IN
    CASE k <= 2 -> C("iss", h, 0, IF Chance(PBad) THEN Pick({"F", "M"}) ELSE Pick({"A", "B", "C", "D", "E"}), "", <<>>)
      [] k = 3 -> C("aud", h, 0, Pick({"A", "B", "C", "W"}), "", <<>>)
      [] k = 4 -> C("life", h, Pick(1..7), "", "", <<>>)
      [] k = 5 -> C("exp", h, Pick(1..7), "", "", <<>>)
      [] k = 6 -> C("nbf", h, Pick(1..7), "", "", <<>>)
      [] k \in 7..10 -> C("fact", h, 0, Pick({"k1", "k2", "k3"}), IF Chance(PBad) THEN "bad" ELSE Pick({"v1", "v2", "v3", "v4"}), <<>>)
      [] k = 11 -> IF Chance(30) THEN C("nonce", h, 0, "", "", <<>>) ELSE C("aud", h, 0, "B", "", <<>>)
      [] k \in 12..13 -> C("wit", h, Pick(1..3), Pick({"dflt", "sha", "blake", "sha512"}), "", <<>>)
      [] k \in 14..16 -> C("del", h, Pick(1..3), Pick({"dflt", "dflt", "sha", "blake"}), "", <<>>)
      [] OTHER -> C("claim", h, 0, Pick({"one", "many"}), "", TLCEval(RandClaims(Pick(0..3))))

Do(o) == ops' = Append(ops, o)
One(x) == { TLCEval(x) }
GCall(h) == \E o \in One(RandCall(h)) : DoCall(o) /\ Do(o)
GStep ==
    \E h \in One(Pick(1..3)), d \in One(Pick(1..100)) :
    CASE d <= 12 /\ ~BuildOk(hs[h]) ->         \* make handles complete
           \E o \in One(IF hs[h].iss = "" THEN C("iss", h, 0, Pick({"A", "B", "C"}), "", <<>>)
                        ELSE C("aud", h, 0, Pick({"B", "C"}), "", <<>>)) : DoCall(o) /\ Do(o)
      [] d \in 13..20 -> \E o \in One(C("clone", h, Pick(1..4), "", "", <<>>)) : DoClone(o) /\ Do(o)
      [] d \in 21..28 /\ (BuildOk(hs[h]) \/ d = 21) ->
           \E o \in One(C("build", h, 0, "", "", <<>>)) : DoBuild(o, ExpWhy(hs[h])) /\ Do(o)
      [] d \in 29..40 /\ sg # <<>> ->
           \E k \in One(Pick(DOMAIN sg)) : DoSign(k, "none", "?") /\ Do(C("sign", 0, k, "", "", <<>>))
      [] d \in 41..(40 + PWait) -> Do(C("wait", 0, 0, "", "", <<>>)) /\ UNCHANGED vars
      [] OTHER -> GCall(h)

RECURSIVE Finishing(_, _)
Finishing(n, k) == IF k > n THEN <<>> ELSE << C("sign", 0, k, "", "", <<>>) >> \o Finishing(n, k + 1)
Ready(h) == BuildOk(hs[h])
Tail4 ==
    LET bs(h) == IF Ready(h) THEN << C("build", h, 0, "", "", <<>>) >> ELSE <<>>
        cnt == Cardinality({ h \in Handles : Ready(h) })
    IN bs(1) \o bs(2) \o bs(3) \o bs(4) \o Finishing(Len(sg) + cnt, 1)

Init == BInit /\ ops = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(ops) < N /\ GStep /\ UNCHANGED done
        \/ ~done /\ Len(ops) >= N /\ done' = TRUE /\ UNCHANGED <<vars, ops>>
           /\ PrintT("SCEN " \o ToJson([ ops |-> ops \o Tail4 ]))
Spec == Init /\ [][Next]_<<vars, ops, done>>
=============================================================================
