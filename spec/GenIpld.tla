-------------------------------- MODULE GenIpld --------------------------------
(* Random tokens walked through their forms, sets of DIDs turned into        *)
(* principals, and signatures of many lengths.                               *)
EXTENDS Ipld, IOUtils, Json
Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N == Env("G_N", 12)
KIND == Env("G_KIND", 0)
VARIABLES path, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(path) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
One(x) == { TLCEval(x) }
Opt(z) == [ key |-> Pick({"ed", "ed", "rsa", "p256", "custom"}), exp |-> Pick({"none", "exp", "max"}), nbf |-> Pick({TRUE, FALSE}),
         nnc |-> Pick({TRUE, FALSE}), fct |-> Pick({"none", "flat", "deep", "lots"}), prf |-> Pick((0..3) \cup {4, 5, 9, 17}), cap |-> Pick({"none", "one", "many", "lots"}),
         aud |-> Pick({"key", "web", "odd", "notdid"}) ]
Init == path = <<>> /\ form = "token" /\ content = 0 /\ done = FALSE
Next == \/ ~done /\ Len(path) < N /\ UNCHANGED done
           /\ IF KIND = 0 THEN \E m \in One(Pick({ x \in DOMAIN Moves : Moves[x][1] = form })) : Move(m, TRUE) /\ path' = Append(path, m)
              ELSE path' = Append(path, "x") /\ UNCHANGED ivars
        \/ ~done /\ Len(path) = N /\ done' = TRUE /\ UNCHANGED <<path, ivars>>
           /\ \E o \in One(Opt(0)) : PrintT("SCEN " \o ToJson(
                [ kind |-> IF KIND = 0 THEN "walk" ELSE IF KIND = 1 THEN "prin" ELSE "varsig", opt |-> o, path |-> IF KIND = 0 THEN path ELSE <<>>, n |-> N ]))
Spec == Init /\ [][Next]_<<path, done, ivars>>
=============================================================================
