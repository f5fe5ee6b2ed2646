-------------------------------- MODULE GenCaps --------------------------------
(* Random sets of capabilities of one family, for pairwise comparison on    *)
(* the implementation (P08) and rendering (P09).                            *)
EXTENDS Caps, TLC, IOUtils, Json

Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N == Env("G_N", 30)

VARIABLES caps, phase
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF phase < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Chance(n) == Pick(1..100) <= n

Names == { "a", "b", "ab", "a b", "é", "A" }
RECURSIVE RandPath(_)
RandPath(n) == IF n = 0 THEN <<>> ELSE << (IF Chance(60) THEN "a" ELSE Pick({"a", "b", "ab", "A"})) >> \o RandPath(n - 1)

Vals == { "v1", "v2", "v3" }
\* each key with chance p, and the usual value with chance u
RECURSIVE RandCav(_, _, _)
RandCav(ks, p, u) == IF ks = {} THEN <<>>
               ELSE LET k == Pick(ks) IN
                    (IF Chance(p) THEN << <<k, IF Chance(u) THEN "v1" ELSE Pick(Vals)>> >> ELSE <<>>) \o RandCav(ks \ {k}, p, u)
Keys3 == { "x", "y", "z" }
Keys9 == Keys3 \cup { "k1", "k2", "k3", "k4", "k5", "k6" }

RandForm(z) == IF Chance(40) THEN <<"res", "">>
            ELSE Pick({ <<"my", "">>, <<"my", "">>, <<"as", "A">>, <<"as", "B">>, <<"as", "a">>, <<"as", "b">> })

\* wide: caveats of many entries that differ in one or two
RandCap(fam, wide) ==
    LET f == IF fam = "prf" THEN (IF Chance(70) THEN <<"res", "">> ELSE RandForm(fam)) ELSE RandForm(fam)
        wild == fam # "prf" /\ Chance(20)
        bad == Chance(6)
    IN [ fam |-> fam, form |-> f[1], did |-> f[2], wild |-> wild,
         path |-> IF wild THEN <<>>
                  ELSE CASE fam = "fs" -> RandPath(IF wide THEN Pick(0..1) ELSE Pick(0..3))
                         [] fam = "mb" -> << Pick({"m1", "m2", "m1x"}) >>
                         [] fam = "prf" -> Pick({ <<>>, <<"0">>, <<"1">>, <<"10">> }),
         ab |-> Pick(CASE fam = "fs" -> 0..2 [] fam = "mb" -> 0..1 [] fam = "prf" -> {0}),
         bad |-> bad,
         cav |-> IF bad THEN <<>> ELSE IF wide THEN RandCav(Keys9, 80, 92) ELSE RandCav(Keys3, 45, 70) ]

RECURSIVE RandCaps(_, _, _)
RandCaps(fam, w, n) == IF n = 0 THEN <<>> ELSE << TLCEval(RandCap(fam, w)) >> \o RandCaps(fam, w, n - 1)

Init == phase = 0 /\ caps = <<>>
Next ==
    \/ phase = 0 /\ phase' = 1 /\ \E f \in { TLCEval(LET k == Pick(1..6) IN IF k <= 4 THEN "fs" ELSE IF k = 5 THEN "mb" ELSE "prf") } :
           \E w \in { TLCEval(Chance(15)) } : caps' = TLCEval(RandCaps(f, w, N))
    \/ phase = 1 /\ phase' = 2 /\ UNCHANGED caps
       /\ PrintT("SCEN " \o ToJson([ kind |-> "rows", caps |-> caps ]))
Spec == Init /\ [][Next]_<<caps, phase>>
=============================================================================
