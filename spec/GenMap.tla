-------------------------------- MODULE GenMap --------------------------------
(* Random long lists of capabilities and wide JSON maps (P10).              *)
EXTENDS CapMap, IOUtils, Json

Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N == Env("G_N", 60)          \* entries of a list; caveats of one ability
W == Env("G_WIDE", 10)       \* resources, abilities
PBad == Env("G_BAD", 1)      \* per mille of parts that are something else

VARIABLES list, json, phase
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF phase < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
R == [ i \in 1..12 |-> "r" \o ToString(i) ]
A == [ i \in 1..12 |-> "a" \o ToString(i) ]
C == [ i \in 1..40 |-> "c" \o ToString(i) ]
Bad(z) == Pick(1..1000) <= PBad

\* few keys and many entries of each, or the other way round
RandEntry(w) == << R[Pick(1..w)], A[Pick(1..w)], IF Bad(w) THEN "bad" ELSE C[Pick(1..40)] >>
RECURSIVE RandList(_, _)
RandList(n, w) == IF n = 0 THEN <<>> ELSE << TLCEval(RandEntry(w)) >> \o RandList(n - 1, w)

Other == [ k |-> "other" ]
RECURSIVE RandCavs(_)
RandCavs(n) == IF n = 0 THEN <<>>
               ELSE << TLCEval(IF Bad(n) THEN Pick({ Other, [ k |-> "arr", e |-> <<>> ] }) ELSE [ k |-> "cav", c |-> C[Pick(1..40)] ]) >>
                    \o RandCavs(n - 1)
AbNode(m) == IF Bad(m) THEN Pick({ Other, [ k |-> "cav", c |-> "c1" ], [ k |-> "obj", f |-> <<>> ] })
             ELSE [ k |-> "arr", e |-> RandCavs(IF Pick(1..4) = 1 THEN 0 ELSE Pick(1..m)) ]
RECURSIVE Abs(_, _)
Abs(i, m) == IF i = 0 THEN <<>> ELSE << << A[i], TLCEval(AbNode(m)) >> >> \o Abs(i - 1, m)
ResNode(w, m) == IF Bad(m) THEN Pick({ Other, [ k |-> "arr", e |-> <<>> ], [ k |-> "obj", f |-> <<>> ] })
                 ELSE [ k |-> "obj", f |-> Abs(Pick(1..w), m) ]
RECURSIVE Ress(_, _, _)
Ress(i, w, m) == IF i = 0 THEN <<>> ELSE << << R[i], TLCEval(ResNode(w, m)) >> >> \o Ress(i - 1, w, m)

\* at most one part of a map is wrong, wherever it is
BadRes == { Other, [ k |-> "arr", e |-> <<>> ], [ k |-> "obj", f |-> <<>> ], [ k |-> "cav", c |-> "c1" ] }
BadAb  == { Other, [ k |-> "obj", f |-> <<>> ], [ k |-> "cav", c |-> "c1" ] }
BadCav == { Other, [ k |-> "arr", e |-> <<>> ], [ k |-> "arr", e |-> << [ k |-> "cav", c |-> "c1" ] >> ] }
Spoil(f) ==
    LET i == TLCEval(Pick(DOMAIN f))
        r == f[i][2]
        j == TLCEval(IF r.k = "obj" /\ r.f # <<>> THEN Pick(DOMAIN r.f) ELSE 0)
        a == IF j = 0 THEN Other ELSE r.f[j][2]
        m == TLCEval(IF a.k = "arr" /\ a.e # <<>> THEN Pick(DOMAIN a.e) ELSE 0)
        how == TLCEval(Pick(1..3))
    IN CASE how = 1 \/ j = 0 -> [ f EXCEPT ![i][2] = Pick(BadRes) ]
         [] how = 2 \/ m = 0 -> [ f EXCEPT ![i][2].f[j][2] = Pick(BadAb) ]
         [] OTHER -> [ f EXCEPT ![i][2].f[j][2].e[m] = Pick(BadCav) ]
MaybeSpoilt(f) == IF PBad > 0 /\ Pick(1..100) <= 40 THEN Spoil(f) ELSE f

Init == phase = 0 /\ list = <<>> /\ json = Other
Next ==
    \/ phase = 0 /\ phase' = 1
       /\ \E w \in { TLCEval(Pick({ 1, 1, 2, W })) }, n \in { TLCEval(Pick(1..N)) } :
            \/ list' = TLCEval(RandList(n, w)) /\ UNCHANGED json
            \/ json' = TLCEval([ k |-> "obj", f |-> MaybeSpoilt(TLCEval(Ress(w, w, IF w > 4 THEN 4 ELSE n))) ]) /\ UNCHANGED list
    \/ phase = 1 /\ phase' = 2 /\ UNCHANGED <<list, json>>
       /\ PrintT("SCEN " \o ToJson([ kind |-> IF list = <<>> THEN "json" ELSE "list", list |-> list, json |-> json ]))
Spec == Init /\ [][Next]_<<list, json, phase>>
=============================================================================
