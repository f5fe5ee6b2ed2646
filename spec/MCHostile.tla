------------------------------- MODULE MCHostile -------------------------------
(* Every shape of every source with up to MaxDev departures, put through     *)
(* every operation that its type, and the types these lead to, allow.        *)
EXTENDS Hostile, SequencesExt, Json
CONSTANTS MaxDev, Depth
VARIABLES src, shape, dev

Ops == SetToSeq(DOMAIN Op)
\* the calls on value k of type ty, and then on all later ones; vs[k] = <<type, depth>>
RECURSIVE Calls(_, _)
Calls(vs, k) ==
    IF k > Len(vs) THEN <<>>
    ELSE LET ty == vs[k][1]  d == vs[k][2]
             os == IF d >= Depth THEN <<>> ELSE SelectSeq(Ops, LAMBDA o : Op[o][1] = ty)
             gs == SelectSeq(os, LAMBDA o : Op[o][2] # "none")
         IN [ i \in DOMAIN os |-> [ o |-> os[i], k |-> k, gives |-> Op[os[i]][2] # "none" ] ]
            \o Calls(vs \o [ i \in DOMAIN gs |-> <<Op[gs[i]][2], d + 1>> ], k + 1)
Battery == [ s \in Sources |-> Calls(<< <<s, 0>> >>, 1) ]

\* nothing is left out: every operation is called on something
ASSUME UNION { { Battery[s][i].o : i \in DOMAIN Battery[s] } : s \in Sources } = DOMAIN Op

MInit == /\ Init /\ src \in Sources /\ shape = Plain(src) /\ dev = {}
MNext == /\ Cardinality(dev) < MaxDev /\ UNCHANGED <<src, vals, pending>>
         /\ \E a \in Aspects(src) \ dev : \E f \in Forms(src, a) \ {Plain(src)[a]} :
               shape' = [ shape EXCEPT ![a] = f ] /\ dev' = dev \cup {a}
Spec == MInit /\ [][MNext]_<<src, shape, dev, vals, pending>>
Emit == PrintT("SCEN " \o ToJson([ steps |-> << [ o |-> "make", src |-> src, shape |-> shape ] >> \o Battery[src] ]))
=============================================================================
