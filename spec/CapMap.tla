-------------------------------- MODULE CapMap --------------------------------
(* Capability lists and capability maps (P10).                              *)
(* A map is a sequence of <<resource, <<ability, <<caveat, ...>> >>...>>,    *)
(* an entry is <<resource, ability, caveat>>; caveat "bad" is not an object. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* caveats listed for one resource and ability, in order
Of(list, r, a) == LET P(x) == x[1] = r /\ x[2] = a
                      sel == SelectSeq(list, P)
                  IN [ i \in DOMAIN sel |-> sel[i][3] ]

Keys(list) == { <<list[i][1], list[i][2]>> : i \in DOMAIN list }

\* two lists say the same: same pairs, and per pair the same caveats in order
SameEntries(l1, l2) ==
    /\ Keys(l1) = Keys(l2)
    /\ \A k \in Keys(l1) : Of(l1, k[1], k[2]) = Of(l2, k[1], k[2])

ListOk(list) == \A i \in DOMAIN list : list[i][3] # "bad"

-----------------------------------------------------------------------------
(* JSON in place of a map.  A node is [k |-> "obj", f |-> << <<key, node>> >>], *)
(* [k |-> "arr", e |-> <<nodes>>] or [k |-> "other"]; caveat objects are     *)
(* [k |-> "cav", c |-> name].                                               *)
IsObj(x) == x.k = "obj" \/ x.k = "cav"
CaveatOk(x) == IsObj(x)
CaveatsOk(x) == x.k = "arr" /\ \A i \in DOMAIN x.e : CaveatOk(x.e[i])
AbilitiesOk(x) == x.k = "obj" /\ x.f # <<>> /\ \A i \in DOMAIN x.f : CaveatsOk(x.f[i][2])
JsonOk(x) == x.k = "obj" /\ \A i \in DOMAIN x.f : AbilitiesOk(x.f[i][2])

JsonEntries(x) ==
    Flat([ i \in DOMAIN x.f |->
        Flat([ j \in DOMAIN x.f[i][2].f |->
            LET cs == x.f[i][2].f[j][2].e
            IN [ m \in DOMAIN cs |-> << x.f[i][1], x.f[i][2].f[j][1], cs[m].c >> ] ]) ])

\* abilities named, including those with an empty list of caveats
JsonAbilities(x) == UNION { { << x.f[i][1], x.f[i][2].f[j][1] >> : j \in DOMAIN x.f[i][2].f } : i \in DOMAIN x.f }
=============================================================================
