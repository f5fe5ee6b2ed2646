-------------------------------- MODULE MCMap --------------------------------
(* Every short list of capabilities and every small JSON value in place of  *)
(* a capability map, as scenarios for replay.                               *)
EXTENDS CapMap, Json

CONSTANTS MaxList, Two          \* Two: JSON maps with two resources as well
VARIABLES list, json, mode

Rs == {"r1", "r2"}  As == {"a1", "a2"}  Cs == {"c1", "c2", "bad"}
Other == [k |-> "other"]
Cav(c) == [k |-> "cav", c |-> c]
CavNode == { Cav("c1"), Cav("c2"), Other, [k |-> "arr", e |-> <<>>] }
Arr(e) == [k |-> "arr", e |-> e]
AbNode == { Other, [k |-> "obj", f |-> <<>>], Cav("c1"), Arr(<<>>) }
          \cup { Arr(<<x>>) : x \in CavNode } \cup { Arr(<<x, y>>) : x, y \in CavNode }
Obj(f) == [k |-> "obj", f |-> f]
ResNode == { Other, Obj(<<>>), Arr(<<>>), Arr(<< Cav("c1") >>) }
           \cup { Obj(<< <<"a1", x>> >>) : x \in AbNode }
           \cup { Obj(<< <<"a1", x>>, <<"a2", y>> >>) : x, y \in AbNode }

Init ==
    \/ mode = "list" /\ list = <<>> /\ json = Other
    \/ mode = "json" /\ list = <<>> /\
         json \in { Other, Arr(<<>>), Obj(<<>>) } \cup { Obj(<< <<"r1", x>> >>) : x \in ResNode }
    \/ mode = "json" /\ Two /\ list = <<>> /\
         json \in { Obj(<< <<"r1", x>>, <<"r2", Obj(<< <<"a1", y>> >>)>> >>) : x \in ResNode, y \in AbNode }

Next == mode = "list" /\ Len(list) < MaxList /\ UNCHANGED <<json, mode>>
        /\ \E r \in Rs, a \in As, c \in Cs : list' = Append(list, <<r, a, c>>)
Spec == Init /\ [][Next]_<<list, json, mode>>

\* grouping a list by resource and ability and listing it again says the same
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Regroup(l) == Flat(LET ks == SeqOf(Keys(l)) IN
    [ i \in DOMAIN ks |-> LET cs == Of(l, ks[i][1], ks[i][2]) IN
                          [ j \in DOMAIN cs |-> <<ks[i][1], ks[i][2], cs[j]>> ] ])
RegroupSame == SameEntries(list, Regroup(list)) /\ Len(list) = Len(Regroup(list))
EntriesAreNamed ==
    mode = "json" /\ JsonOk(json) => Keys(JsonEntries(json)) \subseteq JsonAbilities(json)

Emit == PrintT("SCEN " \o ToJson([ kind |-> mode, list |-> list, json |-> json ]))
=============================================================================
