-------------------------------- MODULE MCCaps --------------------------------
(* The laws of "enables" over every triple of a small universe of           *)
(* capabilities (P08).                                                      *)
EXTENDS Caps, TLC

Cap(form, did, wild, path, ab, bad, cav) ==
    [ fam |-> "fs", form |-> form, did |-> did, wild |-> wild, path |-> path,
      ab |-> ab, bad |-> bad, cav |-> cav ]

CONSTANT Small
Cavs == { <<>>, << <<"x", "v1">> >>, << <<"y", "v1">>, <<"x", "v1">> >> }
        \cup IF Small THEN {} ELSE { << <<"x", "v2">> >> }
Forms == { <<"res", "">>, <<"my", "">>, <<"as", "A">> } \cup IF Small THEN {} ELSE { <<"as", "B">> }
Paths == { <<>>, <<"a">>, <<"a", "b">> } \cup IF Small THEN {} ELSE { <<"b">> }
U == { Cap(f[1], f[2], FALSE, p, ab, FALSE, cv) : f \in Forms, p \in Paths, ab \in 0..1, cv \in Cavs }
     \cup { Cap(f[1], f[2], TRUE, <<>>, ab, FALSE, cv) : f \in Forms, ab \in 0..1, cv \in Cavs }
     \cup { Cap("res", "", TRUE, <<>>, 1, TRUE, <<>>) }

VARIABLES a, b, c
Init == a \in U /\ b \in U /\ c \in U /\ (Enables(a, b) \/ a = c)
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>

Refl  == ~a.bad => Enables(a, a)
Trans == Enables(a, b) /\ Enables(b, c) => Enables(a, c)
BadIso == a.bad \/ b.bad => ~Enables(a, b)
Forms1 == Enables(a, b) => a.form = b.form /\ a.did = b.did
Wild1 == Enables(a, b) /\ b.wild => a.wild
\* mutual enabling is equality of meaning: same scope, ability and entries
Antisym == Enables(a, b) /\ Enables(b, a) =>
             a.wild = b.wild /\ a.path = b.path /\ a.ab = b.ab /\ Entries(a) = Entries(b)
\* narrowing any one dimension of a capability never takes it out of reach
Narrow == Enables(a, b) => Enables(a, [b EXCEPT !.ab = 0])
=============================================================================
