-------------------------------- MODULE MCText --------------------------------
(* All texts of up to MaxLex lexemes: parsing is total and deterministic,   *)
(* rendering a view and parsing it again is the identity.  Each text is a   *)
(* scenario for replay.                                                     *)
EXTENDS CapText, Json

CONSTANTS MaxLex, Starts, MaxMore, MoreStarts, Lexemes

VARIABLES text, left

Init == \/ text \in Starts /\ left = MaxLex
        \/ text \in MoreStarts /\ left = MaxMore
Next == \/ left > 0 /\ \E x \in Lexemes : text' = text \o x /\ left' = left - 1
Spec == Init /\ [][Next]_<<text, left>>

Fams == { "fs", "mb", "prf" }

RoundTrip ==
    \A f \in Fams : \A a \in DOMAIN Abilities(f) :
        LET v == Meaning(f, text, Abilities(f)[a])
        IN v.ok /\ ~(v.form = "res" /\ v.wild) => Meaning(f, Render(f, v), Abilities(f)[a]) = v

OneForm == \A f \in Fams : LET r == Resource(f, text) IN
             r.ok => /\ r.form \in {"res", "my", "as"}
                     /\ (r.form = "as") = (r.did # "")
                     /\ r.wild => r.path = <<>>

\* nobody understands a text that two semantics read as different forms
SameForm == \A f, g \in Fams : LET r == Resource(f, text) q == Resource(g, text) IN
             r.ok /\ q.ok => r.form = q.form /\ r.did = q.did

Emit == text # "" => PrintT("SCEN " \o ToJson([ kind |-> "text", text |-> text ]))
=============================================================================
