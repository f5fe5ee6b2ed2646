-------------------------------- MODULE MCRedel --------------------------------
(* Every text that is, or resembles, a redelegation: what CapText says it    *)
(* selects is what it passes on (P06).  Texts of up to three lexemes after    *)
(* several beginnings, with the abilities, numbers and kinds of caveats and     *)
(* numbers of proofs that there are.                                          *)
EXTENDS Delegation, TLC, Json

CT == INSTANCE CapText

CONSTANTS MaxLex
VARIABLES text, left, ability, count, cv, np

Lexemes == { "0", "1", "2", "*", ",", "-", ".", "/", ":", "x", "#", "?", "_" }
Abs == { "ucan/DELEGATE", "ucan/*", "*", "ucan/delegate", "UCAN/DELEGATE", "ucan/DELEGATE/x", "ucan/DELEGATES", "DELEGATE",
         "ucan", "ucan/", "", "/DELEGATE", "prf/DELEGATE", "ucan/DELEGATE ", " ucan/DELEGATE", "ucan:DELEGATE", "wnfs/DELEGATE", "ucan/CREATE" }

Starts == { "my:prf:", "as:did:key:zA:prf:", "prf", "prfs:", "pr:", "my:", "as:did:key:zA:", "as:prf:", "ucan:", "*", "fs:/prf:", "prf:prf:" }
Plain == { "prf:0", "prf:1", "prf:2", "prf:*" }
Init == \/ text = "prf:" /\ left = MaxLex /\ ability = "ucan/DELEGATE" /\ count = 1 /\ cv = 0 /\ np = 2
        \/ text \in Starts /\ left = 1 /\ ability = "ucan/DELEGATE" /\ count = 1 /\ cv = 0 /\ np = 2
        \/ text \in Plain /\ left = 0 /\ ability \in Abs /\ count = 1 /\ cv = 0 /\ np = 2
        \* however many caveats, of however many members, on however many proofs
        \/ text \in Plain /\ left = 0 /\ ability = "ucan/DELEGATE" /\ count \in 0..3 /\ cv \in 0..4 /\ np \in 0..3
Next == left > 0 /\ left' = left - 1 /\ (\E x \in Lexemes : text' = text \o x) /\ UNCHANGED <<ability, count, cv, np>>
Spec == Init /\ [][Next]_<<text, left, ability, count, cv, np>>

Num(s) == CHOOSE n \in 0..999 : ToString(n) = s
M == CT!Meaning("prf", text, ability)
Means == IF ~M.ok \/ M.form # "res" \/ count = 0 THEN "nothing"
         ELSE IF M.path = <<>> THEN "all" ELSE "idx"
Claim == [ k |-> IF Means = "nothing" THEN "junk" ELSE Means, s |-> "text", n |-> IF Means = "idx" THEN Num(M.path[1]) ELSE 0,
           r |-> text, a |-> ability, count |-> count, cv |-> cv ]

C(p, ab) == [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> p, ab |-> ab, bad |-> FALSE, cav |-> <<>> ]
Cl(c) == [ k |-> "cap", c |-> c ]
Tok(i, a, prf, cl) ==
    [ iss |-> i, aud |-> a, nbf |-> NoBound, exp |-> NoBound, prf |-> prf, claims |-> cl,
      by |-> i, over |-> "self", raw |-> "intact" ]
Toks == << Tok("A", "D", <<>>, << Cl(C(<<"a">>, 1)) >>), Tok("B", "D", <<>>, << Cl(C(<<"b">>, 1)) >>), Tok("C", "D", <<>>, << Cl(C(<<"c">>, 1)) >>),
           Tok("D", "E", [ i \in 1..np |-> i ], << Claim >>),
           Tok("E", "C", <<4>>, << Cl(C(<<"a", "b">>, 0)), Cl(C(<<"b">>, 0)), Cl(C(<<"c">>, 1)) >>) >>

\* exactly the named proofs are passed on
Named == CASE Means = "all" -> 1..np [] Means = "idx" -> { Claim.n + 1 } [] OTHER -> {}
Exactly == Named \subseteq 1..np =>
    Info(Toks, 4, "fs") = UNION { Info(Toks, p, "fs") : p \in Named }
Beyond == Accept(Toks, 1..5, 4, 1) = (Named \subseteq 1..np)

Ops == << [op |-> "putall", held |-> <<>>],
          [op |-> "ver", v |-> 1, i |-> 4, now |-> 2, mode |-> "given", entry |-> "ucan"],
          [op |-> "ver", v |-> 1, i |-> 5, now |-> 2, mode |-> "given", entry |-> "str"] >>
Emit == PrintT("SCEN " \o ToJson([ toks |-> Toks, ops |-> Ops ]))
=============================================================================
