-------------------------------- MODULE MCFan --------------------------------
(* One token over three proofs, by one or two issuers, and a last token on  *)
(* top: every combination of single claims and redelegations (P04-P06).     *)
EXTENDS Delegation, TLC, Json

CONSTANTS Rule, Tops

C(p, ab, cv) == [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> p,
                  ab |-> ab, bad |-> FALSE, cav |-> cv ]
X == << <<"x", "v1">> >>
CapU == { C(<<"a">>, 1, <<>>), C(<<"a">>, 0, <<>>), C(<<"a", "b">>, 1, <<>>), C(<<"a">>, 1, X), C(<<"b">>, 1, <<>>) }
Cl(c) == [ k |-> "cap", c |-> c ]
Red == { <<>>, << [k |-> "idx", n |-> 0] >>, << [k |-> "idx", n |-> 1] >>, << [k |-> "idx", n |-> 2] >>,
         << [k |-> "idx", n |-> 2], [k |-> "idx", n |-> 0] >>, << [k |-> "all"] >> }

Tok(i, a, prf, cl) ==
    [ iss |-> i, aud |-> a, nbf |-> NoBound, exp |-> NoBound, prf |-> prf, claims |-> cl,
      by |-> i, over |-> "self", raw |-> "intact" ]

VARIABLE toks

Init == toks = <<>>

Leaf == \E i \in {"A", "B"}, c \in CapU : (toks = <<>> => i = "A") /\ toks' = Append(toks, Tok(i, "D", <<>>, <<Cl(c)>>))
Join == \E c \in CapU \cup {<<>>}, r \in Red :
          toks' = Append(toks, Tok("D", "E", <<1, 2, 3>>, (IF c = <<>> THEN <<>> ELSE <<Cl(c)>>) \o r))
Top  == \E c \in CapU : toks' = Append(toks, Tok("E", "C", <<4>>, <<Cl(c)>>))

Next == CASE Len(toks) < 3 -> Leaf
          [] Len(toks) = 3 -> Join
          [] Len(toks) = 4 -> Tops /\ Top
          [] OTHER -> FALSE

Spec == Init /\ [][Next]_<<toks>>

R == Len(toks)
Den == Info(toks, R, "fs")
Alg == ReduceAlg(Rule, toks, R, "fs")
Sound     == R > 3 => \A x \in Pairs(Alg) : Covers(Den, x)
CompleteR == R > 3 => \A x \in Den : Covers(Pairs(Alg), x)
PathLegit == R > 3 => \A c \in CapU, o \in {"A", "B", "D", "E"} : Covers(Den, <<c, o>>) = Legit(toks, R, "fs", o, c)
Emit == R = (IF Tops THEN 5 ELSE 4) => PrintT("SCEN " \o ToJson([toks |-> toks]))
=============================================================================
