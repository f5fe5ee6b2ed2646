------------------------------ MODULE MCReduce ------------------------------
(* Exhaustive check of reduction on all small chains: the denotation Info   *)
(* agrees with the path formulation of P04, and the algorithm with guarded  *)
(* merging reports exactly that denotation up to covering (P04, P05), keeps *)
(* redelegation exact (P06).  With rule "greedy" Sound is violated.         *)
EXTENDS Delegation, TLC, Json

CONSTANTS Rule, MaxLeaf, MaxMid, MaxRoot

C(p, ab, cv) == [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> p,
                  ab |-> ab, bad |-> FALSE, cav |-> cv ]
X == << <<"x", "v1">> >>
CapU == { C(<<>>, 1, <<>>), C(<<"a">>, 1, <<>>), C(<<"a">>, 0, <<>>), C(<<"b">>, 1, <<>>), C(<<"a">>, 1, X) }

CapClaims == { [k |-> "cap", c |-> c] : c \in CapU }
RedClaims == { [k |-> "idx", n |-> 0], [k |-> "idx", n |-> 1], [k |-> "all"] }
Junk == { [k |-> "cap", c |-> [C(<<"m1">>, 1, <<>>) EXCEPT !.fam = "mb"]] }

SeqsUpTo(S, n) == UNION { [1..m -> S] : m \in 0..n }

Tok(i, a, prf, cl) ==
    [ iss |-> i, aud |-> a, nbf |-> NoBound, exp |-> NoBound, prf |-> prf, claims |-> cl,
      by |-> i, over |-> "self", raw |-> "intact" ]

VARIABLES toks, shape

\* linear chain of three, fan-in of two leaves, diamond over one leaf
Leaves(sh, i) == [1..0 -> CapClaims] \cup SeqsUpTo(CapClaims, IF sh = "diamond" THEN 1 ELSE MaxLeaf)
Mids(sh) == SeqsUpTo(CapClaims \cup RedClaims, MaxMid)
Roots(sh) == SeqsUpTo(CapClaims \cup RedClaims \cup Junk, MaxRoot)

Issue(t) == toks' = Append(toks, t) /\ UNCHANGED shape

Init == toks = <<>> /\ shape \in {"line", "fan", "diamond"}

Next ==
    \/ toks = <<>> /\ \E l \in Leaves(shape, 1) : Issue(Tok("A", IF shape = "fan" THEN "D" ELSE "B", <<>>, l))
    \/ Len(toks) = 1 /\ shape = "line" /\ \E m \in Mids(shape) : Issue(Tok("B", "D", <<1>>, m))
    \/ Len(toks) = 1 /\ shape = "fan" /\ \E m \in Leaves(shape, 2) : Issue(Tok("B", "D", <<>>, m))
    \/ Len(toks) = 1 /\ shape = "diamond" /\ \E m \in Mids(shape) : Issue(Tok("B", "B", <<1>>, m))
    \/ Len(toks) = 2 /\ \E r \in Roots(shape) :
          Issue(IF shape = "line" THEN Tok("D", "E", <<2>>, r)
                ELSE IF shape = "fan" THEN Tok("D", "E", <<1, 2>>, r)
                ELSE Tok("B", "E", <<1, 2>>, r))

Spec == Init /\ [][Next]_<<toks, shape>>

R == Len(toks)
Den == Info(toks, R, "fs")
Alg == ReduceAlg(Rule, toks, R, "fs")
Issuers == {"A", "B", "D"}
Ok == R > 0 /\ Accept(toks, DOMAIN toks, R, 0)

Sound    == Ok => \A x \in Pairs(Alg) : Covers(Den, x)
CompleteR == Ok => \A x \in Den : Covers(Pairs(Alg), x)
PathLegit ==
    Ok => \A c \in CapU, o \in Issuers :
        Covers(Den, <<c, o>>) = Legit(toks, R, "fs", o, c)
Emit == R = 3 => PrintT("SCEN " \o ToJson([toks |-> toks]))
NoEmpty == Ok => \A i \in DOMAIN Alg : Alg[i].o # {}
=============================================================================
