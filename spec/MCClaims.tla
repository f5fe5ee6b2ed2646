------------------------------- MODULE MCClaims -------------------------------
(* Claims that are nothing to the semantics in use, or resemble a            *)
(* redelegation without being one, beside real claims: they change nothing   *)
(* (P04-P06).                                                                *)
EXTENDS Delegation, TLC, Json

VARIABLES toks, done

C(p, ab) == [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> p, ab |-> ab, bad |-> FALSE, cav |-> <<>> ]
Cl(c) == [ k |-> "cap", c |-> c ]
Junk(s) == [ k |-> "junk", s |-> s ]
Idx(n) == [ k |-> "idx", n |-> n ]
Tok(i, a, prf, cl) ==
    [ iss |-> i, aud |-> a, nbf |-> NoBound, exp |-> NoBound, prf |-> prf, claims |-> cl,
      by |-> i, over |-> "self", raw |-> "intact" ]
Wide == C(<<"a">>, 1)
Narrow == C(<<"a", "b">>, 0)
Around(j) == { << Junk(j) >>, << Junk(j), Cl(Wide) >>, << Cl(Narrow), Junk(j) >>, << Junk(j), Idx(1) >>, << Idx(0), Junk(j) >>,
               << Junk(j), [ k |-> "all" ] >>, << Cl(Narrow), Junk(j), Idx(1) >> }

Init == /\ done = FALSE
        /\ \E j \in JunkKinds, at \in {1, 3}, n \in {1, 2} :
           \E cl \in Around(j) :
             LET leaf == IF at = 1 THEN SelectSeq(cl, LAMBDA x : x.k # "idx") ELSE << Cl(Wide) >>
                 join == IF at = 3 THEN IF n = 1 THEN SelectSeq(cl, LAMBDA x : x # Idx(1)) ELSE cl ELSE << Cl(Narrow), [ k |-> "all" ] >>
             IN toks = << Tok("A", "D", <<>>, leaf), Tok("B", "D", <<>>, << Cl(Wide) >>),
                          Tok("D", "E", IF n = 1 THEN <<1>> ELSE <<1, 2>>, join), Tok("E", "C", <<3>>, << Cl(Narrow) >>) >>
Next == ~done /\ done' = TRUE /\ UNCHANGED toks
Spec == Init /\ [][Next]_<<toks, done>>

\* leaving them out makes no difference
Plain == [ i \in DOMAIN toks |-> [ toks[i] EXCEPT !.claims = SelectSeq(@, LAMBDA x : x.k # "junk") ] ]
NoMeaning == \A r \in DOMAIN toks : Info(toks, r, "fs") = Info(Plain, r, "fs")
SameVerdict == \A r \in DOMAIN toks : Accept(toks, DOMAIN toks, r, 1) = Accept(Plain, DOMAIN toks, r, 1)

Ops == << [op |-> "putall", held |-> <<>>],
          [op |-> "ver", v |-> 1, i |-> 4, now |-> 2, mode |-> "given", entry |-> "ucan"],
          [op |-> "ver", v |-> 1, i |-> 3, now |-> 2, mode |-> "given", entry |-> "str"],
          [op |-> "ver", v |-> 1, i |-> 1, now |-> 2, mode |-> "given", entry |-> "cid"] >>
Emit == ~done => PrintT("SCEN " \o ToJson([ toks |-> toks, ops |-> Ops ]))
=============================================================================
