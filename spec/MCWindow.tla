------------------------------ MODULE MCWindow ------------------------------
(* Every pair of windows over the discrete time line: laws of windows       *)
(* (P02, P03, P07), and every such pair as a scenario for replay.           *)
EXTENDS Verifier, TLC, Json

MaxT == 4
Bounds == (-1)..MaxT

VARIABLE done

Tok(i, a, prf, n, e, cl) ==
    [ iss |-> i, aud |-> a, nbf |-> n, exp |-> e, prf |-> prf, claims |-> cl,
      by |-> i, over |-> "self", raw |-> "intact", lay |-> "canon" ]

Cap0 == [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> <<"a">>,
          ab |-> 1, bad |-> FALSE, cav |-> <<>> ]

\* the child claims a capability, and redelegates what it is given
Init ==
    /\ \E n1, e1, n2, e2 \in Bounds :
          toks = << Tok("A", "B", <<>>, n1, e1, << [k |-> "cap", c |-> Cap0] >>),
                    Tok("B", "C", <<1>>, n2, e2,
                        << [k |-> "cap", c |-> [Cap0 EXCEPT !.path = <<"b">>]], [k |-> "idx", n |-> 0] >>) >>
    /\ store = {1, 2}
    /\ vs = [ v \in Slots |-> Idle ]
    /\ done = FALSE

Next == ~done /\ done' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<vars, done>>

EnclosesReflexive == Encloses(toks[1], toks[1]) /\ Encloses(toks[2], toks[2])
EnclosesMeaning ==     \* enclosing windows: whenever the inner is valid, so is the outer
    Encloses(toks[1], toks[2]) => \A t \in 0..MaxT : InWindow(toks[2], t) => InWindow(toks[1], t)
EnclosesAntisym ==
    Encloses(toks[1], toks[2]) /\ Encloses(toks[2], toks[1]) =>
        toks[1].nbf = toks[2].nbf /\ toks[1].exp = toks[2].exp
AcceptedInside ==
    \A t \in 0..MaxT : Accept(toks, store, 2, t) => InWindow(toks[1], t) /\ InWindow(toks[2], t)

RECURSIVE SetSeq(_)
SetSeq(n) == IF n < 0 THEN <<>> ELSE Append(SetSeq(n - 1), n)

At(f(_)) == [ i \in 1..(MaxT + 1) |-> f(i - 1) ]
Ops ==
    << [op |-> "putall", held |-> <<>>], [op |-> "enc", i |-> 1, j |-> 2], [op |-> "enc", i |-> 2, j |-> 1],
       [op |-> "early", i |-> 1], [op |-> "early", i |-> 2],
       [op |-> "val", i |-> 1, now |-> 2, mode |-> "clock"], [op |-> "exp", i |-> 1, now |-> 2, mode |-> "clock"],
       [op |-> "ver", v |-> 1, i |-> 2, now |-> 2, mode |-> "clock", entry |-> "str"] >>
    \o At(LAMBDA n : [op |-> "val", i |-> 1, now |-> n, mode |-> "given"])
    \o At(LAMBDA n : [op |-> "exp", i |-> 2, now |-> n, mode |-> "given"])
    \o At(LAMBDA n : [op |-> "ver", v |-> 1, i |-> 2, now |-> n, mode |-> "given", entry |-> "ucan"])

Emit == ~done => PrintT("SCEN " \o ToJson([ toks |-> toks, ops |-> Ops ]))
=============================================================================
