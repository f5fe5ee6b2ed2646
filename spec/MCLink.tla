-------------------------------- MODULE MCLink --------------------------------
(* Chains with at most one thing wrong, at every place in the chain, on      *)
(* tokens that say all kinds of other things: nothing else a token says may  *)
(* excuse its proofs from being fetched, checked and kept (P03).             *)
EXTENDS Verifier, TLC, Json

VARIABLES done, held, wrong

C0(p) == [ k |-> "cap", c |-> [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> p,
                                ab |-> 1, bad |-> FALSE, cav |-> <<>> ] ]
Junk(s) == [ k |-> "junk", s |-> s ]

\* what else a token says
Claims == { <<>>, << C0(<<"a">>) >>, << [k |-> "idx", n |-> 0] >>, << [k |-> "all"] >>,
            << Junk("prf0none") >>, << Junk("foreign") >>, << C0(<<"b">>), Junk("prfneg") >> }
Lays   == { "canon", "extra" }

Tok(i, a, w, prf, cl, f, lay) ==
    [ iss |-> i, aud |-> a, nbf |-> w[1], exp |-> w[2], prf |-> prf, claims |-> cl,
      by |-> i, over |-> "self", raw |-> "intact", lay |-> lay, hdr |-> "own", fct |-> f ]

\* time 2 is asked about; the window of a sound token is 1..3, that of the root may be narrower
Faults == { "none", "by", "over", "raw", "late", "early", "outexp", "outnbf", "noexp", "nonbf",
            "aud", "held", "badcid", "codec", "unknown", "idx" }

\* token f is the one that is wrong, token c the one citing it
Break(T, f, c, w) ==
    LET cite(x) == [ T EXCEPT ![c].prf = [ i \in DOMAIN T[c].prf |-> IF T[c].prf[i] = f THEN x ELSE T[c].prf[i] ] ] IN
    CASE w = "by"     -> [ T EXCEPT ![f].by = "X" ]
      [] w = "over"   -> [ T EXCEPT ![f].over = "payload" ]
      [] w = "raw"    -> [ T EXCEPT ![f].raw = "flip" ]
      [] w = "late"   -> [ i \in DOMAIN T |-> [ T[i] EXCEPT !.nbf = 0, !.exp = IF i >= f THEN 1 ELSE 3 ] ]
      [] w = "early"  -> [ i \in DOMAIN T |-> [ T[i] EXCEPT !.nbf = IF i >= f THEN 3 ELSE 1, !.exp = 4 ] ]
      [] w = "outexp" -> [ T EXCEPT ![f].exp = 2 ]
      [] w = "outnbf" -> [ T EXCEPT ![f].nbf = 2 ]
      [] w = "noexp"  -> [ T EXCEPT ![c].exp = NoBound ]
      [] w = "nonbf"  -> [ T EXCEPT ![c].nbf = NoBound ]
      [] w = "aud"    -> [ T EXCEPT ![f].aud = "E" ]
      [] w = "badcid" -> cite(BadCid)
      [] w = "codec"  -> cite(WrongCodec)
      [] w = "unknown" -> cite(Unknown)
      [] w = "idx"    -> [ T EXCEPT ![c].claims = Append(@, [k |-> "idx", n |-> Len(T[c].prf)]) ]
      [] OTHER        -> T

\* the last token is the outermost; <<worlds, wrong token, citing token>>
W == <<1, 3>>
Worlds(cf, ff, lf, cc, fc, lc) ==
    { << << Tok("A", "B", W, <<>>, cf, ff, lf), Tok("B", "C", W, <<1>>, cc, fc, lc) >>, 1, 2 >>,
      << << Tok("D", "B", W, <<>>, <<>>, FALSE, "canon"), Tok("A", "B", W, <<>>, cf, ff, lf),
            Tok("B", "C", W, <<1, 2>>, cc, fc, lc) >>, 2, 3 >>,
      << << Tok("A", "B", W, <<>>, cf, ff, lf), Tok("B", "C", W, <<1>>, cc, fc, lc),
            Tok("C", "D", W, <<2>>, << C0(<<"a">>) >>, FALSE, "canon") >>, 1, 2 >>,
      << << Tok("A", "B", W, <<>>, cf, ff, lf), Tok("B", "B", W, <<1>>, cc, fc, lc),
            Tok("B", "D", W, <<1, 2>>, <<>>, TRUE, "canon") >>, 1, 2 >>,
      << << Tok("A", "A", W, <<>>, cf, ff, lf), Tok("A", "A", W, <<1, 1>>, cc, fc, lc) >>, 1, 2 >> }

Init ==
    /\ \E cf, cc \in Claims, ff, fc \in BOOLEAN, lf, lc \in Lays, w \in Faults :
       /\ ~(ff /\ lf # "canon") /\ ~(fc /\ lc # "canon")
       /\ \A i \in DOMAIN cf : cf[i].k = "cap" \/ cf[i].k = "junk"
       /\ \E x \in Worlds(cf, ff, lf, cc, fc, lc) :
          /\ toks = Break(x[1], x[2], x[3], w)
          /\ held = IF w = "held" THEN {x[2]} ELSE {}
          /\ store = DOMAIN toks \ held
          /\ wrong = w
    /\ vs = [ v \in Slots |-> Idle ]
    /\ done = FALSE

Next == ~done /\ done' = TRUE /\ UNCHANGED <<vars, held, wrong>>
Spec == Init /\ [][Next]_<<vars, done, held, wrong>>

R == Len(toks)

\* one fault anywhere is enough, and nothing else matters
OneFault == Accept(toks, store, R, 2) <=> wrong = "none"

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Ops ==
    << [op |-> "putall", held |-> SetSeq(held)],
       [op |-> "ver", v |-> 1, i |-> R, now |-> 2, mode |-> "given", entry |-> "ucan"],
       [op |-> "ver", v |-> 1, i |-> R, now |-> 2, mode |-> "given", entry |-> "cid"] >>

Emit == ~done => PrintT("SCEN " \o ToJson([ toks |-> toks, ops |-> Ops ]))
=============================================================================
