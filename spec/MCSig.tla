-------------------------------- MODULE MCSig --------------------------------
(* Every way a signature can come to stand under a token: who signed, what  *)
(* text, what became of the bytes, in which layout, for every key type.     *)
EXTENDS Verifier, TLC, Json

VARIABLES done, keys

Parts == { "head64", "head128", "head256", "head512", "head1000", "head1024", "head2048", "head4096", "head8192", "head16384",
           "head32768", "head65535", "head65536", "tail64", "tail256", "tail1024", "tail4096", "tail8192", "tail16384", "tail65536" }
Overs == { "self", "payload", "header", "other", "swap", "canon", "noheader", "nodot", "decoded", "head", "tail", "hash", "all" } \cup Parts
Raws  == { "intact", "flip", "flip2", "cut", "cuthead", "extend", "prepend", "empty", "zero",
           "doubled", "random", "half", "reverse", "der", "hex", "text", "little", "swap", "wrapped", "recovery" }
Lays  == { "canon", "pretty", "reorder", "extra", "escaped", "header", "long" }

Tok(i, a, by, over, raw, lay) ==
    [ iss |-> i, aud |-> a, nbf |-> NoBound, exp |-> NoBound, prf |-> <<>>, claims |-> <<>>,
      by |-> by, over |-> over, raw |-> raw, lay |-> lay, hdr |-> "own", fct |-> FALSE ]

\* what else the token says; none of it has a say in whether the signature holds
Hdrs  == { "own", "none", "None", "hmac", "other", "empty" }
Claim == [ k |-> "cap", c |-> [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> <<"a">>,
                                ab |-> 1, bad |-> FALSE, cav |-> <<>> ] ]
Says(t, w) == CASE w = "facts" -> [ t EXCEPT !.fct = TRUE ]
                [] w = "claims" -> [ t EXCEPT !.claims = <<Claim>> ]
                [] w = "window" -> [ t EXCEPT !.nbf = 0, !.exp = 4 ]
                [] w = "proof" -> [ t EXCEPT !.prf = <<1>> ]
                [] OTHER -> t

\* token 1 is intact so that the parser has already resolved a key when token 2 comes
Init ==
    /\ keys \in { "ed", "p256", "rsa", "mixed" }
    /\ \/ \E i \in {"A", "B"}, by \in {"A", "B", "C"}, o \in Overs, r \in Raws, lay \in Lays :
            /\ (o = "self" \/ r = "intact" \/ by = i)
            /\ ~(o = "canon" /\ lay = "canon")
            /\ (o \in Parts => lay \in {"canon", "long"})
            /\ toks = << Tok("A", "B", "A", "self", "intact", "canon"), Tok(i, "D", by, o, r, lay) >>
       \/ \E i \in {"A", "B"}, by \in {"A", "B", "C"}, a \in {"A", "B", "C", "D"}, o \in {"self", "other"},
             r \in {"intact", "empty", "flip"}, h \in Hdrs, w \in {"", "facts", "claims", "window", "proof"} :
            /\ keys \in {"ed", "mixed"} /\ a \in {i, by, "D"} /\ (o = "self" \/ r = "intact")
            /\ (w = "" \/ h = "own" \/ by = i)
            /\ toks = << Tok("A", "B", "A", "self", "intact", "canon"),
                         Says([ Tok(i, a, by, o, r, "canon") EXCEPT !.hdr = h ], w) >>
    /\ store = {1, 2}
    /\ vs = [ v \in Slots |-> Idle ]
    /\ done = FALSE

Next == ~done /\ done' = TRUE /\ UNCHANGED <<vars, keys>>
Spec == Init /\ [][Next]_<<vars, done, keys>>

OnlyIssuer == SigOk(toks[2]) => toks[2].by = toks[2].iss /\ toks[2].over = "self"
AcceptNeedsSig == \A t \in 0..4 : Accept(toks, store, 2, t) => SigOk(toks[2])

Ops ==
    << [op |-> "putall", held |-> <<>>], [op |-> "sig", i |-> 2], [op |-> "sig", i |-> 1], [op |-> "sig", i |-> 2],
       [op |-> "val", i |-> 2, now |-> 1, mode |-> "given"],
       [op |-> "ver", v |-> 1, i |-> 2, now |-> 1, mode |-> "given", entry |-> "cid"] >>

Emit == ~done => PrintT("SCEN " \o ToJson([ toks |-> toks, ops |-> Ops, keys |-> keys ]))
=============================================================================
