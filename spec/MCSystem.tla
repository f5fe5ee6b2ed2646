------------------------------- MODULE MCSystem -------------------------------
(* The whole system in use: principals issue tokens to one another, each from *)
(* what it was given, and a verifier asks about any of them at any time.      *)
(* Honest principals cite only proofs addressed to them and stay within their *)
(* windows; "E" cites whatever it likes and claims whatever it likes, but     *)
(* cannot sign for anyone else (P19).                                         *)
EXTENDS Verifier, TLC, Json

CONSTANTS Toks,                  \* number of tokens
          Cheats,               \* whether E takes part
          Small                 \* fewer capabilities and windows

VARIABLE done

C(p, ab) == [ fam |-> "fs", form |-> "res", did |-> "", wild |-> FALSE, path |-> p,
              ab |-> ab, bad |-> FALSE, cav |-> <<>> ]
Cl(c) == [ k |-> "cap", c |-> c ]
CapU  == { C(<<"a">>, 1), C(<<"a", "b">>, 1) } \cup IF Small THEN {} ELSE { C(<<"a">>, 0) }
Princ == IF Cheats THEN {"A", "B", "E"} ELSE {"A", "B", "C"}
Wins  == { <<-1, -1>>, <<1, 2>> } \cup IF Small THEN {} ELSE { <<1, 1>>, <<-1, 1>> }
Times == 0..3

Init == toks = <<>> /\ store = {} /\ vs = [ v \in Slots |-> Idle ] /\ done = FALSE

\* what a token says of its proofs: nothing, hands on the first, the last, or all
Red(n) == IF n = 0 THEN { <<>> }
          ELSE { <<>>, << [k |-> "idx", n |-> 0] >>, << [k |-> "idx", n |-> n - 1] >>, << [k |-> "all"] >> }

Mine(i) == { n \in DOMAIN toks : toks[n].aud = i }
Prfs(i) == IF i = "E" THEN { <<>> } \cup { <<n>> : n \in DOMAIN toks }
           ELSE { <<>> } \cup { <<n>> : n \in Mine(i) } \cup { q \in Mine(i) \X Mine(i) : q[1] # q[2] }

Made ==
    /\ ~done /\ Len(toks) < Toks
    /\ \E i, a \in Princ, w \in Wins : \E prf \in Prfs(i) : \E r \in Red(Len(prf)), c \in CapU \cup { <<>> } :
       /\ toks = <<>> => i = "A"
       /\ toks # <<>> => prf # <<>> \/ i # "A"
       /\ c # <<>> \/ r # <<>>
       /\ i = "E" \/ \A n \in DOMAIN prf : Encloses(toks[prf[n]], [nbf |-> w[1], exp |-> w[2]])
       /\ i = "E" => w = <<-1, -1>>
       /\ toks' = Append(toks, [ iss |-> i, aud |-> a, nbf |-> w[1], exp |-> w[2], prf |-> prf,
                                 claims |-> (IF c = <<>> THEN <<>> ELSE <<Cl(c)>>) \o r,
                                 by |-> i, over |-> "self", raw |-> "intact", lay |-> "canon",
                                 hdr |-> "own", fct |-> FALSE ])
    /\ store' = store \cup {Len(toks')}
    /\ UNCHANGED <<vs, done>>

Ask == ~done /\ Len(toks) = Toks /\ done' = TRUE /\ UNCHANGED vars

Next == Made \/ Ask
Spec == Init /\ [][Next]_<<vars, done>>

Clean(n) == \A x \in Reach(toks, n) : toks[x].iss # "E"

\* among honest principals every token is good at every time of its window, and at no other
HonestAccepted ==
    \A n \in DOMAIN toks, t \in Times : Clean(n) => (Accept(toks, store, n, t) <=> InWindow(toks[n], t))

\* nobody is named the source of a capability unless it stated that much itself, in a
\* token that everyone between it and the verifier was addressed by
NoAmplification ==
    \A n \in DOMAIN toks : (\E t \in Times : Accept(toks, store, n, t)) =>
        \A x \in Info(toks, n, "fs") :
            \E m \in Reach(toks, n) : toks[m].iss = x[2] /\ \E d \in Own(toks[m], "fs") : Enables(d, x[1])

\* E is only ever believed about itself, unless it was given the capability
Cheated ==
    \A n \in DOMAIN toks : (\E t \in Times : Accept(toks, store, n, t)) =>
        \A x \in Info(toks, n, "fs") : toks[n].iss = "E" /\ x[2] # "E" =>
            \E p \in DOMAIN toks[n].prf : LET q == toks[n].prf[p] IN toks[q].aud = "E" /\ Covers(Info(toks, q, "fs"), x)

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Ops ==
    << [op |-> "putall", held |-> <<>>],
       [op |-> "ver", v |-> 1, i |-> Toks, now |-> 1, mode |-> "given", entry |-> "cid"],
       [op |-> "ver", v |-> 1, i |-> Toks, now |-> 2, mode |-> "given", entry |-> "ucan"],
       [op |-> "ver", v |-> 1, i |-> Toks - 1, now |-> 3, mode |-> "given", entry |-> "str"] >>
Emit == done => PrintT("SCEN " \o ToJson([ toks |-> toks, ops |-> Ops, via |-> "builder" ]))
=============================================================================
