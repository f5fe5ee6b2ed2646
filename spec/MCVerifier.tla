----------------------------- MODULE MCVerifier -----------------------------
(* Exhaustive check of the verifier: every small world, every order in      *)
(* which a verifier may visit proofs, every interleaving with the store.    *)
EXTENDS Verifier, TLC, IOUtils

VARIABLES lo, hi                \* per slot: tokens always / ever served during the run

Nows == {1}

Mk(i, a, prf, w, ok, n) ==
    [ iss |-> i, aud |-> a, nbf |-> w[1], exp |-> w[2], prf |-> prf,
      claims |-> IF n = NoBound THEN <<>> ELSE << [k |-> "idx", n |-> n] >>,
      by |-> IF ok THEN i ELSE "X", over |-> "self", raw |-> "intact" ]

Windows == { <<NoBound, NoBound>>, <<1, 1>>, <<2, NoBound>>, <<NoBound, 0>> }

\* leaf, middle, root; the root may cite leaf and middle, in any order, twice
Leaf == { Mk("A", a, <<>>, w, ok, NoBound) : a \in {"B", "C"}, w \in Windows, ok \in BOOLEAN }
Mid  == { Mk("B", "C", p, w, ok, NoBound) : p \in { <<>>, <<1>> }, w \in {<<NoBound, NoBound>>, <<1, 1>>}, ok \in BOOLEAN }
Root == { Mk("C", "D", p, w, TRUE, n) :
            p \in { <<2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, Unknown>> },
            w \in { <<NoBound, NoBound>>, <<1, 1>> }, n \in {NoBound, 0, 1} }

Init ==
    /\ \E l \in Leaf, m \in Mid, r \in Root : toks = <<l, m, r>>
    /\ store \in SUBSET {1, 2}
    /\ vs = [ v \in Slots |-> Idle ]
    /\ lo = [ v \in Slots |-> {} ]
    /\ hi = [ v \in Slots |-> {} ]

Track ==
    /\ lo' = [ v \in Slots |-> IF vs[v].st # "run" /\ vs'[v].st = "run" THEN store
                               ELSE IF vs[v].st = "run" THEN lo[v] \cap store' ELSE lo[v] ]
    /\ hi' = [ v \in Slots |-> IF vs[v].st # "run" /\ vs'[v].st = "run" THEN store
                               ELSE IF vs[v].st = "run" THEN hi[v] \cup store' ELSE hi[v] ]

\* an implementation may visit citations in any order, once or repeatedly
Wanted(v) == UNION { Cited(toks, i) : i \in Loaded(vs[v]) }

Next ==
    /\ \/ \E i \in {1, 2} : i \notin store /\ Put(i)
       \/ \E i \in {1, 2} : i \in store /\ Withdraw(i)
       \/ \E v \in Slots, n \in Nows : vs[v].st = "idle" /\ Begin(v, 3, n)
       \/ \E v \in Slots : vs[v].st = "run" /\ \E p \in Wanted(v) \ vs[v].got : ~vs[v].miss /\ Fetch(v, p)
       \/ \E v \in Slots, res \in {"ok", "err"} : Finish(v, res)
    /\ Track

Spec == Init /\ [][Next]_<<vars, lo, hi>>

Done(v) == vs[v].st = "done"

\* The verdict is a function of what was served (P18), and equals Accept (P03)
VerdictIsAccept ==
    \A v \in Slots : Done(v) =>
        (vs[v].res = "ok") = (~vs[v].miss /\ Accept(toks, vs[v].got, vs[v].root, vs[v].now))

\* Whatever the store did meanwhile, the verdict lies between what it always
\* and what it ever served
Sandwich ==
    \A v \in Slots : Done(v) =>
        /\ vs[v].res = "ok" => Accept(toks, hi[v], vs[v].root, vs[v].now)
        /\ Accept(toks, lo[v], vs[v].root, vs[v].now) => vs[v].res = "ok"

\* serving more never turns acceptance into rejection
Monotone ==
    \A S \in SUBSET {1, 2} : \A U \in SUBSET S :
        Accept(toks, U, 3, 1) => Accept(toks, S, 3, 1)

\* an accepted root is only valid inside every window of its chain (P07)
NeverOutlasts ==
    Accept(toks, {1, 2}, 3, 1) =>
        \A i \in Reach(toks, 3) : Encloses(toks[i], toks[3]) /\ InWindow(toks[i], 1)

Progress == \A v \in Slots : vs[v].st = "run" => MayStop(toks, vs[v]) \/ Wanted(v) \ vs[v].got # {}
=============================================================================
