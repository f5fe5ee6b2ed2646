------------------------------ MODULE Verifier ------------------------------
(* The system as a state machine: tokens are issued, a store serves some of *)
(* them, and verifiers build proof chains by fetching cited proofs one at a *)
(* time while the store changes under them (P03, P18).                      *)
EXTENDS Delegation

CONSTANT Slots                  \* verifications that may be in progress

VARIABLES toks,                 \* issued tokens
          store,                \* positions of the tokens being served
          vs                    \* one record per slot

vars == <<toks, store, vs>>

Idle == [ st |-> "idle", root |-> 0, now |-> 0, got |-> {}, miss |-> FALSE,
          res |-> "none", runs |-> {} ]

TypeOK ==
    /\ store \subseteq DOMAIN toks
    /\ \A v \in Slots : vs[v].st \in {"idle", "run", "done"}
    /\ \A v \in Slots : vs[v].got \subseteq DOMAIN toks

(* What slot v has in hand *)
Loaded(s) == {s.root} \cup s.got

Cited(T, i) == { T[i].prf[k] : k \in DOMAIN T[i].prf }

(* A reason to reject that is visible in the tokens loaded so far *)
Fault(T, s) ==
    \E i \in Loaded(s) :
        \/ ~Local(T[i], s.now)
        \/ \E p \in Cited(T, i) : p <= 0
        \/ \E p \in Cited(T, i) \cap Loaded(s) : ~LinkOk(T[p], T[i])

Complete(T, s) == Reach(T, s.root) \subseteq Loaded(s)

(* The verdict slot v must deliver once it stops *)
Verdict(T, s) == IF ~s.miss /\ Complete(T, s) /\ ~Fault(T, s) THEN "ok" ELSE "err"

(* It may only stop early for a reason *)
MayStop(T, s) == s.miss \/ Complete(T, s) \/ Fault(T, s)

-----------------------------------------------------------------------------
Issue(t) ==
    /\ toks' = Append(toks, t)
    /\ UNCHANGED <<store, vs>>

Put(i) ==
    /\ i \in DOMAIN toks
    /\ store' = store \cup {i}
    /\ UNCHANGED <<toks, vs>>

Withdraw(i) ==
    /\ store' = store \ {i}
    /\ UNCHANGED <<toks, vs>>

Begin(v, r, now) ==
    /\ vs[v].st # "run"
    /\ r \in DOMAIN toks
    /\ vs' = [ vs EXCEPT ![v] = [ Idle EXCEPT !.st = "run", !.root = r, !.now = now,
                                             !.runs = vs[v].runs ] ]
    /\ UNCHANGED <<toks, store>>

Fetch(v, p) ==
    /\ vs[v].st = "run"
    /\ vs' = [ vs EXCEPT ![v].got = IF p \in store THEN @ \cup {p} ELSE @,
                         ![v].miss = @ \/ p \notin store ]
    /\ UNCHANGED <<toks, store>>

Finish(v, res) ==
    /\ vs[v].st = "run"
    /\ MayStop(toks, vs[v])
    /\ res = Verdict(toks, vs[v])
    /\ vs' = [ vs EXCEPT ![v].st = "done", ![v].res = res,
                         ![v].runs = @ \cup {<<vs[v].root, res>>} ]
    /\ UNCHANGED <<toks, store>>
=============================================================================
