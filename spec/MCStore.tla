------------------------------- MODULE MCStore -------------------------------
(* All interleavings of a few operations of a few threads on Store; every   *)
(* answer it gives is Allowed by StoreObs, and the answer StoreObs allows    *)
(* besides is given by Store in some interleaving with the same calls and   *)
(* returns so far (checked by keeping every possible state of Store).       *)
EXTENDS StoreObs

CONSTANTS MaxOps
Sym == Permutations(Threads)
VARIABLES n,
          poss       \* all <<mem, pend>> that Store may be in after the same calls and returns

Cs == {1, 2}
Ops == { [ o |-> "write", c |-> c ] : c \in Cs } \cup
       { [ o |-> o, a |-> Addr(c) ] : o \in {"read", "readtok"}, c \in Cs } \cup
       { [ o |-> "require", a |-> [ Addr(1) EXCEPT !.codec = "cbor" ] ] }

TakeIn(s, t) == << Effect(s[2][t].op, s[1]),
                   [ s[2] EXCEPT ![t] = [ o |-> "taken", op |-> s[2][t].op, res |-> Result(s[2][t].op, s[1]) ] ] >>
TakeIn2(S) == UNION { { TakeIn(s, t) : t \in { t \in Threads : s[2][t].o = "pending" } } : s \in S }
RECURSIVE Clos(_)
Clos(S) == LET T == S \cup TakeIn2(S) IN IF T = S THEN S ELSE Clos(T)

Init == kind = (1 :> "text" @@ 2 :> "bin") /\ mem = {} /\ pend = [ t \in Threads |-> Idle ] /\ OInit
        /\ n = 0 /\ poss = { << {}, [ t \in Threads |-> Idle ] >> }

DoCall(t, op) == Call(t, op) /\ OCall(t, op) /\ n < MaxOps /\ n' = n + 1
    /\ poss' = Clos({ << s[1], [ s[2] EXCEPT ![t] = [ o |-> "pending", op |-> op ] ] >> : s \in poss })
DoTake(t) == Take(t) /\ UNCHANGED <<ovars, n, poss>>
DoReturn(t) == Return(t) /\ OReturn(t, pend[t].op, pend[t].res) /\ UNCHANGED n
    /\ poss' = Clos({ << s[1], [ s[2] EXCEPT ![t] = Idle ] >> :
                      s \in { s \in poss : s[2][t].o = "taken" /\ s[2][t].res = pend[t].res } })
Next == \E t \in Threads : (\E op \in Ops : DoCall(t, op)) \/ DoTake(t) \/ DoReturn(t)
Spec == Init /\ [][Next]_<<vars, ovars, n, poss>>

Given(t) == { s[2][t].res : s \in { s \in poss : s[2][t].o = "taken" } }
Answers(op) == { Result(op, {}), Result(op, Cs) }

\* Store's own answers are allowed
Sound == \A t \in Threads : pend[t].o = "taken" => Allowed(t, pend[t].op, pend[t].res)
\* and exactly those Store could give after these calls and returns are
Exact == \A t \in Threads : pend[t].o # "idle" =>
            \A x \in Answers(pend[t].op) : Allowed(t, pend[t].op, x) <=> \E y \in Given(t) : Same(pend[t].op, x, y)
InSet == << mem, pend >> \in poss
MemGrows == [][mem \subseteq mem']_mem
=============================================================================
