-------------------------------- MODULE MCCalls --------------------------------
(* A program handling data from others: every call that began ends, and a    *)
(* failed call leaves behind nothing that can be used.                       *)
EXTENDS Hostile
CONSTANT MaxVals
Next == \/ Len(vals) < MaxVals /\ \E t \in Sources : Make(t)
        \/ Len(vals) < MaxVals /\ \E o \in DOMAIN Op, k \in DOMAIN vals : Call(o, k)
        \/ \E r \in {"ok", "err"} : Return(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E r \in {"ok", "err"} : Return(r))
TypeOK == /\ \A k \in DOMAIN vals : vals[k] \in Types \cup {"dead"}
          /\ pending # <<>> => vals[pending[2]] = Op[pending[1]][1]
\* every type can be reached from something that comes from outside
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup { Op[o][2] : o \in { x \in DOMAIN Op : Op[x][1] \in S /\ Op[x][2] # "none" } } IN IF T = S THEN S ELSE Reach(T)
ASSUME Reach(Sources) = Types
NoUseOfDead == pending # <<>> => vals[pending[2]] # "dead"
Ends == pending # <<>> ~> pending = <<>>
=============================================================================
