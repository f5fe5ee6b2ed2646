-------------------------------- MODULE MCIpld --------------------------------
(* Every path of conversions up to a length, for tokens of every shape,      *)
(* emitted for replay; and the round trips of principals and signatures.     *)
EXTENDS Ipld, Json

CONSTANTS MaxSteps
VARIABLES path, opt

Keys == { "ed", "rsa", "p256" }
B == { TRUE, FALSE }
Opts == [ key : Keys, exp : {"none", "exp", "max"}, nbf : B, nnc : B, fct : {"none", "flat", "deep"}, prf : 0..2, cap : {"none", "one", "many"}, aud : {"key", "web"} ]
\* one departure from the plainest or from the richest
Plain == [ key |-> "ed", exp |-> "none", nbf |-> FALSE, nnc |-> FALSE, fct |-> "none", prf |-> 0, cap |-> "none", aud |-> "key" ]
Rich  == [ key |-> "p256", exp |-> "exp", nbf |-> TRUE, nnc |-> TRUE, fct |-> "deep", prf |-> 2, cap |-> "many", aud |-> "web" ]
Dist(o, p) == Cardinality({ f \in DOMAIN o : o[f] # p[f] })

Init == /\ opt \in { o \in Opts : Dist(o, Plain) <= 1 \/ Dist(o, Rich) <= 1 }
        /\ form = "token" /\ content = 0 /\ path = <<>>
Next == /\ Len(path) < MaxSteps /\ UNCHANGED opt
        /\ \E m \in DOMAIN Moves : Move(m, TRUE) /\ path' = Append(path, m)
Spec == Init /\ [][Next]_<<ivars, path, opt>>

TypeOK == form \in Forms /\ content = 0
Emit == Len(path) = MaxSteps => PrintT("SCEN " \o ToJson([ kind |-> "walk", opt |-> opt, path |-> path ]))
=============================================================================
