-------------------------------- MODULE MCPrin --------------------------------
(* Principals and prefixed signatures at the level of bytes: no two DIDs     *)
(* share a principal, every accepted one reads back, and so does every      *)
(* signature.                                                                *)
EXTENDS Ipld

CONSTANTS MaxLen
VARIABLES d1, d2, code, sig
Bytes == 0..2
Mark == <<1, 2>>
Strings == UNION { [ 1..n -> Bytes ] : n \in 0..MaxLen }
Dids == [ key : {TRUE, FALSE}, b : Strings ]
Codes == { 1, 2, 3, 6, 7, 35, 200 }

Init == \/ d1 \in Dids /\ d2 \in Dids /\ code = 1 /\ sig = <<>>
        \/ d1 = [ key |-> TRUE, b |-> <<>> ] /\ d2 = d1 /\ code \in Codes
           /\ \E n \in 0..40 : \E x \in {0, 3} : sig = [ i \in 1..n |-> (i + x) % 5 ]
Next == FALSE /\ UNCHANGED <<d1, d2, code, sig, ivars>>
Spec == Init /\ form = "token" /\ content = 0 /\ [][Next]_<<d1, d2, code, sig, ivars>>

P(d) == ToPrincipal(d, Mark)
Injective == P(d1).r = "ok" /\ P(d2).r = "ok" /\ P(d1).b = P(d2).b => d1 = d2
ReadsBack == P(d1).r = "ok" => FromPrincipal(P(d1).b, Mark) = d1
SigReadsBack == \A D \in {2, 3, 5} :
    LET r == DecSig(EncSig(code, sig, D), Codes, D) IN r.r = "ok" /\ r.code = code /\ r.sig = sig
\* cut anywhere it is refused
SigCut == \A D \in {2, 3} : \A k \in 0..(Len(EncSig(code, sig, D)) - 1) :
    DecSig(SubSeq(EncSig(code, sig, D), 1, k), Codes, D).r = "err"
=============================================================================
