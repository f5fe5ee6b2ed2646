-------------------------------- MODULE MCKeys --------------------------------
(* Every situation of signing with one key and verifying with another, in   *)
(* every way of holding either, emitted for replay.                          *)
EXTENDS Keys, Json

CONSTANTS Ids,        \* keys, named by key type and number
          Msgs
SVia == { "direct", "box", "arc", "arcbox", "arcarc", "clone" }
VVia == SVia \cup { "ctor", "parsed", "cached", "public" }
Raws == { "intact", "flip", "flip2", "cut", "cuthead", "extend", "prepend", "empty", "zero", "doubled", "random", "half", "reverse", "der", "hex", "text", "little", "swap", "wrapped", "recovery" }

VARIABLE s
Init == s \in [ by : Ids, svia : SVia, smsg : Msgs, k : Ids, vvia : VVia, vmsg : Msgs, raw : Raws ]
              \* one deviation at a time, or a foreign key of the same type with anything
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Dev == (IF s.by # s.k THEN 1 ELSE 0) + (IF s.smsg # s.vmsg THEN 1 ELSE 0) + (IF s.raw # "intact" THEN 1 ELSE 0)

\* a valid signature is valid for one key and one message only
Unique == \A k \in Ids, m \in Msgs :
    VerifyOk(k, m, [ by |-> s.by, msg |-> s.smsg, raw |-> s.raw ])
        => k = s.by /\ m = s.smsg /\ s.raw = "intact"
Emit == Dev <= 1 => PrintT("SCEN " \o ToJson([ kind |-> "verify", s |-> s ]))
=============================================================================
