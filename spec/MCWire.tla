-------------------------------- MODULE MCWire --------------------------------
(* Every text with at most two departures from a good token: in the kinds   *)
(* of its fields, and in its framing.  Emitted for replay.                   *)
EXTENDS Wire, Json

CONSTANTS MaxDev
VARIABLES dev, frame

Kinds == {"missing", "null", "str", "uint", "neg", "big", "float", "bool", "strs", "mixed", "objs", "obj"}
CapKinds == {"missing", "null", "str", "uint", "strs", "empty", "two", "noabilities", "nolist", "badcav", "badab", "nullcav", "emptylist"}
Fields == { "h.alg", "h.typ", "p.ucv", "p.iss", "p.aud", "p.exp", "p.nbf", "p.nnc", "p.fct", "p.prf" }
Frames == { "none", "one", "two", "four", "five", "trail", "lead", "empty1", "empty2", "empty3", "swap", "pad1", "pad2", "pad3",
            "std1", "std2", "std3", "spare1", "spare2", "spare3", "space1", "space2", "space3", "nl", "wrapa", "wrapb", "wrapc", "wrapd", "dots", "ws1", "ws2",
            "twodocs1", "twodocs2", "garbage1", "garbage2", "comma1", "comma2", "bom1", "bom2", "array1", "array2",
            "string1", "string2", "null1", "null2", "cut1", "cut2", "utf81", "utf82", "seq1", "seq2", "latin", "single", "upper", "nul" }

Init == dev = {} /\ frame = "none"
Next == \/ frame = "none" /\ Cardinality(dev) < MaxDev /\ UNCHANGED frame
           /\ \E f \in Fields \cup {"p.cap"} : \E k \in IF f = "p.cap" THEN CapKinds ELSE Kinds :
                /\ \A d \in dev : d[1] # f
                /\ dev' = dev \cup {<<f, k>>}
        \/ frame = "none" /\ Cardinality(dev) < MaxDev /\ frame' \in Frames \ {"none"} /\ UNCHANGED dev
Spec == Init /\ [][Next]_<<dev, frame>>

\* the acceptance of a well-framed token depends on each field alone
Doc(d) == LET k(f, good) == IF \E x \in d : x[1] = f THEN (CHOOSE x \in d : x[1] = f)[2] ELSE good IN
    << [ n |-> 0, alpha |-> TRUE, spare |-> 0, doc |-> "obj", f |-> [ alg |-> k("h.alg", "str"), typ |-> k("h.typ", "str") ] ],
       [ n |-> 0, alpha |-> TRUE, spare |-> 0, doc |-> "obj", cap |-> [ k |-> "obj", f |-> <<>> ],
         f |-> [ ucv |-> k("p.ucv", "str"), iss |-> k("p.iss", "str"), aud |-> k("p.aud", "str"), exp |-> k("p.exp", "null"),
                 nbf |-> k("p.nbf", "missing"), nnc |-> k("p.nnc", "missing"), fct |-> k("p.fct", "missing"),
                 prf |-> k("p.prf", "missing"), cap |-> "obj" ] ],
       [ n |-> 0, alpha |-> TRUE, spare |-> 0 ] >>
FieldwiseOnly == Accept(Doc(dev)) <=> \A d \in dev : Accept(Doc({d}))
GoodIsAccepted == Accept(Doc({}))
Emit == PrintT("SCEN " \o ToJson([ kind |-> "dev", dev |-> dev, frame |-> frame ]))
=============================================================================
