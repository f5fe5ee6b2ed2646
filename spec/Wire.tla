--------------------------------- MODULE Wire ---------------------------------
(* Token text (P11).  A text is described by its dot-separated segments.     *)
(* Base64url layer of a segment: [n |-> length, alpha |-> only characters of *)
(* the URL-safe alphabet, spare |-> the bits of the last character that no   *)
(* byte uses].  JSON layer of the first two: doc is "obj" for one JSON       *)
(* object (and whitespace), "value" for one other JSON value, "none" for     *)
(* anything else; f maps field names to the kind of their value, "missing"   *)
(* if there is none; cap is the value of "cap" as in CapMap.                 *)
EXTENDS CapMap

Str     == {"str"}
OptStr  == {"str", "null", "missing"}
OptTime == {"uint", "null", "missing"}      \* fits 64 bits
OptList == {"strs", "null", "missing"}      \* list of strings
OptMap  == {"obj", "null", "missing"}

HeaderFields  == [ alg |-> Str, typ |-> Str ]
PayloadFields == [ ucv |-> Str, iss |-> Str, aud |-> Str, exp |-> OptTime, nbf |-> OptTime,
                   nnc |-> OptStr, fct |-> OptMap, prf |-> OptList, cap |-> {"obj"} ]

B64Ok(s) == s.alpha /\ s.n % 4 # 1 /\ s.spare = 0
FieldsOk(f, want) == \A k \in DOMAIN want : f[k] \in want[k]
HeaderOk(s)  == s.doc = "obj" /\ FieldsOk(s.f, HeaderFields)
PayloadOk(s) == s.doc = "obj" /\ FieldsOk(s.f, PayloadFields) /\ JsonOk(s.cap)

Accept(w) == /\ Len(w) = 3
             /\ \A i \in 1..3 : B64Ok(w[i])
             /\ HeaderOk(w[1]) /\ PayloadOk(w[2])

\* what the accessors report of a payload whose fields have values v ("null" when null or missing)
Reports(v, acc) == \A k \in DOMAIN acc : acc[k] = v[k]
=============================================================================
