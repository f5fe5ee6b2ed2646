-------------------------------- MODULE GenWire --------------------------------
(* Random good tokens, and random edits of their text, of the JSON text of  *)
(* their segments, or of single lexemes.                                     *)
EXTENDS Wire, IOUtils, Json
Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N == Env("G_N", 12)          \* tokens per behaviour
EDITS == Env("G_EDITS", 2)
VARIABLES toks, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(toks) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
One(x) == { TLCEval(x) }
Kind(f) == IF f \in {"exp", "nbf"} THEN Pick({"uint", "uint", "null", "missing"})
           ELSE IF f = "nnc" THEN Pick(OptStr) ELSE IF f = "fct" THEN Pick(OptMap) ELSE Pick(OptList)
Edit(z) == [ at |-> Pick({"text", "h", "p", "p", "sig", "b1", "b2"}),
          how |-> Pick({"flip", "del", "ins", "dup", "cut", "swap", "lex", "lex", "ws", "case"}) ]
Op(z) == LET k == Pick(0..EDITS) IN
    [ opt |-> { << "p." \o f, Kind(f) >> : f \in {"exp", "nbf", "nnc", "fct", "prf"} }
              \cup {<< "p.cap", Pick({"empty", "two", "emptylist"}) >>},
      edits |-> [ i \in 1..k |-> Edit(i) ] ]
Init == toks = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(toks) < N /\ UNCHANGED done /\ \E o \in One(Op(0)) : toks' = Append(toks, o)
        \/ ~done /\ Len(toks) = N /\ done' = TRUE /\ UNCHANGED toks
           /\ PrintT("SCEN " \o ToJson([ kind |-> "edits", toks |-> toks ]))
Spec == Init /\ [][Next]_<<toks, done>>
=============================================================================
