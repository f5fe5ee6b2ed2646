-------------------------------- MODULE GenText --------------------------------
(* Random texts of many lexemes (P09): longer, and over a larger alphabet,  *)
(* than MCText enumerates.                                                   *)
EXTENDS CapText, IOUtils, Json
Env(k, d) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE d
N == Env("G_N", 30)          \* texts per behaviour
MAXLEN == Env("G_LEN", 8)
VARIABLES texts, done
\* never of constant level, so that TLC draws afresh every time
Pick(S) == IF Len(texts) < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)

Starts == { "", "my:", "as:did:key:zA:", "fs:", "fs:/", "mb:", "prf:", "my:fs:/", "my:mb:", "my:prf:", "as:did:key:zAb:fs:/", "as:did:key:z6Mk:mb:",
            "as:did:key:zA:prf:", "as:did:key:z", "as:did:", "as:", "my:my:", "as:did:key:zA:my:", "my:as:did:key:zA:", "as:did:key:zA:as:did:key:zB:" }
Lexemes == { "my:", "as:", "did:key:zA", "did:key:", "did:web:x", "key", ":", "::", "fs:", "/", "//", "a", "b", "Z", "*", "**", "/*", "mb:", "foo:", "prf:",
             "0", "07", "18446744073709551615", "?q", "?", "#f", "#", "%2A", "%2a", "%2F", "%", "+", "-", "_", "=", "&", ",", ";", "!", "(", ")", "$", "'", "did",
             "did:key:zA:fs:/a", "fs:/a", "mb:m", "example", "longer-than-the-others" }
RECURSIVE Some(_)
Some(n) == IF n = 0 THEN "" ELSE Pick(Lexemes) \o Some(n - 1)
Text(z) == Pick(Starts) \o Some(Pick(0..MAXLEN))

\* what a text means survives being written down
Fams == { "fs", "mb", "prf" }
RoundTrip == \A i \in DOMAIN texts : \A f \in Fams : \A a \in DOMAIN Abilities(f) :
    LET v == Meaning(f, texts[i], Abilities(f)[a])
    IN v.ok /\ ~(v.form = "res" /\ v.wild) => Meaning(f, Render(f, v), Abilities(f)[a]) = v

Init == texts = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(texts) < N /\ UNCHANGED done /\ \E t \in { TLCEval(Text(Len(texts))) } : texts' = Append(texts, t)
        \/ ~done /\ Len(texts) = N /\ done' = TRUE /\ UNCHANGED texts
           /\ PrintT("SCEN " \o ToJson([ kind |-> "texts", texts |-> texts ]))
Spec == Init /\ [][Next]_<<texts, done>>
=============================================================================
