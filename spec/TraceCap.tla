------------------------------- MODULE TraceCap -------------------------------
(* Validates what the library says about capabilities against Caps (P08),   *)
(* CapText (P09) and CapMap (P10).                                          *)
EXTENDS CapText, CapMap, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, bad
Ev == Traces[tid].ev
E  == Ev[l]
Caps0 == Traces[tid].caps

Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}

IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid
Blame(S) == bad' = S /\ (S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S >>))
If(p, x) == IF p THEN {x} ELSE {}

\* capabilities E.a enables, and (for the caveats alone) whose caveats it enables
TRow == IsEv("row") /\
    LET a == Caps0[E.a]
        want == { j \in DOMAIN Caps0 : Enables(a, Caps0[j]) }
        cavs == { j \in DOMAIN Caps0 : ~a.bad /\ ~Caps0[j].bad /\ CavEnables(a, Caps0[j]) }
    IN Blame(If(Range(E.en) # want \/ Range(E.cav) # cavs \/ E.panics # 0, "P08"))

\* interpreting text; cavin/cavout are the JSON texts of the caveat
TText == IsEv("text") /\
    LET v == Meaning(E.fam, E.text, E.ability) IN
    Blame(If(E.res # v \/ (v.ok /\ E.cavout # (IF E.cavin = "none" THEN "{}" ELSE E.cavin)), "P09"))

\* rendering a view and interpreting the rendering again
TRender == IsEv("render") /\
    LET v == [ ok |-> TRUE, form |-> E.c.form, did |-> E.c.did, wild |-> E.c.wild, path |-> E.c.path, ab |-> E.c.ab ]
    IN Blame(IF v.form = "res" /\ v.wild THEN {}
             ELSE If(E.res # v \/ ~E.eq \/ Meaning(E.fam, E.text, E.ability) # v, "P09"))

\* a capability list turned into a map (or refused) and listed again
TList == IsEv("list") /\
    Blame(If(IF ListOk(E.list) THEN E.res # "ok" \/ ~SameEntries(E.list, E.out) ELSE E.res # "err", "P10"))

\* a JSON value in place of a map, through one entry point
TJson == IsEv("json") /\
    Blame(If(IF JsonOk(E.json) THEN E.res # "ok" \/ ~SameEntries(JsonEntries(E.json), E.out)
                                    \/ Range(E.abs) # JsonAbilities(E.json)
                               ELSE E.res # "err", "P10"))

Next == TRow \/ TText \/ TRender \/ TList \/ TJson
Spec == Init /\ [][Next]_<<tid, l, bad>>
=============================================================================
