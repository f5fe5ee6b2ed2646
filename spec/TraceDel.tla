------------------------------ MODULE TraceDel ------------------------------
(* Validates recorded executions of the library against Verifier /          *)
(* Delegation.  Each trace is one initial state; every step consumes one    *)
(* event.  An event the specification does not allow is reported with the   *)
(* properties it contradicts, and checking goes on from the recorded state. *)
EXTENDS Verifier, TLC, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, bad

Ev == Traces[tid].ev
E  == Ev[l]

Init ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ bad = {}
    /\ toks = Traces[tid].toks
    /\ store = {}
    /\ vs = [ v \in Slots |-> Idle ]

IsEv(k) == l <= Len(Ev) /\ E.e = k /\ l' = l + 1 /\ UNCHANGED tid

Blame(S) ==
    /\ bad' = S
    /\ S # {} => PrintT(<< "MISMATCH", Traces[tid].id, l, S \cup (IF Traces[tid].via = "builder" THEN {"P19"} ELSE {}) >>)

If(p, x) == IF p THEN {x} ELSE {}

Known(i) == i > 0 /\ i <= Len(toks)

\* the builder has no reason to refuse an honest token
TMade == /\ IsEv("made") /\ UNCHANGED vars
         /\ Blame(If(E.res # "ok", "P12"))

TPut == IsEv("put") /\ Put(E.i) /\ Blame({})
TDel == IsEv("del") /\ Withdraw(E.i) /\ Blame({})

TSig == /\ IsEv("sig") /\ UNCHANGED vars
        /\ Blame(If(E.res # (IF SigOk(toks[E.i]) THEN "ok" ELSE "err"), "P01"))

\* E.sig is what check_signature said in the same situation
TVal == /\ IsEv("val") /\ UNCHANGED vars
        /\ LET t == toks[E.i]
               sig == IF SigOk(t) THEN "ok" ELSE "err"
               exp == IF SigOk(t) /\ InWindow(t, E.now) THEN "ok" ELSE "err"
           IN Blame(IF E.res = exp THEN {}
                    ELSE IF ~SigOk(t) \/ E.sig # sig THEN {"P01"} ELSE {"P02"})

TExp == /\ IsEv("exp") /\ UNCHANGED vars
        /\ Blame(If(E.res # (IF Expired(toks[E.i], E.now) THEN "yes" ELSE "no"), "P02"))

TEarly == /\ IsEv("early") /\ UNCHANGED vars
          /\ Blame(If(E.res # (IF TooEarly(toks[E.i], E.now) THEN "yes" ELSE "no"), "P02"))

TEnc == /\ IsEv("enc") /\ UNCHANGED vars
        /\ Blame(If(E.res # (IF Encloses(toks[E.i], toks[E.j]) THEN "yes" ELSE "no"), "P03"))

TBegin == IsEv("begin") /\ Begin(E.v, E.i, E.now) /\ Blame({})

TFetch == /\ IsEv("fetch")
          /\ E.hit = (E.i \in store)
          /\ Fetch(E.v, E.i)
          /\ Blame({})

\* entering by CID when the token itself is not served
TNoRoot == /\ IsEv("noroot") /\ UNCHANGED vars
           /\ Blame(If(E.res # "err", "P03") \cup If(E.res # E.ctl, "P18"))

-----------------------------------------------------------------------------
RedelLike(i) == \E cl \in ClaimsOf(toks[i]) : cl.k \in {"idx", "all", "junk"}

\* pairs reported for one family
Rep(infos) == UNION { { <<infos[k].c, infos[k].o[m]>> : m \in DOMAIN infos[k].o } : k \in DOMAIN infos }

RedBlame(r, chain) ==
    LET den == Info(toks, r.root, r.fam)
        rep == Rep(r.infos)
        unsound == \E x \in rep : ~Covers(den, x)
        incomplete == \E x \in den : ~Covers(rep, x)
    IN If(unsound, "P04") \cup If(incomplete, "P05")
       \cup If((unsound \/ incomplete) /\ \E i \in chain : RedelLike(i), "P06")
       \cup If(\E k \in DOMAIN r.infos : r.infos[k].nbf # toks[r.root].nbf
                                      \/ r.infos[k].exp # toks[r.root].exp, "P07")

EndBlame ==
    LET s     == vs[E.v]
        chain == { i \in Reach(toks, s.root) : Known(i) }
        exp   == Verdict(toks, s)
        wrong == E.res # exp \/ ~MayStop(toks, s)
    IN If(wrong, "P03")
       \cup If(E.res = "ok" /\ \E i \in chain : ~SigOk(toks[i]), "P01")
       \cup If(E.res = "ok" /\ \E i \in chain : SigOk(toks[i]) /\ ~InWindow(toks[i], s.now), "P02")
       \* refused although every window contains the time asked about, if not the clock's
       \cup If(E.res # "ok" /\ exp = "ok" /\ \E i \in chain : ~InWindow(toks[i], E.clk), "P02")
       \* a position without a proof: refused, neither accepted nor a crash
       \cup If(E.res # "err" /\ \E i \in chain : ~IdxOk(toks[i]), "P06")
       \cup If(E.res = "panic" /\ exp = "ok", "P05")
       \cup If(E.res # "ok" /\ exp = "ok" /\ \E i \in chain : RedelLike(i), "P06")
       \cup If(E.res = "ok" /\ \E i \in chain : ~Encloses(toks[i], toks[s.root]), "P07")
       \cup If(E.res # E.ctl \/ ~E.same, "P18")
       \cup If(wrong /\ \E v \in Slots : \E x \in vs[v].runs : x[1] = s.root /\ x[2] # exp, "P18")
       \cup IF E.res = "ok" /\ exp = "ok" /\ ~wrong
            THEN If(E.shape # Shape(toks, s.root), "P03")
                 \cup UNION { RedBlame(E.red[k], chain) : k \in DOMAIN E.red }
            ELSE {}

TEnd ==
    /\ IsEv("end")
    /\ vs[E.v].st = "run"
    /\ Blame(EndBlame)
    /\ \/ bad' = {} /\ Finish(E.v, E.res)
       \/ /\ bad' # {}                       \* resynchronise on the recorded outcome
          /\ vs' = [ vs EXCEPT ![E.v].st = "done", ![E.v].res = E.res,
                               ![E.v].runs = @ \cup {<<vs[E.v].root, E.res>>} ]
          /\ UNCHANGED <<toks, store>>

Next == TMade \/ TPut \/ TDel \/ TSig \/ TVal \/ TExp \/ TEarly \/ TEnc \/ TBegin \/ TFetch \/ TNoRoot \/ TEnd

Spec == Init /\ [][Next]_<<vars, tid, l, bad>>
=============================================================================
