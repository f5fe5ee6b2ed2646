-------------------------------- MODULE MCDid --------------------------------
(* A parser that remembers the keys it resolved, under the DID's own text    *)
(* ("own") or under an abbreviation of it ("short"), and may forget any.     *)
EXTENDS Did

CONSTANTS KeyBy
VARIABLES reg, cache, last

D(id, short, shape, ty, built) == [ id |-> id, short |-> short, shape |-> shape, ty |-> ty, built |-> built ]
Dids == { D("a", "x", "key", "t1", "ka"), D("b", "x", "key", "t1", "kb"), D("c", "y", "key", "t2", "kc"),
          D("d", "y", "key", "t2", "none"), D("e", "z", "key", "t3", "ke"), D("f", "x", "web", "t1", "none"),
          D("g", "w", "short", "none", "none") }
KeyOf(d) == IF KeyBy = "own" THEN d.id ELSE d.short

Init == reg \in SUBSET {"t1", "t2", "t3"} /\ cache = {} /\ last = [ d |-> D("", "", "", "", ""), res |-> "none" ]
Cached(d) == { x \in cache : x[1] = KeyOf(d) }
Parse(d) ==
    IF d.shape = "key" /\ Cached(d) # {}
    THEN \E x \in Cached(d) : last' = [ d |-> d, res |-> x[2] ] /\ UNCHANGED <<reg, cache>>
    ELSE /\ last' = [ d |-> d, res |-> Resolve(reg, d) ]
         /\ cache' = IF Resolve(reg, d) = "none" THEN cache ELSE cache \cup { << KeyOf(d), Resolve(reg, d) >> }
         /\ UNCHANGED reg
Forget == \E x \in cache : cache' = cache \ {x} /\ UNCHANGED <<reg, last>>
Next == Forget \/ \E d \in Dids : Parse(d)
Spec == Init /\ [][Next]_<<reg, cache, last>>

\* whatever happened before, the answer is that of a parser used for the first time
OwnMerit == last.d.id # "" => last.res = Resolve(reg, last.d)
=============================================================================
