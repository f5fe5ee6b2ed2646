-------------------------------- MODULE Caps --------------------------------
(* Capabilities and the "enables" relation (P08).                           *)
(*                                                                          *)
(* A capability is a record                                                 *)
(*   fam  : which application semantics understands it ("fs", "mb", ...)    *)
(*   form : "res" (plain), "my", "as"                                       *)
(*   did  : the DID of an "as" resource, "" otherwise                       *)
(*   wild : TRUE for the wildcard of that form                              *)
(*   path : scope, a sequence of names (<<>> when wild)                     *)
(*   ab   : rank of the ability in the application's order                  *)
(*   bad  : TRUE when the caveat is not an object                           *)
(*   cav  : caveat entries, a sequence of <<key, value>> with distinct keys *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Entries(c) == { c.cav[i] : i \in DOMAIN c.cav }

(* The application's notion of scope containment: a path contains every     *)
(* path below it.  Semantics whose scopes are single names use paths of     *)
(* length one, for which this is equality.                                  *)
ScopeContains(p, q) == IsPrefix(p, q)

UriContains(a, b) == a.wild \/ (~b.wild /\ ScopeContains(a.path, b.path))

ResContains(a, b) ==
    /\ a.form = b.form
    /\ a.did = b.did
    /\ UriContains(a, b)

CavEnables(a, b) == Entries(a) \subseteq Entries(b)

Enables(a, b) ==
    /\ ~a.bad /\ ~b.bad
    /\ ResContains(a, b)
    /\ a.ab >= b.ab
    /\ CavEnables(a, b)

Equivalent(a, b) == Enables(a, b) /\ Enables(b, a)

-----------------------------------------------------------------------------
(* Laws, checked over a finite set of capabilities by MCCaps.               *)
Reflexive(S)  == \A a \in S : ~a.bad => Enables(a, a)
Transitive(S) == \A a, b, c \in S : Enables(a, b) /\ Enables(b, c) => Enables(a, c)
BadIsIsolated(S) == \A a, b \in S : a.bad => ~Enables(a, b) /\ ~Enables(b, a)
FormsAreDisjoint(S) ==
    \A a, b \in S : Enables(a, b) => a.form = b.form /\ a.did = b.did
WildOnlyFromWild(S) == \A a, b \in S : Enables(a, b) /\ b.wild => a.wild
=============================================================================
