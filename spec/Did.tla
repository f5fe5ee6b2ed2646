--------------------------------- MODULE Did ---------------------------------
(* Resolving DIDs (P14).  A DID is [id, shape, ty, built]: shape "key" is a *)
(* did:key in base58 with at least a key type; ty its key type; built the    *)
(* key that the constructor for that type makes of exactly its key bytes,    *)
(* "none" if it refuses them.  A parser has constructors for some types.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Resolve(reg, d) == IF d.shape = "key" /\ d.ty \in reg THEN d.built ELSE "none"
=============================================================================
