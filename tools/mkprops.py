#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("P01", "Only the issuer's signature over the exact text makes a token valid",
  "For a token received in its string form, checking its signature (and therefore validating it) succeeds exactly when the signature was made by the private key of the DID named as issuer in its payload over exactly the header and payload text of that string. Altering anything in the header or payload after signing, moving a signature from another token, or naming another issuer makes it fail. A token its issuer did sign passes for every supported key type, whatever the layout of its JSON (field order, whitespace, extra fields).",
  ["inputs", "histories"], "every token string, every alteration of a signed token, every supported key type, with a fresh or an already used DID parser",
  "The tests check one genuine signature per key type and never present a forged, altered, transplanted or re-laid-out token.",
  ["ucan/src/ucan.rs", "ucan/src/crypto/did.rs", "ucan-key-support/src/ed25519.rs", "ucan-key-support/src/rsa.rs", "ucan-key-support/src/p256.rs"],
  [("Ucan::check_signature verifies the retained signed bytes with the issuer's key", "ucan/src/ucan.rs"), ("FromStr keeps the first two segments verbatim as signed data", "ucan/src/ucan.rs")],
  ["Ucan::try_from(&str)", "Ucan::check_signature", "Ucan::validate", "ProofChain::try_from_token_string"],
  [("signed_data", "the bytes the signature covers", "ucan/src/ucan.rs Ucan"), ("signature", "raw signature bytes", "ucan/src/ucan.rs Ucan")])

p("P02", "A token is valid exactly within its own time window",
  "Validating a correctly signed token at time T (the time the caller supplies, or the system clock when none is supplied) succeeds exactly when its not-before, if any, is at most T and its expiry, if any, is at least T. Both bounds are inclusive, a missing bound does not constrain, and this holds over the whole unsigned 64-bit range of times. The expiry test, asked at a given time, agrees with this.",
  ["inputs"], "every combination of present or absent not-before and expiry, and every time T, including the boundaries and the extremes of the range",
  "The tests use now plus or minus a few seconds, never the boundaries, never a supplied time together with a not-before, and never extreme values.",
  ["ucan/src/ucan.rs", "ucan/src/time.rs"],
  [("Ucan::validate compares both bounds with the supplied time", "ucan/src/ucan.rs"), ("Ucan::is_expired / is_too_early", "ucan/src/ucan.rs")],
  ["Ucan::validate", "Ucan::is_expired", "Ucan::is_too_early", "ProofChain::from_ucan"],
  [("payload.nbf / payload.exp", "the token's window", "ucan/src/ucan.rs UcanPayload")])

p("P03", "A proof chain is accepted exactly when every link holds",
  "Building a proof chain succeeds exactly when the token and every token reachable through lists of proofs can be fetched from the store under the cited CID, is itself correctly signed and within its time window at the time of validation, has as audience the issuer of the token that cites it, and has a lifetime enclosing that of the token that cites it (an absent bound being unbounded), and no token redelegates a proof it does not have. The accepted chain holds, for every token, its proofs in the order cited. Entering by token string, by parsed token or by CID gives the same result.",
  ["inputs", "histories", "configurations"], "every finite acyclic arrangement of tokens, windows, issuers, audiences, proof lists, missing store entries and validation times",
  "The tests have one accepted two-level chain shape, one audience mismatch and one expiry; no faulty token below the first level or after the first proof, no lifetime violation.",
  ["ucan/src/chain.rs", "ucan/src/ucan.rs", "ucan/src/store.rs"],
  [("ProofChain::from_ucan recurses through every proof and calls validate_link_to", "ucan/src/chain.rs"), ("Ucan::lifetime_encompasses", "ucan/src/ucan.rs")],
  ["ProofChain::from_ucan", "ProofChain::try_from_token_string", "ProofChain::from_cid", "ProofChain::proofs", "Ucan::lifetime_encompasses"],
  [("proofs", "validated ancestor chains in cited order", "ucan/src/chain.rs ProofChain")])

p("P04", "No reported capability exceeds what its originators delegated",
  "Whenever reducing an accepted chain reports originator O for capability C, there is an unbroken path of tokens from one issued by O, which claims a capability that none of its own (not redelegated) proofs confers, to the outermost token, on which each later token either claims a capability enabled by the preceding one or redelegates that proof wholesale, and C is enabled by the capability at the end of the path. In particular, combining redundant entries never attributes a broader capability to an originator who delegated only a narrower one.",
  ["inputs", "configurations"], "every accepted chain (any shape, depth, set of claims, caveats and redelegations) and every application semantics",
  "The tests reduce five fixed chains of depth two with one resource and one ability level; escalation by a middle token, broader sibling claims and merged originators are never exercised.",
  ["ucan/src/chain.rs", "ucan/src/capability/semantics.rs", "ucan/src/capability/caveats.rs"],
  [("ProofChain::reduce_capabilities cross-checks each claim against inherited capabilities", "ucan/src/chain.rs"), ("CapabilityView::enables", "ucan/src/capability/semantics.rs"), ("merge of redundant capability infos", "ucan/src/chain.rs")],
  ["ProofChain::reduce_capabilities"],
  [("originators", "DIDs reported as the source of a capability", "ucan/src/chain.rs CapabilityInfo")])

p("P05", "Every capability a chain legitimately confers is reported",
  "Reducing an accepted chain reports, or covers by an at least as broad capability with the same originator, every capability the outermost token claims that the application's semantics understands, with every originator whose delegation through its (not redelegated) proofs enables the claim, or its own issuer if there is none, and every capability conferred by a proof it redelegates, with that capability's originators. Claims the semantics does not understand affect no other claim, and neither does the order in which claims or proofs are listed.",
  ["inputs", "configurations"], "every accepted chain and every application semantics, including tokens mixing understood, foreign and redelegation claims in any order",
  "The tests only use claims that are all understood by the one semantics in use and at most two proofs.",
  ["ucan/src/chain.rs", "ucan/src/capability/data.rs"],
  [("reduce_capabilities parses each claim with the semantics and aggregates originators", "ucan/src/chain.rs"), ("Capabilities::iter", "ucan/src/capability/data.rs")],
  ["ProofChain::reduce_capabilities"])

p("P06", "Redelegation passes on exactly the named proofs",
  "A claim of ability ucan/DELEGATE on prf:N redelegates exactly the capabilities of the proof at zero-based position N, and on prf:* exactly those of all proofs, each with its own originators; a position with no proof makes the chain be rejected. No other resource, ability, or claim with an empty caveat list redelegates anything, and the builder's delegating-from step yields a claim naming exactly the proof it added.",
  ["inputs", "configurations"], "every number and order of proofs, every set of redelegation and look-alike claims, any depth",
  "No test reduces a chain containing a redelegation; neither prf:*, nor indices other than the builder's own, nor out-of-range ones are exercised.",
  ["ucan/src/chain.rs", "ucan/src/capability/proof.rs", "ucan/src/builder.rs"],
  [("from_ucan collects redelegated proof positions", "ucan/src/chain.rs"), ("ProofDelegationSemantics", "ucan/src/capability/proof.rs"), ("UcanBuilder::delegating_from", "ucan/src/builder.rs")],
  ["ProofChain::from_ucan", "ProofChain::reduce_capabilities", "UcanBuilder::delegating_from"],
  [("redelegations", "positions of proofs redelegated wholesale", "ucan/src/chain.rs ProofChain")])

p("P07", "Reported validity windows never outlast any token in the chain",
  "Every capability reported by reducing an accepted chain carries the not-before and expiry of the outermost token, whether claimed, inherited or redelegated. That window lies within the window of every token in the chain.",
  ["inputs"], "every accepted chain and combination of present or absent bounds at every level",
  "The tests compare windows only for two chains with a plain expiry and no not-before, none with redelegation.",
  ["ucan/src/chain.rs", "ucan/src/ucan.rs"],
  [("reduce_capabilities stamps its own window on every info", "ucan/src/chain.rs"), ("validate_link_to requires enclosing lifetimes", "ucan/src/chain.rs")],
  ["CapabilityInfo::not_before", "CapabilityInfo::expires_at"])

p("P08", "One capability enables another exactly when it is at least as broad",
  "A capability enables another exactly when its resource contains the other's, its ability is at least the other's in the application's order, and every caveat entry of the first is present with an equal value in the other. Resources contain only within one form (plain, my:, as: with the same DID), a wildcard containing everything of that form and never being contained in a scoped one, scopes otherwise as the application defines. The relation is reflexive and transitive, and a caveat that is not an object enables and is enabled by nothing.",
  ["inputs"], "every pair and triple of capabilities over every form of resource, scope, ability and JSON caveat",
  "The tests try a handful of caveat pairs on one identical resource and ability; no my:/as:/wildcard forms, no nested or null caveat values, no transitivity.",
  ["ucan/src/capability/semantics.rs", "ucan/src/capability/caveats.rs"],
  [("CapabilityView::enables", "ucan/src/capability/semantics.rs"), ("Resource::contains / ResourceUri::contains", "ucan/src/capability/semantics.rs"), ("Caveat::enables", "ucan/src/capability/caveats.rs")],
  ["CapabilityView::enables", "Caveat::enables"])

p("P09", "Capability text means exactly the resource, ability and caveat it names",
  "Interpreting a textual capability under a semantics gives a view exactly when the semantics understands both its resource and its ability; the view's form (plain, my:, as:<did:key>:), DID, scope or wildcard, ability and caveat are those named by the text, a missing caveat meaning the empty one. Rendering a view to text and interpreting it again gives an equal view, for every form and scope (the plain bare wildcard, which has no textual form of its own, aside).",
  ["inputs"], "every resource string, ability string and caveat, under any application semantics",
  "The tests only interpret plain mailto: and wnfs: resources; the my: and as: forms, wildcards and rendering back are never exercised.",
  ["ucan/src/capability/semantics.rs", "ucan/src/capability/proof.rs"],
  [("CapabilitySemantics::parse / parse_resource / extract_did", "ucan/src/capability/semantics.rs"), ("ToString for Resource / ResourceUri", "ucan/src/capability/semantics.rs")],
  ["CapabilitySemantics::parse", "CapabilitySemantics::parse_capability", "Capability::from(&CapabilityView)"])

p("P10", "Capability maps lose, invent and admit nothing",
  "Converting a list of capabilities to a capability map and back keeps every resource, ability and caveat with its multiplicity and the relative order of caveats of one ability; iterating a map lists exactly its entries, an ability with an empty caveat list listing none. However a map is obtained (list, JSON value, deserialization, parsed token), one with a resource without abilities, abilities that are not an object, caveats that are not a list, or a caveat that is not an object is refused with an error.",
  ["inputs"], "every list of capabilities and every JSON value in place of a capability map",
  "The tests convert one three-element list and refuse five JSON values through one of the entry points; maps inside received tokens are never checked.",
  ["ucan/src/capability/data.rs", "ucan/src/ucan.rs"],
  [("TryFrom<Vec<Capability>>, TryFrom<&Value>, TryFrom<map>, Deserialize for Capabilities", "ucan/src/capability/data.rs"), ("Capabilities::iter", "ucan/src/capability/data.rs")],
  ["Capabilities::try_from", "Capabilities::iter", "Ucan::try_from(&str)", "serde_json::from_value::<Capabilities>"])

p("P11", "Token text survives parsing and re-encoding unchanged",
  "Every string accepted as a token re-encodes to the identical string, hence keeps its signature valid, parses again to an equal token, and has as CID the raw-codec CID of exactly that string under whichever hash is asked for; its accessors report exactly the values of the payload text. A string that is not exactly three unpadded base64url segments whose first two are single JSON documents with the required fields of the right types is rejected with an error.",
  ["inputs"], "every token string: produced here or elsewhere, in any JSON layout, and every malformed variation",
  "The tests re-encode only tokens made by the same builder and never parse a malformed or foreign-layout token.",
  ["ucan/src/ucan.rs", "ucan/src/serde.rs"],
  [("FromStr for Ucan", "ucan/src/ucan.rs"), ("Ucan::encode", "ucan/src/ucan.rs"), ("Ucan::to_cid", "ucan/src/ucan.rs"), ("DagJson::from_dag_json", "ucan/src/serde.rs")],
  ["Ucan::try_from", "Ucan::encode", "Ucan::to_cid", "accessors of Ucan"])

p("P12", "A built token says exactly what the builder was told",
  "For every sequence of builder calls, the signed token carries exactly the requested issuer, audience, window, facts, capabilities and proofs in the order added, the last setting of a single-valued field winning and an explicit expiration overriding a lifetime whichever was set last; it verifies under its issuer, and parses back from its text to an equal token. The same requests without a nonce give the same text whatever the order of independent calls or of keys in facts, and every signature with a nonce gives a different one. Without issuer or audience, or with a caveat that is not an object, an error is returned instead of a token.",
  ["inputs", "programs"], "every finite sequence of builder calls and every fact and caveat value the JSON data model can carry",
  "The tests make a few fixed call sequences; they never repeat or reorder setters, never combine expiration with lifetime and never exercise refusal.",
  ["ucan/src/builder.rs", "ucan/src/serde.rs", "ucan/src/ucan.rs"],
  [("UcanBuilder setters, implied_expiration, build", "ucan/src/builder.rs"), ("Signable::ucan_payload / sign", "ucan/src/builder.rs")],
  ["UcanBuilder", "Signable::sign", "accessors of Ucan"],
  [("builder fields", "what has been requested so far", "ucan/src/builder.rs UcanBuilder")])

p("P13", "The in-memory token store is content-addressed under any interleaving",
  "Writing to the in-memory store returns the raw-codec BLAKE3-256 CID of the bytes written, the one the token builder cites by default, and every read of that CID that starts after the write has returned, through any clone of the store, yields exactly those bytes; writing the same bytes again changes nothing and no write disturbs another entry. A CID never written yields no token, and token reads refuse CIDs whose codec is not raw. This holds for every interleaving of concurrent readers and writers.",
  ["schedules", "histories", "inputs"], "every sequence and interleaving of writes, reads and clones, every byte string and every CID",
  "The tests write one or two tokens from one thread and read them back through a chain.",
  ["ucan/src/store.rs", "ucan/src/ucan.rs"],
  [("MemoryStore read/write under one mutex shared by clones", "ucan/src/store.rs"), ("UcanJwtStore::read_token / require_token", "ucan/src/store.rs")],
  ["MemoryStore::write_token", "MemoryStore::read_token", "MemoryStore::require_token"],
  [("dags", "CID to bytes", "ucan/src/store.rs MemoryStore")])

p("P14", "Resolving a DID depends on that DID alone",
  "For every sequence of resolutions on one DID parser, a did:key resolves exactly when a constructor is registered for its key-type prefix and accepts its key bytes, and then to the key built by that constructor from exactly those bytes. Earlier resolutions, successful or not, and however many, never change a later result. Anything else (other DID methods, malformed or truncated keys, unregistered types) is refused with an error every time.",
  ["histories", "inputs"], "every set of registered key types and every sequence of DIDs, valid, malformed and near-identical",
  "The tests use one parser with one registered type and at most three valid DIDs.",
  ["ucan/src/crypto/did.rs"],
  [("DidParser::parse with its key cache", "ucan/src/crypto/did.rs")],
  ["DidParser::parse", "Ucan::check_signature"],
  [("key_cache", "keys resolved so far", "ucan/src/crypto/did.rs DidParser")])

p("P15", "Converting a token to IPLD and back preserves it",
  "Converting a token made by this library to its IPLD form and back, directly or through DAG-CBOR, gives the byte-identical token string, so that its signature still verifies and its CID is unchanged; version, issuer, audience, window, facts, nonce, proofs, capabilities and signature all survive. A DID converts to an IPLD principal and back to the same text, or is refused; no two different DIDs share a principal. A signature converts to prefixed form and back to the same algorithm and bytes.",
  ["inputs"], "every token this library can build with a DID issuer and audience and a supported algorithm, every DID, every signature",
  "One token, two DIDs and one Ed25519 signature are converted by the tests.",
  ["ucan/src/ipld/ucan.rs", "ucan/src/ipld/principle.rs", "ucan/src/ipld/signature.rs"],
  [("TryFrom<&Ucan> for UcanIpld and back", "ucan/src/ipld/ucan.rs"), ("Principle FromStr/Display", "ucan/src/ipld/principle.rs"), ("Signature varsig encode/decode", "ucan/src/ipld/signature.rs")],
  ["UcanIpld::try_from(&Ucan)", "Ucan::try_from(&UcanIpld)", "Principle", "Signature"])

p("P16", "Untrusted input never crashes the library",
  "Whatever text or bytes arrive as a token, DID, key, proof CID, capability, or IPLD form of a token, principal or signature, parsing, validating, chain building, reducing, resolving and converting it return a value or an error. They never panic, abort or hang. The same holds for building and signing with any requested lifetime or caveat.",
  ["inputs", "fault_sequences"], "every input to the entry points that accept data from others, bounded per token by what fits in memory",
  "Almost all test inputs are well-formed; five malformed capability maps are the only hostile input.",
  ["ucan/src/ucan.rs", "ucan/src/crypto/did.rs", "ucan/src/ipld/principle.rs", "ucan/src/ipld/signature.rs", "ucan/src/builder.rs", "ucan/src/capability/semantics.rs", "ucan-key-support/src/rsa.rs"],
  [("fallible parsing with Result everywhere", "all parsing code")],
  ["Ucan::try_from", "DidParser::parse", "ProofChain::from_ucan", "UcanIpld / Principle / Signature conversions", "UcanBuilder::build / Signable::sign"])

p("P17", "Supported keys sign and verify consistently under their DID",
  "For Ed25519, RSA and P-256 keys, a signature verifies under the key that made it, and under the key resolved from that key's DID, exactly for the message signed; under any other message, any other key or any damaged signature it fails. A key resolved from a key's DID has the same DID and algorithm name, different keys have different DIDs, and a key without its private half refuses to sign. Boxing or sharing a key changes none of this.",
  ["inputs"], "every pair of keys, every message (including empty and long), every damaged or foreign signature",
  "The tests sign and verify one token per key type and never see a verification fail.",
  ["ucan-key-support/src/ed25519.rs", "ucan-key-support/src/rsa.rs", "ucan-key-support/src/p256.rs", "ucan/src/crypto/key.rs"],
  [("KeyMaterial implementations", "ucan-key-support/src"), ("KeyMaterial for Box and Arc", "ucan/src/crypto/key.rs")],
  ["KeyMaterial::get_did", "KeyMaterial::sign", "KeyMaterial::verify", "bytes_to_*_key"])

p("P18", "A verdict depends only on token, served proofs and time",
  "The outcome of validating a chain, and its reduced capabilities, are a function of the token, the proofs the store serves it and the time used: validating other chains before or at the same time, with the same DID parser or the same store, in any interleaving, never changes it. A chain rejected for a missing proof is accepted once the proof is stored, and one accepted at one time is still rejected at a time outside its window or when a proof is no longer served.",
  ["histories", "schedules", "fault_sequences"], "every history of issuing, storing, withdrawing and validating, and every interleaving of concurrent validations with store updates",
  "Each test validates one or two chains with a fresh parser and store, never concurrently.",
  ["ucan/src/chain.rs", "ucan/src/store.rs", "ucan/src/crypto/did.rs"],
  [("ProofChain::from_ucan is a pure recursion over served tokens", "ucan/src/chain.rs"), ("DidParser cache keyed by the whole DID", "ucan/src/crypto/did.rs")],
  ["ProofChain::from_ucan", "ProofChain::from_cid", "ProofChain::reduce_capabilities"],
  [("store contents", "which tokens are served", "ucan/src/store.rs"), ("key_cache", "the only state shared between validations", "ucan/src/crypto/did.rs")])

p("P19", "What honest principals build with the library works, and means what they asked for",
  "A token made with the builder, by any sequence of its calls in any order (audience, window, facts, nonce, claims one at a time or many at once, proofs cited or redelegated under any hash function), by principals who cite only proofs addressed to them and stay within those proofs' windows, is accepted at every time within its window and at no other, by every verifier whose store holds the cited proofs, whether it was handed over as an object, as text, as IPLD, as DAG-CBOR or serialized with serde. Its chain confers exactly the capabilities its builder calls and those of its proofs state, with the originators these state. A token whose builder exceeded a proof's window, cited a proof addressed to another, or cited one that is not stored, is rejected. Nobody can use the builder to be named the source of, or to pass on, more than it states itself or was given.",
  ["inputs", "histories"], "every world of tokens issued with the builder by honest and dishonest principals, every order of builder calls, every form of passing tokens on, and every time",
  "The tests build a handful of one- and two-link chains in one call order with the default hash, and never carry a proof through another form before citing it.",
  ["ucan/src/builder.rs", "ucan/src/chain.rs", "ucan/src/ucan.rs", "ucan/src/store.rs", "ucan/src/ipld/ucan.rs", "ucan/src/capability/proof.rs", "ucan/src/capability/data.rs"],
  [("UcanBuilder::witnessed_by / delegating_from cite proofs by hash and index", "ucan/src/builder.rs"), ("ProofChain::from_ucan and reduce_capabilities read them", "ucan/src/chain.rs")],
  ["UcanBuilder", "Signable::sign", "ProofChain::from_ucan", "ProofChain::reduce_capabilities", "UcanIpld", "MemoryStore"],
  [("proofs / capabilities of the builder", "cited proofs in order and the claims made", "ucan/src/builder.rs UcanBuilder")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
