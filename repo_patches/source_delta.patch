From e05f55945dbf1a0c2cb9f525c60a197c8796a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 01/16] fix: merging capabilities must not attribute a broader
 one to narrower originators

---
 ucan/src/chain.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..fb024c2 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -270,9 +270,17 @@ impl ProofChain {
         // that discrete originators are aggregated as we go
         'merge: while let Some(capability_info) = self_capability_infos.pop() {
             for remaining_capability_info in &mut self_capability_infos {
+                // A strictly broader capability may only absorb this one if it
+                // is not thereby attributed to any additional originator
                 if remaining_capability_info
                     .capability
                     .enables(&capability_info.capability)
+                    && (capability_info
+                        .capability
+                        .enables(&remaining_capability_info.capability)
+                        || capability_info
+                            .originators
+                            .is_subset(&remaining_capability_info.originators))
                 {
                     remaining_capability_info
                         .originators
-- 
2.43.0


From bf8236d601e61970fae7cba2c8b7ed2bbf94d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 02/16] fix: a claim the semantics does not understand must not
 hide later claims

---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index fb024c2..e891f93 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From c4c94b0515540b06dc737c1735575bbd38878f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 03/16] fix: recognize redelegation of all proofs (prf:*)

---
 ucan/src/capability/proof.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..c72eca3 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,10 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    // The wildcard is itself a [ProofSelection] here, rather than a resource of
+    // any scheme
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        Some(ResourceUri::Scoped(self.parse_scope(resource)?))
+    }
+}
-- 
2.43.0


From 30a025f28f9405b835e76aefdf9da6041e193058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 04/16] fix: validate not-before against the supplied time

---
 ucan/src/ucan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..445186d 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -75,7 +75,7 @@ impl Ucan {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.payload.nbf > Some(now_time.unwrap_or_else(now)) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
-- 
2.43.0


From 96cd0aa20e6f0ce36cb7092b8c662810d27a9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 05/16] fix: reject token strings with more than three segments

---
 ucan/src/ucan.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 445186d..50b9564 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -260,6 +260,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Unexpected extra segment in token string"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From 3bf521a2d2099e80a114ee72aa5a4c8736625807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 06/16] fix: encode a token from the data that was signed

---
 ucan/src/ucan.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 50b9564..b62082b 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,7 +1,7 @@
 use crate::{
     capability::Capabilities,
     crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
+    serde::DagJson,
     time::now,
 };
 use anyhow::{anyhow, Result};
@@ -91,12 +91,11 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From 0045abc681923831c313e44c15b478753ce5008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 07/16] fix: reject did:key values too short to hold a key type

---
 ucan/src/crypto/did.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..2ee8a06 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,7 +50,9 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
-        let magic_bytes = &did_bytes[0..2];
+        let magic_bytes = did_bytes
+            .get(0..2)
+            .ok_or_else(|| anyhow!("DID is too short: {}", did))?;
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
                 let key = ctor(Vec::from(&did_bytes[2..]))?;
-- 
2.43.0


From 566445b1315e7a23a04004563fe411cbbff26ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 08/16] fix: IPLD principals are unambiguous and always
 printable

---
 ucan/src/ipld/principle.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..f971772 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -15,7 +15,11 @@ impl FromStr for Principle {
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {
-            Ok(Principle(bs58::decode(stripped).into_vec()?))
+            let bytes = bs58::decode(stripped).into_vec()?;
+            if bytes.starts_with(DID_IPLD_PREFIX) {
+                return Err(anyhow!("Not a valid did:key: {}", input));
+            }
+            Ok(Principle(bytes))
         } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {
             Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))
         } else {
@@ -27,12 +31,11 @@ impl FromStr for Principle {
 impl Display for Principle {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let bytes = &self.0;
-        let did_content = match &bytes[0..2] {
-            DID_IPLD_PREFIX => [
-                DID_PREFIX,
-                std::str::from_utf8(&bytes[2..]).map_err(|_| std::fmt::Error)?,
-            ]
-            .concat(),
+        let did_content = match bytes
+            .strip_prefix(DID_IPLD_PREFIX)
+            .map(std::str::from_utf8)
+        {
+            Some(Ok(did)) => [DID_PREFIX, did].concat(),
             _ => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
         };
 
-- 
2.43.0


From e1c18a25801c7effa580e98c5cbe007b796f88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/16] fix: reject IPLD signatures shorter than their stated
 length

---
 ucan/src/ipld/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..44e8a6a 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,7 +130,10 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
+        let signature = buffer
+            .get(..signature_length)
+            .ok_or_else(|| anyhow!("Signature is shorter than its stated length"))?
+            .to_vec();
 
         Ok((algorithm, signature))
     }
-- 
2.43.0


From 76a7d3cdd72896d1379eb13699314c2b86892ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/16] fix: signing returns an error when the payload cannot
 be generated

---
 ucan/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..0af1b06 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -90,7 +90,7 @@ where
         let payload = self
             .ucan_payload()
             .await
-            .expect("Unable to generate UCAN payload");
+            .map_err(|error| error.context("Unable to generate UCAN payload"))?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From 6f22dafa33ce26a08a2fea9c08bdc9eee7eece6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/16] fix: an overlong lifetime must not overflow the
 expiration

---
 ucan/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 0af1b06..47bc1bd 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -285,7 +285,7 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime.map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From 7095f36553a29977ccbd0d18f38ce07e22bf06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 12/16] fix: deserialized capabilities are subject to the same
 rules as all others

---
 ucan/src/capability/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 307fe71..143955d 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -64,6 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 >;
 
 #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
 /// See `iter()` to deconstruct this map into a sequence of [Capability] datas.
@@ -181,6 +182,9 @@ impl TryFrom<CapabilitiesImpl> for Capabilities {
                 // One or more abilities MUST be given for each resource.
                 return Err(anyhow!("No abilities given for resource: {}", resource));
             }
+            if let Some(caveat) = abilities.values().flatten().find(|c| !c.is_object()) {
+                return Err(anyhow!("Caveat must be an object: {}", caveat));
+            }
         }
         Ok(Capabilities(value))
     }
-- 
2.43.0


From bd2b3e61a00a8753f243aea7907f044db01928c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 13/16] fix: keep the version of a token converted from IPLD

---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From 9450288459065eec46e9d7a8139a8b822696777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 14/16] fix: interpret the resource inside my: and as:
 capabilities

---
 ucan/src/capability/semantics.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..bb45760 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -1,7 +1,7 @@
 use super::{Capability, Caveat};
 use serde_json::{json, Value};
 use std::fmt::Debug;
-use url::Url;
+use url::{Position, Url};
 
 pub trait Scope: ToString + TryFrom<Url> + PartialEq + Clone {
     fn contains(&self, other: &Self) -> bool;
@@ -131,7 +131,7 @@ where
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        Some((format!("did:key:{value}"), path_parts.collect::<Vec<_>>().join(":")))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
@@ -159,15 +159,21 @@ where
     ) -> Option<CapabilityView<S, A>> {
         let uri = Url::parse(resource).ok()?;
 
+        // The part after the scheme of a my: or as: resource is a resource itself
+        let parse_kind = |kind: &str| match kind {
+            "*" => Some(ResourceUri::Unscoped),
+            kind => self.parse_resource(&Url::parse(kind).ok()?),
+        };
+
         let cap_resource = match uri.scheme() {
             "my" => Resource::My {
-                kind: self.parse_resource(&uri)?,
+                kind: parse_kind(&uri[Position::BeforePath..])?,
             },
             "as" => {
-                let (did, resource) = self.extract_did(uri.path())?;
+                let (did, resource) = self.extract_did(&uri[Position::BeforePath..])?;
                 Resource::As {
                     did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                    kind: parse_kind(&resource)?,
                 }
             }
             _ => Resource::Resource {
-- 
2.43.0


From b1a6514a48f0c473f7076442faa846596d550316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 15/16] fix: reject anything that follows a DAG-JSON value

---
 ucan/src/serde.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/serde.rs b/ucan/src/serde.rs
index a2ffebc..ffb70e2 100644
--- a/ucan/src/serde.rs
+++ b/ucan/src/serde.rs
@@ -29,6 +29,10 @@ pub trait DagJson: Serialize + DeserializeOwned {
     }
 
     fn from_dag_json(json_bytes: &[u8]) -> Result<Self> {
+        // The decoder stops at the end of the first value, so make sure that
+        // nothing else follows it
+        serde_json::from_slice::<serde::de::IgnoredAny>(json_bytes)?;
+
         let ipld = Ipld::decode(DagJsonCodec, &mut Cursor::new(json_bytes))?;
         Ok(from_ipld(ipld)?)
     }
-- 
2.43.0


From 5782d67aca3a79d055799a73465457458eab6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 16/16] fix: facts and caveats with null values can be signed

---
 ucan/src/capability/data.rs |  2 +-
 ucan/src/ipld/ucan.rs       |  1 +
 ucan/src/serde.rs           | 32 +++++++++++++++++++++++++++++++-
 ucan/src/ucan.rs            |  5 ++++-
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 143955d..05bba01 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -84,7 +84,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 /// assert_eq!(resource.get("msg/receive").unwrap(), &vec![json!({})]);
 /// assert_eq!(resource.get("msg/send").unwrap(), &vec![json!({ "draft": true }), json!({ "publish": true, "topic": ["foo"] })])
 /// ```
-pub struct Capabilities(CapabilitiesImpl);
+pub struct Capabilities(#[serde(serialize_with = "crate::serde::ser_json")] CapabilitiesImpl);
 
 impl Capabilities {
     /// Using a [FlatMap] implementation, iterate over a [Capabilities] map-of-map
diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index 0835606..473696c 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -20,6 +20,7 @@ pub struct UcanIpld {
     pub cap: Capabilities,
     pub prf: Option<Vec<Cid>>,
     pub exp: Option<u64>,
+    #[serde(serialize_with = "crate::serde::ser_json")]
     pub fct: Option<FactsMap>,
 
     pub nnc: Option<String>,
diff --git a/ucan/src/serde.rs b/ucan/src/serde.rs
index ffb70e2..f59141a 100644
--- a/ucan/src/serde.rs
+++ b/ucan/src/serde.rs
@@ -6,7 +6,8 @@ use libipld_core::{
     serde::{from_ipld, to_ipld},
 };
 use libipld_json::DagJsonCodec;
-use serde::{de::DeserializeOwned, Serialize, Serializer};
+use serde::{de::DeserializeOwned, ser::Error, Serialize, Serializer};
+use serde_json::Value;
 use std::io::Cursor;
 
 /// Utility function to enforce lower-case string values when serializing
@@ -17,6 +18,35 @@ where
     serializer.serialize_str(&string.to_lowercase())
 }
 
+/// Utility function to serialize JSON data, whose nulls have to be serialized
+/// as `none`: the IPLD serializer does not support unit values
+pub fn ser_json<T, S>(data: &T, serializer: S) -> Result<S::Ok, S::Error>
+where
+    T: Serialize,
+    S: Serializer,
+{
+    let value = serde_json::to_value(data).map_err(S::Error::custom)?;
+    JsonValue(&value).serialize(serializer)
+}
+
+struct JsonValue<'a>(&'a Value);
+
+impl Serialize for JsonValue<'_> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        match self.0 {
+            Value::Null => serializer.serialize_none(),
+            Value::Array(values) => serializer.collect_seq(values.iter().map(JsonValue)),
+            Value::Object(map) => {
+                serializer.collect_map(map.iter().map(|(key, value)| (key, JsonValue(value))))
+            }
+            value => value.serialize(serializer),
+        }
+    }
+}
+
 /// Helper trait to ser/de any serde-implementing value to/from DAG-JSON
 pub trait DagJson: Serialize + DeserializeOwned {
     fn to_dag_json(&self) -> Result<Vec<u8>> {
diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index b62082b..ac29208 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -36,7 +36,10 @@ pub struct UcanPayload {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub nnc: Option<String>,
     pub cap: Capabilities,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        skip_serializing_if = "Option::is_none",
+        serialize_with = "crate::serde::ser_json"
+    )]
     pub fct: Option<FactsMap>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub prf: Option<Vec<String>>,
-- 
2.43.0

