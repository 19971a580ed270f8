From e3da2cd373401ca576b1b19b247ffaab1c55c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 1/6] Add a hook that compiles an external verification harness
 under cfg(didcomm_verif)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5c857ab..9b3b1ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,10 @@ pub use message::{
     PackEncryptedMetadata, PackEncryptedOptions, PackSignedMetadata, UnpackMetadata, UnpackOptions,
 };
 
+// Verification harness kept outside this repository; compiled in only with `--cfg didcomm_verif`.
+#[cfg(didcomm_verif)]
+include!(env!("DIDCOMM_VERIF_HARNESS"));
+
 #[cfg(test)]
 mod tests {
     use serde_json::json;
-- 
2.43.0


From 3d713a4ce1b28c9efc8045ab4b1dcdb55665e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 2/6] fix: wrap_in_forward panics when there are no routing
 keys

---
 src/protocols/routing/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..18189f7 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -245,6 +245,11 @@ pub async fn wrap_in_forward<'dr>(
     enc_alg_anon: &AnonCryptAlg,
     did_resolver: &'dr (dyn DIDResolver + 'dr),
 ) -> Result<String> {
+    if routing_keys.is_empty() {
+        // Nothing to wrap for
+        return Ok(msg.to_owned());
+    }
+
     let mut tos = routing_keys.clone();
 
     let mut nexts = tos.clone();
-- 
2.43.0


From 597a91c514282980e829f9e72a6931d1d88ce006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 3/6] fix: Ed25519 secret material shorter than 32 bytes panics

---
 src/utils/did.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..60569e2 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,12 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Ed25519 secret material is too short",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +462,12 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Ed25519 secret material is too short",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From 337fa8487fd343731de974c2e52df376e78ace07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 4/6] fix: a too long multicodec prefix overflows

---
 src/utils/did.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 60569e2..b1a76b4 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -4,7 +4,7 @@ use askar_crypto::alg::{
 use askar_crypto::repr::{KeyPublicBytes, KeySecretBytes};
 use serde_json::{json, Value};
 use std::io::Cursor;
-use varint::{VarintRead, VarintWrite};
+use varint::{VarintRead, VarintWrite, VARINT_32_MAX_BYTES};
 
 use crate::error::ToResult;
 use crate::{
@@ -516,6 +516,15 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
+    // Reading a varint that is longer than a 32-bit one can be overflows
+    if value.len() >= VARINT_32_MAX_BYTES
+        && value[..VARINT_32_MAX_BYTES]
+            .iter()
+            .all(|byte| *byte >= 0x80)
+    {
+        Err(err_msg(ErrorKind::Malformed, "Too long varint"))?
+    }
+
     let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
     let prefix_int = val
         .read_unsigned_varint_32()
-- 
2.43.0


From f3a6e842af2d26f326a10dc7de876b0577dac7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 5/6] fix: a multicodec prefix that is not in its shortest form
 shifts the key

---
 src/utils/did.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index b1a76b4..543fbae 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -536,7 +536,12 @@ fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
         .write_unsigned_varint_32(prefix_int)
         .kind(ErrorKind::InvalidState, "Cannot write varint")?;
 
-    return Ok((codec, value.split_at(prefix.into_inner().len()).1));
+    // A varint is valid in its shortest form only
+    let decoded_value = value
+        .strip_prefix(prefix.into_inner().as_slice())
+        .ok_or_else(|| err_msg(ErrorKind::Malformed, "Not canonical varint"))?;
+
+    return Ok((codec, decoded_value));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0f383f055d6fcab7729813ee5cbe66d708597cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 6/6] fix: a from_prior is accepted from a key that is not of
 its issuer

FromPrior::unpack verified the signature under the key that the kid
names, but never compared the DID of that key with the iss claim: anyone
could issue a from_prior in the name of another DID. Packing checks it.
---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..9a83c91 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if did != from_prior.iss {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior issuer kid does not belong to from_prior `iss`",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0

