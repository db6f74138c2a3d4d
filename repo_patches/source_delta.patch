From c622266211a570e2d2566f21fc208820ffc8bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 01/13] fix: pad the digest of an overlong HMAC key instead of
 the key itself

---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From 9cfac8a9a0893759733fd5a64259125c55280603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 02/13] fix: return exactly the requested number of HKDF output
 bytes

---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..9637e70 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -20,7 +20,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut output_key = parts.concat();
+    output_key.truncate(output_length);
+    output_key
 }
 
 
-- 
2.43.0


From 1d4c967d91f39bf4d962eb88aeb0575f514c7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 03/13] fix: convert the smallest 64-bit integer without
 overflow

---
 jester_maths/src/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_maths/src/prime.rs b/jester_maths/src/prime.rs
index 1fb8c15..046b7bf 100644
--- a/jester_maths/src/prime.rs
+++ b/jester_maths/src/prime.rs
@@ -193,7 +193,7 @@ macro_rules! prime_fields {
                 impl num::FromPrimitive for $name {
                     fn from_i64(n: i64) -> Option<Self> {
                         if n < 0 {
-                            $crate::prime::num_bigint::BigUint::from_i64(-n).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
+                            $crate::prime::num_bigint::BigUint::from_u64(n.unsigned_abs()).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
                         } else {
                             $crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())
                         }
-- 
2.43.0


From a5cefb1c58f89d5b06a8ab5e713cbe2fd05a8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 04/13] fix: store the keys of skipped messages under their own
 message number

---
 jester_double_ratchet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..00ccbef 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -484,7 +484,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -492,6 +491,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -516,7 +516,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -524,6 +523,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
-- 
2.43.0


From 9e9a7c40bd99fd98aa8c8345ab8292ff02242ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 05/13] fix: count the skipped messages at the start of a new
 receiving chain

---
 jester_double_ratchet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 00ccbef..3b18441 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -551,7 +551,7 @@ where
             self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From 34d51f9ad66b8255f3c48da7335331ee9a996dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 06/13] fix: decrypt delayed messages of earlier receiving
 chains

---
 jester_double_ratchet/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 3b18441..376498f 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -637,6 +637,15 @@ where
         // this is the first ever message received
         // the message number tells how many messages came before that were missed
         Ok((0, message.message_number))
+    } else if protocol
+        .missed_messages
+        .contains_key(&(message.public_key.clone(), message.message_number))
+    {
+        // the key of this message was stored when it was skipped, possibly in an earlier chain
+        Err(ProtocolException::OutOfOrderMessage {
+            public_key: message.public_key.clone(),
+            message_number: message.message_number,
+        })
     } else if message
         .public_key
         .eq(protocol.diffie_hellman_received_key.as_ref().unwrap())
-- 
2.43.0


From d416c200bcbc9f4018b04572b13ceff191ed552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 07/13] fix: accept any message of the addressee's first chain
 as the first message

---
 jester_double_ratchet/src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 376498f..2f52caa 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -287,8 +287,20 @@ where
         );
 
         // update receiving chain
-        let (updated_root_key, receiving_key) =
+        let (updated_root_key, mut receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
+
+        // store the keys of earlier messages that have not arrived yet
+        for missed_message_number in 0..message.message_number {
+            let (updated_receiving_key, missed_message_key) =
+                MessageKdf::derive_key_without_input(receiving_key);
+            receiving_key = updated_receiving_key;
+            self.missed_messages.insert(
+                (message.public_key.clone(), missed_message_number),
+                missed_message_key,
+            );
+        }
+
         let (receiving_chain_key, message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
@@ -318,10 +330,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages: self.missed_messages,
             },
             clear_text,
         )
-- 
2.43.0


From cef934f0af3e5caba348035d2ee34b29e736b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 08/13] fix: remember the public key of the current receiving
 chain

---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 2f52caa..4ad72f8 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -553,6 +553,7 @@ where
             self.sending_chain_key = Some(sending_chain_key);
 
             // update dh keys
+            self.diffie_hellman_received_key = Some(message.public_key.clone());
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
 
-- 
2.43.0


From 61ad9c944f76f9b235616dbf68f418237ebce2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 09/13] fix: refuse replayed messages of earlier chains instead
 of starting a new chain with them

---
 jester_double_ratchet/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4ad72f8..49473f9 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -5,7 +5,7 @@ use rand::{CryptoRng, RngCore};
 use crate::DecryptionException::{OutOfOrderMessage, UnknownMessageHeader};
 use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
 use jester_encryption::SymmetricalEncryptionScheme;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 
 #[cfg(test)]
@@ -162,6 +162,7 @@ pub struct DoubleRatchetProtocol<
     previous_sending_chain_length: usize,
     previous_receiving_chain_length: usize,
     missed_messages: HashMap<(DHPublicKey, usize), MessageKey>,
+    retired_received_keys: HashSet<DHPublicKey>,
 }
 
 impl<
@@ -243,6 +244,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_received_keys: HashSet::new(),
             },
             DoubleRatchetAlgorithmMessage {
                 public_key: public_dh_key,
@@ -334,6 +336,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: self.missed_messages,
+                retired_received_keys: HashSet::new(),
             },
             clear_text,
         )
@@ -426,6 +429,7 @@ where
             previous_sending_chain_length: 0,
             previous_receiving_chain_length: 0,
             missed_messages: HashMap::new(),
+            retired_received_keys: HashSet::new(),
         }
     }
 
@@ -553,7 +557,10 @@ where
             self.sending_chain_key = Some(sending_chain_key);
 
             // update dh keys
-            self.diffie_hellman_received_key = Some(message.public_key.clone());
+            self.retired_received_keys.extend(
+                self.diffie_hellman_received_key
+                    .replace(message.public_key.clone()),
+            );
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
 
@@ -653,8 +660,10 @@ where
     } else if protocol
         .missed_messages
         .contains_key(&(message.public_key.clone(), message.message_number))
+        || protocol.retired_received_keys.contains(&message.public_key)
     {
-        // the key of this message was stored when it was skipped, possibly in an earlier chain
+        // the key of this message was stored when it was skipped, possibly in an earlier chain, or it belongs to an
+        // earlier chain and can not start a new one
         Err(ProtocolException::OutOfOrderMessage {
             public_key: message.public_key.clone(),
             message_number: message.message_number,
-- 
2.43.0


From 93fc083abf8d3ae2a66625bdf984036682ea0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 10/13] fix: evaluate the sharing polynomial within the field

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..2262c18 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -107,7 +107,7 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            akk + val.clone() * pow(BigUint::from_usize(x).unwrap().into(), *index)
                         }),
                 )
             })
-- 
2.43.0


From acee3969d96d0174059b2de90e336fed7e11a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 11/13] fix: interpolate through exactly threshold shares

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 2262c18..2d52d5b 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -124,9 +124,11 @@ where
     /// Given that `threshold` matches the threshold at generation and enough shares are present, it will return an
     /// instance of `T` that is reconstructed from the shares
     fn reconstruct_secret(shares: &[(usize, T)], threshold: usize) -> T {
+        // only the first `threshold` shares take part in the interpolation
+        let shares = &shares[..threshold.min(shares.len())];
+
         shares
             .iter()
-            .take(threshold)
             .map(|(i, share)| {
                 share.clone().mul(
                     shares
-- 
2.43.0


From 90a85e282926c432a3a56bd97e2453d5c008344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 12/13] fix: forward functions with a default body to the
 delegate

The delegatable_protocol macro only forwarded functions without a default
body. A delegate (or an own implementation) overriding such a function was
silently ignored, and the default of the protocol trait was used instead.
---
 jester_sharing/jester_sharing_proc/src/lib.rs | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/jester_sharing/jester_sharing_proc/src/lib.rs b/jester_sharing/jester_sharing_proc/src/lib.rs
index 9486462..fd18c29 100644
--- a/jester_sharing/jester_sharing_proc/src/lib.rs
+++ b/jester_sharing/jester_sharing_proc/src/lib.rs
@@ -5,8 +5,8 @@ use proc_macro2::{Ident, Span};
 use quote::quote;
 use syn::token::Comma;
 use syn::{
-    parse_macro_input, FnArg, GenericParam, ImplItemMethod, ItemImpl, ItemTrait, Pat, PatType,
-    TraitItem, TypeParam,
+    parse_macro_input, parse_quote, FnArg, GenericParam, ImplItemMethod, ItemImpl, ItemTrait, Pat,
+    PatType, TraitItem, TypeParam,
 };
 
 #[proc_macro_attribute]
@@ -92,15 +92,23 @@ pub fn delegatable_protocol(_attr: TokenStream, item: TokenStream) -> TokenStrea
     let mut delegate_method_implementations = vec![];
     for item in trait_items {
         if let TraitItem::Method(fn_item) = item {
-            if fn_item.default.is_none() {
-                let fn_sig = &fn_item.sig;
-                let fn_name = &fn_sig.ident;
+            // functions with a default body must be forwarded too, because the delegate may override them. Methods
+            // with a receiver cannot be forwarded, since there is no instance of the delegate.
+            if fn_item.default.is_none() || fn_item.sig.receiver().is_none() {
+                let mut fn_sig = fn_item.sig.clone();
+                let fn_name = fn_sig.ident.clone();
                 let mut parameter_names = vec![];
-                let fn_parameters = &fn_sig.inputs;
+                let fn_parameters = &mut fn_sig.inputs;
                 for arg in fn_parameters {
                     if let FnArg::Typed(PatType { pat, .. }) = arg {
                         if let Pat::Ident(param) = *pat.clone() {
                             parameter_names.push(param.ident)
+                        } else {
+                            // parameters of default bodies may be patterns, which cannot be passed on
+                            let name = format!("parameter_{}", parameter_names.len());
+                            let name = Ident::new(&name, Span::call_site());
+                            **pat = parse_quote!(#name);
+                            parameter_names.push(name)
                         }
                     }
                 }
-- 
2.43.0


From 2dcfc84a4e76d6ae305ac35910f7b33dd0ef4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 13/13] fix: refuse a first message that refers to an earlier
 chain instead of panicking

---
 jester_double_ratchet/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 49473f9..624584c 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -668,6 +668,16 @@ where
             public_key: message.public_key.clone(),
             message_number: message.message_number,
         })
+    } else if protocol.receiving_chain_key.is_none()
+        && (message.previous_chain_length > 0
+            || message
+                .public_key
+                .eq(protocol.diffie_hellman_received_key.as_ref().unwrap()))
+    {
+        // no message has been received yet, so there is no earlier chain, and the initial key does not begin a chain
+        Err(ProtocolException::IllegalMessageHeader {
+            message: "the message refers to an earlier chain, but no message has been received so far."
+        })
     } else if message
         .public_key
         .eq(protocol.diffie_hellman_received_key.as_ref().unwrap())
-- 
2.43.0

