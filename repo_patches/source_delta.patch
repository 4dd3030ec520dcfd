From ab1469131f6f6ff8243b6485b7ae55a52aba2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 1/7] fix: pack the low bit of coefficient 5 in Saber's 3-bit
 encoding

---
 saber-rust/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saber-rust/src/poly.rs b/saber-rust/src/poly.rs
index 6543d00..54a3a97 100644
--- a/saber-rust/src/poly.rs
+++ b/saber-rust/src/poly.rs
@@ -294,7 +294,7 @@ impl Poly {
             bs[1] = U8::from((cs[2] >> 2) & 0x01.into())
                 | U8::from((cs[3] & 0x07.into()) << 1)
                 | U8::from((cs[4] & 0x07.into()) << 4)
-                | U8::from(((cs[5] >> 2) & 0x01.into()) << 7);
+                | U8::from((cs[5] & 0x01.into()) << 7);
             bs[2] = U8::from((cs[5] >> 1) & 0x03.into())
                 | U8::from((cs[6] & 0x07.into()) << 2)
                 | U8::from((cs[7] & 0x07.into()) << 5);
-- 
2.43.0


From 8a9cc36a886639c72eaec6e6f25f031586a614c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 2/7] fix: reject sealed messages too short to hold a nonce and
 MAC

---
 latke/src/auth_enc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 0b14d7b..b601d56 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -55,6 +55,10 @@ pub(crate) fn auth_decrypt(key: AuthEncKey, sealed_msg: &[u8]) -> Result<Vec<u8>
     // Deserialize the key and split the MAC and IV from the ciphertext
     let (enc_key, mac_key) = key.split_at(32);
     let mac_size = <MyMac as OutputSizeUser>::output_size();
+    // A sealed message always has room for the nonce and the MAC. Anything shorter is invalid
+    if sealed_msg.len() < mac_size + 12 {
+        return Err(MacError);
+    }
     let (ciphertext_and_nonce, mac) = sealed_msg.split_at(sealed_msg.len() - mac_size);
     let (ciphertext, nonce) = ciphertext_and_nonce.split_at(ciphertext_and_nonce.len() - 12);
 
-- 
2.43.0


From ef6cc2babf145c543865a1c31ebd335187edc46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 3/7] fix: KC-SPAKE2 outputs no key before the peer's MAC is
 verified

---
 latke/src/pake/kc_spake2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index c35c653..292c62d 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -155,6 +155,8 @@ impl Pake for KcSpake2 {
     }
 
     fn finalize(&self) -> SessKey {
+        // The key is derived before the peer's MAC is checked. Don't release it until then
+        assert!(self.done, "protocol has not completed");
         self.output_key.unwrap()
     }
 }
-- 
2.43.0


From 8eca4ef041be4d8cfc2fb5b3c33c5991042fe71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 4/7] fix: implement simulated steps of FG-IBKE

---
 latke/src/ibke/fg_ibke.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index d1e7b65..aeeda3b 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -279,7 +279,28 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn run_sim(&mut self) -> Option<usize> {
-        todo!()
+        let out = match self.next_step {
+            // Sends (id, X, ephemeral pubkey)
+            0 => Some(Id::default().len() + 32 + 32),
+            // Sends (id, X, ephemeral pubkey, MAC)
+            1 => Some(Id::default().len() + 32 + 32 + 32),
+            2 => {
+                // Sends a MAC
+                self.done = true;
+                Some(32)
+            }
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
+            _ => panic!("protocol already ended"),
+        };
+
+        // The initiator does even steps, the responder does odd steps
+        self.next_step += 2;
+
+        out
     }
 
     fn is_done(&self) -> bool {
-- 
2.43.0


From 429655302cdf95e7030613a7e00a93d2cf1e511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 5/7] fix: a simulated ID-HMQV-C session completes

---
 latke/src/ibke/id_hmqv_c.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 595de00..ba5ff91 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -177,9 +177,14 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             }
             2 => {
                 // Sends a MAC
+                self.done = true;
                 Some(32)
             }
-            3 => None,
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
             _ => {
                 panic!("protocol already finished")
             }
-- 
2.43.0


From 0fcf333eeeb4fb5f50210b650032e0adf3da982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 6/7] fix: simulated ID-SIGMA-R messages count the encryption
 nonce

---
 latke/src/auth_enc.rs        | 1 +
 latke/src/ibke/id_sigma_r.rs | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index b601d56..42d64ab 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -13,6 +13,7 @@ use rand_core::{CryptoRng, RngCore};
 type MyCipher = ChaCha20;
 
 pub(crate) const TAGLEN: usize = <MyMac as OutputSizeUser>::OutputSize::USIZE;
+pub(crate) const NONCELEN: usize = 12;
 
 /// A key for authenticated encryption. This is a 256-bit encryption key followed by a 256-bit HMAC key.
 pub(crate) type AuthEncKey = [u8; 64];
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 4951f99..9d0878e 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -397,11 +397,12 @@ impl IdSigmaR {
                 Some(Nonce::default().len() + BYTES_CCA_DEC)
             }
             2 => {
-                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the length of the authenticated encryption tag
+                // Sends an authenticated ciphertext of (sig, mac, cert). So include that length, plus the length of the authenticated encryption nonce and tag
                 Some(
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
@@ -412,6 +413,7 @@ impl IdSigmaR {
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
-- 
2.43.0


From 585185ae792f43d8ed58491a5f0661ec7a2d03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 7/7] fix: the EUE transform simulates the session after a
 failed decryption instead of panicking, and yields no key for it

---
 latke/src/eue_transform.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index d1058c6..1c8c77f 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -72,10 +72,11 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         mut rng: R,
         incoming_ciphertext: &[u8],
     ) -> Result<Option<Vec<u8>>, I::Error> {
-        // Decrypt the incoming ciphertext if there is any and we're in real mode
-        let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
+        // Decrypt the incoming ciphertext if we expect one or got one, and we're in real mode
+        let incoming_msg = if (!self.next_step_is_first || incoming_ciphertext.len() > 0)
+            && self.real_mode
+        {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
-            assert!(pt.is_ok());
             // If a decryption error occurred, we exit real mode and will just start sending zeros
             if pt.is_err() {
                 self.real_mode = false;
@@ -84,7 +85,7 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
                 Some(pt.unwrap())
             }
         } else {
-            // If the ciphertext is empty or we're not in real mode, then the message is empty or it doesn't matter. Set it to empty
+            // If the ciphertext is empty in the first step or we're not in real mode, then the message is empty or it doesn't matter. Set it to empty
             Some(Vec::new())
         };
 
@@ -120,6 +121,8 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
     }
 
     pub fn finalize(&self) -> (Id, SessKey) {
+        // A simulated session never outputs a key
+        assert!(self.real_mode, "session was not authenticated");
         self.sess.finalize()
     }
 }
-- 
2.43.0

