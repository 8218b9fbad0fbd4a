From e13a863cc3c833ef87e5d0472d06aeac7e35ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 01/29] fix: report the curve of the verifying key in
 verify_sig_determine_alg

ECDSA algorithms on P-256 and P-384 share their signature algorithm id, so
a signature made by a P-384 key was reported as made by a P-256 key.
---
 crates/tls-core/src/verify.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..30ad4a5 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -484,28 +484,33 @@ pub enum SignatureAlgorithm {
 
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
-        let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // The signature algorithm id alone does not determine the curve of the
+        // public key for ECDSA, so the public key algorithm is compared too.
+        let is = |other: &dyn pki_types::SignatureVerificationAlgorithm| {
+            alg.signature_alg_id() == other.signature_alg_id()
+                && alg.public_key_alg_id() == other.public_key_alg_id()
+        };
+        if is(webpki::ring::ECDSA_P256_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P256_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
-        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA384
-        } else if id == webpki::ring::ED25519.signature_alg_id() {
+        } else if is(webpki::ring::ED25519) {
             SignatureAlgorithm::ED25519
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA256) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA384) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA512.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA512) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY
         } else {
             unreachable!()
-- 
2.43.0


From d00fb2e82027376a17eba30ae848fb09fdc2e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 02/29] fix: refuse partial transcripts whose declared length
 is not a u32

A TranscriptLength is a u32, but decoding a PartialTranscript allocated
whatever total the sender declared: a presentation of a few bytes aborted
the verifier with a capacity overflow.
---
 crates/core/src/transcript.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/core/src/transcript.rs b/crates/core/src/transcript.rs
index 298db43..9619e90 100644
--- a/crates/core/src/transcript.rs
+++ b/crates/core/src/transcript.rs
@@ -567,6 +567,16 @@ mod validation {
                 ));
             }
 
+            // A transcript length is a `u32`, see `TranscriptLength`. Anything longer
+            // would only make the verifier allocate what the sender claims.
+            if u32::try_from(unchecked.sent_total).is_err()
+                || u32::try_from(unchecked.recv_total).is_err()
+            {
+                return Err(InvalidCompressedPartialTranscript(
+                    "total length exceeds the maximum transcript length",
+                ));
+            }
+
             Ok(Self {
                 received_authed: unchecked.received_authed,
                 recv_idx: unchecked.recv_idx,
-- 
2.43.0


From 8e09f325f9dbdadbf4ce17d94064884e46026949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 03/29] fix: cover a query with overlapping commitments of
 different kinds

TranscriptProofBuilder covered only the remainder left by the more preferred
kinds, so a commitment contained in the query but overlapping something
already covered was never used and the query was refused as uncoverable.
---
 crates/core/src/transcript/proof.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/transcript/proof.rs b/crates/core/src/transcript/proof.rs
index a3a949d..17a3732 100644
--- a/crates/core/src/transcript/proof.rs
+++ b/crates/core/src/transcript/proof.rs
@@ -373,23 +373,38 @@ impl<'a> TranscriptProofBuilder<'a> {
             if let Some(kind) = commitment_kinds_iter.next() {
                 match kind {
                     TranscriptCommitmentKind::Hash { alg } => {
-                        let (sent_hashes, sent_uncovered) = uncovered_query_idx.sent.cover_by(
+                        // Only commitments contained in the query may be opened, whether or not
+                        // they overlap with what more preferred kinds cover already. Those which
+                        // do not cover anything new are left out.
+                        let sent_uncovered = uncovered_query_idx.sent.clone();
+                        let (sent_hashes, _) = self.query_idx.sent.cover_by(
                             self.hash_secrets.iter().filter(|hash| {
-                                hash.direction == Direction::Sent && &hash.alg == alg
+                                hash.direction == Direction::Sent
+                                    && &hash.alg == alg
+                                    && hash.idx.difference(&sent_uncovered).into_set() != hash.idx
                             }),
                             |hash| &hash.idx,
                         );
                         // Uncovered ranges will be checked with ranges of the next
                         // preferred commitment kind.
-                        uncovered_query_idx.sent = sent_uncovered;
+                        for hash in &sent_hashes {
+                            uncovered_query_idx.sent =
+                                uncovered_query_idx.sent.difference(&hash.idx).into_set();
+                        }
 
-                        let (recv_hashes, recv_uncovered) = uncovered_query_idx.recv.cover_by(
+                        let recv_uncovered = uncovered_query_idx.recv.clone();
+                        let (recv_hashes, _) = self.query_idx.recv.cover_by(
                             self.hash_secrets.iter().filter(|hash| {
-                                hash.direction == Direction::Received && &hash.alg == alg
+                                hash.direction == Direction::Received
+                                    && &hash.alg == alg
+                                    && hash.idx.difference(&recv_uncovered).into_set() != hash.idx
                             }),
                             |hash| &hash.idx,
                         );
-                        uncovered_query_idx.recv = recv_uncovered;
+                        for hash in &recv_hashes {
+                            uncovered_query_idx.recv =
+                                uncovered_query_idx.recv.difference(&hash.idx).into_set();
+                        }
 
                         transcript_proof.hash_secrets.extend(
                             sent_hashes
-- 
2.43.0


From 92850f9b2c7fb2d6382f2789e5312fa27442255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 04/29] fix: end the session hash at ServerHelloDone so later
 server messages are left out

---
 crates/core/src/transcript/tls/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 83ba75a..5b2c0c0 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -298,7 +298,7 @@ fn compute_handshake_hashes(
     // → client flight up to and including ClientKeyExchange.
     let mut hasher = Sha256::new();
     hasher.update(&sent_hs_bytes[..sent_ch_end]);
-    hasher.update(&recv_hs_bytes);
+    hasher.update(&recv_hs_bytes[..recv_shd_end]);
     hasher.update(&sent_hs_bytes[sent_ch_end..ckx.end]);
     let session_hash: [u8; 32] = hasher.finalize().into();
 
-- 
2.43.0


From 2ba9f00942a7e7fb449d76989ccb6cfbcd2255b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 05/29] fix: refuse an attestation whose body is not the one
 its header was signed for

---
 crates/attestation/src/request.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/attestation/src/request.rs b/crates/attestation/src/request.rs
index 8106802..77d34de 100644
--- a/crates/attestation/src/request.rs
+++ b/crates/attestation/src/request.rs
@@ -78,6 +78,30 @@ impl Request {
             }
         }
 
+        let hasher = provider
+            .hash
+            .get(&attestation.header.root.alg)
+            .map_err(|_| {
+                AttestationValidationError::provider(format!(
+                    "provider not configured for hash algorithm id {:?}",
+                    attestation.header.root.alg,
+                ))
+            })?;
+
+        // The field ids are the leaf indices of the Merkle tree.
+        let ids_valid = attestation
+            .body
+            .hash_fields(hasher)
+            .iter()
+            .enumerate()
+            .all(|(i, (id, _))| id.0 as usize == i);
+
+        if !ids_valid || attestation.body.root(hasher) != attestation.header.root {
+            return Err(AttestationValidationError::inconsistent(
+                "attestation body does not match the signed header",
+            ));
+        }
+
         let verifier = provider
             .signature
             .get(&attestation.signature.alg)
-- 
2.43.0


From 370bcd08610a50309480cff5cd9db9c236cce853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 06/29] fix: act on a client close that arrives while the
 MPC-TLS client is busy

A close requested during the handshake, or with no other event pending, was
never sent: nothing polled the client again once it went from busy to active,
and the close_notify pushed to the record layer was not flushed.
---
 crates/tlsn/src/prover/client/mpc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 733726c..062956e 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -250,9 +250,12 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
+                        let client_close = self.client_wants_close
+                            && !inner.client_closed
+                            && !inner.tls.is_handshaking();
                         self.state = State::Active { inner };
                         // re-poll immediately if a close transition is pending
-                        if self.server_closed {
+                        if self.server_closed || client_close {
                             return self.poll(cx);
                         }
                     }
@@ -377,6 +380,9 @@ impl InnerState {
                 warn!("failed to send close_notify to server: {}", e);
             }
             self.client_closed = true;
+
+            // Flush the alert, nothing else may happen that drives the client.
+            self = self.run().await?;
         }
 
         Ok(self)
-- 
2.43.0


From de4342d89230c93353801fa93cdbc97dc0dce196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 07/29] fix: wake the prover when decryption is enabled or
 disabled

Enabling decryption while the connection is idle had no effect until some other
event polled the prover, so a reader waiting for already received data hung.
---
 crates/tlsn/src/prover/client.rs           | 17 ++++++++++++++-
 crates/tlsn/src/prover/client/mpc.rs       | 24 +++++++++-------------
 crates/tlsn/src/prover/client/proxy/mod.rs |  6 ++----
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/crates/tlsn/src/prover/client.rs b/crates/tlsn/src/prover/client.rs
index b123757..d659759 100644
--- a/crates/tlsn/src/prover/client.rs
+++ b/crates/tlsn/src/prover/client.rs
@@ -1,12 +1,13 @@
 //! Provides a TLS client.
 
 use crate::{TlsOutput, deps::ProverZk};
+use futures::task::AtomicWaker;
 use std::{
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
     },
-    task::Poll,
+    task::{Poll, Waker},
 };
 
 mod mpc;
@@ -64,11 +65,25 @@ pub(crate) trait TlsClient {
 #[derive(Debug)]
 pub(crate) struct DecryptState {
     decrypt: AtomicBool,
+    waker: AtomicWaker,
 }
 
 impl DecryptState {
+    pub(crate) fn new(decrypt: bool) -> Self {
+        Self {
+            decrypt: AtomicBool::new(decrypt),
+            waker: AtomicWaker::new(),
+        }
+    }
+
     pub(crate) fn enable_decryption(&self, enable: bool) {
         self.decrypt.store(enable, Ordering::Release);
+        self.waker.wake();
+    }
+
+    /// Registers the task to be woken when decryption is enabled or disabled.
+    pub(crate) fn register(&self, waker: &Waker) {
+        self.waker.register(waker);
     }
 
     pub(crate) fn is_decrypting(&self) -> bool {
diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 062956e..cc57880 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -9,11 +9,7 @@ use futures::{Future, FutureExt};
 use mpc_tls::{MpcTlsLeader, SessionKeys, client::ClientConnection};
 use mpz_common::Context;
 use rustls_pki_types::CertificateDer;
-use std::{
-    pin::Pin,
-    sync::{Arc, atomic::AtomicBool},
-    task::Poll,
-};
+use std::{pin::Pin, sync::Arc, task::Poll};
 use tls_core::dns::ServerName;
 use tlsn_core::{config::tls::TlsClientConfig, transcript::TlsTranscript};
 use tlsn_deap::Deap;
@@ -64,9 +60,7 @@ impl MpcTlsClient {
         mpc_tls: MpcTlsLeader,
     ) -> Result<Self, TlsnError> {
         let config = create_client_config(config)?;
-        let decrypt = DecryptState {
-            decrypt: AtomicBool::new(mpc_tls.is_decrypting()),
-        };
+        let decrypt = DecryptState::new(mpc_tls.is_decrypting());
 
         let tls = ClientConnection::new(Arc::new(config), mpc_tls, server_name).map_err(|e| {
             TlsnError::config()
@@ -205,6 +199,7 @@ impl TlsClient for MpcTlsClient {
         &mut self,
         cx: &mut std::task::Context,
     ) -> Poll<Result<(Context, ProverZk, TlsOutput), Self::Error>> {
+        self.decrypt.register(cx.waker());
         match std::mem::replace(&mut self.state, State::Error) {
             State::Start { inner } => {
                 trace!("inner client is starting");
@@ -222,7 +217,7 @@ impl TlsClient for MpcTlsClient {
                         self.state = State::CloseBusy {
                             fut: Box::pin(inner.server_close()),
                         };
-                    } else if self.client_wants_close {
+                    } else if self.client_wants_close && !inner.client_closed {
                         self.state = State::Busy {
                             fut: Box::pin(inner.client_close()),
                         };
@@ -250,12 +245,13 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
-                        let client_close = self.client_wants_close
-                            && !inner.client_closed
-                            && !inner.tls.is_handshaking();
+                        let client_close = self.client_wants_close && !inner.client_closed;
+                        let decrypt_changed = self.decrypt.is_decrypting() != inner.decrypt;
+                        let pending =
+                            !inner.tls.is_handshaking() && (client_close || decrypt_changed);
                         self.state = State::Active { inner };
-                        // re-poll immediately if a close transition is pending
-                        if self.server_closed || client_close {
+                        // re-poll immediately if a transition is pending
+                        if self.server_closed || pending {
                             return self.poll(cx);
                         }
                     }
diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index cde5b84..39b40f4 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -16,7 +16,7 @@ use rustls_pki_types::{CertificateDer, PrivateKeyDer};
 use std::{
     io::{Read, Write},
     pin::Pin,
-    sync::{Arc, atomic::AtomicBool},
+    sync::Arc,
     task::Poll,
 };
 use tls_core::dns::ServerName;
@@ -104,9 +104,7 @@ impl ProxyTlsClient {
                     .with_source(err)
             })?;
 
-        let decrypt = DecryptState {
-            decrypt: AtomicBool::new(true),
-        };
+        let decrypt = DecryptState::new(true);
 
         let tls_client = Self {
             conn,
-- 
2.43.0


From 724e53d7e8c1923725a1bffe0d241faf1d593bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 08/29] fix: refuse commitment ranges beyond the transcript
 instead of panicking in the verifier

---
 crates/tlsn/src/transcript_internal/auth.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tlsn/src/transcript_internal/auth.rs b/crates/tlsn/src/transcript_internal/auth.rs
index 53777fe..9fbdfb3 100644
--- a/crates/tlsn/src/transcript_internal/auth.rs
+++ b/crates/tlsn/src/transcript_internal/auth.rs
@@ -92,6 +92,11 @@ pub(crate) fn verify_plaintext<'a>(
     reveal: &RangeSet<usize>,
     commit: &RangeSet<usize>,
 ) -> Result<(ReferenceMap, PlaintextProof<'a>), PlaintextAuthError> {
+    // The ranges are chosen by the prover.
+    if commit.end().unwrap_or(0) > plaintext.len() || reveal.end().unwrap_or(0) > plaintext.len() {
+        return Err(ErrorRepr::RangeOutOfBounds.into());
+    }
+
     let is_reveal_all = reveal == (0..plaintext.len());
 
     let alloc_ranges = if is_reveal_all {
@@ -461,6 +466,8 @@ enum ErrorRepr {
     Vm(Box<dyn std::error::Error + Send + Sync + 'static>),
     #[error("plaintext out of bounds of records. This should never happen and is an internal bug.")]
     OutOfBounds,
+    #[error("range exceeds the length of the transcript")]
+    RangeOutOfBounds,
     #[error("missing decoding")]
     MissingDecoding,
     #[error("plaintext does not match ciphertext")]
-- 
2.43.0


From 2d5de97cad509ca1392ac66f146e8bbeda9ea2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 09/29] fix: drop plaintext nobody reads so that the prover can
 close the connection

---
 crates/tlsn/src/prover.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tlsn/src/prover.rs b/crates/tlsn/src/prover.rs
index c61c49f..29dd61c 100644
--- a/crates/tlsn/src/prover.rs
+++ b/crates/tlsn/src/prover.rs
@@ -497,7 +497,13 @@ where
                     if matches!(
                         err.kind(),
                         std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::ConnectionReset
-                    ) => {}
+                    ) =>
+                {
+                    // Nobody is left to read the plaintext, drop it so that the connection
+                    // can be closed.
+                    let mut buf = [0u8; 1024];
+                    while state.tls_client.wants_read() && state.tls_client.read(&mut buf)? > 0 {}
+                }
                 Poll::Ready(Err(err)) => return Err(Error::from(err)),
                 _ => {}
             }
-- 
2.43.0


From 29493836e466fa347c787b8283bc7ce440a8701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 10/29] fix: return an error when the proxied prover closes
 without sending data

---
 crates/tlsn/src/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tlsn/src/verifier.rs b/crates/tlsn/src/verifier.rs
index 9733f25..18ae5dc 100644
--- a/crates/tlsn/src/verifier.rs
+++ b/crates/tlsn/src/verifier.rs
@@ -350,7 +350,7 @@ impl Verifier<state::CommitAccepted<Proxy>> {
 
         let conn_time = prover_reader
             .first_read()
-            .expect("connection time should have been set");
+            .ok_or_else(|| Error::internal().with_msg("prover did not send any data"))?;
 
         let (mut ctx, mut vm, output, cf_vd_check, sf_vd_check) =
             verifier.finalize(&sent_buf, &recv_buf, conn_time).await?;
-- 
2.43.0


From aa5838925a15aa3abb2044229cf774ccb90b13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 11/29] fix: keep forwarding the server's data when the server
 no longer accepts the prover's

---
 crates/tlsn/src/verifier.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/tlsn/src/verifier.rs b/crates/tlsn/src/verifier.rs
index 18ae5dc..800a6d9 100644
--- a/crates/tlsn/src/verifier.rs
+++ b/crates/tlsn/src/verifier.rs
@@ -332,8 +332,25 @@ impl Verifier<state::CommitAccepted<Proxy>> {
 
         futures::future::try_join(
             async {
-                futures::io::copy(&mut prover_reader, &mut server_write).await?;
-                server_write.close().await
+                let forward = async {
+                    futures::io::copy(&mut prover_reader, &mut server_write).await?;
+                    server_write.close().await
+                };
+                match forward.await {
+                    // The server closed its socket, what the prover still sends (e.g. its
+                    // close_notify) can not be delivered but is part of the traffic.
+                    Err(err)
+                        if matches!(
+                            err.kind(),
+                            std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::ConnectionReset
+                        ) =>
+                    {
+                        futures::io::copy(&mut prover_reader, &mut futures::io::sink())
+                            .await
+                            .map(drop)
+                    }
+                    res => res,
+                }
             },
             async {
                 futures::io::copy(&mut server_reader, &mut prover_write).await?;
-- 
2.43.0


From 698109986a1c344d015b2e9bf210b52e75692b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 12/29] fix: ignore what follows a close_notify instead of
 spinning on it

---
 crates/mpc-tls/src/client/conn.rs          |  5 +++++
 crates/tlsn/src/prover/client/mpc.rs       |  7 ++++++-
 crates/tlsn/src/prover/client/proxy/mod.rs | 19 +++++++++++++------
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 3943820..4f942b0 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -387,6 +387,11 @@ impl CommonState {
         self.received_plaintext.is_empty()
     }
 
+    /// Returns true if the peer has sent close_notify.
+    pub fn peer_has_closed(&self) -> bool {
+        self.has_received_close_notify
+    }
+
     /// Returns true if the buffer for sendable plaintext is full.
     pub fn sendable_plaintext_is_full(&self) -> bool {
         self.sendable_plaintext.is_full()
diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index cc57880..a259f6b 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -111,7 +111,7 @@ impl TlsClient for MpcTlsClient {
 
     fn wants_read_tls(&self) -> bool {
         if let Some(client) = self.inner_client() {
-            client.wants_read()
+            client.wants_read() || client.peer_has_closed()
         } else {
             false
         }
@@ -127,6 +127,11 @@ impl TlsClient for MpcTlsClient {
 
     fn read_tls(&mut self, mut buf: &[u8]) -> Result<usize, Self::Error> {
         if let Some(client) = self.inner_client_mut()
+            && client.peer_has_closed()
+        {
+            // Data received after a close_notify is ignored (RFC 5246 7.2.1).
+            Ok(buf.len())
+        } else if let Some(client) = self.inner_client_mut()
             && client.wants_read()
         {
             client.read_tls(&mut buf).map_err(TlsnError::from)
diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index 39b40f4..c86339c 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -40,6 +40,7 @@ pub(crate) struct ProxyTlsClient {
     traffic: TlsBytes,
     client_closed: bool,
     server_closed: bool,
+    received_close_notify: bool,
     state: State,
     decrypt: Arc<DecryptState>,
 }
@@ -113,6 +114,7 @@ impl ProxyTlsClient {
             traffic: TlsBytes::default(),
             client_closed: false,
             server_closed: false,
+            received_close_notify: false,
             state: State::Init { prover },
             decrypt: Arc::new(decrypt),
         };
@@ -125,7 +127,7 @@ impl TlsClient for ProxyTlsClient {
     type Error = TlsnError;
 
     fn wants_read_tls(&self) -> bool {
-        self.conn.wants_read()
+        self.conn.wants_read() || self.received_close_notify
     }
 
     fn wants_write_tls(&self) -> bool {
@@ -134,10 +136,14 @@ impl TlsClient for ProxyTlsClient {
 
     fn read_tls(&mut self, buf: &[u8]) -> Result<usize, Self::Error> {
         let mut reader = buf;
-        let n = self
-            .conn
-            .read_tls(&mut reader)
-            .map_err(|e| TlsnError::internal().with_source(e))?;
+        let n = if self.received_close_notify {
+            // Nothing is read from the connection anymore, but it is part of the traffic.
+            buf.len()
+        } else {
+            self.conn
+                .read_tls(&mut reader)
+                .map_err(|e| TlsnError::internal().with_source(e))?
+        };
         self.traffic.tls_recv.extend_from_slice(&buf[..n]);
         Ok(n)
     }
@@ -237,11 +243,12 @@ impl TlsClient for ProxyTlsClient {
                 prover,
             } => {
                 trace!("inner client is connected");
-                self.conn.process_new_packets().map_err(|err| {
+                let io_state = self.conn.process_new_packets().map_err(|err| {
                     TlsnError::internal()
                         .with_msg("rustls error")
                         .with_source(err)
                 })?;
+                self.received_close_notify |= io_state.peer_has_closed();
 
                 if self.server_closed {
                     let ms = self.ms_log.take();
-- 
2.43.0


From b881a35fd10851ca934eff81ef1f9b3df9eaa875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 13/29] fix: return an error when the server closes during the
 handshake instead of recursing or waiting forever

---
 crates/tlsn/src/prover/client/mpc.rs       | 5 +++++
 crates/tlsn/src/prover/client/proxy/mod.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index a259f6b..8bb1117 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -250,6 +250,11 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
+                        // nothing can complete the handshake anymore
+                        if self.server_closed && inner.tls.is_handshaking() {
+                            return Poll::Ready(Err(TlsnError::io()
+                                .with_msg("server closed the connection during the handshake")));
+                        }
                         let client_close = self.client_wants_close && !inner.client_closed;
                         let decrypt_changed = self.decrypt.is_decrypting() != inner.decrypt;
                         let pending =
diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index c86339c..e339bc4 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -233,6 +233,9 @@ impl TlsClient for ProxyTlsClient {
                         prover,
                     };
                     self.poll(cx)
+                } else if self.server_closed {
+                    Poll::Ready(Err(TlsnError::io()
+                        .with_msg("server closed the connection during the handshake")))
                 } else {
                     self.state = State::Handshaking { prover };
                     Poll::Pending
-- 
2.43.0


From b30fd28b6cb51e3a0363ff8a004bdc2d332fae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 14/29] fix: point OK_EMPTY_HEADER at the response with an
 empty header

---
 crates/data-fixtures/src/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/data-fixtures/src/http.rs b/crates/data-fixtures/src/http.rs
index be26c65..f8d6c7b 100644
--- a/crates/data-fixtures/src/http.rs
+++ b/crates/data-fixtures/src/http.rs
@@ -38,7 +38,7 @@ pub mod response {
     define_fixture!(
         OK_EMPTY_HEADER,
         "An OK response with an empty header.",
-        "../data/http/response_empty"
+        "../data/http/response_empty_header"
     );
     define_fixture!(
         OK_TEXT,
-- 
2.43.0


From 93d6be6048fd3aae6759020a0c56daa180cd2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 15/29] fix: refuse handshake messages of the prover that come
 before those they depend on

A ServerHello before the client random panicked the verifier, and a Finished
hash before the ServerHello made it loop forever.
---
 crates/mpc-tls/src/follower.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/mpc-tls/src/follower.rs b/crates/mpc-tls/src/follower.rs
index 38a9084..260f7a4 100644
--- a/crates/mpc-tls/src/follower.rs
+++ b/crates/mpc-tls/src/follower.rs
@@ -232,6 +232,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("server hello already set"));
                     }
 
+                    if client_random.is_none() {
+                        return Err(MpcTlsError::hs("server hello before client random"));
+                    }
+
                     let this_time = web_time::UNIX_EPOCH
                         .elapsed()
                         .expect("system time is available")
@@ -271,6 +275,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("client finished VD already computed"));
                     }
 
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("client finished VD before server hello"));
+                    }
+
                     let mut vm = vm
                         .try_lock()
                         .map_err(|_| MpcTlsError::other("VM lock is held"))?;
@@ -290,6 +298,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("server finished VD already computed"));
                     }
 
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("server finished VD before server hello"));
+                    }
+
                     let mut vm = vm
                         .try_lock()
                         .map_err(|_| MpcTlsError::other("VM lock is held"))?;
-- 
2.43.0


From c90280ddf54d5907a08749b736630db3ba5e043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 16/29] fix: report missing finished records as an error
 instead of panicking

---
 crates/core/src/transcript/tls/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 5b2c0c0..e88ba3c 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -140,7 +140,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let sent = if let Some(records_sent) = self.records_sent {
             let client_finished = records_sent
                 .first()
-                .expect("client finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("client finished record"))?;
             validate_finished_record(client_finished)?;
             records_sent
         } else if let Some(sent_raw) = sent_raw {
@@ -153,7 +153,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let recv = if let Some(records_recv) = self.records_recv {
             let server_finished = records_recv
                 .first()
-                .expect("server finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("server finished record"))?;
             validate_finished_record(server_finished)?;
             records_recv
         } else if let Some(recv_raw) = recv_raw {
-- 
2.43.0


From 4bd830f9946eaaf5ca434be4911f37844f0ba89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 17/29] fix: check the sent limit without overflowing on a huge
 record length

---
 crates/mpc-tls/src/record_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mpc-tls/src/record_layer.rs b/crates/mpc-tls/src/record_layer.rs
index c9010f3..cb437c3 100644
--- a/crates/mpc-tls/src/record_layer.rs
+++ b/crates/mpc-tls/src/record_layer.rs
@@ -292,7 +292,7 @@ impl RecordLayer {
     ) -> Result<(), MpcTlsError> {
         if self.encrypt_buffer.len() >= MAX_BUFFER_SIZE {
             return Err(MpcTlsError::peer("encrypt buffer is full"));
-        } else if self.sent + len > self.max_sent {
+        } else if len > self.max_sent.saturating_sub(self.sent) {
             return Err(MpcTlsError::record_layer(format!(
                 "attempted to send more data than was configured, increase `max_sent` in the config: current={}, additional={}, max={}",
                 self.sent, len, self.max_sent
-- 
2.43.0


From d715eb7d5f72b446f73070637fded2abc909b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 18/29] fix: add the protocol's own records to a configured
 number of application data records

---
 crates/mpc-tls/src/config.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/mpc-tls/src/config.rs b/crates/mpc-tls/src/config.rs
index 9a13861..77ab6d7 100644
--- a/crates/mpc-tls/src/config.rs
+++ b/crates/mpc-tls/src/config.rs
@@ -101,12 +101,14 @@ impl ConfigBuilder {
         max_recv_online += PROTOCOL_DATA_RECV;
         max_recv += PROTOCOL_DATA_RECV;
 
-        let max_sent_records = self
-            .max_sent_records
-            .unwrap_or_else(|| PROTOCOL_RECORD_COUNT_SENT + default_record_count(max_sent));
-        let max_recv_records_online = self
-            .max_recv_records_online
-            .unwrap_or_else(|| PROTOCOL_RECORD_COUNT_RECV + default_record_count(max_recv_online));
+        let max_sent_records = PROTOCOL_RECORD_COUNT_SENT
+            + self
+                .max_sent_records
+                .unwrap_or_else(|| default_record_count(max_sent));
+        let max_recv_records_online = PROTOCOL_RECORD_COUNT_RECV
+            + self
+                .max_recv_records_online
+                .unwrap_or_else(|| default_record_count(max_recv_online));
 
         let prf = self.prf.unwrap_or(NetworkMode::Normal);
 
-- 
2.43.0


From 12e4d9a6c8a2e104603d4edda6204e6f4c0e4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 19/29] fix: allocate keystream for the partly used last block
 of every record

---
 crates/mpc-tls/src/record_layer/aead/aes_gcm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs b/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
index 5848a61..adae412 100644
--- a/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
+++ b/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
@@ -112,8 +112,9 @@ impl MpcAesGcm {
 
         // Allocate encryption/decryption.
 
-        // Round up the length to the nearest multiple of the block size.
-        let len = 16 * len.div_ceil(16);
+        // Every record starts with a new block, and may leave up to 15 bytes of its
+        // last block unused.
+        let len = 16 * ((len + 15 * records) / 16);
 
         let input = vm.alloc_vec::<U8>(len)?;
         match self.role {
-- 
2.43.0


From 780f969b16616f074f50bf33d69530660e4ec38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 20/29] fix: fail instead of waiting forever when the closing
 alert cannot be sent

---
 crates/tlsn/src/prover/client/mpc.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 8bb1117..ee801b2 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -14,7 +14,7 @@ use tls_core::dns::ServerName;
 use tlsn_core::{config::tls::TlsClientConfig, transcript::TlsTranscript};
 use tlsn_deap::Deap;
 use tokio::sync::Mutex;
-use tracing::{Span, debug, instrument, trace, warn};
+use tracing::{Span, debug, instrument, trace};
 use webpki::anchor_from_trusted_cert;
 
 type FinalizeFuture =
@@ -382,9 +382,10 @@ impl InnerState {
 
         if !self.client_closed {
             debug!("sending close notify");
-            if let Err(e) = self.tls.send_close_notify().await {
-                warn!("failed to send close_notify to server: {}", e);
-            }
+            self.tls
+                .send_close_notify()
+                .await
+                .map_err(|err| TlsnError::internal().with_source(err))?;
             self.client_closed = true;
 
             // Flush the alert, nothing else may happen that drives the client.
-- 
2.43.0


From be2111f865555e6e06f798b4741e51554667526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 21/29] fix: refuse alerts of an unknown level instead of
 acting on them

---
 crates/mpc-tls/src/client/conn.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 4f942b0..5fa5c2f 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -595,6 +595,7 @@ impl CommonState {
         if let AlertLevel::Unknown(_) = alert.level {
             self.send_fatal_alert(AlertDescription::IllegalParameter)
                 .await?;
+            return Err(Error::AlertReceived(alert.description));
         }
 
         // If we get a CloseNotify, make a note to declare EOF to our
-- 
2.43.0


From 5fa399527f191c181a685b03dc219b9b11cda7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 22/29] fix: return the error that ended a TLS connection from
 every later call

---
 crates/mpc-tls/src/client/conn.rs | 38 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 5fa5c2f..0335296 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -216,7 +216,7 @@ impl ClientConnection {
     /// [`read_tls`]: ClientConnection::read_tls
     /// [`process_new_packets`]: ClientConnection::process_new_packets
     pub async fn process_new_packets(&mut self) -> Result<IoState, Error> {
-        let mut state = match mem::replace(&mut self.state, Err(Error::HandshakeNotComplete)) {
+        let state = match mem::replace(&mut self.state, Err(Error::HandshakeNotComplete)) {
             Ok(state) => state,
             Err(e) => {
                 self.state = Err(e.clone());
@@ -224,6 +224,22 @@ impl ClientConnection {
             }
         };
 
+        match self.process_packets(state).await {
+            Ok(state) => {
+                self.state = Ok(state);
+                Ok(self.common_state.current_io_state())
+            }
+            Err(e) => {
+                self.state = Err(e.clone());
+                Err(e)
+            }
+        }
+    }
+
+    async fn process_packets(
+        &mut self,
+        mut state: Box<dyn State>,
+    ) -> Result<Box<dyn State>, Error> {
         if self.message_deframer.desynced {
             return Err(Error::CorruptMessage);
         }
@@ -236,35 +252,21 @@ impl ClientConnection {
             // If we're not decrypting yet, we process it immediately. Otherwise it will be
             // pushed to the backend.
             if let Some(plain) = self.process_incoming_opaque(msg).await? {
-                match self.process_incoming_plain(plain, state).await {
-                    Ok(new) => state = new,
-                    Err(e) => {
-                        self.state = Err(e.clone());
-                        return Err(e);
-                    }
-                }
+                state = self.process_incoming_plain(plain, state).await?;
             }
         }
         self.backend.flush().await?;
 
         // Process pending decrypted messages.
         while let Some(msg) = self.backend.next_incoming()? {
-            match self.process_incoming_plain(msg, state).await {
-                Ok(new) => state = new,
-                Err(e) => {
-                    self.state = Err(e.clone());
-                    return Err(e);
-                }
-            }
+            state = self.process_incoming_plain(msg, state).await?;
         }
 
         while let Some(msg) = self.backend.next_outgoing()? {
             self.queue_tls_message(msg);
         }
 
-        self.state = Ok(state);
-
-        Ok(self.common_state.current_io_state())
+        Ok(state)
     }
 
     async fn process_new_handshake_messages(
-- 
2.43.0


From 05dc99d07bc3ee5f6762f305002a2c0ab76a93d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 23/29] fix: accept application data records without content

RFC 5246 allows them as a traffic analysis countermeasure, and OpenSSL sends
them; the record layer refused to allocate a keystream of zero blocks.
---
 crates/mpc-tls/src/record_layer/decrypt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mpc-tls/src/record_layer/decrypt.rs b/crates/mpc-tls/src/record_layer/decrypt.rs
index 614b8ab..8f59e9d 100644
--- a/crates/mpc-tls/src/record_layer/decrypt.rs
+++ b/crates/mpc-tls/src/record_layer/decrypt.rs
@@ -28,6 +28,14 @@ pub(crate) fn private_mpc(
         )));
     }
 
+    // A record without any application data needs no keystream, only its tag
+    // has to be verified.
+    if op.ciphertext.is_empty() {
+        return Ok(DecryptOutput::Local(DecryptLocal {
+            plaintext: otp.map(|_| Vec::new()),
+        }));
+    }
+
     let (otp_ref, masked_keystream) = decrypter
         .apply_keystream(vm, op.explicit_nonce.clone(), op.ciphertext.len())
         .map_err(MpcTlsError::record_layer)?;
-- 
2.43.0


From c45944a126f3b0a5d94a8c7cf3c8b835f7efbbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 24/29] fix: ignore what follows a closure alert in the same
 read

RFC 5246 has any data received after a closure alert ignored. Later reads
were, but records which arrived together with the alert were still acted on,
so application data was delivered after the end of the stream.
---
 crates/mpc-tls/src/client/conn.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 0335296..c70bdeb 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -249,6 +249,11 @@ impl ClientConnection {
 
         // Process new messages.
         while let Some(msg) = self.message_deframer.frames.pop_front() {
+            // Anything received after a closure alert is ignored.
+            if self.has_received_close_notify {
+                continue;
+            }
+
             // If we're not decrypting yet, we process it immediately. Otherwise it will be
             // pushed to the backend.
             if let Some(plain) = self.process_incoming_opaque(msg).await? {
@@ -259,6 +264,10 @@ impl ClientConnection {
 
         // Process pending decrypted messages.
         while let Some(msg) = self.backend.next_incoming()? {
+            if self.has_received_close_notify {
+                continue;
+            }
+
             state = self.process_incoming_plain(msg, state).await?;
         }
 
-- 
2.43.0


From 3fe941f2ce36352c9f09da45f36274bcfb73a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 25/29] fix: refuse a ServerHello with non-empty renegotiation
 info

RFC 5746 section 3.4 has the client abort if renegotiated_connection is not
empty in an initial handshake.
---
 crates/mpc-tls/src/client/hs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/mpc-tls/src/client/hs.rs b/crates/mpc-tls/src/client/hs.rs
index 9d9c59d..b9a2304 100644
--- a/crates/mpc-tls/src/client/hs.rs
+++ b/crates/mpc-tls/src/client/hs.rs
@@ -329,6 +329,19 @@ impl State for ExpectServerHello {
             ));
         }
 
+        // RFC 5746: in an initial handshake the extension, if present, must be
+        // empty.
+        if server_hello.extensions.iter().any(|ext| {
+            matches!(ext, ServerExtension::RenegotiationInfo(info) if !info.0.is_empty())
+        }) {
+            cx
+                .send_fatal_alert(AlertDescription::HandshakeFailure)
+                .await?;
+            return Err(Error::PeerMisbehavedError(
+                "server sent non-empty renegotiation info".to_string(),
+            ));
+        }
+
         cx.negotiated_version = Some(version);
 
         // Extract ALPN protocol
-- 
2.43.0


From f1712f2099f3753899a22bfcf3c5007a9f279dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 26/29] fix: apply the flags of a regex handler

---
 crates/sdk-core/src/handler/extract.rs | 27 +++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/sdk-core/src/handler/extract.rs b/crates/sdk-core/src/handler/extract.rs
index c3f44aa..c097cd5 100644
--- a/crates/sdk-core/src/handler/extract.rs
+++ b/crates/sdk-core/src/handler/extract.rs
@@ -331,7 +331,11 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
         && params.content_type.as_deref() == Some("regex")
         && let Some(pattern) = params.regex.as_deref()
     {
-        return extract_regex(raw, pattern);
+        return extract_regex(
+            raw,
+            pattern,
+            params.flags.as_deref().unwrap_or_default(),
+        );
     }
 
     // Return entire transcript as a single range.
@@ -339,8 +343,25 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
     Ok(vec![0..raw.len()])
 }
 
-fn extract_regex(raw: &[u8], pattern: &str) -> Result<Vec<Range<usize>>> {
-    let re = regex::bytes::Regex::new(pattern)
+fn extract_regex(raw: &[u8], pattern: &str, flags: &str) -> Result<Vec<Range<usize>>> {
+    let mut builder = regex::bytes::RegexBuilder::new(pattern);
+    for flag in flags.chars() {
+        match flag {
+            'i' => builder.case_insensitive(true),
+            'm' => builder.multi_line(true),
+            's' => builder.dot_matches_new_line(true),
+            // All matches are extracted and Unicode is supported regardless.
+            'g' | 'u' => &mut builder,
+            _ => {
+                return Err(SdkError::handler(format!(
+                    "unsupported regex flag '{flag}' for regex '{pattern}'"
+                )));
+            }
+        };
+    }
+
+    let re = builder
+        .build()
         .map_err(|e| SdkError::handler(format!("invalid regex '{pattern}': {e}")))?;
 
     let ranges: Vec<Range<usize>> = re.find_iter(raw).map(|m| m.start()..m.end()).collect();
-- 
2.43.0


From 315684d3e915926803fc99050152ac36850bbc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 27/29] fix: return commitment openings in input order

---
 crates/sdk-core/src/prover.rs | 52 +++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index 3c3447c..82e199e 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -2,6 +2,7 @@
 
 use http_body_util::{BodyExt, Full};
 use hyper::body::Bytes;
+use rangeset::set::RangeSet;
 use tlsn::{
     Mpc, Proxy, Session, SessionHandle,
     config::{
@@ -396,7 +397,7 @@ impl SdkProver {
         }
 
         // Build transcript commit config for hash-commitment ranges.
-        if let Some(commit) = commit {
+        if let Some(commit) = &commit {
             let mut commit_builder =
                 tlsn_core::transcript::TranscriptCommitConfig::builder(prover.transcript());
 
@@ -437,7 +438,7 @@ impl SdkProver {
 
         self.state = State::Complete;
 
-        build_reveal_output(prover_output)
+        build_reveal_output(prover_output, commit.as_ref())
     }
 
     /// Returns true if the prover has completed the protocol.
@@ -446,7 +447,7 @@ impl SdkProver {
     }
 }
 
-fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
+fn build_reveal_output(output: ProverOutput, commit: Option<&Commit>) -> Result<RevealOutput> {
     let ProverOutput {
         transcript_commitments,
         transcript_secrets,
@@ -460,8 +461,7 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
         )));
     }
 
-    let mut sent = Vec::new();
-    let mut recv = Vec::new();
+    let mut openings = Vec::new();
     for (commitment, secret) in transcript_commitments.into_iter().zip(transcript_secrets) {
         let (commitment, secret) = match (commitment, secret) {
             (TranscriptCommitment::Hash(c), TranscriptSecret::Hash(s)) => (c, s),
@@ -478,18 +478,40 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
             ));
         }
 
-        let opening = HashOpening {
-            hash: commitment.hash.value.as_bytes().to_vec(),
-            blinder: secret.blinder.as_bytes().to_vec(),
-        };
-
-        match commitment.direction {
-            Direction::Sent => sent.push(opening),
-            Direction::Received => recv.push(opening),
-        }
+        openings.push((commitment, secret));
     }
 
-    Ok(RevealOutput { sent, recv })
+    // The output of the prover is neither in input order nor does it repeat
+    // ranges which were committed more than once.
+    let open = |direction: Direction, ranges: &[CommitRange]| -> Result<Vec<HashOpening>> {
+        ranges
+            .iter()
+            .map(|cr| {
+                let alg = cr.algorithm.into();
+                let idx = RangeSet::from(cr.range());
+                let (commitment, secret) = openings
+                    .iter()
+                    .find(|(c, _)| c.direction == direction && c.hash.alg == alg && c.idx == idx)
+                    .ok_or_else(|| {
+                        SdkError::protocol("prover output is missing a requested commitment")
+                    })?;
+
+                Ok(HashOpening {
+                    hash: commitment.hash.value.as_bytes().to_vec(),
+                    blinder: secret.blinder.as_bytes().to_vec(),
+                })
+            })
+            .collect()
+    };
+
+    let Some(commit) = commit else {
+        return Ok(RevealOutput::default());
+    };
+
+    Ok(RevealOutput {
+        sent: open(Direction::Sent, &commit.sent)?,
+        recv: open(Direction::Received, &commit.recv)?,
+    })
 }
 
 async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpResponse> {
-- 
2.43.0


From f78288ef340ecad6fcdff914bd2cf9daabb8a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 28/29] fix: do not treat an absent record limit of the
 verifier as zero

---
 crates/sdk-core/src/verifier.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/sdk-core/src/verifier.rs b/crates/sdk-core/src/verifier.rs
index f40296c..0d01379 100644
--- a/crates/sdk-core/src/verifier.rs
+++ b/crates/sdk-core/src/verifier.rs
@@ -140,11 +140,15 @@ impl SdkVerifier {
                     Some("max_sent_data is too large")
                 } else if mpc_tls_config.max_recv_data() > self.config.max_recv_data {
                     Some("max_recv_data is too large")
-                } else if mpc_tls_config.max_sent_records() > self.config.max_sent_records {
+                } else if exceeds(
+                    mpc_tls_config.max_sent_records(),
+                    self.config.max_sent_records,
+                ) {
                     Some("max_sent_records is too large")
-                } else if mpc_tls_config.max_recv_records_online()
-                    > self.config.max_recv_records_online
-                {
+                } else if exceeds(
+                    mpc_tls_config.max_recv_records_online(),
+                    self.config.max_recv_records_online,
+                ) {
                     Some("max_recv_records_online is too large")
                 } else {
                     None
@@ -311,3 +315,8 @@ impl SdkVerifier {
         matches!(self.state, State::Complete)
     }
 }
+
+/// Returns whether a requested value is larger than the limit, if there is one.
+fn exceeds(requested: Option<usize>, limit: Option<usize>) -> bool {
+    limit.is_some_and(|limit| requested.is_some_and(|requested| requested > limit))
+}
-- 
2.43.0


From 53022d5d35e6445aa930968485891ef724b3dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 29/29] fix: keep the name of repeated response headers

---
 crates/sdk-core/src/prover.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index 82e199e..eb64a95 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -536,14 +536,16 @@ async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpR
         .map_err(|e| SdkError::http(e.to_string()))?;
     let body_bytes = body.to_bytes().to_vec();
 
+    // The name is only present for the first of the values of a header.
+    let mut name = String::new();
     let headers = response
         .headers
         .into_iter()
         .map(|(k, v)| {
-            (
-                k.map(|k| k.to_string()).unwrap_or_default(),
-                v.as_bytes().to_vec(),
-            )
+            if let Some(k) = k {
+                name = k.to_string();
+            }
+            (name.clone(), v.as_bytes().to_vec())
         })
         .collect();
 
-- 
2.43.0

