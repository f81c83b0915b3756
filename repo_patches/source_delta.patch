From 97f651710dff40ee5f45edbfef7e8663b3ebadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 01/13] fix: refuse to write an archive record larger than
 readers accept

write_value reported success for a record whose stored or decompressed size is over
MAX_RECORD_SIZE, which no reader (fetch, record_size, PackIter) will ever return and
which ends sequential iteration of the pack.
---
 crates/storage/src/archive/pack.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/storage/src/archive/pack.rs b/crates/storage/src/archive/pack.rs
index c1fabf0..ff7d883 100644
--- a/crates/storage/src/archive/pack.rs
+++ b/crates/storage/src/archive/pack.rs
@@ -506,6 +506,7 @@ where
 {
     value_buffer.clear();
     encode_into_buffer(value_buffer, value).map_err(|e| std::io::Error::other(e.to_string()))?;
+    let value_len = value_buffer.len();
     let buffer = match compression {
         PackCompression::None => value_buffer,
         PackCompression::ZStd => {
@@ -518,6 +519,14 @@ where
             compression_buffer
         }
     };
+    // Every reader rejects a record over MAX_RECORD_SIZE (stored or decompressed), refuse to write
+    // a record that can not be read back.
+    if value_len > MAX_RECORD_SIZE as usize || buffer.len() > MAX_RECORD_SIZE as usize {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "record larger than MAX_RECORD_SIZE",
+        ));
+    }
 
     let mut crc32_hasher = crc32fast::Hasher::new();
     // Once we have written to write_buffer, it needs to be rolled back before returning an
-- 
2.43.0


From 4755cf3c857cec8ffdb96581c247dc4351db3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 02/13] fix: a failed archive write must not leave part of the
 write buffer in the file

On a partial write (disk full, file size limit) the bytes that reached the file stayed
there while the whole buffer was kept, so the next flush appended them a second time and
every later record was stored at another place than the one reported.
---
 crates/storage/src/archive/data_file.rs | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/storage/src/archive/data_file.rs b/crates/storage/src/archive/data_file.rs
index c93b5de..6cf706d 100644
--- a/crates/storage/src/archive/data_file.rs
+++ b/crates/storage/src/archive/data_file.rs
@@ -135,9 +135,7 @@ impl DataFile {
     /// Used to truncate an incomplete record.
     pub fn set_len(&mut self, len: u64) -> Result<(), io::Error> {
         if !self.read_only && !self.write_buffer.is_empty() {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         self.data_file.set_len(len)?;
         self.data_file_end = len;
@@ -219,6 +217,19 @@ impl DataFile {
         res.map_err(RenameError::RenameIO)
     }
 
+    /// Append the write buffer to the file and empty it.
+    /// On an error cut off whatever part of the buffer reached the file: the buffer is kept, so a
+    /// retry would otherwise append that part a second time and shift everything after it.
+    fn write_out(&mut self) -> io::Result<()> {
+        if let Err(e) = self.data_file.write_all(&self.write_buffer) {
+            let _ = self.data_file.set_len(self.data_file_end);
+            return Err(e);
+        }
+        self.data_file_end += self.write_buffer.len() as u64;
+        self.write_buffer.clear();
+        Ok(())
+    }
+
     /// Copy bytes from the read buffer into buf.  This expects seek_pos to be within the
     /// read_buffer (will panic if called incorrectly).
     fn copy_read_buffer(&mut self, buf: &mut [u8]) -> io::Result<usize> {
@@ -337,9 +348,7 @@ impl Write for DataFile {
             Err(io::Error::new(io::ErrorKind::ReadOnlyFilesystem, "file not open for write"))
         } else {
             if self.write_buffer.len() >= self.write_buffer_size as usize {
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
+                self.write_out()?;
             }
             let write_buffer_len = self.write_buffer.len();
             let write_capacity = self.write_buffer_size as usize - write_buffer_len;
@@ -349,9 +358,11 @@ impl Write for DataFile {
                 Ok(buf_len)
             } else {
                 self.write_buffer.write_all(&buf[..write_capacity])?;
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
+                if let Err(e) = self.write_out() {
+                    // Nothing of buf counts as written when an error is returned.
+                    self.write_buffer.truncate(write_buffer_len);
+                    return Err(e);
+                }
                 Ok(write_capacity)
             }
         }
@@ -359,9 +370,7 @@ impl Write for DataFile {
 
     fn flush(&mut self) -> io::Result<()> {
         if !self.read_only {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         Ok(())
     }
-- 
2.43.0


From e8b3708d96b16c173ecf773570cf45450a7c65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 03/13] fix: refuse a digest string that does not hold exactly
 the digest's bytes

bs58's onto() leaves the rest of the buffer zero, so a shorter string was read
as a different, zero padded digest and the length check could not fail.
---
 crates/types/src/crypto/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/types/src/crypto/mod.rs b/crates/types/src/crypto/mod.rs
index 66db286..ca612d5 100644
--- a/crates/types/src/crypto/mod.rs
+++ b/crates/types/src/crypto/mod.rs
@@ -84,9 +84,8 @@ impl<'de, const DIGEST_LEN: usize> Deserialize<'de> for Digest<DIGEST_LEN> {
             where
                 E: Error,
             {
-                let mut bytes = [0_u8; DIGEST_LEN];
-                bs58::decode(v)
-                    .onto(&mut bytes)
+                let bytes = bs58::decode(v)
+                    .into_vec()
                     .map_err(|_| Error::invalid_value(Unexpected::Str(v), &self))?;
                 self.visit_bytes(&bytes)
             }
-- 
2.43.0


From c670276b1700703703d3afabe1107beef37b5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 04/13] fix: digest index reports an unreadable overflow record
 instead of ending the chain

---
 crates/storage/src/archive/digest_index/bucket_iter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/bucket_iter.rs b/crates/storage/src/archive/digest_index/bucket_iter.rs
index 4891ce0..8e89e5f 100644
--- a/crates/storage/src/archive/digest_index/bucket_iter.rs
+++ b/crates/storage/src/archive/digest_index/bucket_iter.rs
@@ -109,8 +109,14 @@ impl<'bucket> BucketIter<'bucket> {
         // Position of the record we are about to read; the overflow log is append-only so
         // any chained overflow record it points to must live at an earlier offset.
         let current_pos = self.overflow_pos;
-        odx_file.seek(SeekFrom::Start(current_pos)).ok()?;
-        odx_file.read_exact(&mut self.overflow_buffer[..]).ok()?;
+        // A record that can not be read (the log lost its tail for instance) is not the end of the
+        // chain; treat it like a CRC failure so the missing elements are not silently dropped.
+        if odx_file.seek(SeekFrom::Start(current_pos)).is_err()
+            || odx_file.read_exact(&mut self.overflow_buffer[..]).is_err()
+        {
+            self.crc_failure = true;
+            return None;
+        }
         if !check_crc(&self.overflow_buffer) {
             self.crc_failure = true;
             return None;
-- 
2.43.0


From a43d77ce6fb2b2a94f61ed9a10b78d1d673bc087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 05/13] fix: digest index keeps buckets dirty when a flush
 fails

---
 crates/storage/src/archive/digest_index/index.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 88ed0c3..ac1e015 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -509,14 +509,22 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         let header_size = self.header.header_size();
         // Drain into a local buffer first so we can call &mut self helpers below; the heap
         // buffers are moved (not copied) so this is cheap.
-        let dirty: Vec<(u64, Vec<u8>)> = self.dirty_bucket_cache.drain().collect();
-        for (bucket, mut buffer) in dirty {
+        let mut dirty: Vec<(u64, Vec<u8>)> = self.dirty_bucket_cache.drain().collect();
+        while let Some((bucket, mut buffer)) = dirty.pop() {
             let bucket_pos: u64 =
                 (header_size + BLOOM_SIZE_BYTES + (bucket as usize * bucket_size)) as u64;
             add_crc32(&mut buffer[..]);
             // Seeking and writing past the file end extends it.
-            self.hdx_file.seek(SeekFrom::Start(bucket_pos))?;
-            self.hdx_file.write_all(&buffer[..])?;
+            let written = self
+                .hdx_file
+                .seek(SeekFrom::Start(bucket_pos))
+                .and_then(|_| self.hdx_file.write_all(&buffer[..]));
+            if let Err(e) = written {
+                // Keep this bucket and the rest dirty, they may not exist anywhere else.
+                self.dirty_bucket_cache.insert(bucket, buffer);
+                self.dirty_bucket_cache.extend(dirty);
+                return Err(e);
+            }
             // Route through the FIFO-bounded cache so the clean cache stays capped at
             // CACHED_BUCKETS rather than retaining every bucket ever flushed.
             self.add_bucket_to_cache(bucket, buffer);
-- 
2.43.0


From 39e76f2cd5aca5e2837d8d942ba8847c881e62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 06/13] fix: digest index keeps the bucket when a split fails

---
 .../storage/src/archive/digest_index/index.rs | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index ac1e015..eac5a96 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -555,6 +555,7 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         let old_modulus = self.modulus;
         // This is the bucket that is being split.
         let split_bucket = (self.buckets() - (old_modulus / 2)) as u64;
+        let split_buffer = self.remove_bucket(split_bucket)?;
         self.inc_buckets();
         // This is the newly created bucket that the items in split_bucket will possibly be moved
         // into.
@@ -562,17 +563,35 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         // Don't want buckets and modulus to be the same, so +1
         self.modulus = (self.buckets() + 1).next_power_of_two();
 
+        match self.divide_bucket(&split_buffer, split_bucket, new_bucket) {
+            Ok((buffer, buffer2)) => {
+                self.dirty_bucket_cache.insert(split_bucket, buffer);
+                self.dirty_bucket_cache.insert(new_bucket, buffer2);
+                Ok(())
+            }
+            Err(e) => {
+                // Undo the split and keep the bucket as it was, it may not exist anywhere else.
+                self.header.buckets -= 1;
+                self.modulus = old_modulus;
+                self.dirty_bucket_cache.insert(split_bucket, split_buffer);
+                Err(e)
+            }
+        }
+    }
+
+    /// Divide the elements of split_bucket (in split_buffer) between split_bucket and new_bucket.
+    /// Returns the buffers of both.
+    fn divide_bucket(
+        &mut self,
+        split_buffer: &[u8],
+        split_bucket: u64,
+        new_bucket: u64,
+    ) -> Result<(Vec<u8>, Vec<u8>), AppendError> {
         let bucket_size = self.header.bucket_size() as usize;
         let mut buffer = vec![0; bucket_size];
         let mut buffer2 = vec![0; bucket_size];
 
-        let mut _t_buf = None;
-        let mut iter = if let Ok(buffer) = self.remove_bucket(split_bucket) {
-            _t_buf = Some(buffer);
-            BucketIter::new(_t_buf.as_ref().expect("not None"))
-        } else {
-            BucketIter::new_empty()
-        };
+        let mut iter = BucketIter::new(split_buffer);
         // Make sure we only keep the first (most recent) key if we find duplicates.
         let mut rec_hashes = BTreeSet::new();
         while let Some((rec_hash, rec_pos)) = self.next_bucket_element(&mut iter) {
@@ -599,10 +618,7 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         if iter.crc_failure() {
             return Err(AppendError::CrcError);
         }
-        drop(iter);
-        self.dirty_bucket_cache.insert(split_bucket, buffer);
-        self.dirty_bucket_cache.insert(new_bucket, buffer2);
-        Ok(())
+        Ok((buffer, buffer2))
     }
 
     /// Save the (hash, position) tuple to the bucket.  Handles overflow records.
-- 
2.43.0


From 6abc51842eb0e942def526ffd9dd0b465420dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 07/13] fix: NotifyRead::notify returns the registrations
 remaining, not the count before

---
 crates/tn-utils/src/notify_read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tn-utils/src/notify_read.rs b/crates/tn-utils/src/notify_read.rs
index 39d772c..d5afe4b 100644
--- a/crates/tn-utils/src/notify_read.rs
+++ b/crates/tn-utils/src/notify_read.rs
@@ -34,7 +34,9 @@ impl<K: Eq + Hash + Clone, V: Clone> NotifyRead<K, V> {
         let Some(registrations) = registrations else {
             return self.count_pending.load(Ordering::Relaxed);
         };
-        let rem = self.count_pending.fetch_sub(registrations.len(), Ordering::Relaxed);
+        // fetch_sub returns the count before the subtraction
+        let resolved = registrations.len();
+        let rem = self.count_pending.fetch_sub(resolved, Ordering::Relaxed) - resolved;
         for registration in registrations {
             registration.send(value.clone()).ok();
         }
-- 
2.43.0


From 7d9dd4939df698f67cce73c899de9bb64633de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 08/13] fix: Notifier::notify releases its list before waking,
 a waker may use the notifier

---
 crates/types/src/notifier.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/types/src/notifier.rs b/crates/types/src/notifier.rs
index 8ed15c2..6bc98d2 100644
--- a/crates/types/src/notifier.rs
+++ b/crates/types/src/notifier.rs
@@ -52,6 +52,8 @@ impl Notifier {
             }
             guard.0 = true;
         }
+        // A waker may use this notifier.
+        drop(noticers);
         // Wake everyone up after all flags set to true to avoid races in noticiers.
         for wake in wakers {
             wake.wake();
-- 
2.43.0


From 57e210e1751ea4cd646c58f3aa2f97af78e9665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:49 +0000
Subject: [PATCH 09/13] fix: never propose a new header at or below the
 recorded round

After a restart the proposer can be placed below the round of its last
proposed header: parents recovered from the store (or a failed read of the
record) set its round to P-2, and a new, different header was then built and
sent for P-1 or P although P had been proposed before the restart. Catch up to
the record of the current epoch and re-propose it instead.
---
 crates/consensus/primary/src/proposer.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/consensus/primary/src/proposer.rs b/crates/consensus/primary/src/proposer.rs
index ed5005a..640bd6d 100644
--- a/crates/consensus/primary/src/proposer.rs
+++ b/crates/consensus/primary/src/proposer.rs
@@ -693,22 +693,28 @@ impl<DB: Database> Proposer<DB> {
         if updated_round > self.round {
             self.round = updated_round;
         }
+        // check if proposer store's last header is from this round
+        let current_epoch = self.committee.epoch();
+        let last_proposed = self
+            .proposer_store
+            .get_last_proposed()
+            .map_err(|e| ProposerError::StoreError(e.to_string()))?
+            .filter(|h| h.epoch() == current_epoch);
+        // The record can be ahead of this round: parents recovered after a restart (or a failed
+        // read in `Self::new`) can place `self.round` below it. Every round up to the record may
+        // already have been proposed, so a new header there could equivocate. Catch up to the
+        // record and re-propose it instead.
+        if let Some(last) = &last_proposed {
+            self.round = self.round.max(last.round());
+        }
         self.consensus_bus.app().primary_round_updates().send_replace(self.round);
 
         debug!(target: "primary::proposer", authority=?self.authority_id, round=self.round, "advanced round - proposing next block...");
 
         // oneshot channel to spawn a task
         let (tx, rx) = oneshot::channel();
-        let current_epoch = self.committee.epoch();
         let current_round = self.round;
-
-        // check if proposer store's last header is from this round
-        let last_proposed = self
-            .proposer_store
-            .get_last_proposed()
-            .map_err(|e| ProposerError::StoreError(e.to_string()))?;
-        let possible_header_to_repropose =
-            last_proposed.filter(|h| h.round() == current_round && h.epoch() == current_epoch);
+        let possible_header_to_repropose = last_proposed.filter(|h| h.round() == current_round);
         let proposer_store = self.proposer_store.clone();
 
         match possible_header_to_repropose {
-- 
2.43.0


From c0465a73cc7abfae39edaeefb0cef31846e01a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:49 +0000
Subject: [PATCH 10/13] fix: do not re-propose a header of a past epoch

The delayed re-proposal sent whatever record the store held. A record that
outlives its epoch (the epoch tables are not always cleared) was sent in the
next epoch and filed among its proposed headers.
---
 crates/consensus/primary/src/proposer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/consensus/primary/src/proposer.rs b/crates/consensus/primary/src/proposer.rs
index 640bd6d..85caeab 100644
--- a/crates/consensus/primary/src/proposer.rs
+++ b/crates/consensus/primary/src/proposer.rs
@@ -956,7 +956,14 @@ impl<DB: Database> Proposer<DB> {
                 max_delay_timed_out = false;
                 min_delay_timed_out = false;
             } else if should_repropose_header {
-                if let Ok(Some(last_proposed)) = self.proposer_store.get_last_proposed() {
+                // a record that outlived its epoch is not a header of this epoch
+                let last_proposed = self
+                    .proposer_store
+                    .get_last_proposed()
+                    .ok()
+                    .flatten()
+                    .filter(|h| h.epoch() == self.committee.epoch());
+                if let Some(last_proposed) = last_proposed {
                     warn!(target: "primary::proposer", interval=?self.max_delay_interval.period(), "re-proposing last header after max delay interval expired for round {}", self.round);
                     let (tx, rx) = oneshot::channel();
                     let consensus_bus = self.consensus_bus.clone();
-- 
2.43.0


From b13e945e680c5c19dfa163f4d47a8036a8f7ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 11/13] fix: a failed write of accepted certificates ends the
 certificate manager

The certificates were already taken out of pending and their dependents no
longer wait for them, and the write may have taken effect in part. Going on
could hand a dependent to consensus whose parents were never handed on.
---
 crates/consensus/primary/src/error/cert_manager.rs |  5 +++++
 crates/consensus/primary/src/error/network.rs      |  1 +
 .../primary/src/state_sync/cert_manager.rs         | 14 ++++++++++++--
 crates/network-libp2p/src/peers/penalty.md         |  2 +-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/consensus/primary/src/error/cert_manager.rs b/crates/consensus/primary/src/error/cert_manager.rs
index ec123d6..b4afd4d 100644
--- a/crates/consensus/primary/src/error/cert_manager.rs
+++ b/crates/consensus/primary/src/error/cert_manager.rs
@@ -27,6 +27,11 @@ pub(crate) enum CertManagerError {
     /// The pending certificate is unexpectedly missing. This should not happen.
     #[error("Pending certificate not found by digest: {0}")]
     PendingCertificateNotFound(HeaderDigest),
+    /// The certificate was verified and accepted (its dependents no longer wait for it), but
+    /// writing it to storage failed. Processing anything further could accept a certificate
+    /// without its parents, so this is fatal.
+    #[error("Fatal error: failed to store accepted certs.")]
+    FatalStoreAcceptedCertificates,
     /// The certificate was verified, accepted, and stored in storage.
     /// However, an error occurred adding it to the collection of parents.
     /// This is the only way to advance the round and is fatal.
diff --git a/crates/consensus/primary/src/error/network.rs b/crates/consensus/primary/src/error/network.rs
index eb5a023..294730b 100644
--- a/crates/consensus/primary/src/error/network.rs
+++ b/crates/consensus/primary/src/error/network.rs
@@ -171,6 +171,7 @@ impl From<&PrimaryNetworkError> for Option<Penalty> {
                 | CertManagerError::PendingParentsMismatch(_)
                 | CertManagerError::CertificateManagerOneshot
                 | CertManagerError::FatalForwardAcceptedCertificate
+                | CertManagerError::FatalStoreAcceptedCertificates
                 | CertManagerError::NoCertificateFetched
                 | CertManagerError::FatalAppendParent
                 | CertManagerError::GC(_)
diff --git a/crates/consensus/primary/src/state_sync/cert_manager.rs b/crates/consensus/primary/src/state_sync/cert_manager.rs
index c1dd33d..17db982 100644
--- a/crates/consensus/primary/src/state_sync/cert_manager.rs
+++ b/crates/consensus/primary/src/state_sync/cert_manager.rs
@@ -193,7 +193,16 @@ where
         debug!(target: "primary::cert_manager", ?certificates, "accepting {:?} certificates", certificates.len());
 
         // write certificates to storage
-        self.config.node_storage().write_all(certificates.iter())?;
+        //
+        // NOTE: a failed write is fatal - these certificates were already removed from pending and
+        // their dependents no longer wait for them
+        self.config
+            .node_storage()
+            .write_all(certificates.iter())
+            .inspect_err(|e| {
+                error!(target: "primary::cert_manager", ?e, "failed to store accepted certs");
+            })
+            .map_err(|_| CertManagerError::FatalStoreAcceptedCertificates)?;
 
         for cert in certificates.into_iter() {
             // NOTE: these next two steps are considered critical
@@ -283,7 +292,8 @@ where
 
                             match result{
                                 // return fatal errors immediately to force shutdown
-                                Err(CertManagerError::FatalAppendParent)
+                                Err(CertManagerError::FatalStoreAcceptedCertificates)
+                                | Err(CertManagerError::FatalAppendParent)
                                 | Err(CertManagerError::FatalForwardAcceptedCertificate) => {
                                     error!(target: "primary::cert_manager", ?result, "fatal error. shutting down...");
                                     return result;
diff --git a/crates/network-libp2p/src/peers/penalty.md b/crates/network-libp2p/src/peers/penalty.md
index 0d1e72d..39498ba 100644
--- a/crates/network-libp2p/src/peers/penalty.md
+++ b/crates/network-libp2p/src/peers/penalty.md
@@ -161,7 +161,7 @@ Source: `crates/consensus/primary/src/error/network.rs:70-132`.
 | `Certificate(CertManagerError::Certificate(CertificateError::TooNew(..)))`                                                                                                                                                                                                                                                               | None                                     | `crates/consensus/primary/src/error/network.rs:92-94`   |
 | `Certificate(CertManagerError::Certificate(CertificateError::Storage(_)))`                                                                                                                                                                                                                                                               | None                                     | `crates/consensus/primary/src/error/network.rs:92-94`   |
 | `Certificate(CertManagerError::UnverifiedSignature(_))`                                                                                                                                                                                                                                                                                  | `Fatal`                                  | `crates/consensus/primary/src/error/network.rs:97`      |
-| `Certificate(CertManagerError::*)` operational variants (`PendingCertificateNotFound`, `PendingParentsMismatch`, `CertificateManagerOneshot`, `FatalForwardAcceptedCertificate`, `NoCertificateFetched`, `FatalAppendParent`, `GC`, `JoinError`, `Pending`, `Storage`, `RequestBounds`, `Timeout`, `Network`, `ChannelClosed`, `TNSend`) | None                                     | `crates/consensus/primary/src/error/network.rs:99-113`  |
+| `Certificate(CertManagerError::*)` operational variants (`PendingCertificateNotFound`, `PendingParentsMismatch`, `CertificateManagerOneshot`, `FatalForwardAcceptedCertificate`, `NoCertificateFetched`, `FatalAppendParent`, `FatalStoreAcceptedCertificates`, `GC`, `JoinError`, `Pending`, `Storage`, `RequestBounds`, `Timeout`, `Network`, `ChannelClosed`, `TNSend`) | None                                     | `crates/consensus/primary/src/error/network.rs:99-113`  |
 | `InvalidRequest(_)`                                                                                                                                                                                                                                                                                                                      | `Mild`                                   | `crates/consensus/primary/src/error/network.rs:115-118` |
 | `UnknownConsensusHeaderDigest(_)`                                                                                                                                                                                                                                                                                                        | `None`                                   | `crates/consensus/primary/src/error/network.rs:115-117` |
 | `UnknownStreamRequest(_)`                                                                                                                                                                                                                                                                                                                | `Mild`                                   | `crates/consensus/primary/src/error/network.rs:115-118` |
-- 
2.43.0


From a65a220930ee7f3e3d81ed13ff2615385ef3822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:57 +0000
Subject: [PATCH 12/13] fix: read the final numbers of epoch records through
 the index when opening

The records file can hold a record that no index entry names (an append whose
index write failed or was cut off by a crash). Reading the file front to back
counted it as an epoch of its own, shifting the number-to-epoch table, and a
torn record at the end of the file kept the database from opening.
---
 crates/storage/src/epoch_records.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index b3d3eb9..4b5fac4 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -385,10 +385,13 @@ impl EpochRecordDb {
         let (tx, rx) = mpsc::channel(1000);
         let path: PathBuf = path.into();
         let (error, _) = watch::channel(None);
-        let inner = Inner::open_append(path, 0)?;
+        let mut inner = Inner::open_append(path, 0)?;
+        // Read the records through the index, one per epoch. The records file can hold a record
+        // that no index entry names: an append whose index write failed or was cut off by a crash.
         let mut final_numbers = Vec::with_capacity(inner.epoch_idx.len());
-        for epoch in inner.records.raw_iter().map_err(|_e| EpochDbError::CorruptDb)? {
-            final_numbers.push(epoch?.final_consensus.number);
+        for idx in 0..inner.epoch_idx.len() as u64 {
+            let pos = inner.epoch_idx.load(idx)?;
+            final_numbers.push(inner.records.fetch(pos)?.final_consensus.number);
         }
         let tx_error = error.clone();
         let handle = std::thread::spawn(move || run_db_loop(inner, rx, tx_error));
-- 
2.43.0


From 73a6e602201acb9ea6b97dd2984fe6f71f7b9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:57 +0000
Subject: [PATCH 13/13] fix: index the digests of epoch records kept by a first
 persist that was cut off

heal_records keeps records the position index names; when the first persist was
cut off before it wrote the digest index, those records were found by epoch but
never by digest.
---
 crates/storage/src/epoch_records.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index 4b5fac4..b08a505 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1152,6 +1152,27 @@ impl Inner {
         Ok(())
     }
 
+    /// Index the digests of the records that [`Self::heal_records`] kept and the digest index does
+    /// not cover: the first persist was cut off before it wrote that index.
+    fn heal_record_digests(
+        records: &mut Pack<EpochRecord>,
+        epoch_idx: &mut PositionIndex<u64>,
+        record_digests: &mut HdxIndex,
+    ) -> Result<(), EpochDbError> {
+        let digest_final = record_digests.data_file_length();
+        for idx in 0..epoch_idx.len() as u64 {
+            let pos = epoch_idx.load(idx)?;
+            if pos >= digest_final {
+                let digest = records.fetch(pos)?.digest();
+                record_digests
+                    .save(digest.into(), pos)
+                    .map_err(|e| EpochDbError::IndexAppend(format!("record digest: {e}")))?;
+            }
+        }
+        record_digests.set_data_file_length(records.file_len());
+        Ok(())
+    }
+
     /// Truncate the certs file back to a consistent state.
     fn heal_certs(
         certs: &mut Pack<EpochCertificate>,
@@ -1216,6 +1237,7 @@ impl Inner {
         }
 
         Self::heal_records(&mut records, &mut epoch_idx, &record_digests)?;
+        Self::heal_record_digests(&mut records, &mut epoch_idx, &mut record_digests)?;
         Self::heal_certs(&mut certs, &cert_digests)?;
 
         // Derive start_epoch from the first stored record if present.
-- 
2.43.0

