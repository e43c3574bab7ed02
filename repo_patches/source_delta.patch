From 12b13350cde29f42415d07200722d221c31346e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 1/3] fix: refuse a digest text that stands for fewer bytes
 than the digest

---
 crates/types/src/crypto/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/crypto/mod.rs b/crates/types/src/crypto/mod.rs
index 66db286..40c50a7 100644
--- a/crates/types/src/crypto/mod.rs
+++ b/crates/types/src/crypto/mod.rs
@@ -85,10 +85,11 @@ impl<'de, const DIGEST_LEN: usize> Deserialize<'de> for Digest<DIGEST_LEN> {
                 E: Error,
             {
                 let mut bytes = [0_u8; DIGEST_LEN];
-                bs58::decode(v)
+                let len = bs58::decode(v)
                     .onto(&mut bytes)
                     .map_err(|_| Error::invalid_value(Unexpected::Str(v), &self))?;
-                self.visit_bytes(&bytes)
+                // a shorter text must not pass as a digest padded with zeros
+                self.visit_bytes(&bytes[..len])
             }
         }
 
-- 
2.43.0


From 8fad6ee4cd6f5a1b29928400c7ac6f4da6b3d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 2/3] fix: check the signature's subgroup in
 verify_secure_bytes

---
 crates/types/src/crypto/bls_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/types/src/crypto/bls_signature.rs b/crates/types/src/crypto/bls_signature.rs
index 1d355d8..20e318a 100644
--- a/crates/types/src/crypto/bls_signature.rs
+++ b/crates/types/src/crypto/bls_signature.rs
@@ -256,7 +256,7 @@ impl ProtocolSignature for BlsSignature {
     }
 
     fn verify_secure_bytes(&self, value: &[u8], public_key: &BlsPublicKey) -> bool {
-        self.verify(false, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
+        self.verify(true, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
     }
 }
 
-- 
2.43.0


From c1e25f37b67265fb25361b975f204df0fd668478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:01 +0000
Subject: [PATCH 3/3] fix: keep cached rows in memory that no commit wrote

---
 crates/storage/src/layered_db.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/storage/src/layered_db.rs b/crates/storage/src/layered_db.rs
index 9f952b5..d182bcc 100644
--- a/crates/storage/src/layered_db.rs
+++ b/crates/storage/src/layered_db.rs
@@ -156,10 +156,13 @@ pub struct LayeredDbStats {
 /// Returns `Some(result)` with the physical commit outcome when this call ended the last logical
 /// txn (a commit was attempted), or `None` when it only decremented the overlap count or there was
 /// no open txn (no commit attempted). The cache-mode mirror is cleared only on a successful commit:
-/// on a failed commit the values are not on disk, so the mem layer must keep serving them.
+/// on a failed commit the values are not on disk, so the mem layer must keep serving them. They stay
+/// retained, but are counted in `failed_inserts` (a prefix of `committed_inserts`) so that a later
+/// successful commit, which does not write them, does not clear them either.
 fn end_txn<'a, DB: Database>(
     txn: &mut Option<(DB::TXMut<'a>, u32)>,
     committed_inserts: &mut Vec<Box<dyn InsertTrait<DB>>>,
+    failed_inserts: &mut usize,
     mem_db: Option<&MemDatabase>,
 ) -> Option<eyre::Result<()>> {
     let (current_txn, count) = txn.take()?;
@@ -170,8 +173,12 @@ fn end_txn<'a, DB: Database>(
         }
         if committed.is_ok() {
             if let Some(mem_db) = mem_db {
-                committed_inserts.drain(..).for_each(|insert| insert.clear_insert_mem(mem_db));
+                committed_inserts
+                    .drain(*failed_inserts..)
+                    .for_each(|insert| insert.clear_insert_mem(mem_db));
             }
+        } else {
+            *failed_inserts = committed_inserts.len();
         }
         Some(committed)
     } else {
@@ -210,6 +217,8 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
     let mut txn = None;
     let mut last_compact = Instant::now();
     let mut committed_inserts: Vec<Box<dyn InsertTrait<DB>>> = Vec::with_capacity(1000);
+    // How many of `committed_inserts` belong to txns whose commit failed.
+    let mut failed_inserts = 0;
     // Durability-barrier acks deferred because a write txn was open when they arrived. A bare
     // `Insert` enqueued while a txn is open rides that txn (see the `Insert` arm below), so its
     // durability is only settled once the txn commits; these are drained the moment `txn` returns
@@ -233,7 +242,8 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
                 }
             }
             DBMessage::CommitTxn => {
-                let outcome = end_txn(&mut txn, &mut committed_inserts, mem_db.as_ref());
+                let outcome =
+                    end_txn(&mut txn, &mut committed_inserts, &mut failed_inserts, mem_db.as_ref());
                 if matches!(outcome, Some(Err(_))) {
                     commit_failed = true;
                 }
@@ -246,7 +256,8 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
                     target: "layered_db_runner",
                     "write txn dropped without commit; committing it to keep persistence alive"
                 );
-                let outcome = end_txn(&mut txn, &mut committed_inserts, mem_db.as_ref());
+                let outcome =
+                    end_txn(&mut txn, &mut committed_inserts, &mut failed_inserts, mem_db.as_ref());
                 if matches!(outcome, Some(Err(_))) {
                     commit_failed = true;
                 }
@@ -258,14 +269,16 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
                 if let Some((txn, _)) = &mut txn {
                     // A failed staged write is dropped from the physical txn while the value stays
                     // in the authoritative mem layer, so it is a durability gap: latch it (#975).
-                    if let Err(e) = ins.insert_txn(txn) {
+                    let staged = ins.insert_txn(txn);
+                    if let Err(e) = &staged {
                         tracing::error!(target: "layered_db_runner", "DB TXN Insert {}: {e}", ins.name());
                         commit_failed = true;
                     }
                     // The retained insert exists only to clear the cache-mode mirror once the
                     // txn commits. A full-memory DB (mem_db == None) keeps everything in memory
                     // forever, so retaining here would leak a clone of every value ever written.
-                    if mem_db.is_some() {
+                    // A value that was not staged will not be on disk, so its mirror has to stay.
+                    if mem_db.is_some() && staged.is_ok() {
                         committed_inserts.push(ins);
                     }
                 } else {
-- 
2.43.0

