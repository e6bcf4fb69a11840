From b84507d5d39d399db5c189a7504114c31ee256f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:19 +0000
Subject: [PATCH 01/37] fix: remove a space only after DROP SPACE ALLOW NOT
 EMPTY is committed

The space was taken out of the namespace before the journal commit. When the
commit failed the statement returned an error, but the space was gone from memory
while its models were still indexed and the journal still had both.
---
 server/src/engine/core/space.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index 30c3174..c25d3d7 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -245,7 +245,7 @@ impl Space {
                 .state()
                 .namespace()
                 .ddl_with_all_mut(|spaces, models| {
-                    let Some(space) = spaces.remove(space_name.as_str()) else {
+                    let Some(space) = spaces.get(space_name.as_str()) else {
                         if if_exists {
                             return Ok(Some(false));
                         } else {
@@ -255,13 +255,15 @@ impl Space {
                     // commit drop
                     // prepare txn
                     let txn =
-                        txn::gns::space::DropSpaceTxn::new(SpaceIDRef::new(&space_name, &space));
+                        txn::gns::space::DropSpaceTxn::new(SpaceIDRef::new(&space_name, space));
                     // commit txn
                     global.state().gns_driver().driver_context(
                         global,
                         |drv| drv.commit_event(txn),
                         || {},
                     )?;
+                    // the txn has been committed, so it is now safe to remove the space
+                    let space = spaces.remove(space_name.as_str()).unwrap();
                     // request cleanup
                     global.taskmgr_post_standard_priority(Task::new(
                         GenericTask::delete_space_dir(&space_name, space.get_uuid()),
@@ -279,7 +281,6 @@ impl Space {
                             global.health().report_removal_of_faulty_source();
                         }
                     }
-                    let _ = spaces.st_delete(space_name.as_str());
                     if if_exists {
                         Ok(Some(true))
                     } else {
-- 
2.43.0


From fbff33c260cc9685d68dc708e0ff5c5c7fa6beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 02/37] fix: check the status of a storage driver only once it
 is locked

---
 server/src/engine/fractal/drivers.rs | 4 +++-
 server/src/engine/fractal/mgr.rs     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/fractal/drivers.rs b/server/src/engine/fractal/drivers.rs
index 560d5c8..c723f99 100644
--- a/server/src/engine/fractal/drivers.rs
+++ b/server/src/engine/fractal/drivers.rs
@@ -60,10 +60,12 @@ impl FractalGNSDriver {
         f: impl Fn(&mut GNSDriver) -> RuntimeResult<T>,
         on_failure: impl Fn(),
     ) -> QueryResult<T> {
+        let mut txn_driver = self.txn_driver.lock();
+        // NB: the status must only be checked once the driver is locked. a different thread might have run into a fault while
+        // we were waiting
         if self.status.is_iffy() {
             return Err(QueryError::SysServerError);
         }
-        let mut txn_driver = self.txn_driver.lock();
         match f(&mut txn_driver) {
             Ok(v) => Ok(v),
             Err(e) => compiler::cold_call(|| {
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 71fb33c..0182d4b 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -525,6 +525,9 @@ impl FractalMgr {
         observed_size: usize,
         mdl_driver_: &super::drivers::FractalModelDriver,
     ) -> Result<(), (super::error::Error, BatchStats)> {
+        // NB: the status must only be checked once the driver is locked. a different thread might have run into a fault while
+        // we were waiting
+        let mut mdl_driver = mdl_driver_.batch_driver().lock();
         if mdl_driver_.status().is_iffy() {
             // don't mess this up any further
             return Err((
@@ -540,7 +543,6 @@ impl FractalMgr {
         }
         // try flushing the batch
         let batch_stats = BatchStats::new();
-        let mut mdl_driver = mdl_driver_.batch_driver().lock();
         let batch_driver = mdl_driver.as_mut().unwrap();
         batch_driver
             .commit_with_ctx(
-- 
2.43.0


From ea79073db0177e7acc1f7a2b6ab6d3a8172767b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 03/37] fix: pair every driver fault with one report of its
 recovery or removal

---
 server/src/engine/core/model/mod.rs | 4 ++++
 server/src/engine/fractal/mgr.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 3d24e4d..8ad7ca6 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -398,6 +398,10 @@ impl ModelData {
                     model_name,
                     model.data().get_uuid(),
                 );
+                if model.driver().status().is_iffy() {
+                    // this driver had a fault but it's being purged anyway so update global status
+                    global.health().report_removal_of_faulty_source();
+                }
                 // update global state
                 let _ = models_idx.remove(&EntityIDRef::new(&space_name, &model_name));
                 let _ = space.models_mut().remove(model_name);
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 0182d4b..55cc5b3 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -390,6 +390,7 @@ impl FractalMgr {
                     mdl.data(),
                     observed_size,
                     mdl.driver(),
+                    global.health(),
                 ) {
                     Ok(()) => {
                         if observed_size != 0 {
@@ -481,6 +482,7 @@ impl FractalMgr {
                 model.data(),
                 observed_len,
                 model.driver(),
+                global.health(),
             ) {
                 Ok(()) => {
                     if observed_len != 0 {
@@ -524,6 +526,7 @@ impl FractalMgr {
         model: &ModelData,
         observed_size: usize,
         mdl_driver_: &super::drivers::FractalModelDriver,
+        health: &super::GlobalHealth,
     ) -> Result<(), (super::error::Error, BatchStats)> {
         // NB: the status must only be checked once the driver is locked. a different thread might have run into a fault while
         // we were waiting
@@ -551,6 +554,7 @@ impl FractalMgr {
             )
             .map_err(|e| {
                 mdl_driver_.status().set_iffy();
+                health.report_fault();
                 self.hp_dispatcher
                     .send(Task::new(CriticalTask::TryModelAutorecoverLWT(
                         mdl_id.into(),
-- 
2.43.0


From 2bce11cc961fd5d3973025c590ad9fb96f97374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 04/37] fix: continue a partial file write from where it
 stopped

---
 server/src/engine/storage/common/interface/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common/interface/fs.rs b/server/src/engine/storage/common/interface/fs.rs
index 5855182..629191c 100644
--- a/server/src/engine/storage/common/interface/fs.rs
+++ b/server/src/engine/storage/common/interface/fs.rs
@@ -156,7 +156,7 @@ pub trait FileWrite {
         let len = buf.len() as u64;
         let mut written = 0;
         while written != len {
-            match self.fwrite(buf) {
+            match self.fwrite(&buf[written as usize..]) {
                 Ok(0) => {
                     return (
                         written,
-- 
2.43.0


From f206707e08039f802197d893585e9caa000d359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 05/37] fix: resume the log from its last event after a failed
 commit is rolled back

A commit that failed before anything reached the file left the event id and
the running checksum advanced, so everything committed after the heartbeat
made the log unreadable.
---
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 8 ++++++++
 server/src/engine/storage/v2/raw/journal/raw/mod.rs       | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 11e4410..0120aec 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -411,6 +411,14 @@ impl<
     pub fn current_checksum(&self) -> u64 {
         self.t_checksum.clone().finish()
     }
+    pub fn checksum(&self) -> SCrc64 {
+        self.t_checksum.clone()
+    }
+    /// Set the checksum to the given state, and forget the partial state
+    pub fn __reset_checksum(&mut self, checksum: SCrc64) {
+        self.t_checksum = checksum;
+        self.t_partial_checksum = SCrc64::new();
+    }
 }
 
 impl<
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 6a53516..ef438c3 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -475,6 +475,7 @@ pub struct RawJournalWriter<J: RawJournalAdapter> {
     txn_id: u64,
     known_txn_id: u64,
     known_txn_offset: u64, // if offset is 0, txn id is unset
+    known_txn_checksum: SCrc64,
 }
 
 impl<J: RawJournalAdapter + fmt::Debug> fmt::Debug for RawJournalWriter<J>
@@ -501,6 +502,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
             log_file: TrackedWriter::with_cursor_and_checksum(file, j_.cursor(), j_.checksum()),
             known_txn_id: j_.last_txn_id(),
             known_txn_offset: j_.last_offset(),
+            known_txn_checksum: j_.checksum(),
             txn_id: j_.txn_id(),
             j: J::initialize(&j_),
         };
@@ -573,6 +575,10 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         if self.log_file.cursor() == self.known_txn_offset {
             // great, so if there was something in the buffer, simply ignore it
             self.log_file.__zero_buffer();
+            // and resume from the last event that is actually in the log
+            self.log_file
+                .__reset_checksum(self.known_txn_checksum.clone());
+            self.txn_id = self.known_txn_id + 1;
             Ok(())
         } else {
             // so, the on-disk file probably has some partial state. this is bad. throw an error
@@ -592,6 +598,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         if ret.is_ok() {
             self.known_txn_id = id;
             self.known_txn_offset = self.log_file.cursor();
+            self.known_txn_checksum = self.log_file.checksum();
         }
         ret
     }
-- 
2.43.0


From ad1a15d407ca43264ca893805b2f9af6c6bcdd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:42 +0000
Subject: [PATCH 06/37] fix: fail an update that divides by zero instead of
 panicking

---
 server/src/engine/core/dml/upd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index d8af4f8..bd01d65 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -79,6 +79,9 @@ unsafe fn dc_op_uint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
 }
 unsafe fn dc_op_uint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let kind = UIntSpec::from_full(dc.tag());
+    if rhs.uint() == 0 {
+        return dc_op_fail(dc, rhs);
+    }
     let (uint, did_of) = dc.uint().overflowing_div(rhs.uint());
     (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
 }
@@ -105,6 +108,9 @@ unsafe fn dc_op_sint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
 }
 unsafe fn dc_op_sint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     let kind = SIntSpec::from_full(dc.tag());
+    if rhs.sint() == 0 {
+        return dc_op_fail(dc, rhs);
+    }
     let (sint, did_of) = dc.sint().overflowing_div(rhs.sint());
     (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
 }
-- 
2.43.0


From 279a446e682c3609cad7d73bba0173c0e3eeb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 07/37] fix: roll back an update when one of its expressions
 fails

An operation that left the range of the field was applied and acknowledged;
an assignment to a null field and an element added to a list were not checked
against the declared type; an added element survived the rollback; adding to a
null list read the cell as a list.
---
 server/src/engine/core/dml/upd.rs   | 43 +++++++++++++++++++++++------
 server/src/engine/core/model/mod.rs |  4 +++
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index bd01d65..3facf7b 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -319,27 +319,42 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
                 (tag_a, tag_b)
                     if (tag_a == tag_b) & (tag_a < TagClass::List) & field_data.is_init() =>
                 {
-                    let (okay, new) = unsafe { OPERATOR[opc(tag_a, operator_fn)](field_data, rhs) };
-                    rollback_now &= !okay;
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, new)));
+                    let (okay, mut new) =
+                        unsafe { OPERATOR[opc(tag_a, operator_fn)](field_data, rhs) };
                     input_trace("sametag;nonnull");
+                    if !(okay && field_definition.vt_data_fpath(&mut new)) {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
+                    rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
                 }
                 (tag_a, tag_b)
                     if (tag_a == tag_b)
                         & field_data.is_null()
                         & (operator_fn == AssignmentOperator::Assign) =>
                 {
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, rhs.into())));
+                    let mut new = rhs.into();
                     input_trace("sametag;orignull");
+                    if !field_definition.vt_data_fpath(&mut new) {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
+                    rollback_data.push((lhs.as_str(), Some(mem::replace(field_data, new))));
                 }
-                (TagClass::List, tag_b) if operator_fn == AssignmentOperator::AddAssign => {
-                    if field_definition.layers()[1].tag().tag_class() == tag_b {
+                (TagClass::List, _)
+                    if (operator_fn == AssignmentOperator::AddAssign) & field_data.is_init() =>
+                {
+                    let mut new = rhs.into();
+                    if field_definition.vt_list_element(&mut new) {
                         unsafe {
                             // UNSAFE(@ohsayan): matched tags
                             let mut list = field_data.read_list().write();
                             if list.try_reserve(1).is_ok() {
                                 input_trace("list;sametag");
-                                list.push(rhs.into());
+                                list.push(new);
+                                rollback_data.push((lhs.as_str(), None));
                             } else {
                                 rollback_now = true;
                                 ret = Err(QueryError::SysOutOfMemory);
@@ -363,10 +378,20 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         }
         if compiler::unlikely(rollback_now) {
             input_trace("rollback");
+            // undo the changes, most recent first
             rollback_data
                 .into_iter()
-                .for_each(|(field_id, restored_data)| {
-                    row_data_wl.fields_mut().st_update(field_id, restored_data);
+                .rev()
+                .for_each(|(field_id, restored_data)| match restored_data {
+                    Some(restored_data) => {
+                        row_data_wl.fields_mut().st_update(field_id, restored_data);
+                    }
+                    None => {
+                        // an element was added to this list
+                        if let Some(list) = row_data_wl.fields_mut().st_get_mut(field_id) {
+                            list.list().write().pop();
+                        }
+                    }
                 });
         } else {
             // update revised tag
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 8ad7ca6..b510877 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -608,6 +608,10 @@ impl Field {
             Self::rvt_data(self.layers(), data)
         }
     }
+    /// Validate an element that is to be added to a list (the field **must** be a list)
+    pub fn vt_list_element(&self, data: &mut Datacell) -> bool {
+        Self::rvt_data(&self.layers()[1..], data)
+    }
     fn rvt_data(layers: &[Layer], data: &mut Datacell) -> bool {
         let layer = layers[0];
         let layers = &layers[1..];
-- 
2.43.0


From 1d6e4aeb6a911202c286d3a1b135831c675ce1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 08/37] fix: number a schema delta with the version it produces

Rows never saw the first schema change made after they were written: the
resolver starts one past the version of the row.
---
 server/src/engine/core/model/delta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 84e2aaa..8eec26a 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -131,9 +131,9 @@ impl DeltaState {
 
 impl DeltaState {
     fn __schema_delta_step(&mut self) -> DeltaVersion {
-        let current = self.schema_current_version;
+        // a delta carries the version that it produces
         self.schema_current_version += 1;
-        DeltaVersion(current)
+        DeltaVersion(self.schema_current_version)
     }
     fn __schema_append_unresolved_delta(&mut self, part: SchemaDeltaPart) -> DeltaVersion {
         let v = self.__schema_delta_step();
-- 
2.43.0


From 4dd8a8b089b4653c429b76e0ffeb20d79ae865cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 09/37] fix: bring a row up to the current schema before
 updating it

---
 server/src/engine/core/dml/upd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index 3facf7b..e82e178 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -273,10 +273,12 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         let Some(row) = mdl.primary_index().select(key, &g) else {
             return Err(QueryError::QExecDmlRowNotFound);
         };
+        let ds = mdl.delta_state();
+        // bring the row up to the current schema
+        drop(row.resolve_schema_deltas_and_freeze(ds));
         // lock row
         let mut row_data_wl = row.d_data().write();
         // create new version
-        let ds = mdl.delta_state();
         let new_version = ds.create_new_data_delta_version();
         // process changes
         let mut rollback_now = false;
-- 
2.43.0


From 5a1694f17703011f0dd3c612a75dc555d9db7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 10/37] fix: never move the data version of a model backwards
 on restore

A later batch may carry only older (or no) versions; reissuing a version that
is already on disk makes the log fail to load.
---
 server/src/engine/core/model/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 8eec26a..c006e4c 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -64,7 +64,7 @@ impl DeltaState {
     }
     pub fn __set_delta_version(&self, version: DeltaVersion) {
         self.data_current_version
-            .store(version.value_u64(), Ordering::Relaxed)
+            .fetch_max(version.value_u64(), Ordering::Relaxed);
     }
 }
 
-- 
2.43.0


From 69d91716126480cde2cfc7471391f6a8326a5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 11/37] fix: verify the checksum of a batch before applying it

---
 .../src/engine/storage/v2/raw/journal/mod.rs  | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 230849d..cc37626 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -295,20 +295,17 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
             }
             // read actual commit size
             let _stored_actual_commit_size = u64::from_le_bytes(f.read_block()?);
-            if _stored_actual_commit_size == real_commit_size {
-                // finish applying batch
-                BA::finish(batch_state, batch_md, gs)?;
-            } else {
+            if _stored_actual_commit_size != real_commit_size {
                 return Err(StorageError::RawJournalCorrupted.into());
             }
-        }
-        // and finally, verify checksum
-        let (real_checksum, file) = f.finish();
-        let stored_checksum = u64::from_le_bytes(file.read_block()?);
-        if real_checksum == stored_checksum {
-            Ok(())
-        } else {
-            Err(StorageError::RawJournalCorrupted.into())
+            // verify checksum
+            let (real_checksum, file) = f.finish();
+            let stored_checksum = u64::from_le_bytes(file.read_block()?);
+            if real_checksum != stored_checksum {
+                return Err(StorageError::RawJournalCorrupted.into());
+            }
+            // and finally, finish applying batch
+            BA::finish(batch_state, batch_md, gs)
         }
     }
 }
-- 
2.43.0


From 1a2d893bec8836cc0ae6c689a00988b2b4b53a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 12/37] fix: lock the space index before the model index in
 ALTER MODEL

Every other path takes them in this order; DROP SPACE racing with ALTER MODEL
could deadlock the server.
---
 server/src/engine/core/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/mod.rs b/server/src/engine/core/mod.rs
index 40bc540..7b3c31d 100644
--- a/server/src/engine/core/mod.rs
+++ b/server/src/engine/core/mod.rs
@@ -132,11 +132,12 @@ impl GNSData {
     where
         F: FnOnce(&Space, &mut ModelData) -> QueryResult<T>,
     {
+        // NB: the space index is always locked before the model index
+        let space_read = self.idx.read();
         let mut mdl_idx = self.idx_mdl.write();
         let Some(model) = mdl_idx.get_mut(&entity) else {
             return Err(QueryError::QExecObjectNotFound);
         };
-        let space_read = self.idx.read();
         let space = space_read.get(entity.space()).unwrap();
         f(space, model.data_mut())
     }
-- 
2.43.0


From 9c1fc2ec399b245cbdbb7bb5cddcda4d987b3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 13/37] fix: report the first problem of a handshake that has
 several

The codes were or-ed into an index that could fall outside the table.
---
 server/src/engine/net/protocol/handshake.rs | 31 ++++++++++-----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 29a798d..82d3df6 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -297,23 +297,20 @@ impl<'a> CHandshake<'a> {
                 | invalid_query_mode
                 | invalid_auth_mode,
         ) {
-            static ERROR: [ProtocolError; 6] = [
-                ProtocolError::CorruptedHSPacket,
-                ProtocolError::RejectHSVersion,
-                ProtocolError::RejectProtocol,
-                ProtocolError::RejectExchangeMode,
-                ProtocolError::RejectQueryMode,
-                ProtocolError::RejectAuth,
-            ];
-            return HandshakeResult::Error(
-                ERROR[((invalid_first_byte as u8 * 1)
-                    | (invalid_hs_version as u8 * 2)
-                    | (invalid_proto_version as u8 * 3)
-                    | (invalid_exchange_mode as u8 * 4)
-                    | (invalid_query_mode as u8 * 5)
-                    | (invalid_auth_mode as u8) * 6) as usize
-                    - 1usize],
-            );
+            // report the first problem
+            return HandshakeResult::Error(if invalid_first_byte {
+                ProtocolError::CorruptedHSPacket
+            } else if invalid_hs_version {
+                ProtocolError::RejectHSVersion
+            } else if invalid_proto_version {
+                ProtocolError::RejectProtocol
+            } else if invalid_exchange_mode {
+                ProtocolError::RejectExchangeMode
+            } else if invalid_query_mode {
+                ProtocolError::RejectQueryMode
+            } else {
+                ProtocolError::RejectAuth
+            });
         }
         // init header
         let static_header = CHandshakeStatic::new(
-- 
2.43.0


From 78cbf55d1bdbdf138d47a5e432252ac00706ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 14/37] fix: reject a handshake whose credential lengths
 overflow

The sum wrapped, so the bound check passed and the credentials were read from
beyond the buffer.
---
 server/src/engine/net/protocol/handshake.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 82d3df6..44321a7 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -332,7 +332,10 @@ impl<'a> CHandshake<'a> {
         uname_l: usize,
         pwd_l: usize,
     ) -> HandshakeResult<'a> {
-        if scanner.has_left(uname_l + pwd_l) {
+        let Some(auth_l) = uname_l.checked_add(pwd_l) else {
+            return HandshakeResult::Error(ProtocolError::CorruptedHSPacket);
+        };
+        if scanner.has_left(auth_l) {
             // we're done here
             return unsafe {
                 // UNSAFE(@ohsayan): we just checked buffered size
@@ -347,7 +350,7 @@ impl<'a> CHandshake<'a> {
                 uname_l,
                 pwd_l,
             },
-            expect: (uname_l + pwd_l),
+            expect: auth_l,
         }
     }
 }
@@ -399,7 +402,7 @@ impl<'a> CHandshake<'a> {
                 // newline missing (or maybe there's more?)
                 return HandshakeResult::ChangeState {
                     new_state: HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l },
-                    expect: uname_l + 2, // space for username + password len
+                    expect: uname_l.saturating_add(2), // space for username + password len
                 };
             }
             ScannerDecodeResult::Error => {
-- 
2.43.0


From afbe55814a5f51ea8c558cb3146b3c09f2b990e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 15/37] fix: reject a query packet whose lengths contradict
 each other

The packet size could overflow the cursor, be smaller than the metadata that
follows it, or be smaller than the query window; each one panicked.
---
 server/src/engine/net/protocol/exchange.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 7522b97..58f5774 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -199,7 +199,10 @@ impl QExchangeState {
             Err(()) => return QExchangeResult::Error,
         };
         self.md_packet_size = packet_size;
-        self.target = scanner.cursor() + packet_size as usize;
+        self.target = match scanner.cursor().checked_add(packet_size as usize) {
+            Some(target) => target,
+            None => return QExchangeResult::Error,
+        };
         // hand over control to md2
         self.resume_at_md2(scanner)
     }
@@ -218,7 +221,14 @@ impl QExchangeState {
         self.resume_data(scanner)
     }
     fn resume_data<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        let df_size = self.target - scanner.cursor();
+        let Some(df_size) = self.target.checked_sub(scanner.cursor()) else {
+            // the packet is smaller than its own metadata
+            return QExchangeResult::Error;
+        };
+        if self.md_q_window > df_size as u64 {
+            // the query cannot be larger than the packet
+            return QExchangeResult::Error;
+        }
         if scanner.remaining() == df_size {
             unsafe {
                 QExchangeResult::SQCompleted(SQuery::new(
-- 
2.43.0


From 7790435f542ce0eb18b39faae20b82eaa0e515ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 16/37] fix: let root alter every account except its own

---
 server/src/engine/core/dcl.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/server/src/engine/core/dcl.rs b/server/src/engine/core/dcl.rs
index bac0c3e..358a5a3 100644
--- a/server/src/engine/core/dcl.rs
+++ b/server/src/engine/core/dcl.rs
@@ -25,6 +25,7 @@
 */
 
 use crate::engine::{
+    core::system_db::SystemDatabase,
     data::{tag::TagClass, DictEntryGeneric},
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -45,7 +46,7 @@ pub fn exec<G: GlobalInstanceLike>(
     match cmd {
         SysctlCommand::CreateUser(new) => create_user(&g, new),
         SysctlCommand::DropUser(drop) => drop_user(&g, current_user, drop),
-        SysctlCommand::AlterUser(usermod) => alter_user(&g, current_user, usermod),
+        SysctlCommand::AlterUser(usermod) => alter_user(&g, usermod),
         SysctlCommand::ReportStatus => {
             if g.health().status_okay() {
                 Ok(())
@@ -56,12 +57,8 @@ pub fn exec<G: GlobalInstanceLike>(
     }
 }
 
-fn alter_user(
-    global: &impl GlobalInstanceLike,
-    cstate: &ClientLocalState,
-    user: UserDecl,
-) -> QueryResult<()> {
-    if cstate.is_root() {
+fn alter_user(global: &impl GlobalInstanceLike, user: UserDecl) -> QueryResult<()> {
+    if user.username() == SystemDatabase::ROOT_ACCOUNT {
         // the root password can only be changed by shutting down the server
         return Err(QueryError::SysAuthError);
     }
-- 
2.43.0


From bd5c64da1bc188d9af448305d0f35fd8335c8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 17/37] fix: keep a nested map that ALTER SPACE adds

---
 server/src/engine/data/dict.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index fe79c9b..2b3cbc4 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -124,6 +124,7 @@ pub fn rmerge_data_with_patch(current: &mut DictGeneric, patch: DictGeneric) {
                 None => {
                     let mut new = DictGeneric::new();
                     rmerge_data_with_patch(&mut new, m);
+                    let _ = current.st_insert(key, DictEntryGeneric::Map(new));
                 }
             },
         }
-- 
2.43.0


From 062a9adca8ef429311be468a171cf20e8c71758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:29 +0000
Subject: [PATCH 18/37] fix: keep the env key of a space when its ALTER is
 replayed

---
 server/src/engine/core/space.rs                            | 2 +-
 .../engine/storage/common_encoding/r1/impls/gns/space.rs   | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index c25d3d7..dc51818 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -98,7 +98,7 @@ impl Space {
 }
 
 impl Space {
-    const KEY_ENV: &'static str = "env";
+    pub const KEY_ENV: &'static str = "env";
     #[inline]
     /// Validate a `create` stmt
     fn process_create(
diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs
index 3fe8949..8b1769b 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/space.rs
@@ -29,7 +29,7 @@ use {
     crate::{
         engine::{
             core::{space::Space, EntityIDRef, GNSData},
-            data::DictGeneric,
+            data::{DictEntryGeneric, DictGeneric},
             error::{RuntimeResult, TransactionError},
             idx::STIndex,
             mem::BufferedScanner,
@@ -188,6 +188,11 @@ impl<'a> GNSEvent for AlterSpaceTxn<'a> {
                 if !crate::engine::data::dict::rmerge_metadata(space.props_mut(), space_meta) {
                     return Err(TransactionError::OnRestoreDataConflictMismatch.into());
                 }
+                // same as when the statement was executed: `env: null` empties the env key, but never removes it
+                let _ = space.props_mut().st_insert(
+                    Space::KEY_ENV.into(),
+                    DictEntryGeneric::Map(into_dict!()),
+                );
             }
             None => return Err(TransactionError::OnRestoreDataMissing.into()),
         }
-- 
2.43.0


From d5bd161630ae08e55c6985fd4ce622d1cde8ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 19/37] fix: a failed buffered log write is accounted against
 the right bytes

When the bytes buffered by earlier writes reach the file and the write
that follows fails, the checksum of the failed write was updated with a
slice sized by everything that was written, which goes out of bounds of
the block and panics the writer.
---
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 0120aec..5c2e23b 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -469,6 +469,7 @@ impl<
     /// will be updated in the checksum. If disabled, then the checksum is unchanged.
     pub fn tracked_write(&mut self, buf: &[u8]) -> IoResult<()> {
         let cursor_start = self.cursor_usize();
+        let previously_buffered = self.buf.len();
         match self.untracked_write(buf) {
             Ok(()) => {
                 self.t_checksum.update(buf);
@@ -476,8 +477,10 @@ impl<
             }
             Err(e) => {
                 if CHECKSUM_WRITTEN_IF_BLOCK_ERROR {
-                    let cursor_now = self.cursor_usize();
-                    self.t_checksum.update(&buf[..cursor_now - cursor_start]);
+                    // bytes buffered by earlier writes reach the file first
+                    let written = (self.cursor_usize() - cursor_start)
+                        .saturating_sub(previously_buffered);
+                    self.t_checksum.update(&buf[..written]);
                 }
                 Err(e)
             }
-- 
2.43.0


From f2605e05cde47d0c6186b9f1e641d8330d25d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 20/37] fix: a failed sync while terminating does not stop the
 remaining models from being synced

The general executor outlives the high priority executor, so posting the
retry panicked and every model after the failing one lost its pending
changes.
---
 server/src/engine/fractal/mgr.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 55cc5b3..80f1bf9 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -307,12 +307,19 @@ impl FractalMgr {
         stats: BatchStats,
         threshold: usize,
     ) {
-        self.hp_dispatcher
-            .send(Task::with_threshold(
-                CriticalTask::WriteBatch(model_id, observed_size - stats.get_actual()),
-                threshold,
-            ))
-            .unwrap()
+        self.post_retry(Task::with_threshold(
+            CriticalTask::WriteBatch(model_id, observed_size - stats.get_actual()),
+            threshold,
+        ))
+    }
+    /// Queue another attempt at something that just failed
+    ///
+    /// NB: while terminating, the general executor outlives the high priority executor. there is no one left to attempt this
+    /// again, but that must not stop the other models from being synced
+    fn post_retry(&self, task: Task<CriticalTask>) {
+        if self.hp_dispatcher.send(task).is_err() {
+            error!("fhp: executor service has exited. cannot retry failed task");
+        }
     }
     fn hp_executor(
         &'static self,
@@ -555,11 +562,9 @@ impl FractalMgr {
             .map_err(|e| {
                 mdl_driver_.status().set_iffy();
                 health.report_fault();
-                self.hp_dispatcher
-                    .send(Task::new(CriticalTask::TryModelAutorecoverLWT(
-                        mdl_id.into(),
-                    )))
-                    .unwrap();
+                self.post_retry(Task::new(CriticalTask::TryModelAutorecoverLWT(
+                    mdl_id.into(),
+                )));
                 (e, BatchStats::into_inner(batch_stats))
             })
     }
-- 
2.43.0


From ccd80837bd0bf0565efc6f1d2a82a1f3ae50981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 21/37] fix: one journal that cannot be closed does not keep
 the others from being closed

Every journal needs a close event to be read again. The first failure to
write one panicked, leaving the remaining journals without theirs. A
journal which failed earlier is recovered first, and not marked as closed
if its tail is damaged.
---
 server/src/engine/core/model/mod.rs  |  1 +
 server/src/engine/fractal/drivers.rs | 18 ++++++++++++++--
 server/src/engine/fractal/mod.rs     | 32 +++++++++++++++++-----------
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index b510877..649217b 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -73,6 +73,7 @@ impl Model {
     pub fn driver(&self) -> &FractalModelDriver {
         &self.driver
     }
+    #[cfg(test)]
     pub fn into_driver(self) -> FractalModelDriver {
         self.driver
     }
diff --git a/server/src/engine/fractal/drivers.rs b/server/src/engine/fractal/drivers.rs
index c723f99..d233365 100644
--- a/server/src/engine/fractal/drivers.rs
+++ b/server/src/engine/fractal/drivers.rs
@@ -54,6 +54,14 @@ impl FractalGNSDriver {
     pub(super) fn status(&self) -> &util::Status {
         &self.status
     }
+    /// Close the journal. If it had a fault, it is only closed if it can be recovered
+    pub(super) fn close(&self) -> RuntimeResult<()> {
+        let mut txn_driver = self.txn_driver.lock();
+        if self.status.is_iffy() {
+            txn_driver.__lwt_heartbeat()?;
+        }
+        GNSDriver::close_driver(&mut txn_driver)
+    }
     pub fn driver_context<T>(
         &self,
         g: &impl GlobalInstanceLike,
@@ -116,7 +124,13 @@ impl FractalModelDriver {
     pub fn batch_driver(&self) -> &Mutex<Option<ModelDriver>> {
         &self.batch_driver
     }
-    pub fn close(self) -> RuntimeResult<()> {
-        ModelDriver::close_driver(&mut self.batch_driver.into_inner().unwrap())
+    /// Close the journal. If it had a fault, it is only closed if it can be recovered
+    pub fn close(&self) -> RuntimeResult<()> {
+        let mut batch_driver = self.batch_driver.lock();
+        let batch_driver = batch_driver.as_mut().unwrap();
+        if self.status.is_iffy() {
+            batch_driver.__lwt_heartbeat()?;
+        }
+        ModelDriver::close_driver(batch_driver)
     }
 }
diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index f153ab7..40a664e 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -30,7 +30,7 @@ use {
         data::uuid::Uuid,
         storage::{
             safe_interfaces::{paths_v1, FileSystem},
-            GNSDriver, ModelDriver,
+            ModelDriver,
         },
     },
     crate::{engine::error::RuntimeResult, util::compiler},
@@ -270,18 +270,26 @@ impl Global {
         Self::__gref_raw().assume_init_ref()
     }
     pub unsafe fn unload_all(self) {
-        // TODO(@ohsayan): handle errors
         let GlobalState { gns, .. } = Self::__gref_raw().assume_init_read();
-        let mut gns_driver = gns.gns_driver().txn_driver.lock();
-        GNSDriver::close_driver(&mut gns_driver).unwrap();
-        for mdl in gns
-            .namespace()
-            .idx_models()
-            .write()
-            .drain()
-            .map(|(_, mdl)| mdl)
-        {
-            mdl.into_driver().close().unwrap();
+        // NB: a journal that can't be closed must not keep the other ones from being closed
+        let mut all_closed = true;
+        if let Err(e) = gns.gns_driver().close() {
+            error!("failed to close GNS driver: {e}");
+            all_closed = false;
+        }
+        for (model_id, mdl) in gns.namespace().idx_models().read().iter() {
+            if let Err(e) = mdl.driver().close() {
+                error!(
+                    "failed to close driver for {}.{}: {e}",
+                    model_id.space(),
+                    model_id.entity()
+                );
+                all_closed = false;
+            }
+        }
+        if !all_closed {
+            // the journals that couldn't be closed might have data that was never flushed (which they refuse to discard)
+            std::mem::forget(gns);
         }
     }
 }
-- 
2.43.0


From a799e13fca0270dbd42ff410ab5de6fd508e85d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:19 +0000
Subject: [PATCH 22/37] fix: connections finish before the final sync while
 terminating

The fractal engine and the connections were listening on the same termination signal. The final sync could hence run before an
inflight statement was done: it was acknowledged, but never flushed
---
 server/src/engine/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/mod.rs b/server/src/engine/mod.rs
index 101ee06..3e2fe85 100644
--- a/server/src/engine/mod.rs
+++ b/server/src/engine/mod.rs
@@ -120,11 +120,13 @@ pub async fn start(
     }: Configuration,
     fractal::GlobalStateStart { global, boot }: fractal::GlobalStateStart,
 ) -> RuntimeResult<()> {
-    // create our system-wide channel
+    // create our system-wide channels. NB: fractal must outlive all connections: whatever they still manage to execute while
+    // we're terminating must be picked up by the final sync
     let (signal, _) = broadcast::channel::<()>(1);
+    let (fractal_signal, _) = broadcast::channel::<()>(1);
     // start our services
     context::set_dmsg("starting fractal engine");
-    let fractal_handle = boot.boot(&signal, system.reliability_system_window);
+    let fractal_handle = boot.boot(&fractal_signal, system.reliability_system_window);
     // create our server
     context::set(Subsystem::Network, "initializing endpoints");
     let str;
@@ -179,6 +181,7 @@ pub async fn start(
     }
     drop(signal);
     endpoint_handles.finish().await;
+    drop(fractal_signal);
     info!("waiting for fractal engine to exit ...");
     let (hp_handle, lp_handle) = tokio::join!(fractal_handle.hp_handle, fractal_handle.lp_handle);
     match (hp_handle, lp_handle) {
-- 
2.43.0


From 387edf537954c5ff4f24c87adba32fbea6dbb511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 23/37] fix: rows written before a field was removed are
 restored into the right fields

---
 server/src/engine/core/index/row.rs           |  2 +-
 server/src/engine/core/model/delta.rs         | 11 ++++---
 server/src/engine/core/model/mod.rs           | 33 ++++++++++++++++++-
 .../storage/v1/raw/batch_jrnl/restore.rs      | 11 +++----
 .../engine/storage/v2/impls/mdl_journal.rs    |  9 ++---
 5 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 656422d..d9a31a1 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -168,7 +168,7 @@ impl Row {
                         Datacell::null(),
                     );
                 }
-                SchemaDeltaKind::FieldRem(f) => {
+                SchemaDeltaKind::FieldRem(f, _) => {
                     wl.fields.st_delete(f);
                 }
             }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index c006e4c..e2f902a 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -124,8 +124,8 @@ impl DeltaState {
     pub fn unresolved_append_field_add(&mut self, field_name: RawStr) {
         self.__schema_append_unresolved_delta(SchemaDeltaPart::field_add(field_name));
     }
-    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr) {
-        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name));
+    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr, position: usize) {
+        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name, position));
     }
 }
 
@@ -184,7 +184,8 @@ impl SchemaDeltaPart {
 #[derive(Debug)]
 pub enum SchemaDeltaKind {
     FieldAdd(RawStr),
-    FieldRem(RawStr),
+    /// the removed field and the position that it had in the declaration
+    FieldRem(RawStr, usize),
 }
 
 impl SchemaDeltaPart {
@@ -194,8 +195,8 @@ impl SchemaDeltaPart {
     fn field_add(field_name: RawStr) -> Self {
         Self::new(SchemaDeltaKind::FieldAdd(field_name))
     }
-    fn field_rem(field_name: RawStr) -> Self {
-        Self::new(SchemaDeltaKind::FieldRem(field_name))
+    fn field_rem(field_name: RawStr, position: usize) -> Self {
+        Self::new(SchemaDeltaKind::FieldRem(field_name, position))
     }
 }
 
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 649217b..de2b854 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -133,6 +133,31 @@ impl ModelData {
     pub fn fields(&self) -> &Fields {
         &self.fields
     }
+    /// The names of all fields except the primary key, in the order that they had at the given schema version
+    pub fn columns_as_of(&self, version: DeltaVersion) -> Vec<RawStr> {
+        let mut columns: Vec<RawStr> = self
+            .fields
+            .stseq_ord_key()
+            .map(|key| unsafe {
+                // UNSAFE(@ohsayan): model in scope, we're good
+                key.clone()
+            })
+            .collect();
+        // undo the changes that were made after this version
+        for (_, delta) in self.delta.resolve_iter_since(version).rev() {
+            match delta.kind() {
+                SchemaDeltaKind::FieldAdd(f) => {
+                    columns.retain(|column| column.as_str() != f.as_str());
+                }
+                SchemaDeltaKind::FieldRem(f, position) => unsafe {
+                    // UNSAFE(@ohsayan): removed names are only deallocated once all data is restored
+                    columns.insert(*position, f.clone());
+                },
+            }
+        }
+        columns.retain(|column| self.not_pk(column));
+        columns
+    }
     pub fn model_mutator<'a>(&'a mut self) -> ModelMutator<'a> {
         ModelMutator { model: self }
     }
@@ -477,12 +502,18 @@ impl<'a> ModelMutator<'a> {
         self.model.private.vacuum_marked()
     }
     pub fn remove_field(&mut self, name: &str) -> bool {
+        let position = self
+            .model
+            .fields
+            .stseq_ord_key()
+            .position(|key| key.as_str() == name)
+            .unwrap_or(self.model.fields.len());
         // remove
         let r = self.model.fields.st_delete(name);
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
         // publish delta
-        self.model.delta.unresolved_append_field_rem(ptr);
+        self.model.delta.unresolved_append_field_rem(ptr, position);
         r
     }
     pub fn add_field(&mut self, name: Box<str>, field: Field) -> bool {
diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 91da055..efb0f15 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -37,7 +37,7 @@ use {
             },
             data::{cell::Datacell, tag::TagUnique},
             error::{RuntimeResult, StorageError},
-            idx::{MTIndex, STIndex, STIndexSeq},
+            idx::{MTIndex, STIndex},
             storage::{
                 common::interface::fs::File,
                 common_encoding::r1::{
@@ -213,6 +213,8 @@ impl DataBatchRestoreDriver {
         let g = unsafe { crossbeam_epoch::unprotected() };
         let mut pending_delete = HashMap::new();
         let p_index = m.primary_index().__raw_index();
+        // the rows have the columns that the model had when they were written
+        let columns = m.columns_as_of(DeltaVersion::__new(schema_version));
         // scan rows
         for DecodedBatchEvent { txn_id, pk, kind } in events {
             match kind {
@@ -229,12 +231,7 @@ impl DataBatchRestoreDriver {
                             // new row (logically)
                             let _ = p_index.mt_delete(&pk, &g);
                             let mut data = DcFieldIndex::default();
-                            for (field_name, new_data) in m
-                                .fields()
-                                .stseq_ord_key()
-                                .filter(|key| key.as_str() != m.p_key())
-                                .zip(new_row)
-                            {
+                            for (field_name, new_data) in columns.iter().zip(new_row) {
                                 data.st_insert(
                                     unsafe {
                                         // UNSAFE(@ohsayan): model in scope, we're good
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 6870eda..0eee587 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -512,6 +512,8 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
+        // the rows have the columns that the model had when they were written
+        let columns = m.columns_as_of(DeltaVersion::__new(batch_md.schema_version));
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
@@ -534,12 +536,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                         real_last_txn_id = txn_id;
                     }
                     let mut data = DcFieldIndex::default();
-                    for (field_name, new_data) in m
-                        .fields()
-                        .stseq_ord_key()
-                        .filter(|key| key.as_str() != m.p_key())
-                        .zip(new_row)
-                    {
+                    for (field_name, new_data) in columns.iter().zip(new_row) {
                         data.st_insert(
                             unsafe {
                                 // UNSAFE(@ohsayan): model in scope, we're good
-- 
2.43.0


From 821d0b4812c1081647eb8e1fa4b720bbdb0bf1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:18 +0000
Subject: [PATCH 24/37] fix: changing the type of a field does not reorder the
 columns of its model

---
 server/src/engine/core/model/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index de2b854..6e5264d 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -528,7 +528,14 @@ impl<'a> ModelMutator<'a> {
         }
     }
     pub fn update_field(&mut self, name: &str, field: Field) -> bool {
-        self.model.fields.st_update(name, field)
+        // in place, since the order of the fields is the order of the columns of a row
+        match self.model.fields.st_get_mut(name) {
+            Some(current) => {
+                *current = field;
+                true
+            }
+            None => false,
+        }
     }
 }
 
-- 
2.43.0


From db6f99518898a7b30a11c8edcd99683e05cbc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:59 +0000
Subject: [PATCH 25/37] fix: models migrated from the v1 storage engine restart
 their schema version with the new catalog

---
 server/src/engine/core/index/row.rs   |  3 +++
 server/src/engine/core/model/delta.rs |  5 +++++
 server/src/engine/core/model/mod.rs   | 14 +++++++++++++-
 server/src/engine/storage/v2/mod.rs   |  4 +++-
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index d9a31a1..6b431b8 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -65,6 +65,9 @@ impl RowData {
     pub fn set_txn_revised(&mut self, new: DeltaVersion) {
         self.txn_revised_data = new;
     }
+    pub fn set_schema_revised(&mut self, new: DeltaVersion) {
+        self.txn_revised_schema_version = new;
+    }
     pub fn get_txn_revised(&self) -> DeltaVersion {
         self.txn_revised_data
     }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index e2f902a..83d1b3a 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -62,6 +62,11 @@ impl DeltaState {
             data_deltas_size: AtomicUsize::new(0),
         }
     }
+    /// Restart schema versions at zero (all rows **must** be at the current schema and must be reset too)
+    pub fn __reset_schema_version(&mut self) {
+        self.schema_current_version = 0;
+        self.schema_deltas.clear();
+    }
     pub fn __set_delta_version(&self, version: DeltaVersion) {
         self.data_current_version
             .fetch_max(version.value_u64(), Ordering::Relaxed);
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 6e5264d..d00ad37 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -37,13 +37,14 @@ use {
         },
         error::{QueryError, QueryResult},
         fractal::{FractalModelDriver, GenericTask, GlobalInstanceLike, Task},
-        idx::{self, IndexBaseSpec, IndexSTSeqCns, STIndex, STIndexSeq},
+        idx::{self, IndexBaseSpec, IndexSTSeqCns, MTIndexExt, STIndex, STIndexSeq},
         mem::{RawStr, VInline},
         ql::ddl::{
             crt::CreateModel,
             drop::DropModel,
             syn::{FieldSpec, LayerSpec},
         },
+        sync,
         txn::{gns, ModelIDRef, SpaceIDRef},
     },
     std::collections::hash_map::{Entry, HashMap},
@@ -161,6 +162,17 @@ impl ModelData {
     pub fn model_mutator<'a>(&'a mut self) -> ModelMutator<'a> {
         ModelMutator { model: self }
     }
+    /// Restart schema versions at zero, as if the model was just created with its current fields. All rows **must** be
+    /// at the current schema
+    pub fn reset_schema_version(&mut self) {
+        self.delta.__reset_schema_version();
+        let g = sync::atm::cpin();
+        for row in self.data.__raw_index().mt_iter_entry(&g) {
+            row.d_data()
+                .write()
+                .set_schema_revised(DeltaVersion::genesis());
+        }
+    }
     fn sync_decl(&mut self) {
         self.decl = self.redescribe();
     }
diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index 8d3bae3..664e963 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -65,7 +65,9 @@ pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
     }
     // create all models
     context::set_dmsg("creating all models");
-    for (model_id, model) in gns.idx_models().read().iter() {
+    for (model_id, model) in gns.idx_models().write().iter_mut() {
+        // the catalog will only know the current fields
+        model.data_mut().reset_schema_version();
         let model_data = model.data();
         let space_uuid = gns.idx().read().get(model_id.space()).unwrap().get_uuid();
         FileSystem::create_dir_all(&paths_v1::model_dir(
-- 
2.43.0


From 0d0c82e56959215b258ee68d6ea5d9efc30664b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:03 +0000
Subject: [PATCH 26/37] fix: a failed batch loses no row change

A batch that could not be committed dropped every row change it had taken from the model (or subtracted the changes
it had written, none of which is in the log). All of them are now returned and the batch is retried in full.
---
 server/src/engine/core/model/delta.rs         | 21 +++++++++++++--
 server/src/engine/fractal/mgr.rs              | 26 +++++++++---------
 .../engine/storage/v2/impls/mdl_journal.rs    | 27 +++++++------------
 3 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 83d1b3a..79f8176 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -33,8 +33,12 @@ use {
         sync::atm::Guard,
         sync::queue::Queue,
     },
+    parking_lot::Mutex,
     std::{
-        collections::btree_map::{BTreeMap, Range},
+        collections::{
+            btree_map::{BTreeMap, Range},
+            VecDeque,
+        },
         sync::atomic::{AtomicU64, AtomicUsize, Ordering},
     },
 };
@@ -48,6 +52,8 @@ pub struct DeltaState {
     // data
     data_current_version: AtomicU64,
     data_deltas: Queue<DataDelta>,
+    /// deltas that were dequeued for a batch that failed (older than everything that is in the queue)
+    data_deltas_failed: Mutex<VecDeque<DataDelta>>,
     data_deltas_size: AtomicUsize,
 }
 
@@ -59,6 +65,7 @@ impl DeltaState {
             schema_deltas: BTreeMap::new(),
             data_current_version: AtomicU64::new(0),
             data_deltas: Queue::new(),
+            data_deltas_failed: Mutex::new(VecDeque::new()),
             data_deltas_size: AtomicUsize::new(0),
         }
     }
@@ -111,7 +118,17 @@ impl DeltaState {
         self.data_current_version.fetch_add(1, Ordering::AcqRel)
     }
     pub fn __data_delta_dequeue(&self, g: &Guard) -> Option<DataDelta> {
-        self.data_deltas.blocking_try_dequeue(g)
+        let failed = self.data_deltas_failed.lock().pop_front();
+        failed.or_else(|| self.data_deltas.blocking_try_dequeue(g))
+    }
+    /// Return the deltas that were dequeued for a batch that failed; they are the next to be dequeued, in the same order
+    ///
+    /// NB: this does not count them as new deltas. whoever retries the batch must account for them
+    pub fn __data_delta_return(&self, deltas: Vec<DataDelta>) {
+        let mut failed = self.data_deltas_failed.lock();
+        for delta in deltas.into_iter().rev() {
+            failed.push_front(delta);
+        }
     }
 }
 
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 80f1bf9..05bf3c6 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -304,11 +304,10 @@ impl FractalMgr {
         &self,
         model_id: ModelUniqueID,
         observed_size: usize,
-        stats: BatchStats,
         threshold: usize,
     ) {
         self.post_retry(Task::with_threshold(
-            CriticalTask::WriteBatch(model_id, observed_size - stats.get_actual()),
+            CriticalTask::WriteBatch(model_id, observed_size),
             threshold,
         ))
     }
@@ -404,7 +403,7 @@ impl FractalMgr {
                             info!("fhp: completed maintenance task for {model_id}, synced={observed_size}")
                         }
                     }
-                    Err((err, stats)) => {
+                    Err(err) => {
                         error!(
                             "fhp: failed to sync data deltas for model {} with {err}. retrying ...",
                             model_id.uuid()
@@ -413,7 +412,6 @@ impl FractalMgr {
                         self.re_enqueue_model_sync(
                             model_id,
                             observed_size,
-                            stats,
                             Self::adjust_threshold(threshold),
                         )
                     }
@@ -500,7 +498,7 @@ impl FractalMgr {
                         )
                     }
                 }
-                Err((e, stats)) => {
+                Err(e) => {
                     info!(
                         "flp: failed to sync data for {}.{} with erro `{e}`. promoting to higher priority",
                         model_id.space(), model_id.entity(),
@@ -513,7 +511,6 @@ impl FractalMgr {
                             model.data().get_uuid(),
                         ),
                         observed_len,
-                        stats,
                         TASK_THRESHOLD,
                     )
                 }
@@ -534,18 +531,15 @@ impl FractalMgr {
         observed_size: usize,
         mdl_driver_: &super::drivers::FractalModelDriver,
         health: &super::GlobalHealth,
-    ) -> Result<(), (super::error::Error, BatchStats)> {
+    ) -> Result<(), super::error::Error> {
         // NB: the status must only be checked once the driver is locked. a different thread might have run into a fault while
         // we were waiting
         let mut mdl_driver = mdl_driver_.batch_driver().lock();
         if mdl_driver_.status().is_iffy() {
             // don't mess this up any further
-            return Err((
-                super::error::Error::from(ErrorKind::Other(
-                    "model driver is in dirty state".into(),
-                )),
-                BatchStats::into_inner(BatchStats::new()),
-            ));
+            return Err(super::error::Error::from(ErrorKind::Other(
+                "model driver is in dirty state".into(),
+            )));
         }
         if observed_size == 0 {
             // no changes, all good
@@ -565,7 +559,11 @@ impl FractalMgr {
                 self.post_retry(Task::new(CriticalTask::TryModelAutorecoverLWT(
                     mdl_id.into(),
                 )));
-                (e, BatchStats::into_inner(batch_stats))
+                // nothing from a failed batch is in the log, so the next batch must write all of it
+                model
+                    .delta_state()
+                    .__data_delta_return(BatchStats::into_inner(batch_stats).into_taken());
+                e
             })
     }
 }
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 0eee587..5a93621 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -219,7 +219,8 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         batch_stat: &mut BatchStats,
     ) -> RuntimeResult<usize> {
         /*
-            go over each delta, check if inconsistent and apply if not. if any delta sync fails, we enqueue the delta again.
+            go over each delta, check if inconsistent and apply if not. every delta that we take is tracked in the batch stats: if this
+            batch can't be committed then none of it is in the log, so whoever commits the batch must return all of them.
             Since the diffing algorithm will ensure that a stale delta is never written, we don't have to worry about checking
             if the delta is stale or not manually. It will be picked up by another collection sequence.
 
@@ -233,15 +234,9 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         let mut i = 0;
         while i < expected {
             let delta = me.model.delta_state().__data_delta_dequeue(me.g).unwrap();
-            match me.step(&delta) {
-                Ok(()) => i += 1,
-                Err(e) => {
-                    // errored, so push this back in; we have written and flushed all prior deltas
-                    me.model.delta_state().append_new_data_delta(delta, me.g);
-                    batch_stat.set_actual(i);
-                    return Err(e);
-                }
-            }
+            batch_stat.taken.push(delta.clone());
+            me.step(&delta)?;
+            i += 1;
         }
         Ok(me.sync_count)
     }
@@ -407,21 +402,19 @@ impl DecodedBatchEvent {
 }
 
 pub struct BatchStats {
-    actual_commit: usize,
+    /// the deltas taken from the model for this batch
+    taken: Vec<DataDelta>,
 }
 
 impl BatchStats {
     pub fn new() -> Rc<RefCell<Self>> {
-        Rc::new(RefCell::new(Self { actual_commit: 0 }))
+        Rc::new(RefCell::new(Self { taken: Vec::new() }))
     }
     pub fn into_inner(me: Rc<RefCell<Self>>) -> Self {
         RefCell::into_inner(Rc::into_inner(me).unwrap())
     }
-    fn set_actual(&mut self, new: usize) {
-        self.actual_commit = new;
-    }
-    pub fn get_actual(&self) -> usize {
-        self.actual_commit
+    pub fn into_taken(self) -> Vec<DataDelta> {
+        self.taken
     }
 }
 
-- 
2.43.0


From 99b7f822cc4623ff8cdcf483c841ecc3936fc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:03 +0000
Subject: [PATCH 27/37] fix: replaying an older version of a row after a newer
 one does not panic

The newest version of a row takes precedence, as it does for deletes; the assertion made such a log unreadable.
---
 .../engine/storage/v2/impls/mdl_journal.rs    | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 5a93621..095ed3e 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -510,21 +510,16 @@ impl BatchAdapterSpec for ModelDataAdapter {
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
-                    let popped_row = p_index.mt_delete_return(&pk, &g);
-                    if let Some(row) = popped_row {
-                        /*
-                            if a newer version of the row is received first and the older version is pending to be synced, the older
-                            version is never synced. this is how the diffing algorithm works to ensure consistency.
-                            the delta diff algorithm statically guarantees this.
-                        */
-                        let row_txn_revised = row.read().get_txn_revised();
-                        assert!(
-                            row_txn_revised.value_u64() == 0 || row_txn_revised < txn_id,
-                            "revised ID is {} but our row has version {}",
-                            row.read().get_txn_revised().value_u64(),
-                            txn_id.value_u64()
-                        );
+                    if let Some(row) = p_index.mt_get(&pk, &g) {
+                        if row.read().get_txn_revised() > txn_id {
+                            /*
+                                due to the concurrent nature of the engine, a newer version of the row can be synced before an older one
+                                (for example if the key was deleted and inserted again); the newest version takes precedence
+                            */
+                            continue;
+                        }
                     }
+                    let _ = p_index.mt_delete(&pk, &g);
                     if txn_id > real_last_txn_id {
                         real_last_txn_id = txn_id;
                     }
-- 
2.43.0


From f1deb73b0194a2b44b8846da500c5639ad6dcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 28/37] fix: a select all with a limit that is not a literal is
 rejected instead of crashing

---
 server/src/engine/ql/dml/sel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/ql/dml/sel.rs b/server/src/engine/ql/dml/sel.rs
index e379db2..a4bb5d6 100644
--- a/server/src/engine/ql/dml/sel.rs
+++ b/server/src/engine/ql/dml/sel.rs
@@ -208,7 +208,7 @@ impl<'a> SelectAllStatement<'a> {
         let entity = state.try_entity_buffered_into_state_uninit();
         state.poison_if_not(state.cursor_rounded_eq(Token![limit]));
         state.cursor_ahead_if(state.okay()); // we did read limit
-        state.poison_if(state.exhausted()); // we MUST have the limit
+        state.poison_if_not(state.can_read_lit_rounded()); // we MUST have the limit
         if state.okay() {
             let lit = unsafe { state.fw_read().uck_read_lit() };
             match lit.try_uint() {
-- 
2.43.0


From d3b7ebb5f200fa5a4fb28864fe4e8a0fe3c66e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 29/37] fix: an alter model without an action is rejected
 instead of crashing

---
 server/src/engine/ql/ddl/alt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/engine/ql/ddl/alt.rs b/server/src/engine/ql/ddl/alt.rs
index b6069a0..0e4b285 100644
--- a/server/src/engine/ql/ddl/alt.rs
+++ b/server/src/engine/ql/ddl/alt.rs
@@ -120,6 +120,9 @@ impl<'a> AlterModel<'a> {
             // FIXME(@ohsayan): bad because no specificity
         }
         let model_name = state.try_entity_ref_result()?;
+        if compiler::unlikely(state.exhausted()) {
+            return compiler::cold_rerr(QueryError::QLUnexpectedEndOfStatement);
+        }
         let kind = match state.fw_read() {
             Token![add] => AlterKind::alter_add(state),
             Token![remove] => AlterKind::alter_remove(state),
-- 
2.43.0


From 200ae524cb9f6cfdd7e593b2cbb2eb287969e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 30/37] fix: a statement that ends within an entity name is
 rejected instead of crashing

---
 server/src/engine/ql/ast/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 5446f58..103cad1 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -89,11 +89,12 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     pub fn try_entity_buffered_into_state_uninit(&mut self) -> MaybeInit<EntityIDRef<'a>> {
         let mut ret = MaybeInit::uninit();
         let self_has_full = Self::_entity_signature_match_self_full(
-            &self.t[self.cursor()],
-            &self.t[self.cursor() + 1],
-            &self.t[self.cursor() + 2],
-        );
-        let self_has_full_cs = self._entity_signature_match_cs(&self.t[self.cursor()]);
+            self.offset_current_r(0),
+            self.offset_current_r(1),
+            self.offset_current_r(2),
+        ) & self.has_remaining(3);
+        let self_has_full_cs =
+            self._entity_signature_match_cs(self.offset_current_r(0)) & self.not_exhausted();
         unsafe {
             if self_has_full {
                 ret = MaybeInit::new(self._entity_new_from_tokens());
-- 
2.43.0


From 5a223bacf5082c609f69ebc2441a2fa15a6270d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 31/37] fix: a field definition that ends early is rejected
 instead of crashing

---
 server/src/engine/ql/ddl/syn.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index 1c1a938..ad19c62 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -378,6 +378,9 @@ impl<'a> FieldSpec<'a> {
         let is_null = state.cursor_eq(Token![null]);
         state.cursor_ahead_if(is_null);
         state.poison_if(is_primary & is_null);
+        if compiler::unlikely(!state.has_remaining(2)) {
+            return Err(QueryError::QLUnexpectedEndOfStatement);
+        }
         // parse layers
         // field name
         let field_name = match (state.fw_read(), state.fw_read()) {
@@ -440,6 +443,9 @@ impl<'a> ExpandedField<'a> {
             state.poison_if_not(state.cursor_eq(Token![:]));
             state.cursor_ahead();
             rfold_layers(state, &mut layers);
+            if compiler::unlikely(state.exhausted()) {
+                return Err(QueryError::QLUnexpectedEndOfStatement);
+            }
             match state.fw_read() {
                 Token![,] => {
                     rfold_dict(DictFoldState::CB_OR_IDENT, state, &mut props);
-- 
2.43.0


From 9bd3dbfd83884a183f49c3fd7dc1453d8c4fe2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 32/37] fix: a list that ends right after an opening bracket is
 rejected instead of crashing

---
 server/src/engine/ql/dml/ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 9bd4069..19cd231 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -140,7 +140,7 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
                     state.read_lit_into_data_type_unchecked_from(tok)
                 }
             }
-            Token![open []] => {
+            Token![open []] if state.not_exhausted() => {
                 // a nested list
                 let mut nested_list = Vec::new();
                 let nlist_dscr = parse_list(state, &mut nested_list);
-- 
2.43.0


From e242a253716ba160fc2d8ecfe74fbb5c6776ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 33/37] fix: deeply nested collections and types are rejected
 instead of overflowing the stack

---
 server/src/engine/ql/ast/mod.rs | 17 +++++++++++++++++
 server/src/engine/ql/ddl/syn.rs |  8 ++++++--
 server/src/engine/ql/dml/ins.rs |  3 ++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 103cad1..4b95a93 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -51,6 +51,7 @@ pub struct State<'a, Qd> {
     i: usize,
     f: bool,
     cs: Option<&'static str>,
+    n: usize,
 }
 
 impl<'a> State<'a, InplaceData> {
@@ -134,6 +135,8 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
 }
 
 impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
+    /// The deepest nesting of collections and type definitions that a statement may use (parsing them recurses)
+    const MAX_NESTING: usize = 128;
     #[inline(always)]
     /// Create a new [`State`] instance using the given tokens and data
     pub const fn new(t: &'a [Token<'a>], d: Qd) -> Self {
@@ -143,6 +146,7 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
             t,
             d,
             cs: None,
+            n: 0,
         }
     }
     #[inline(always)]
@@ -166,6 +170,19 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
         self.poison_if(!fuse);
     }
     #[inline(always)]
+    /// Enter a nested collection or type definition. Poisons the state and returns false if it is nested too deeply
+    pub fn nest(&mut self) -> bool {
+        let okay = self.n < Self::MAX_NESTING;
+        self.n += okay as usize;
+        self.poison_if_not(okay);
+        okay
+    }
+    #[inline(always)]
+    /// Leave the collection or type definition that was last entered with [`State::nest`]
+    pub fn unnest(&mut self) {
+        self.n -= 1;
+    }
+    #[inline(always)]
     /// Move the cursor ahead by 1
     pub fn cursor_ahead(&mut self) {
         self.cursor_ahead_by(1)
diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index ad19c62..92d160d 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -186,10 +186,11 @@ where
                 // after a null (essentially counts as a lit) we're either done or expect something else
                 mstate = DictFoldState::COMMA_OR_CB;
             }
-            (Token![open {}], DictFoldState::LIT_OR_OB) => {
+            (Token![open {}], DictFoldState::LIT_OR_OB) if state.nest() => {
                 // found a nested dict
                 let mut ndict = DictGeneric::new();
                 _rfold_dict::<Qd, NoBreakpoint>(DictFoldState::CB_OR_IDENT, state, &mut ndict);
+                state.unnest();
                 state.poison_if_not(
                     dict.insert(
                         unsafe {
@@ -291,7 +292,10 @@ fn rfold_layers<'a, Qd: QueryData<'a>>(state: &mut State<'a, Qd>, layers: &mut V
                     // but we first need a colon
                     state.poison_if_not(state.cursor_rounded_eq(Token![:]));
                     state.cursor_ahead_if(state.okay());
-                    rfold_layers(state, layers);
+                    if state.nest() {
+                        rfold_layers(state, layers);
+                        state.unnest();
+                    }
                     // we are yet to parse the remaining props
                     mstate = LayerFoldState::FOLD_INCOMPLETE;
                 } else {
diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 19cd231..ac3f363 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -140,10 +140,11 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
                     state.read_lit_into_data_type_unchecked_from(tok)
                 }
             }
-            Token![open []] if state.not_exhausted() => {
+            Token![open []] if state.not_exhausted() && state.nest() => {
                 // a nested list
                 let mut nested_list = Vec::new();
                 let nlist_dscr = parse_list(state, &mut nested_list);
+                state.unnest();
                 // check type return
                 state.poison_if_not(
                     prev_nlist_dscr.is_none()
-- 
2.43.0


From 0a5a665db818549f280b84cf2cfeea50b997a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:38 +0000
Subject: [PATCH 34/37] fix: a TCP connection holds its connection permit until
 it ends

---
 server/src/engine/net/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/net/mod.rs b/server/src/engine/net/mod.rs
index 4467fd8..6d39fe2 100644
--- a/server/src/engine/net/mod.rs
+++ b/server/src/engine/net/mod.rs
@@ -231,12 +231,12 @@ impl Listener {
                 self.sig_inflight.clone(),
             );
             tokio::spawn(async move {
+                // the permit is returned when we're done with this connection
+                let _permit = permit;
                 if let Err(e) = handler.run().await {
                     warn!("error handling client connection: `{e}`");
                 }
             });
-            // return the permit
-            drop(permit);
         }
     }
     pub fn init_tls(
-- 
2.43.0


From e20cc1b1cce681da64ef58b04f546bf56e1f064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:10 +0000
Subject: [PATCH 35/37] fix: a TLS connection counts towards the connection
 limit and its handshake does not hold up others

---
 server/src/engine/net/mod.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/server/src/engine/net/mod.rs b/server/src/engine/net/mod.rs
index 6d39fe2..96eb2fd 100644
--- a/server/src/engine/net/mod.rs
+++ b/server/src/engine/net/mod.rs
@@ -261,14 +261,14 @@ impl Listener {
     }
     pub async fn listen_tls(&mut self, acceptor: &SslAcceptor) {
         loop {
+            // acquire a permit
+            let permit = CLIM.acquire().await.unwrap();
             let stream = async {
                 let (stream, _) = self.accept().await?;
                 let ssl = Ssl::new(acceptor.context())?;
-                let mut stream = SslStream::new(ssl, stream)?;
-                Pin::new(&mut stream).accept().await?;
-                RuntimeResult::Ok(stream)
+                RuntimeResult::Ok(SslStream::new(ssl, stream)?)
             };
-            let stream = match stream.await {
+            let mut stream = match stream.await {
                 Ok(s) => s,
                 Err(e) => {
                     /*
@@ -278,13 +278,24 @@ impl Listener {
                     continue;
                 }
             };
-            let mut handler = ConnectionHandler::new(
-                stream,
-                self.global.clone(),
-                self.sig_shutdown.subscribe(),
-                self.sig_inflight.clone(),
-            );
+            let global = self.global.clone();
+            let mut sig_terminate = self.sig_shutdown.subscribe();
+            let sig_inflight = self.sig_inflight.clone();
             tokio::spawn(async move {
+                // the permit is returned when we're done with this connection
+                let _permit = permit;
+                // a client that doesn't complete its TLS handshake must not keep others from connecting
+                let handshake = Pin::new(&mut stream).accept();
+                let accepted = tokio::select! {
+                    accepted = handshake => accepted,
+                    _ = sig_terminate.recv() => return,
+                };
+                if let Err(e) = accepted {
+                    warn!("failed to accept connection on TLS socket: `{e}`");
+                    return;
+                }
+                let mut handler =
+                    ConnectionHandler::new(stream, global, sig_terminate, sig_inflight);
                 if let Err(e) = handler.run().await {
                     warn!("error handling client TLS connection: `{e}`");
                 }
-- 
2.43.0


From 3b4f9cd7197425c030537ededc2f700f2754c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:11 +0000
Subject: [PATCH 36/37] fix: a statement that is terminating with the server
 does not go on using what was freed

Statements that block were run on another thread with references into the connection's task. If the server was terminated meanwhile then
the task was dropped, and the statement went on reading freed memory
---
 server/src/engine/core/exec.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/server/src/engine/core/exec.rs b/server/src/engine/core/exec.rs
index 557894b..0c21b01 100644
--- a/server/src/engine/core/exec.rs
+++ b/server/src/engine/core/exec.rs
@@ -172,18 +172,17 @@ async fn run_blocking_stmt(
             )
         },
     ];
-    let r = unsafe {
-        // UNSAFE(@ohsayan): the only await is within this block
+    unsafe {
+        // UNSAFE(@ohsayan): the statement is run to its end right here. NB: there must be no await: if we're dropped while waiting (for
+        // example, while terminating), then the statement would go on using what is no longer there
         let c_glob = global.clone();
         let static_cstate: &'static ClientLocalState = core::mem::transmute(cstate);
         let static_state: &'static mut State<'static, InplaceData> =
             core::mem::transmute(&mut state);
-        tokio::task::spawn_blocking(move || {
+        tokio::task::block_in_place(move || {
             BLK_EXEC[fc as usize](c_glob, static_cstate, static_state)
         })
-        .await
-    };
-    r.unwrap()
+    }
 }
 
 fn blocking_exec_sysctl(
-- 
2.43.0


From eeb850d58f166629c9aa87a5941226559484ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:18 +0000
Subject: [PATCH 37/37] fix: a query packet whose length arrives in parts does
 not end the connection in debug builds

The assertion on entry of the exchange state machine required five unread
bytes each time it is resumed, but only the first time there is that many;
after the metadata has been read in part, what is left may be less.
---
 server/src/engine/net/protocol/exchange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 58f5774..0c69258 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -170,7 +170,7 @@ impl QExchangeState {
         new_buffer.len() >= self.target
     }
     fn resume<'a>(self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        debug_assert!(scanner.has_left(Self::MIN_READ));
+        debug_assert!(scanner.buffer_len() >= Self::MIN_READ);
         match self.state {
             QExchangeStateInternal::Initial => self.start_initial(scanner),
             QExchangeStateInternal::PendingMeta1 => self.resume_at_md1(scanner),
-- 
2.43.0

