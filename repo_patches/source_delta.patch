From a88c83d3d9c84278aca87e3af870e3328f5e03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 01/39] fix: continue after a short write with the bytes that
 were not written yet

fwrite_all_count() passed the whole buffer again after a partial write, so a
short write duplicated data and the loop could miss its end condition.
---
 server/src/engine/storage/common/interface/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common/interface/fs.rs b/server/src/engine/storage/common/interface/fs.rs
index 5855182..629191c 100644
--- a/server/src/engine/storage/common/interface/fs.rs
+++ b/server/src/engine/storage/common/interface/fs.rs
@@ -156,7 +156,7 @@ pub trait FileWrite {
         let len = buf.len() as u64;
         let mut written = 0;
         while written != len {
-            match self.fwrite(buf) {
+            match self.fwrite(&buf[written as usize..]) {
                 Ok(0) => {
                     return (
                         written,
-- 
2.43.0


From 7faab9fc0a6f6c439fe55d55fbc45ce3115dbb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 02/39] fix: inspect space returns valid JSON

The object was closed with one brace too many.
---
 server/src/engine/core/ddl_misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/core/ddl_misc.rs b/server/src/engine/core/ddl_misc.rs
index 0c7d431..dcd39cf 100644
--- a/server/src/engine/core/ddl_misc.rs
+++ b/server/src/engine/core/ddl_misc.rs
@@ -93,7 +93,7 @@ pub fn inspect(
                         ret.push(',');
                     }
                 }
-                ret.push_str("]}}");
+                ret.push_str("]}");
                 ret
             }
             None => return Err(QueryError::QExecObjectNotFound),
-- 
2.43.0


From bb5da753383ce8d1d0dd560a4bd5aeb05bbc6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 03/39] fix: rows resolve every schema delta they have not seen

---
 server/src/engine/core/index/row.rs   | 2 +-
 server/src/engine/core/model/delta.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 656422d..e6ff3aa 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -172,7 +172,7 @@ impl Row {
                     wl.fields.st_delete(f);
                 }
             }
-            max_delta = *delta_id;
+            max_delta = delta_id.step();
         }
         // we've revised upto the most most recent delta version (that we saw at this point)
         wl.txn_revised_schema_version = max_delta;
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 84e2aaa..3d521a1 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -112,11 +112,15 @@ impl DeltaState {
 
 // schema
 impl DeltaState {
+    /// Returns all the deltas that a row with the given schema version has not seen yet
+    ///
+    /// NB: a delta is stored under the version it was applied *on*, so a row that is at version `v` has seen all
+    /// the deltas before `v`
     pub fn resolve_iter_since(
         &self,
         current_version: DeltaVersion,
     ) -> Range<DeltaVersion, SchemaDeltaPart> {
-        self.schema_deltas.range(current_version.step()..)
+        self.schema_deltas.range(current_version..)
     }
     pub fn schema_current_version(&self) -> DeltaVersion {
         DeltaVersion(self.schema_current_version)
@@ -158,7 +162,7 @@ impl DeltaVersion {
     pub const fn __new(v: u64) -> Self {
         Self(v)
     }
-    fn step(&self) -> Self {
+    pub(in crate::engine::core) fn step(&self) -> Self {
         Self(self.0 + 1)
     }
     pub const fn value_u64(&self) -> u64 {
-- 
2.43.0


From 6b17517d3e571d2f26cac2ac5532c2f592a66d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 04/39] fix: alter model update keeps the position of the
 updated field

---
 server/src/engine/core/model/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 3d24e4d..7df06cc 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -492,7 +492,14 @@ impl<'a> ModelMutator<'a> {
         }
     }
     pub fn update_field(&mut self, name: &str, field: Field) -> bool {
-        self.model.fields.st_update(name, field)
+        // NB: the field must retain its position in the declaration (`st_update` would move it to the end)
+        match self.model.fields.st_get_mut(name) {
+            Some(current) => {
+                *current = field;
+                true
+            }
+            None => false,
+        }
     }
 }
 
-- 
2.43.0


From b683707538bf4cb69c96956dd9b8b2a2bea66b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 05/39] fix: restore rows with the fields their model had when
 they were written

---
 server/src/engine/core/index/row.rs           |  2 +-
 server/src/engine/core/model/delta.rs         | 11 ++++----
 server/src/engine/core/model/mod.rs           | 28 ++++++++++++++++++-
 .../engine/storage/v2/impls/mdl_journal.rs    | 14 ++++++++--
 4 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index e6ff3aa..cebc90d 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -168,7 +168,7 @@ impl Row {
                         Datacell::null(),
                     );
                 }
-                SchemaDeltaKind::FieldRem(f) => {
+                SchemaDeltaKind::FieldRem(f, _) => {
                     wl.fields.st_delete(f);
                 }
             }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 3d521a1..096ebf8 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -128,8 +128,8 @@ impl DeltaState {
     pub fn unresolved_append_field_add(&mut self, field_name: RawStr) {
         self.__schema_append_unresolved_delta(SchemaDeltaPart::field_add(field_name));
     }
-    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr) {
-        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name));
+    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr, position: usize) {
+        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name, position));
     }
 }
 
@@ -188,7 +188,8 @@ impl SchemaDeltaPart {
 #[derive(Debug)]
 pub enum SchemaDeltaKind {
     FieldAdd(RawStr),
-    FieldRem(RawStr),
+    /// field name and the position it had in the declaration
+    FieldRem(RawStr, usize),
 }
 
 impl SchemaDeltaPart {
@@ -198,8 +199,8 @@ impl SchemaDeltaPart {
     fn field_add(field_name: RawStr) -> Self {
         Self::new(SchemaDeltaKind::FieldAdd(field_name))
     }
-    fn field_rem(field_name: RawStr) -> Self {
-        Self::new(SchemaDeltaKind::FieldRem(field_name))
+    fn field_rem(field_name: RawStr, position: usize) -> Self {
+        Self::new(SchemaDeltaKind::FieldRem(field_name, position))
     }
 }
 
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 7df06cc..db20250 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -135,6 +135,26 @@ impl ModelData {
     pub fn model_mutator<'a>(&'a mut self) -> ModelMutator<'a> {
         ModelMutator { model: self }
     }
+    /// Returns the fields (in order of declaration) that this model had at the given schema version, or [`None`] if the
+    /// model never had such a version
+    ///
+    /// ## Safety
+    ///
+    /// The returned keys must not outlive the model
+    pub unsafe fn fields_at(&self, schema_version: DeltaVersion) -> Option<Vec<RawStr>> {
+        if schema_version > self.delta.schema_current_version() {
+            return None;
+        }
+        let mut fields: Vec<RawStr> = self.fields.stseq_ord_key().map(|f| f.clone()).collect();
+        // go back to the requested version, starting at the most recent change
+        for (_, delta) in self.delta.resolve_iter_since(schema_version).rev() {
+            match delta.kind() {
+                SchemaDeltaKind::FieldAdd(f) => fields.retain(|field| field.as_str() != f.as_str()),
+                SchemaDeltaKind::FieldRem(f, position) => fields.insert(*position, f.clone()),
+            }
+        }
+        Some(fields)
+    }
     fn sync_decl(&mut self) {
         self.decl = self.redescribe();
     }
@@ -473,11 +493,17 @@ impl<'a> ModelMutator<'a> {
     }
     pub fn remove_field(&mut self, name: &str) -> bool {
         // remove
+        let position = self
+            .model
+            .fields
+            .stseq_ord_key()
+            .position(|key| key.as_str() == name)
+            .unwrap_or_default();
         let r = self.model.fields.st_delete(name);
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
         // publish delta
-        self.model.delta.unresolved_append_field_rem(ptr);
+        self.model.delta.unresolved_append_field_rem(ptr, position);
         r
     }
     pub fn add_field(&mut self, name: Box<str>, field: Field) -> bool {
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 6870eda..4f7d468 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -512,6 +512,15 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
+        // the rows were written with the fields that the model had at this point, which need not be its current fields
+        let fields = unsafe {
+            // UNSAFE(@ohsayan): model in scope, we're good
+            m.fields_at(DeltaVersion::__new(batch_md.schema_version))
+        }
+        .ok_or(StorageError::DataBatchRestoreCorruptedBatch)?;
+        if fields.len() as u64 - 1 != batch_md.column_count {
+            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+        }
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
@@ -534,9 +543,8 @@ impl BatchAdapterSpec for ModelDataAdapter {
                         real_last_txn_id = txn_id;
                     }
                     let mut data = DcFieldIndex::default();
-                    for (field_name, new_data) in m
-                        .fields()
-                        .stseq_ord_key()
+                    for (field_name, new_data) in fields
+                        .iter()
                         .filter(|key| key.as_str() != m.p_key())
                         .zip(new_row)
                     {
-- 
2.43.0


From 1d5cf645faac72af4315929503a5706866e677a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 06/39] fix: the ordered index's owned iterator does not read
 nodes it has freed

---
 server/src/engine/idx/stord/iter.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/idx/stord/iter.rs b/server/src/engine/idx/stord/iter.rs
index c70d585..8ac0beb 100644
--- a/server/src/engine/idx/stord/iter.rs
+++ b/server/src/engine/idx/stord/iter.rs
@@ -303,9 +303,10 @@ impl<K, V> OrderedOwnedIteratorRaw<K, V> {
             unsafe {
                 // UNSAFE(@ohsayan): +nullck
                 let this = ptr::read(self.h);
+                let next = (*self.h).p;
                 // destroy this node
                 IndexSTSeqDllNode::dealloc_headless(self.h);
-                self.h = (*self.h).p;
+                self.h = next;
                 Some((this.k, this.v))
             }
         }
@@ -318,9 +319,17 @@ impl<K, V> OrderedOwnedIteratorRaw<K, V> {
             self.r -= 1;
             unsafe {
                 // UNSAFE(@ohsayan): +nullck
-                self.t = (*self.t).n;
-                let this = ptr::read(self.t);
-                IndexSTSeqDllNode::dealloc_headless(self.t);
+                let last = (*self.t).n;
+                let this = ptr::read(last);
+                if last == self.h {
+                    // that was the only node left
+                    self.h = self.t;
+                } else {
+                    // unlink; the neighbor is live since we didn't reach the front
+                    (*self.t).n = (*last).n;
+                    (*(*last).n).p = self.t;
+                }
+                IndexSTSeqDllNode::dealloc_headless(last);
                 Some((this.k, this.v))
             }
         }
-- 
2.43.0


From 88b55715300239c8f947f8a26dcf578e25e99bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 07/39] fix: do not look at freed rows while restoring a batch

---
 server/src/engine/storage/v2/impls/mdl_journal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 4f7d468..11c7e49 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -507,7 +507,8 @@ impl BatchAdapterSpec for ModelDataAdapter {
         /*
             go over each change in this batch, resolve conflicts and then apply to global state
         */
-        let g = unsafe { crossbeam_epoch::unprotected() };
+        // NB: we must pin because we look at rows that we have just removed
+        let g = pin();
         let mut pending_delete = HashMap::new();
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
-- 
2.43.0


From ced550155c1bfda261cb9c66e643ed39abedf6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 08/39] fix: update validates every new value against its field
 and undoes all assignments if one fails

---
 server/src/engine/core/dml/upd.rs   | 166 +++++++++++++++++++---------
 server/src/engine/core/model/mod.rs |   4 +
 2 files changed, 115 insertions(+), 55 deletions(-)

diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index d8af4f8..461b6f9 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -34,7 +34,7 @@ use {
             data::{
                 cell::Datacell,
                 lit::Lit,
-                tag::{DataTag, FloatSpec, SIntSpec, TagClass, UIntSpec},
+                tag::{DataTag, FloatSpec, FullTag, SIntSpec, TagClass, UIntSpec},
             },
             error::{QueryError, QueryResult},
             fractal::GlobalInstanceLike,
@@ -49,64 +49,70 @@ use {
 };
 
 #[inline(always)]
-unsafe fn dc_op_fail(_: &Datacell, _: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_fail(_: &Datacell, _: FullTag, _: Lit) -> (bool, Datacell) {
     (false, Datacell::null())
 }
 // bool
-unsafe fn dc_op_bool_ass(_: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_bool_ass(_: &Datacell, _: FullTag, rhs: Lit) -> (bool, Datacell) {
     (true, Datacell::new_bool(rhs.bool()))
 }
 // uint
-unsafe fn dc_op_uint_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_uint_ass(_: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let uint = rhs.uint();
-    let kind = UIntSpec::from_full(dc.tag());
+    let kind = UIntSpec::from_full(tag);
     (kind.check(uint), Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
+unsafe fn dc_op_uint_add(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
     let (uint, did_of) = dc.uint().overflowing_add(rhs.uint());
     (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_sub(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
+unsafe fn dc_op_uint_sub(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
     let (uint, did_of) = dc.uint().overflowing_sub(rhs.uint());
     (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
+unsafe fn dc_op_uint_mul(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
     let (uint, did_of) = dc.uint().overflowing_mul(rhs.uint());
     (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
 }
-unsafe fn dc_op_uint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = UIntSpec::from_full(dc.tag());
-    let (uint, did_of) = dc.uint().overflowing_div(rhs.uint());
-    (kind.check(uint) & !did_of, Datacell::new_uint(uint, kind))
+unsafe fn dc_op_uint_div(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = UIntSpec::from_full(tag);
+    match dc.uint().checked_div(rhs.uint()) {
+        Some(uint) => (kind.check(uint), Datacell::new_uint(uint, kind)),
+        // either a zero divisor or an overflow
+        None => dc_op_fail(dc, tag, rhs),
+    }
 }
 // sint
-unsafe fn dc_op_sint_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_sint_ass(_: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let sint = rhs.sint();
-    let kind = SIntSpec::from_full(dc.tag());
+    let kind = SIntSpec::from_full(tag);
     (kind.check(sint), Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
+unsafe fn dc_op_sint_add(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
     let (sint, did_of) = dc.sint().overflowing_add(rhs.sint());
     (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_sub(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
+unsafe fn dc_op_sint_sub(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
     let (sint, did_of) = dc.sint().overflowing_sub(rhs.sint());
     (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
+unsafe fn dc_op_sint_mul(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
     let (sint, did_of) = dc.sint().overflowing_mul(rhs.sint());
     (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
 }
-unsafe fn dc_op_sint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
-    let kind = SIntSpec::from_full(dc.tag());
-    let (sint, did_of) = dc.sint().overflowing_div(rhs.sint());
-    (kind.check(sint) & !did_of, Datacell::new_sint(sint, kind))
+unsafe fn dc_op_sint_div(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
+    let kind = SIntSpec::from_full(tag);
+    match dc.sint().checked_div(rhs.sint()) {
+        Some(sint) => (kind.check(sint), Datacell::new_sint(sint, kind)),
+        // either a zero divisor or an overflow
+        None => dc_op_fail(dc, tag, rhs),
+    }
 }
 /*
     float
@@ -118,73 +124,73 @@ unsafe fn dc_op_sint_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
     --
     TODO(@ohsayan): account for float32 overflow
 */
-unsafe fn dc_op_float_ass(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_ass(_: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let float = rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(float), Datacell::new_float(float, kind))
 }
-unsafe fn dc_op_float_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_add(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() + rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
-unsafe fn dc_op_float_sub(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_sub(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() - rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
-unsafe fn dc_op_float_mul(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_mul(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() * rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
-unsafe fn dc_op_float_div(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_float_div(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let result = dc.read_float() / rhs.float();
-    let kind = FloatSpec::from_full(dc.tag());
+    let kind = FloatSpec::from_full(tag);
     (kind.check(result), Datacell::new_float(result, kind))
 }
 // binary
-unsafe fn dc_op_bin_ass(_dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_bin_ass(_dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let new_bin = rhs.bin();
     let mut v = Vec::new();
     if v.try_reserve_exact(new_bin.len()).is_err() {
-        return dc_op_fail(_dc, rhs);
+        return dc_op_fail(_dc, tag, rhs);
     }
     v.extend_from_slice(new_bin);
     (true, Datacell::new_bin(v.into_boxed_slice()))
 }
-unsafe fn dc_op_bin_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_bin_add(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let push_into_bin = rhs.bin();
     let mut bin = Vec::new();
     if compiler::unlikely(bin.try_reserve_exact(push_into_bin.len()).is_err()) {
-        return dc_op_fail(dc, rhs);
+        return dc_op_fail(dc, tag, rhs);
     }
     bin.extend_from_slice(dc.read_bin());
     bin.extend_from_slice(push_into_bin);
     (true, Datacell::new_bin(bin.into_boxed_slice()))
 }
 // string
-unsafe fn dc_op_str_ass(_dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_str_ass(_dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let new_str = rhs.str();
     let mut v = String::new();
     if v.try_reserve_exact(new_str.len()).is_err() {
-        return dc_op_fail(_dc, rhs);
+        return dc_op_fail(_dc, tag, rhs);
     }
     v.push_str(new_str);
     (true, Datacell::new_str(v.into_boxed_str()))
 }
-unsafe fn dc_op_str_add(dc: &Datacell, rhs: Lit) -> (bool, Datacell) {
+unsafe fn dc_op_str_add(dc: &Datacell, tag: FullTag, rhs: Lit) -> (bool, Datacell) {
     let push_into_str = rhs.str();
     let mut str = String::new();
     if compiler::unlikely(str.try_reserve_exact(push_into_str.len()).is_err()) {
-        return dc_op_fail(dc, rhs);
+        return dc_op_fail(dc, tag, rhs);
     }
     str.push_str(dc.read_str());
     str.push_str(push_into_str);
     (true, Datacell::new_str(str.into_boxed_str()))
 }
 
-static OPERATOR: [unsafe fn(&Datacell, Lit) -> (bool, Datacell); {
+static OPERATOR: [unsafe fn(&Datacell, FullTag, Lit) -> (bool, Datacell); {
     TagClass::MAX_DSCR as usize * AssignmentOperator::VARIANT_COUNT
 }] = [
     // bool
@@ -228,6 +234,14 @@ static OPERATOR: [unsafe fn(&Datacell, Lit) -> (bool, Datacell); {
     dc_op_fail,
 ];
 
+/// How to undo an assignment
+enum UndoAssignment {
+    /// put the old value back
+    Restore(Datacell),
+    /// remove the element that was added to the list
+    ListPop,
+}
+
 #[inline(always)]
 const fn opc(opr: TagClass, ope: AssignmentOperator) -> usize {
     (AssignmentOperator::VARIANT_COUNT * opr.value_word()) + ope.value_word()
@@ -267,6 +281,8 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         let Some(row) = mdl.primary_index().select(key, &g) else {
             return Err(QueryError::QExecDmlRowNotFound);
         };
+        // make sure that the row has all the fields that the model has
+        drop(row.resolve_schema_deltas_and_freeze(mdl.delta_state()));
         // lock row
         let mut row_data_wl = row.d_data().write();
         // create new version
@@ -313,27 +329,55 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
                 (tag_a, tag_b)
                     if (tag_a == tag_b) & (tag_a < TagClass::List) & field_data.is_init() =>
                 {
-                    let (okay, new) = unsafe { OPERATOR[opc(tag_a, operator_fn)](field_data, rhs) };
-                    rollback_now &= !okay;
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, new)));
+                    let (okay, new) = unsafe {
+                        // NB: the type of the field decides the range; the existing cell might have been stored
+                        // when the field had another type
+                        OPERATOR[opc(tag_a, operator_fn)](
+                            field_data,
+                            field_definition.layers()[0].tag(),
+                            rhs,
+                        )
+                    };
                     input_trace("sametag;nonnull");
+                    if !okay {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
+                    rollback_data.push((
+                        lhs.as_str(),
+                        UndoAssignment::Restore(mem::replace(field_data, new)),
+                    ));
                 }
                 (tag_a, tag_b)
                     if (tag_a == tag_b)
                         & field_data.is_null()
                         & (operator_fn == AssignmentOperator::Assign) =>
                 {
-                    rollback_data.push((lhs.as_str(), mem::replace(field_data, rhs.into())));
+                    let mut new = rhs.into();
                     input_trace("sametag;orignull");
+                    if !field_definition.vt_data_fpath(&mut new) {
+                        rollback_now = true;
+                        ret = Err(QueryError::QExecDmlValidationError);
+                        break;
+                    }
+                    rollback_data.push((
+                        lhs.as_str(),
+                        UndoAssignment::Restore(mem::replace(field_data, new)),
+                    ));
                 }
-                (TagClass::List, tag_b) if operator_fn == AssignmentOperator::AddAssign => {
-                    if field_definition.layers()[1].tag().tag_class() == tag_b {
+                (TagClass::List, _)
+                    if (operator_fn == AssignmentOperator::AddAssign) & field_data.is_init() =>
+                {
+                    let mut new = rhs.into();
+                    if field_definition.vt_list_element(&mut new) {
                         unsafe {
                             // UNSAFE(@ohsayan): matched tags
                             let mut list = field_data.read_list().write();
                             if list.try_reserve(1).is_ok() {
                                 input_trace("list;sametag");
-                                list.push(rhs.into());
+                                list.push(new);
+                                rollback_data.push((lhs.as_str(), UndoAssignment::ListPop));
                             } else {
                                 rollback_now = true;
                                 ret = Err(QueryError::SysOutOfMemory);
@@ -357,10 +401,22 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         }
         if compiler::unlikely(rollback_now) {
             input_trace("rollback");
+            // NB: undo in the reverse order since a field may be assigned to more than once
             rollback_data
                 .into_iter()
-                .for_each(|(field_id, restored_data)| {
-                    row_data_wl.fields_mut().st_update(field_id, restored_data);
+                .rev()
+                .for_each(|(field_id, undo)| match undo {
+                    UndoAssignment::Restore(restored_data) => {
+                        row_data_wl.fields_mut().st_update(field_id, restored_data);
+                    }
+                    UndoAssignment::ListPop => {
+                        if let Some(list) = row_data_wl.fields().st_get(field_id) {
+                            unsafe {
+                                // UNSAFE(@ohsayan): we pushed to this list
+                                list.read_list().write().pop();
+                            }
+                        }
+                    }
                 });
         } else {
             // update revised tag
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index db20250..4fe2402 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -637,6 +637,10 @@ impl Field {
             Self::rvt_data(self.layers(), data)
         }
     }
+    /// Validate a value that is to be added to a list stored in this field
+    pub fn vt_list_element(&self, data: &mut Datacell) -> bool {
+        Self::rvt_data(&self.layers()[1..], data)
+    }
     fn rvt_data(layers: &[Layer], data: &mut Datacell) -> bool {
         let layer = layers[0];
         let layers = &layers[1..];
-- 
2.43.0


From 5a0766657ba1a04f8e8009015988539c4841e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 09/39] fix: an implicit primary key can not be nullable

---
 server/src/engine/core/model/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 4fe2402..0ab0fdc 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -289,8 +289,10 @@ impl ModelData {
                 // UNSAFE(@ohsayan): once again, all of this is allocated
                 fields.stseq_ord_key().next().unwrap().clone()
             });
-            let tag = fields.st_get(&last_pk).unwrap().layers()[0].tag;
-            if tag.tag_unique().is_unique() {
+            let pk_field = fields.st_get(&last_pk).unwrap();
+            let tag = pk_field.layers()[0].tag;
+            // NB: the null check is for when the first field is implicitly the primary key
+            if tag.tag_unique().is_unique() & !pk_field.is_nullable() {
                 return Ok(Self::new_with_private(
                     Uuid::new(),
                     last_pk,
-- 
2.43.0


From 6edb0b4ad16a7d891d5f3a4a1c881dd374550b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 10/39] fix: malformed packets and handshakes get an error
 reply instead of ending in a panic or overflow

A fragment that arrives when only a part of the packet is left is not
malformed, and a query window that does not fit into its packet is.
---
 server/src/engine/net/protocol/exchange.rs  | 20 +++++++++++--
 server/src/engine/net/protocol/handshake.rs | 32 +++++++++++++--------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 7522b97..54563f5 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -170,7 +170,6 @@ impl QExchangeState {
         new_buffer.len() >= self.target
     }
     fn resume<'a>(self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        debug_assert!(scanner.has_left(Self::MIN_READ));
         match self.state {
             QExchangeStateInternal::Initial => self.start_initial(scanner),
             QExchangeStateInternal::PendingMeta1 => self.resume_at_md1(scanner),
@@ -179,6 +178,7 @@ impl QExchangeState {
         }
     }
     fn start_initial<'a>(self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
+        debug_assert!(scanner.has_left(Self::MIN_READ));
         if unsafe { scanner.next_byte() } != b'S' {
             // has to be a simple query!
             return QExchangeResult::Error;
@@ -199,7 +199,13 @@ impl QExchangeState {
             Err(()) => return QExchangeResult::Error,
         };
         self.md_packet_size = packet_size;
-        self.target = scanner.cursor() + packet_size as usize;
+        self.target = match usize::try_from(packet_size)
+            .ok()
+            .and_then(|packet_size| scanner.cursor().checked_add(packet_size))
+        {
+            Some(target) => target,
+            None => return QExchangeResult::Error,
+        };
         // hand over control to md2
         self.resume_at_md2(scanner)
     }
@@ -207,6 +213,10 @@ impl QExchangeState {
         let q_window = match super::scan_int(scanner, self.md_q_window) {
             Ok(AccumlatorStatus::Completed(v)) => v,
             Ok(AccumlatorStatus::Pending(p)) => {
+                if scanner.cursor() >= self.target {
+                    // the packet ended before the query window did
+                    return QExchangeResult::Error;
+                }
                 self.md_q_window = p;
                 self.state = QExchangeStateInternal::PendingMeta2;
                 return QExchangeResult::ChangeState(self);
@@ -218,7 +228,11 @@ impl QExchangeState {
         self.resume_data(scanner)
     }
     fn resume_data<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        let df_size = self.target - scanner.cursor();
+        let df_size = match self.target.checked_sub(scanner.cursor()) {
+            Some(df_size) if self.md_q_window <= df_size as u64 => df_size,
+            // the query window doesn't fit into the packet
+            _ => return QExchangeResult::Error,
+        };
         if scanner.remaining() == df_size {
             unsafe {
                 QExchangeResult::SQCompleted(SQuery::new(
diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 29a798d..a1d5a97 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -305,15 +305,19 @@ impl<'a> CHandshake<'a> {
                 ProtocolError::RejectQueryMode,
                 ProtocolError::RejectAuth,
             ];
-            return HandshakeResult::Error(
-                ERROR[((invalid_first_byte as u8 * 1)
-                    | (invalid_hs_version as u8 * 2)
-                    | (invalid_proto_version as u8 * 3)
-                    | (invalid_exchange_mode as u8 * 4)
-                    | (invalid_query_mode as u8 * 5)
-                    | (invalid_auth_mode as u8) * 6) as usize
-                    - 1usize],
-            );
+            // report the first invalid field
+            let first_invalid = [
+                invalid_first_byte,
+                invalid_hs_version,
+                invalid_proto_version,
+                invalid_exchange_mode,
+                invalid_query_mode,
+                invalid_auth_mode,
+            ]
+            .iter()
+            .position(|invalid| *invalid)
+            .unwrap();
+            return HandshakeResult::Error(ERROR[first_invalid]);
         }
         // init header
         let static_header = CHandshakeStatic::new(
@@ -335,7 +339,11 @@ impl<'a> CHandshake<'a> {
         uname_l: usize,
         pwd_l: usize,
     ) -> HandshakeResult<'a> {
-        if scanner.has_left(uname_l + pwd_l) {
+        let payload_l = match uname_l.checked_add(pwd_l) {
+            Some(l) => l,
+            None => return HandshakeResult::Error(ProtocolError::CorruptedHSPacket),
+        };
+        if scanner.has_left(payload_l) {
             // we're done here
             return unsafe {
                 // UNSAFE(@ohsayan): we just checked buffered size
@@ -350,7 +358,7 @@ impl<'a> CHandshake<'a> {
                 uname_l,
                 pwd_l,
             },
-            expect: (uname_l + pwd_l),
+            expect: payload_l,
         }
     }
 }
@@ -402,7 +410,7 @@ impl<'a> CHandshake<'a> {
                 // newline missing (or maybe there's more?)
                 return HandshakeResult::ChangeState {
                     new_state: HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l },
-                    expect: uname_l + 2, // space for username + password len
+                    expect: uname_l.saturating_add(2), // space for username + password len
                 };
             }
             ScannerDecodeResult::Error => {
-- 
2.43.0


From 055b40f8d701766351b1fbc64de11082c7a3980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:19 +0000
Subject: [PATCH 11/39] fix: alter model locks spaces before models like every
 other DDL

---
 server/src/engine/core/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/mod.rs b/server/src/engine/core/mod.rs
index 40bc540..1dc5d64 100644
--- a/server/src/engine/core/mod.rs
+++ b/server/src/engine/core/mod.rs
@@ -132,11 +132,12 @@ impl GNSData {
     where
         F: FnOnce(&Space, &mut ModelData) -> QueryResult<T>,
     {
+        // NB: every DDL locks the spaces first and the models second
+        let space_read = self.idx.read();
         let mut mdl_idx = self.idx_mdl.write();
         let Some(model) = mdl_idx.get_mut(&entity) else {
             return Err(QueryError::QExecObjectNotFound);
         };
-        let space_read = self.idx.read();
         let space = space_read.get(entity.space()).unwrap();
         f(space, model.data_mut())
     }
-- 
2.43.0


From 2a41d36c40c4e928cce53485065bf90916416eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 12/39] fix: versions of a row's deltas reflect the order in
 which the row changed

Rows could come back, get lost or be outdated after a restart when a key was
inserted, updated and deleted concurrently.
---
 server/src/engine/core/dml/del.rs     | 19 ++++++++++++-------
 server/src/engine/core/dml/ins.rs     | 27 ++++++++++++++++++++++-----
 server/src/engine/core/dml/upd.rs     |  3 +++
 server/src/engine/core/index/row.rs   | 10 ++++++++++
 server/src/engine/core/model/delta.rs |  3 ++-
 5 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/core/dml/del.rs b/server/src/engine/core/dml/del.rs
index b40d7e6..696a646 100644
--- a/server/src/engine/core/dml/del.rs
+++ b/server/src/engine/core/dml/del.rs
@@ -46,14 +46,19 @@ pub fn delete(global: &impl GlobalInstanceLike, mut delete: DeleteStatement) ->
         let g = sync::atm::cpin();
         let delta_state = model.delta_state();
         let _idx_latch = model.primary_index().acquire_cd();
-        // create new version
-        let new_version = delta_state.create_new_data_delta_version();
-        match model
-            .primary_index()
-            .__raw_index()
-            .mt_delete_return_entry(&model.resolve_where(delete.clauses_mut())?, &g)
-        {
+        let key = model.resolve_where(delete.clauses_mut())?;
+        match model.primary_index().select(key.clone(), &g) {
             Some(row) => {
+                // lock row
+                let mut row_data_wl = row.d_data().write();
+                if row_data_wl.is_deleted() {
+                    return Err(QueryError::QExecDmlRowNotFound);
+                }
+                // create new version
+                let new_version = delta_state.create_new_data_delta_version();
+                // NB: stale deltas of this row must never be written
+                row_data_wl.set_deleted(new_version);
+                let _ = model.primary_index().__raw_index().mt_delete(&key, &g);
                 let dp = delta_state.append_new_data_delta_with(
                     DataDeltaKind::Delete,
                     row.clone(),
diff --git a/server/src/engine/core/dml/ins.rs b/server/src/engine/core/dml/ins.rs
index 307f81e..c15e403 100644
--- a/server/src/engine/core/dml/ins.rs
+++ b/server/src/engine/core/dml/ins.rs
@@ -29,7 +29,10 @@ use crate::engine::{
         self,
         dml::QueryExecMeta,
         index::{DcFieldIndex, PrimaryIndexKey, Row},
-        model::{delta::DataDeltaKind, ModelData},
+        model::{
+            delta::{DataDeltaKind, DeltaVersion},
+            ModelData,
+        },
     },
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -52,12 +55,26 @@ pub fn insert(global: &impl GlobalInstanceLike, insert: InsertStatement) -> Quer
         let _idx_latch = mdl.primary_index().acquire_cd();
         let g = cpin();
         let ds = mdl.delta_state();
-        // create new version
-        let new_version = ds.create_new_data_delta_version();
-        let row = Row::new(pk, data, ds.schema_current_version(), new_version);
+        let row = Row::new(
+            pk,
+            data,
+            ds.schema_current_version(),
+            DeltaVersion::genesis(),
+        );
+        // NB: no one gets to see this row before it has its version, so that the versions of a key reflect the order in which
+        // its index entry changed
+        let mut row_data_wl = row.d_data().write();
         if mdl.primary_index().__raw_index().mt_insert(row.clone(), &g) {
+            // create new version
+            let new_version = ds.create_new_data_delta_version();
+            row_data_wl.set_txn_revised(new_version);
             // append delta for new version
-            let dp = ds.append_new_data_delta_with(DataDeltaKind::Insert, row, new_version, &g);
+            let dp = ds.append_new_data_delta_with(
+                DataDeltaKind::Insert,
+                row.clone(),
+                new_version,
+                &g,
+            );
             Ok(QueryExecMeta::new(dp))
         } else {
             Err(QueryError::QExecDmlDuplicate)
diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index 461b6f9..80211fd 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -285,6 +285,9 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         drop(row.resolve_schema_deltas_and_freeze(mdl.delta_state()));
         // lock row
         let mut row_data_wl = row.d_data().write();
+        if row_data_wl.is_deleted() {
+            return Err(QueryError::QExecDmlRowNotFound);
+        }
         // create new version
         let ds = mdl.delta_state();
         let new_version = ds.create_new_data_delta_version();
diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index cebc90d..dac8a62 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -53,6 +53,7 @@ pub struct RowData {
     fields: DcFieldIndex,
     txn_revised_data: DeltaVersion,
     txn_revised_schema_version: DeltaVersion,
+    deleted: bool,
 }
 
 impl RowData {
@@ -68,6 +69,14 @@ impl RowData {
     pub fn get_txn_revised(&self) -> DeltaVersion {
         self.txn_revised_data
     }
+    /// mark the row as deleted by the given txn. (someone might have found it in the index just before it was deleted)
+    pub fn set_deleted(&mut self, txn: DeltaVersion) {
+        self.set_txn_revised(txn);
+        self.deleted = true;
+    }
+    pub fn is_deleted(&self) -> bool {
+        self.deleted
+    }
 }
 
 impl TreeElement for Row {
@@ -116,6 +125,7 @@ impl Row {
                     fields: data,
                     txn_revised_schema_version: schema_version,
                     txn_revised_data,
+                    deleted: false,
                 }))
             },
         }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 096ebf8..083c92a 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -63,8 +63,9 @@ impl DeltaState {
         }
     }
     pub fn __set_delta_version(&self, version: DeltaVersion) {
+        // NB: deltas aren't necessarily persisted in the order of their versions
         self.data_current_version
-            .store(version.value_u64(), Ordering::Relaxed)
+            .fetch_max(version.value_u64(), Ordering::Relaxed);
     }
 }
 
-- 
2.43.0


From 0d865a34bf94856fa27f75a13b5353f00dadf2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 13/39] fix: alter space keeps new maps instead of dropping
 them

This made the properties of a space differ after a restart.
---
 server/src/engine/data/dict.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index fe79c9b..7c0b90a 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -124,6 +124,7 @@ pub fn rmerge_data_with_patch(current: &mut DictGeneric, patch: DictGeneric) {
                 None => {
                     let mut new = DictGeneric::new();
                     rmerge_data_with_patch(&mut new, m);
+                    let _ = current.insert(key, DictEntryGeneric::Map(new));
                 }
             },
         }
-- 
2.43.0


From 86cd37779f3c4eceefad08d691af0469c555f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 14/39] fix: a journal event that fails is rolled back and can
 be retried

---
 .../storage/common/sdss/impls/sdss_r1/rw.rs   | 49 +++++++++++++++--
 .../engine/storage/v2/raw/journal/raw/mod.rs  | 52 +++++++++++++------
 2 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 11e4410..aa0d64d 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -348,6 +348,48 @@ impl<
     }
 }
 
+/// A point in the file (and the state at that point) which a [`TrackedWriter`] can return to
+#[derive(Debug, Clone)]
+pub struct TrackedWriterSavepoint {
+    cursor: u64,
+    checksum: SCrc64,
+    partial_checksum: SCrc64,
+}
+
+impl<
+        S: FileSpecV1,
+        const SIZE: usize,
+        const PANIC_IF_UNFLUSHED: bool,
+        const CHECKSUM_WRITTEN_IF_BLOCK_ERROR: bool,
+    > TrackedWriter<S, SIZE, PANIC_IF_UNFLUSHED, CHECKSUM_WRITTEN_IF_BLOCK_ERROR>
+{
+    /// Remember the current state so that all writes made from here on can be taken back
+    ///
+    /// NB: anything that is still buffered is flushed, so that the savepoint is a position in the file
+    pub fn savepoint(&mut self) -> IoResult<TrackedWriterSavepoint> {
+        if self.is_dirty() {
+            self.flush_buf()?;
+        }
+        Ok(TrackedWriterSavepoint {
+            cursor: self.t_cursor,
+            checksum: self.t_checksum.clone(),
+            partial_checksum: self.t_partial_checksum.clone(),
+        })
+    }
+    /// Take back everything that was written since the savepoint, whether it is in the buffer or (partly) in the file
+    ///
+    /// NB: If errored, this can (and must) be called again with the same savepoint
+    pub fn rollback(&mut self, savepoint: &TrackedWriterSavepoint) -> IoResult<()> {
+        self.buf.clear();
+        self.t_cursor = savepoint.cursor;
+        self.t_checksum = savepoint.checksum.clone();
+        self.t_partial_checksum = savepoint.partial_checksum.clone();
+        self.f_d.f_truncate(savepoint.cursor)?;
+        self.f_d.f_seek_start(savepoint.cursor)?;
+        self.f_d.fsync_all()
+    }
+}
+
 impl<
         S: FileSpecV1,
         const SIZE: usize,
@@ -460,7 +502,8 @@ impl<
     /// On error, if block error checksumming is set then whatever part of the block was written
     /// will be updated in the checksum. If disabled, then the checksum is unchanged.
     pub fn tracked_write(&mut self, buf: &[u8]) -> IoResult<()> {
-        let cursor_start = self.cursor_usize();
+        // NB: writing this block can flush blocks that were buffered (and hence checksummed) earlier
+        let expected_start = self.cursor_usize() + self.buf.len();
         match self.untracked_write(buf) {
             Ok(()) => {
                 self.t_checksum.update(buf);
@@ -468,8 +511,8 @@ impl<
             }
             Err(e) => {
                 if CHECKSUM_WRITTEN_IF_BLOCK_ERROR {
-                    let cursor_now = self.cursor_usize();
-                    self.t_checksum.update(&buf[..cursor_now - cursor_start]);
+                    let written = self.cursor_usize().saturating_sub(expected_start);
+                    self.t_checksum.update(&buf[..written]);
                 }
                 Err(e)
             }
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 6a53516..e24d363 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -35,7 +35,7 @@ use {
             storage::common::{
                 checksum::SCrc64,
                 sdss::sdss_r1::{
-                    rw::{SdssFile, TrackedReader, TrackedWriter},
+                    rw::{SdssFile, TrackedReader, TrackedWriter, TrackedWriterSavepoint},
                     FileSpecV1,
                 },
             },
@@ -475,6 +475,8 @@ pub struct RawJournalWriter<J: RawJournalAdapter> {
     txn_id: u64,
     known_txn_id: u64,
     known_txn_offset: u64, // if offset is 0, txn id is unset
+    /// set if an event failed and whatever was written for it could not be removed yet
+    pending_rollback: Option<TrackedWriterSavepoint>,
 }
 
 impl<J: RawJournalAdapter + fmt::Debug> fmt::Debug for RawJournalWriter<J>
@@ -502,6 +504,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
             known_txn_id: j_.last_txn_id(),
             known_txn_offset: j_.last_offset(),
             txn_id: j_.txn_id(),
+            pending_rollback: None,
             j: J::initialize(&j_),
         };
         if j_.is_new() {
@@ -566,18 +569,12 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     {
         self.commit_with_ctx(event, Default::default())
     }
-    /// WARNING: ONLY CALL AFTER A FAILURE EVENT. THIS WILL EMPTY THE UNFLUSHED BUFFER
+    /// WARNING: ONLY CALL AFTER A FAILURE EVENT. THIS WILL DISCARD WHATEVER WAS WRITTEN FOR THE FAILED EVENT
     pub fn __lwt_heartbeat(&mut self) -> RuntimeResult<()> {
+        // the on-disk file might have some partial state from the failed event; get rid of it
+        self.complete_rollback()?;
         // verify that the on disk cursor is the same as what we know
-        self.log_file.verify_cursor()?;
-        if self.log_file.cursor() == self.known_txn_offset {
-            // great, so if there was something in the buffer, simply ignore it
-            self.log_file.__zero_buffer();
-            Ok(())
-        } else {
-            // so, the on-disk file probably has some partial state. this is bad. throw an error
-            Err(StorageError::RawJournalRuntimeCriticalLwtHBFail.into())
-        }
+        e!(self.log_file.verify_cursor())
     }
 }
 
@@ -586,14 +583,34 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         &mut self,
         f: impl FnOnce(&mut Self, u128) -> RuntimeResult<T>,
     ) -> RuntimeResult<T> {
+        // nothing can be written after a partially written event
+        self.complete_rollback()?;
+        let savepoint = self.log_file.savepoint()?;
         let id = self.txn_id;
-        self.txn_id += 1;
-        let ret = f(self, id as u128);
-        if ret.is_ok() {
-            self.known_txn_id = id;
-            self.known_txn_offset = self.log_file.cursor();
+        match f(self, id as u128) {
+            Ok(ret) => {
+                self.txn_id += 1;
+                self.known_txn_id = id;
+                self.known_txn_offset = self.log_file.cursor();
+                Ok(ret)
+            }
+            Err(e) => {
+                // this event never happened, so nothing of it may remain (neither in the buffer, nor on disk)
+                self.pending_rollback = Some(savepoint);
+                if let Err(e) = self.complete_rollback() {
+                    error!("failed to roll back an unfinished journal event with error `{e}`");
+                }
+                Err(e)
+            }
+        }
+    }
+    /// Remove whatever was written for an event that failed (does nothing if the last event did not fail)
+    fn complete_rollback(&mut self) -> RuntimeResult<()> {
+        if let Some(savepoint) = self.pending_rollback.as_ref() {
+            self.log_file.rollback(savepoint)?;
+            self.pending_rollback = None;
         }
-        ret
+        Ok(())
     }
     /// Commit a new driver event
     fn _commit_driver_event(me: &mut Self, kind: DriverEventKind) -> RuntimeResult<()> {
@@ -616,6 +633,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
                 me.log_file.flush_sync()?;
             }
             me.log_file.tracked_write_through_buffer(&block)?;
+            me.log_file.fsync()?;
             jtrace_writer!(DriverEventCompleted);
             Ok(())
         })
-- 
2.43.0


From 9a4cd6078b8fb1441b3ab617c5ead827f6543225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 15/39] fix: open journals that were not closed and drop an
 unfinished last event; verify batches before applying them

---
 .../storage/common/sdss/impls/sdss_r1/rw.rs   |   5 +
 .../engine/storage/v2/impls/mdl_journal.rs    |  15 +-
 .../src/engine/storage/v2/raw/journal/mod.rs  |  84 +++++-----
 .../engine/storage/v2/raw/journal/raw/mod.rs  | 155 ++++++++++++++++--
 4 files changed, 191 insertions(+), 68 deletions(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index aa0d64d..62ce711 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -135,6 +135,11 @@ impl<S: FileSpecV1, F: FileWrite + FileWriteExt> SdssFile<S, F> {
         self.file.fsync_all()?;
         Ok(())
     }
+    /// Change the length of the file to `n` bytes, permanently
+    pub fn truncate_synced(&mut self, n: u64) -> IoResult<()> {
+        self.file.f_truncate(n)?;
+        self.file.fsync_all()
+    }
     /// Write a block followed by an explicit fsync call
     pub fn fsynced_write(&mut self, data: &[u8]) -> IoResult<()> {
         self.file.fwrite_all(data)?;
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 11c7e49..c8a3352 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -533,12 +533,9 @@ impl BatchAdapterSpec for ModelDataAdapter {
                             the delta diff algorithm statically guarantees this.
                         */
                         let row_txn_revised = row.read().get_txn_revised();
-                        assert!(
-                            row_txn_revised.value_u64() == 0 || row_txn_revised < txn_id,
-                            "revised ID is {} but our row has version {}",
-                            row.read().get_txn_revised().value_u64(),
-                            txn_id.value_u64()
-                        );
+                        if row_txn_revised.value_u64() != 0 && row_txn_revised >= txn_id {
+                            return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                        }
                     }
                     if txn_id > real_last_txn_id {
                         real_last_txn_id = txn_id;
@@ -661,6 +658,9 @@ mod restore_impls {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = u64::from_le_bytes(f.read_block()?);
+                if f.remaining() < len {
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 f.read(&mut data)?;
                 if pk_type == TagUnique::Str {
@@ -733,6 +733,9 @@ mod restore_impls {
             self.read_next_block().map(u64::from_le_bytes)
         }
         unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
+            if !self.has_remaining(size) {
+                return Err(ErrorHack::from(()));
+            }
             let mut buf = vec![0; size];
             self.read(&mut buf)?;
             Ok(buf)
diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 230849d..948a146 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -98,7 +98,9 @@ impl<EL: EventLogSpec> RawJournalAdapter for EventLogAdapter<EL> {
     }
     fn enter_context<'a>(_: &'a mut RawJournalWriter<Self>) -> Self::Context<'a> {}
     fn parse_event_meta(meta: u64) -> Option<Self::EventMeta> {
-        <<EL as EventLogSpec>::EventMeta as TaggedEnum>::try_from_raw(meta as u8)
+        u8::try_from(meta)
+            .ok()
+            .and_then(<<EL as EventLogSpec>::EventMeta as TaggedEnum>::try_from_raw)
     }
     fn commit_direct<'a, E>(
         &mut self,
@@ -130,6 +132,9 @@ impl<EL: EventLogSpec> RawJournalAdapter for EventLogAdapter<EL> {
     ) -> RuntimeResult<()> {
         let expected_checksum = u64::from_le_bytes(file.read_block()?);
         let plen = u64::from_le_bytes(file.read_block()?);
+        if !file.has_left(plen) {
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
         let mut pl = vec![0; plen as usize];
         file.tracked_read(&mut pl)?;
         let mut this_checksum = SCrc64::new();
@@ -241,7 +246,9 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
     }
     fn enter_context<'a>(_: &'a mut RawJournalWriter<Self>) -> Self::Context<'a> {}
     fn parse_event_meta(meta: u64) -> Option<Self::EventMeta> {
-        <<BA as BatchAdapterSpec>::BatchType as TaggedEnum>::try_from_raw(meta as u8)
+        u8::try_from(meta)
+            .ok()
+            .and_then(<<BA as BatchAdapterSpec>::BatchType as TaggedEnum>::try_from_raw)
     }
     fn commit_direct<'a, E>(
         &mut self,
@@ -262,53 +269,42 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
         f: &mut TrackedReader<Self::Spec>,
     ) -> RuntimeResult<()> {
         let mut f = f.context();
-        {
-            // get metadata
-            // read batch size
-            let _stored_expected_commit_size = u64::from_le_bytes(f.read_block()?);
-            // read custom metadata
-            let batch_md = <BA as BatchAdapterSpec>::decode_batch_metadata(gs, &mut f, meta)?;
-            // now read in every event
-            let mut real_commit_size = 0;
-            let mut batch_state = <BA as BatchAdapterSpec>::initialize_batch_state(gs);
-            loop {
-                if real_commit_size == _stored_expected_commit_size {
-                    break;
-                }
-                let event_type = <<BA as BatchAdapterSpec>::EventType as TaggedEnum>::try_from_raw(
-                    f.read_block().map(|[b]| b)?,
-                )
-                .ok_or(StorageError::RawJournalCorrupted)?;
-                // is this an early exit marker? if so, exit
-                if <BA as BatchAdapterSpec>::is_early_exit(&event_type) {
-                    break;
-                }
-                // update batch state
-                BA::update_state_for_new_event(
-                    gs,
-                    &mut batch_state,
-                    &mut f,
-                    &batch_md,
-                    event_type,
-                )?;
-                real_commit_size += 1;
+        // get metadata
+        // read batch size
+        let _stored_expected_commit_size = u64::from_le_bytes(f.read_block()?);
+        // read custom metadata
+        let batch_md = <BA as BatchAdapterSpec>::decode_batch_metadata(gs, &mut f, meta)?;
+        // now read in every event
+        let mut real_commit_size = 0;
+        let mut batch_state = <BA as BatchAdapterSpec>::initialize_batch_state(gs);
+        loop {
+            if real_commit_size == _stored_expected_commit_size {
+                break;
             }
-            // read actual commit size
-            let _stored_actual_commit_size = u64::from_le_bytes(f.read_block()?);
-            if _stored_actual_commit_size == real_commit_size {
-                // finish applying batch
-                BA::finish(batch_state, batch_md, gs)?;
-            } else {
-                return Err(StorageError::RawJournalCorrupted.into());
+            let event_type = <<BA as BatchAdapterSpec>::EventType as TaggedEnum>::try_from_raw(
+                f.read_block().map(|[b]| b)?,
+            )
+            .ok_or(StorageError::RawJournalCorrupted)?;
+            // is this an early exit marker? if so, exit
+            if <BA as BatchAdapterSpec>::is_early_exit(&event_type) {
+                break;
             }
+            // update batch state
+            BA::update_state_for_new_event(gs, &mut batch_state, &mut f, &batch_md, event_type)?;
+            real_commit_size += 1;
         }
-        // and finally, verify checksum
+        // read actual commit size
+        let _stored_actual_commit_size = u64::from_le_bytes(f.read_block()?);
+        if _stored_actual_commit_size != real_commit_size {
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
+        // verify checksum (nothing may be applied before we have done this)
         let (real_checksum, file) = f.finish();
         let stored_checksum = u64::from_le_bytes(file.read_block()?);
-        if real_checksum == stored_checksum {
-            Ok(())
-        } else {
-            Err(StorageError::RawJournalCorrupted.into())
+        if real_checksum != stored_checksum {
+            return Err(StorageError::RawJournalCorrupted.into());
         }
+        // and finally, apply the batch
+        BA::finish(batch_state, batch_md, gs)
     }
 }
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index e24d363..9baf54f 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -30,7 +30,7 @@ mod tests;
 use {
     crate::{
         engine::{
-            error::StorageError,
+            error::{ErrorKind, StorageError},
             mem::unsafe_apis::memcpy,
             storage::common::{
                 checksum::SCrc64,
@@ -651,8 +651,58 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     }
 }
 
+/// Check if the journal (with the given tail, starting at the given offset) ends with a close event
+fn is_closed_tail(tail: &[u8], tail_offset: u64) -> bool {
+    let Some(at) = tail.len().checked_sub(DriverEvent::FULL_EVENT_SIZE) else {
+        return false;
+    };
+    let mut block = [0u8; DriverEvent::FULL_EVENT_SIZE];
+    block.copy_from_slice(&tail[at..]);
+    match DriverEvent::decode(block) {
+        Some(ev) => {
+            // NB: if it is the very first thing in the tail then it is the event that couldn't be read
+            at != 0
+                && ev.event == DriverEventKind::Closed
+                && ev.last_offset == tail_offset + at as u64
+        }
+        None => false,
+    }
+}
+
+/// Check if an event with the given ID starts anywhere within the given tail (except for the very beginning)
+fn has_event(tail: &[u8], txn_id: u64) -> bool {
+    const MAX_SERVER_EV_MD: u64 = u8::MAX as u64;
+    let id = (txn_id as u128).to_le_bytes();
+    for at in 1..tail.len() {
+        let Some(header) = tail.get(at..at + DriverEvent::OFFSET_1_EVENT_KIND.end) else {
+            break;
+        };
+        if header[DriverEvent::OFFSET_0_TXN_ID] != id {
+            continue;
+        }
+        let mut md = [0; sizeof!(u64)];
+        md.copy_from_slice(&header[DriverEvent::OFFSET_1_EVENT_KIND]);
+        let md = u64::from_le_bytes(md);
+        if (md & SERVER_EV_MASK != 0) & (md & !SERVER_EV_MASK <= MAX_SERVER_EV_MD) {
+            return true;
+        }
+        if let Some(driver_event) = tail.get(at..at + DriverEvent::FULL_EVENT_SIZE) {
+            let mut block = [0u8; DriverEvent::FULL_EVENT_SIZE];
+            block.copy_from_slice(driver_event);
+            if DriverEvent::decode(block).is_some() {
+                return true;
+            }
+        }
+    }
+    false
+}
+
 pub struct RawJournalReader<J: RawJournalAdapter> {
     tr: TrackedReader<<J as RawJournalAdapter>::Spec>,
+    /// where the last event ended
+    boundary: u64,
+    /// checksum of everything upto the last event
+    boundary_checksum: SCrc64,
     txn_id: u64,
     last_txn_id: u64,
     last_txn_offset: u64,
@@ -687,19 +737,79 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
         jtrace_reader!(Initialized);
         let mut me = Self::new(reader, 0, 0, 0, 0);
         loop {
-            if me._apply_next_event_and_stop(gs)? {
-                jtrace_reader!(Completed);
-                let initializer = JournalInitializer::new(
-                    me.tr.cursor(),
-                    me.tr.checksum(),
-                    me.txn_id,
-                    // NB: the last txn offset is important because it indicates that the log is new
-                    me.last_txn_offset,
-                );
-                let file = me.tr.into_inner();
-                return Ok((initializer, file));
+            if me.tr.is_eof() {
+                // the log simply ends after the last event, without being closed; we were probably killed
+                warn!("journal was not closed properly");
+                return Ok(me.complete());
             }
+            match me._apply_next_event_and_stop(gs) {
+                Ok(false) => {}
+                Ok(true) => {
+                    jtrace_reader!(Completed);
+                    return Ok(me.complete());
+                }
+                Err(e) => return me.try_recover_torn_tail(e),
+            }
+        }
+    }
+    fn complete(self) -> (JournalInitializer, SdssFile<J::Spec>) {
+        let initializer = JournalInitializer::new(
+            self.tr.cursor(),
+            self.tr.checksum(),
+            self.txn_id,
+            // NB: the last txn offset is important because it indicates that the log is new
+            self.last_txn_offset,
+        );
+        (initializer, self.tr.into_inner())
+    }
+    /// If the last event in the log was never completely written (because of a crash), then remove what is there of it
+    ///
+    /// Since an event is always synced before the next one is written, this is the case only if the event that we failed to
+    /// read is the very last one. Otherwise, the log was damaged after it was written.
+    fn try_recover_torn_tail(
+        self,
+        e: crate::engine::fractal::error::Error,
+    ) -> RuntimeResult<(JournalInitializer, SdssFile<J::Spec>)> {
+        let is_decode_error = match e.kind() {
+            ErrorKind::Storage(
+                StorageError::RawJournalCorrupted
+                | StorageError::RawJournalEventCorrupted
+                | StorageError::RawJournalEventCorruptedMetadata
+                | StorageError::RawJournalInvalidEvent
+                | StorageError::DataBatchRestoreCorruptedEntry,
+            ) => true,
+            // unexpected end of file (see the tracked reader)
+            ErrorKind::IoError(e) => e.kind() == std::io::ErrorKind::InvalidInput,
+            _ => false,
+        };
+        if !is_decode_error {
+            return Err(e);
         }
+        let Self {
+            tr,
+            txn_id,
+            last_txn_offset,
+            boundary,
+            boundary_checksum,
+            ..
+        } = self;
+        let mut file = tr.into_inner();
+        file.seek_from_start(boundary)?;
+        let tail = file.read_full()?;
+        if is_closed_tail(&tail, boundary) || has_event(&tail, txn_id + 1) {
+            // this is not the last event
+            return Err(e);
+        }
+        warn!(
+            "journal was not closed properly. discarding {} bytes of an unfinished event",
+            tail.len()
+        );
+        file.truncate_synced(boundary)?;
+        file.seek_from_start(boundary)?;
+        Ok((
+            JournalInitializer::new(boundary, boundary_checksum, txn_id, last_txn_offset),
+            file,
+        ))
     }
     fn new(
         reader: TrackedReader<<J as RawJournalAdapter>::Spec>,
@@ -709,6 +819,8 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
         last_txn_checksum: u64,
     ) -> Self {
         Self {
+            boundary: reader.cursor(),
+            boundary_checksum: reader.checksum(),
             tr: reader,
             txn_id,
             last_txn_id,
@@ -721,6 +833,8 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
         me.last_txn_id = me.txn_id;
         me.last_txn_checksum = me.tr.current_checksum();
         me.last_txn_offset = me.tr.cursor();
+        me.boundary = me.tr.cursor();
+        me.boundary_checksum = me.tr.checksum();
         me.txn_id += 1;
     }
 }
@@ -785,12 +899,14 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
                     ..
                 },
             ) => ev,
-            Some(DriverEvent {
-                event: DriverEventKind::Reopened,
-                ..
-            }) => {
-                jtrace_reader!(ErrExpectedCloseGotReopen);
-                return Err(StorageError::RawJournalInvalidEvent.into());
+            Some(
+                ev @ DriverEvent {
+                    event: DriverEventKind::Reopened,
+                    ..
+                },
+            ) => {
+                // the log was not closed before it was reopened
+                return self.apply_reopen(ev);
             }
             None => return Err(StorageError::RawJournalEventCorrupted.into()),
         };
@@ -827,6 +943,9 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
             Some(ev) if ev.event == DriverEventKind::Reopened => ev,
             None | Some(_) => return Err(StorageError::RawJournalEventCorrupted.into()),
         };
+        self.apply_reopen(reopen_event)
+    }
+    fn apply_reopen(&mut self, reopen_event: DriverEvent) -> RuntimeResult<bool> {
         jtrace_reader!(DriverEventExpectingReopenGotReopen);
         let valid_meta = okay! {
             self.last_txn_checksum == reopen_event.last_checksum,
-- 
2.43.0


From 488ffd19da4ecd3a4d74f8778069c18598d2286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 16/39] fix: a drop space that fails has no effect

---
 server/src/engine/core/space.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index 30c3174..5411977 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -245,7 +245,8 @@ impl Space {
                 .state()
                 .namespace()
                 .ddl_with_all_mut(|spaces, models| {
-                    let Some(space) = spaces.remove(space_name.as_str()) else {
+                    // NB: nothing may be removed until the txn has been committed
+                    let Some(space) = spaces.get(space_name.as_str()) else {
                         if if_exists {
                             return Ok(Some(false));
                         } else {
@@ -255,7 +256,7 @@ impl Space {
                     // commit drop
                     // prepare txn
                     let txn =
-                        txn::gns::space::DropSpaceTxn::new(SpaceIDRef::new(&space_name, &space));
+                        txn::gns::space::DropSpaceTxn::new(SpaceIDRef::new(&space_name, space));
                     // commit txn
                     global.state().gns_driver().driver_context(
                         global,
@@ -266,6 +267,7 @@ impl Space {
                     global.taskmgr_post_standard_priority(Task::new(
                         GenericTask::delete_space_dir(&space_name, space.get_uuid()),
                     ));
+                    let space = spaces.remove(space_name.as_str()).unwrap();
                     for model in space.models.into_iter() {
                         let e: EntityIDRef<'static> = unsafe {
                             // UNSAFE(@ohsayan): I want to try what the borrow checker has been trying
@@ -279,7 +281,6 @@ impl Space {
                             global.health().report_removal_of_faulty_source();
                         }
                     }
-                    let _ = spaces.st_delete(space_name.as_str());
                     if if_exists {
                         Ok(Some(true))
                     } else {
-- 
2.43.0


From 3f5eb41b172e3325a29521ee51c93f2e9070cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 17/39] fix: changes in a batch that could not be written stay
 pending until the driver has recovered

---
 server/src/engine/core/model/delta.rs         |  27 ++
 server/src/engine/core/model/mod.rs           |   8 +-
 server/src/engine/fractal/drivers.rs          |  13 +-
 server/src/engine/fractal/mgr.rs              | 353 +++++++++++-------
 server/src/engine/fractal/mod.rs              |  30 +-
 .../engine/storage/v2/impls/mdl_journal.rs    |  34 +-
 .../engine/storage/v2/raw/journal/raw/mod.rs  |   4 +
 7 files changed, 301 insertions(+), 168 deletions(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 083c92a..ddf519c 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -97,6 +97,13 @@ impl DeltaState {
         self.data_deltas.blocking_enqueue(delta, g);
         self.data_deltas_size.fetch_add(1, Ordering::Release) + 1
     }
+    /// Put back a delta that was dequeued, but could not be persisted
+    ///
+    /// NB: this is not a new delta and hence it doesn't contribute to the size; use [`Self::__fractal_restore_to_data_delta`]
+    /// to restore the size that was taken
+    pub fn requeue_data_delta(&self, delta: DataDelta, g: &Guard) {
+        self.data_deltas.blocking_enqueue(delta, g);
+    }
     pub fn create_new_data_delta_version(&self) -> DeltaVersion {
         DeltaVersion(self.__data_delta_step())
     }
@@ -152,6 +159,26 @@ impl DeltaState {
     pub fn __fractal_take_full_from_data_delta(&self, _token: FractalToken) -> usize {
         self.data_deltas_size.swap(0, Ordering::AcqRel)
     }
+    /// Return a size that was obtained from [`Self::__fractal_take_full_from_data_delta`] because that many deltas are still
+    /// pending
+    pub fn __fractal_restore_to_data_delta(&self, size: usize, _token: FractalToken) {
+        self.data_deltas_size.fetch_add(size, Ordering::AcqRel);
+    }
+    /// Recount all the pending deltas
+    ///
+    /// NB: only call if no one else can access this model
+    pub fn __fractal_recount_data_delta(&self, g: &Guard, _token: FractalToken) -> usize {
+        let mut pending = Vec::new();
+        while let Some(delta) = self.__data_delta_dequeue(g) {
+            pending.push(delta);
+        }
+        let size = pending.len();
+        for delta in pending {
+            self.requeue_data_delta(delta, g);
+        }
+        self.data_deltas_size.store(size, Ordering::Release);
+        size
+    }
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 0ab0fdc..f753835 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -421,7 +421,13 @@ impl ModelData {
                     model.data().get_uuid(),
                 );
                 // update global state
-                let _ = models_idx.remove(&EntityIDRef::new(&space_name, &model_name));
+                if let Some(model) = models_idx.remove(&EntityIDRef::new(&space_name, &model_name))
+                {
+                    if model.driver().status().is_iffy() {
+                        // this driver had a fault but it's being purged anyway so update global status
+                        global.health().report_removal_of_faulty_source();
+                    }
+                }
                 let _ = space.models_mut().remove(model_name);
                 if stmt.if_exists {
                     Ok(Some(true))
diff --git a/server/src/engine/fractal/drivers.rs b/server/src/engine/fractal/drivers.rs
index 560d5c8..a271512 100644
--- a/server/src/engine/fractal/drivers.rs
+++ b/server/src/engine/fractal/drivers.rs
@@ -64,12 +64,19 @@ impl FractalGNSDriver {
             return Err(QueryError::SysServerError);
         }
         let mut txn_driver = self.txn_driver.lock();
+        if self.status.is_iffy() {
+            // NB: it might have failed while we were waiting for the lock
+            return Err(QueryError::SysServerError);
+        }
         match f(&mut txn_driver) {
             Ok(v) => Ok(v),
             Err(e) => compiler::cold_call(|| {
                 self.status.set_iffy();
                 g.health().report_fault();
-                on_failure();
+                if !txn_driver.has_pending_rollback() {
+                    // NB: otherwise the event might still be on disk, so we can't let go of whatever it refers to
+                    on_failure();
+                }
                 g.taskmgr_post_high_priority(Task::new(CriticalTask::CheckGNSDriver));
                 error!("GNS driver failed with: {e}");
                 Err(QueryError::SysServerError)
@@ -114,7 +121,7 @@ impl FractalModelDriver {
     pub fn batch_driver(&self) -> &Mutex<Option<ModelDriver>> {
         &self.batch_driver
     }
-    pub fn close(self) -> RuntimeResult<()> {
-        ModelDriver::close_driver(&mut self.batch_driver.into_inner().unwrap())
+    pub fn close(&self) -> RuntimeResult<()> {
+        ModelDriver::close_driver(self.batch_driver.lock().as_mut().unwrap())
     }
 }
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 71fb33c..85e251c 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -29,20 +29,21 @@ use {
     crate::{
         engine::{
             core::{
-                model::{delta::DataDelta, ModelData},
+                model::{delta::DataDelta, Model, ModelData},
                 EntityIDRef,
             },
             data::uuid::Uuid,
-            error::ErrorKind,
             fractal::GlobalInstanceLike,
             storage::{
                 safe_interfaces::{paths_v1, StdModelBatch},
-                BatchStats,
+                BatchStats, ModelDriver,
             },
+            RuntimeResult,
         },
         util::os,
     },
-    std::{path::PathBuf, time::Duration},
+    crossbeam_epoch::pin,
+    std::{io::ErrorKind as IoErrorKind, mem, path::PathBuf, time::Duration},
     tokio::{
         fs,
         sync::{
@@ -50,12 +51,13 @@ use {
             mpsc::{UnboundedReceiver, UnboundedSender},
         },
         task::JoinHandle,
+        time::Instant,
     },
 };
 
 pub const GENERAL_EXECUTOR_WINDOW: u64 = 5 * 60;
 const TASK_THRESHOLD: usize = 10;
-const TASK_FAILURE_SLEEP_DURATION: u64 = 30;
+const TASK_FAILURE_SLEEP_DURATION: Duration = Duration::from_secs(30);
 
 /// A task for the [`FractalMgr`] to perform
 #[derive(Debug)]
@@ -77,10 +79,9 @@ impl<T> Task<T> {
     pub fn into_task(self) -> T {
         self.task
     }
-    async fn sleep(&self) {
-        if self.threshold != TASK_THRESHOLD {
-            tokio::time::sleep(Duration::from_secs(TASK_FAILURE_SLEEP_DURATION)).await
-        }
+    /// Returns true if this task failed before (and hence must wait for some time)
+    fn is_retry(&self) -> bool {
+        self.threshold != TASK_THRESHOLD
     }
 }
 
@@ -167,19 +168,19 @@ impl FractalMgr {
     }
     /// Add a high priority task to the queue
     ///
-    /// ## Panics
-    ///
-    /// This will panic if the high priority executor has crashed or exited
+    /// NB: If the executor has exited (which it does only if we're terminating), then the task is ignored
     pub fn post_high_priority(&self, task: Task<CriticalTask>) {
-        self.hp_dispatcher.send(task).unwrap()
+        if self.hp_dispatcher.send(task).is_err() {
+            warn!("fhp: ignoring task because the executor service has exited");
+        }
     }
     /// Add a low priority task to the queue
     ///
-    /// ## Panics
-    ///
-    /// This will panic if the low priority executor has crashed or exited
+    /// NB: If the executor has exited (which it does only if we're terminating), then the task is ignored
     pub fn post_low_priority(&self, task: Task<GenericTask>) {
-        self.general_dispatcher.send(task).unwrap()
+        if self.general_dispatcher.send(task).is_err() {
+            warn!("flp: ignoring task because the executor service has exited");
+        }
     }
 }
 
@@ -268,50 +269,56 @@ impl FractalMgr {
         mut receiver: UnboundedReceiver<Task<CriticalTask>>,
         mut sigterm: broadcast::Receiver<()>,
     ) {
+        // tasks that failed and have to be run again after some time
+        let mut retries = Vec::new();
+        let mut retry_at = Instant::now();
         loop {
-            let task = tokio::select! {
+            tokio::select! {
                 task = receiver.recv() => {
                     match task {
-                        Some(t) => {
-                            t.sleep().await;
-                            t
-                        },
+                        Some(task) if task.is_retry() => {
+                            if retries.is_empty() {
+                                retry_at = Instant::now() + TASK_FAILURE_SLEEP_DURATION;
+                            }
+                            retries.push(task);
+                        }
+                        Some(task) => self.hp_execute_blocking(&global, task).await,
                         None => {
                             info!("fhp: exiting executor service because all tasks closed");
                             break;
                         }
                     }
                 }
+                _ = tokio::time::sleep_until(retry_at), if !retries.is_empty() => {
+                    for task in mem::take(&mut retries) {
+                        self.hp_execute_blocking(&global, task).await
+                    }
+                }
                 _ = sigterm.recv() => {
                     info!("fhp: finishing pending tasks");
+                    for task in mem::take(&mut retries) {
+                        self.hp_execute_blocking(&global, task).await
+                    }
                     while let Ok(task) = receiver.try_recv() {
-                        let global = global.clone();
-                        tokio::task::spawn_blocking(move || self.hp_executor(global, task)).await.unwrap()
+                        if !task.is_retry() {
+                            // NB: if a task has just failed then we will try once again when all drivers are closed
+                            self.hp_execute_blocking(&global, task).await
+                        }
                     }
                     info!("fhp: exited executor service");
                     break;
                 }
             };
-            let global = global.clone();
-            tokio::task::spawn_blocking(move || self.hp_executor(global, task))
-                .await
-                .unwrap()
         }
     }
-    #[cold]
-    #[inline(never)]
-    fn re_enqueue_model_sync(
-        &self,
-        model_id: ModelUniqueID,
-        observed_size: usize,
-        stats: BatchStats,
-        threshold: usize,
+    async fn hp_execute_blocking(
+        &'static self,
+        global: &super::Global,
+        task: Task<CriticalTask>,
     ) {
-        self.hp_dispatcher
-            .send(Task::with_threshold(
-                CriticalTask::WriteBatch(model_id, observed_size - stats.get_actual()),
-                threshold,
-            ))
+        let global = global.clone();
+        tokio::task::spawn_blocking(move || self.hp_executor(global, task))
+            .await
             .unwrap()
     }
     fn hp_executor(
@@ -323,13 +330,8 @@ impl FractalMgr {
         match task {
             CriticalTask::CheckGNSDriver => {
                 info!("trying to autorecover GNS driver");
-                match global
-                    .state()
-                    .gns_driver()
-                    .txn_driver
-                    .lock()
-                    .__lwt_heartbeat()
-                {
+                let mut txn_driver = global.state().gns_driver().txn_driver.lock();
+                match txn_driver.__lwt_heartbeat() {
                     Ok(()) => {
                         info!("GNS driver has been successfully auto-recovered");
                         global.state().gns_driver().status().set_okay();
@@ -337,9 +339,10 @@ impl FractalMgr {
                     }
                     Err(e) => {
                         error!("failed to autorecover GNS driver with error `{e}`. will try again");
-                        self.hp_dispatcher
-                            .send(Task::new(CriticalTask::CheckGNSDriver))
-                            .unwrap();
+                        self.post_high_priority(Task::with_threshold(
+                            CriticalTask::CheckGNSDriver,
+                            Self::adjust_threshold(threshold),
+                        ));
                     }
                 }
             }
@@ -355,7 +358,11 @@ impl FractalMgr {
                     Some(mdl) if mdl.data().get_uuid() == mdl_id.uuid() => {
                         let mut drv = mdl.driver().batch_driver().lock();
                         let drv = drv.as_mut().unwrap();
-                        match drv.__lwt_heartbeat() {
+                        // we're only good if we can now write whatever is pending
+                        match drv
+                            .__lwt_heartbeat()
+                            .and_then(|_| Self::write_pending(mdl.data(), drv))
+                        {
                             Ok(()) => {
                                 mdl.driver().status().set_okay();
                                 global.health().report_recovery();
@@ -363,9 +370,10 @@ impl FractalMgr {
                             }
                             Err(e) => {
                                 error!("failed to autorecover {mdl_id} with {e}. will try again");
-                                self.hp_dispatcher
-                                    .send(Task::new(CriticalTask::TryModelAutorecoverLWT(mdl_id)))
-                                    .unwrap()
+                                self.post_high_priority(Task::with_threshold(
+                                    CriticalTask::TryModelAutorecoverLWT(mdl_id),
+                                    Self::adjust_threshold(threshold),
+                                ));
                             }
                         }
                     }
@@ -386,28 +394,22 @@ impl FractalMgr {
                     }
                 };
                 match self.try_write_model_data_batch(
+                    &global,
                     ModelUniqueIDRef::from(&model_id),
-                    mdl.data(),
+                    mdl,
                     observed_size,
-                    mdl.driver(),
                 ) {
                     Ok(()) => {
                         if observed_size != 0 {
                             info!("fhp: completed maintenance task for {model_id}, synced={observed_size}")
                         }
                     }
-                    Err((err, stats)) => {
+                    Err(err) => {
+                        // NB: this will be retried once the driver is recovered
                         error!(
-                            "fhp: failed to sync data deltas for model {} with {err}. retrying ...",
+                            "fhp: failed to sync data deltas for model {} with {err}",
                             model_id.uuid()
                         );
-                        // enqueue again for retrying
-                        self.re_enqueue_model_sync(
-                            model_id,
-                            observed_size,
-                            stats,
-                            Self::adjust_threshold(threshold),
-                        )
                     }
                 }
             }
@@ -425,62 +427,87 @@ impl FractalMgr {
         rs_window: u64,
     ) {
         let dur = std::time::Duration::from_secs(rs_window);
+        let mut flush_at = Instant::now() + dur;
+        // tasks that failed and have to be run again after some time
+        let mut retries = Vec::new();
+        let mut retry_at = Instant::now();
         loop {
             tokio::select! {
                 _ = sigterm.recv() => {
                     info!("flp: finishing any pending maintenance tasks");
                     let global = global.clone();
                     tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap();
+                    while let Ok(Task { task, .. }) = lpq.try_recv() {
+                        let _ = Self::run_generic_task(&task).await;
+                    }
                     info!("flp: exited executor service");
                     break;
                 },
-                _ = tokio::time::sleep(dur) => {
+                // NB: neither of these deadlines may be deferred by any of the other tasks
+                _ = tokio::time::sleep_until(flush_at) => {
                     let global = global.clone();
-                    tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap()
+                    tokio::task::spawn_blocking(|| self.general_executor(global)).await.unwrap();
+                    flush_at = Instant::now() + dur;
+                }
+                _ = tokio::time::sleep_until(retry_at), if !retries.is_empty() => {
+                    for task in mem::take(&mut retries) {
+                        self.gp_execute(task).await
+                    }
                 }
                 task = lpq.recv() => {
-                    let Task { threshold, task } = match task {
-                        Some(t) => {
-                            t.sleep().await;
-                            t
-                        },
-                        None => {
-                            info!("flp: exiting executor service because all tasks closed");
-                            break;
-                        }
-                    };
-                    // TODO(@ohsayan): threshold
                     match task {
-                        GenericTask::DeleteFile(f) => {
-                            if let Err(_) = fs::remove_file(&f).await {
-                                self.general_dispatcher.send(
-                                    Task::with_threshold(GenericTask::DeleteFile(f), Self::adjust_threshold(threshold))
-                                ).unwrap();
+                        Some(task) if task.is_retry() => {
+                            if retries.is_empty() {
+                                retry_at = Instant::now() + TASK_FAILURE_SLEEP_DURATION;
                             }
+                            retries.push(task);
                         }
-                        GenericTask::DeleteDirAll(dir) => {
-                            if let Err(_) = fs::remove_dir_all(&dir).await {
-                                self.general_dispatcher.send(
-                                    Task::with_threshold(GenericTask::DeleteDirAll(dir), Self::adjust_threshold(threshold))
-                                ).unwrap();
-                            }
+                        Some(task) => self.gp_execute(task).await,
+                        None => {
+                            info!("flp: exiting executor service because all tasks closed");
+                            break;
                         }
                     }
                 }
             }
         }
     }
+    async fn gp_execute(&'static self, Task { threshold, task }: Task<GenericTask>) {
+        // TODO(@ohsayan): threshold
+        if let Err(e) = Self::run_generic_task(&task).await {
+            warn!("flp: failed to execute task with error `{e}`. will try again");
+            self.post_low_priority(Task::with_threshold(
+                task,
+                Self::adjust_threshold(threshold),
+            ));
+        }
+    }
+    async fn run_generic_task(task: &GenericTask) -> crate::IoResult<()> {
+        let ret = match task {
+            GenericTask::DeleteFile(f) => fs::remove_file(f).await,
+            GenericTask::DeleteDirAll(dir) => fs::remove_dir_all(dir).await,
+        };
+        match ret {
+            // somebody else already removed it (for example, because an enclosing directory was removed)
+            Err(e) if e.kind() == IoErrorKind::NotFound => Ok(()),
+            ret => ret,
+        }
+    }
     fn general_executor(&'static self, global: super::Global) {
         for (model_id, model) in global.state().namespace().idx_models().read().iter() {
+            if model.driver().status().is_iffy() {
+                // whatever is pending will be synced when the driver is recovered
+                continue;
+            }
             let observed_len = model
                 .data()
                 .delta_state()
                 .__fractal_take_full_from_data_delta(super::FractalToken::new());
             match self.try_write_model_data_batch(
+                &global,
                 ModelUniqueIDRef::new(model_id.space(), model_id.entity(), model.data().get_uuid()),
-                model.data(),
+                model,
                 observed_len,
-                model.driver(),
             ) {
                 Ok(()) => {
                     if observed_len != 0 {
@@ -491,22 +518,13 @@ impl FractalMgr {
                         )
                     }
                 }
-                Err((e, stats)) => {
-                    info!(
-                        "flp: failed to sync data for {}.{} with erro `{e}`. promoting to higher priority",
-                        model_id.space(), model_id.entity(),
+                Err(e) => {
+                    // NB: recovering the driver (and then retrying) is a critical task
+                    error!(
+                        "flp: failed to sync data for {}.{} with error `{e}`",
+                        model_id.space(),
+                        model_id.entity(),
                     );
-                    // this failure is *not* good, so we want to promote this to a critical task
-                    self.re_enqueue_model_sync(
-                        ModelUniqueID::new(
-                            model_id.space(),
-                            model_id.entity(),
-                            model.data().get_uuid(),
-                        ),
-                        observed_len,
-                        stats,
-                        TASK_THRESHOLD,
-                    )
                 }
             }
         }
@@ -517,44 +535,105 @@ impl FractalMgr {
 impl FractalMgr {
     /// Attempt to write a model data batch with the observed size.
     ///
-    /// The zero check is essential
+    /// If this fails, then all the changes continue to be pending and the driver is scheduled for recovery
     fn try_write_model_data_batch(
         &'static self,
+        global: &super::Global,
         mdl_id: ModelUniqueIDRef,
-        model: &ModelData,
+        model: &Model,
         observed_size: usize,
-        mdl_driver_: &super::drivers::FractalModelDriver,
-    ) -> Result<(), (super::error::Error, BatchStats)> {
-        if mdl_driver_.status().is_iffy() {
-            // don't mess this up any further
-            return Err((
-                super::error::Error::from(ErrorKind::Other(
-                    "model driver is in dirty state".into(),
-                )),
-                BatchStats::into_inner(BatchStats::new()),
-            ));
-        }
+    ) -> RuntimeResult<()> {
         if observed_size == 0 {
             // no changes, all good
             return Ok(());
         }
-        // try flushing the batch
+        // NB: the status of a driver is only changed by the one who has locked it
+        let mut mdl_driver = model.driver().batch_driver().lock();
+        if model.driver().status().is_iffy() {
+            // don't mess this up any further; this will be synced when the driver is recovered
+            model
+                .data()
+                .delta_state()
+                .__fractal_restore_to_data_delta(observed_size, super::FractalToken::new());
+            return Ok(());
+        }
+        Self::write_batch(model.data(), mdl_driver.as_mut().unwrap(), observed_size).map_err(|e| {
+            model.driver().status().set_iffy();
+            global.health().report_fault();
+            self.post_high_priority(Task::new(CriticalTask::TryModelAutorecoverLWT(
+                mdl_id.into(),
+            )));
+            e
+        })
+    }
+    /// Write a batch with the given size (which must have been obtained from the delta state). All the changes are put back
+    /// if this fails
+    fn write_batch(
+        model: &ModelData,
+        batch_driver: &mut ModelDriver,
+        observed_size: usize,
+    ) -> RuntimeResult<()> {
         let batch_stats = BatchStats::new();
-        let mut mdl_driver = mdl_driver_.batch_driver().lock();
-        let batch_driver = mdl_driver.as_mut().unwrap();
-        batch_driver
-            .commit_with_ctx(
-                StdModelBatch::new(model, observed_size),
-                batch_stats.clone(),
-            )
-            .map_err(|e| {
-                mdl_driver_.status().set_iffy();
-                self.hp_dispatcher
-                    .send(Task::new(CriticalTask::TryModelAutorecoverLWT(
-                        mdl_id.into(),
-                    )))
-                    .unwrap();
-                (e, BatchStats::into_inner(batch_stats))
-            })
+        let ret = batch_driver.commit_with_ctx(
+            StdModelBatch::new(model, observed_size),
+            batch_stats.clone(),
+        );
+        if ret.is_err() {
+            BatchStats::into_inner(batch_stats).requeue_all(model);
+            model
+                .delta_state()
+                .__fractal_restore_to_data_delta(observed_size, super::FractalToken::new());
+        }
+        ret
+    }
+    /// Write all the changes that are currently pending
+    fn write_pending(model: &ModelData, batch_driver: &mut ModelDriver) -> RuntimeResult<()> {
+        let pending = model
+            .delta_state()
+            .__fractal_take_full_from_data_delta(super::FractalToken::new());
+        if pending == 0 {
+            return Ok(());
+        }
+        Self::write_batch(model, batch_driver, pending)
+    }
+    /// Write everything that is pending for this model
+    ///
+    /// NB: only call once all services have exited
+    pub(super) fn sync_model_on_exit(model: &Model) -> RuntimeResult<()> {
+        let mut batch_driver = model.driver().batch_driver().lock();
+        let batch_driver = batch_driver.as_mut().unwrap();
+        batch_driver.__lwt_heartbeat()?;
+        // NB: some changes might have been requested by a task that was never executed
+        model
+            .data()
+            .delta_state()
+            .__fractal_recount_data_delta(&pin(), super::FractalToken::new());
+        Self::write_pending(model.data(), batch_driver)
+    }
+}
+
+/// Retries whatever fails when we're exiting (for a limited time)
+pub(super) struct ExitRetry {
+    remaining: usize,
+}
+
+impl ExitRetry {
+    const INTERVAL: Duration = Duration::from_secs(1);
+    pub(super) const fn new() -> Self {
+        Self {
+            remaining: TASK_THRESHOLD,
+        }
+    }
+    pub(super) fn run<T>(&mut self, mut f: impl FnMut() -> RuntimeResult<T>) -> RuntimeResult<T> {
+        loop {
+            match f() {
+                Err(e) if self.remaining != 0 => {
+                    warn!("failed to close a driver with error `{e}`. will try again");
+                    self.remaining -= 1;
+                    std::thread::sleep(Self::INTERVAL);
+                }
+                ret => return ret,
+            }
+        }
     }
 }
diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index f153ab7..8bc51a6 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -270,18 +270,28 @@ impl Global {
         Self::__gref_raw().assume_init_ref()
     }
     pub unsafe fn unload_all(self) {
-        // TODO(@ohsayan): handle errors
         let GlobalState { gns, .. } = Self::__gref_raw().assume_init_read();
+        let mut exit_retry = mgr::ExitRetry::new();
         let mut gns_driver = gns.gns_driver().txn_driver.lock();
-        GNSDriver::close_driver(&mut gns_driver).unwrap();
-        for mdl in gns
-            .namespace()
-            .idx_models()
-            .write()
-            .drain()
-            .map(|(_, mdl)| mdl)
-        {
-            mdl.into_driver().close().unwrap();
+        if let Err(e) = exit_retry.run(|| GNSDriver::close_driver(&mut gns_driver)) {
+            error!("failed to close GNS driver with error `{e}`");
+        }
+        for (id, mdl) in gns.namespace().idx_models().write().drain() {
+            // all services and connections are gone, so this is final
+            if let Err(e) = exit_retry.run(|| mgr::FractalMgr::sync_model_on_exit(&mdl)) {
+                error!(
+                    "failed to sync pending changes for {}.{} with error `{e}`",
+                    id.space(),
+                    id.entity()
+                );
+            }
+            if let Err(e) = exit_retry.run(|| mdl.driver().close()) {
+                error!(
+                    "failed to close driver for {}.{} with error `{e}`",
+                    id.space(),
+                    id.entity()
+                );
+            }
         }
     }
 }
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index c8a3352..697c112 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -219,7 +219,8 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         batch_stat: &mut BatchStats,
     ) -> RuntimeResult<usize> {
         /*
-            go over each delta, check if inconsistent and apply if not. if any delta sync fails, we enqueue the delta again.
+            go over each delta, check if inconsistent and apply if not. if anything fails from here on until the batch is synced,
+            then the entire batch is rolled back; hence we keep all the deltas so that they can be enqueued again in that case.
             Since the diffing algorithm will ensure that a stale delta is never written, we don't have to worry about checking
             if the delta is stale or not manually. It will be picked up by another collection sequence.
 
@@ -233,15 +234,10 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         let mut i = 0;
         while i < expected {
             let delta = me.model.delta_state().__data_delta_dequeue(me.g).unwrap();
-            match me.step(&delta) {
-                Ok(()) => i += 1,
-                Err(e) => {
-                    // errored, so push this back in; we have written and flushed all prior deltas
-                    me.model.delta_state().append_new_data_delta(delta, me.g);
-                    batch_stat.set_actual(i);
-                    return Err(e);
-                }
-            }
+            let ret = me.step(&delta);
+            batch_stat.consumed.push(delta);
+            ret?;
+            i += 1;
         }
         Ok(me.sync_count)
     }
@@ -407,21 +403,25 @@ impl DecodedBatchEvent {
 }
 
 pub struct BatchStats {
-    actual_commit: usize,
+    /// all the deltas that were dequeued for this batch
+    consumed: Vec<DataDelta>,
 }
 
 impl BatchStats {
     pub fn new() -> Rc<RefCell<Self>> {
-        Rc::new(RefCell::new(Self { actual_commit: 0 }))
+        Rc::new(RefCell::new(Self {
+            consumed: Vec::new(),
+        }))
     }
     pub fn into_inner(me: Rc<RefCell<Self>>) -> Self {
         RefCell::into_inner(Rc::into_inner(me).unwrap())
     }
-    fn set_actual(&mut self, new: usize) {
-        self.actual_commit = new;
-    }
-    pub fn get_actual(&self) -> usize {
-        self.actual_commit
+    /// Put all the deltas back, because this batch was not persisted
+    pub fn requeue_all(self, model: &ModelData) {
+        let g = pin();
+        for delta in self.consumed {
+            model.delta_state().requeue_data_delta(delta, &g);
+        }
     }
 }
 
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 9baf54f..175aee0 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -569,6 +569,10 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
     {
         self.commit_with_ctx(event, Default::default())
     }
+    /// Returns true if the last event failed, but might still be (partly) on disk
+    pub fn has_pending_rollback(&self) -> bool {
+        self.pending_rollback.is_some()
+    }
     /// WARNING: ONLY CALL AFTER A FAILURE EVENT. THIS WILL DISCARD WHATEVER WAS WRITTEN FOR THE FAILED EVENT
     pub fn __lwt_heartbeat(&mut self) -> RuntimeResult<()> {
         // the on-disk file might have some partial state from the failed event; get rid of it
-- 
2.43.0


From e93c2cbfbf227e45b40f32cb25f9db8d2d7ac4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 18/39] fix: a statement's buffers stay alive until its
 blocking task has finished

---
 server/src/engine/core/exec.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/exec.rs b/server/src/engine/core/exec.rs
index 557894b..8edbcaf 100644
--- a/server/src/engine/core/exec.rs
+++ b/server/src/engine/core/exec.rs
@@ -101,6 +101,14 @@ fn translate_ddl_result(x: Option<bool>) -> Response {
     }
 }
 
+/// When dropped, wait for the other end of the channel to be dropped
+struct WaitForFinish(std::sync::mpsc::Receiver<()>);
+impl Drop for WaitForFinish {
+    fn drop(&mut self) {
+        let _ = self.0.recv();
+    }
+}
+
 async fn run_blocking_stmt(
     global: &Global,
     cstate: &mut ClientLocalState,
@@ -173,12 +181,16 @@ async fn run_blocking_stmt(
         },
     ];
     let r = unsafe {
-        // UNSAFE(@ohsayan): the only await is within this block
+        // UNSAFE(@ohsayan): the only await is within this block, and we do not leave it until the task is done
         let c_glob = global.clone();
         let static_cstate: &'static ClientLocalState = core::mem::transmute(cstate);
         let static_state: &'static mut State<'static, InplaceData> =
             core::mem::transmute(&mut state);
+        // NB: this future can be dropped while the statement is still being executed (when we're terminating)
+        let (finish_tx, finish_rx) = std::sync::mpsc::channel::<()>();
+        let _finish = WaitForFinish(finish_rx);
         tokio::task::spawn_blocking(move || {
+            let _finish = finish_tx;
             BLK_EXEC[fc as usize](c_glob, static_cstate, static_state)
         })
         .await
-- 
2.43.0


From 4935547bed7fe2576c0399be54a73d51943635b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 19/39] fix: a new journal's header is synced before anything
 can refer to the file

---
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 62ce711..adde4ec 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -78,6 +78,8 @@ impl<S: FileSpecV1> SdssFile<S> {
     {
         let mut f = File::create(path)?;
         let md = S::write_metadata(&mut f, ())?;
+        // whoever refers to this file relies on the header being there
+        f.fsync_all()?;
         Ok(Self::new(f, md))
     }
     pub fn into_buffered_reader(self) -> IoResult<SdssFile<S, BufferedReader>> {
-- 
2.43.0


From 8c3d5f4ae0b9aeffc40c381c066644fbb8f16a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 20/39] fix: an interrupted first start does not leave an
 unusable GNS behind

---
 server/src/engine/storage/v2/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index 8d3bae3..0dbc1cd 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -46,12 +46,15 @@ use {
         RuntimeResult,
     },
     impls::mdl_journal::ModelDriver,
+    std::io::ErrorKind,
 };
 
 pub(super) mod impls;
 pub(super) mod raw;
 
 pub const GNS_PATH: &str = v1::GNS_PATH;
+/// the GNS while it is being created
+const GNS_INIT_PATH: &str = "gns.db-tlog.new";
 pub const DATA_DIR: &str = v1::DATA_DIR;
 
 pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
@@ -100,7 +103,14 @@ pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
 
 pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
     FileSystem::create_dir_all(DATA_DIR)?;
-    let mut gns_driver = impls::gns_log::GNSDriver::create_gns()?;
+    // the GNS must not be found under its own name until there is a root user in it; otherwise, if we were to crash we'd
+    // find a GNS that can't be used. remove anything that was left behind by an earlier attempt
+    if let Err(e) = FileSystem::remove_file(GNS_INIT_PATH) {
+        if e.kind() != ErrorKind::NotFound {
+            return Err(e.into());
+        }
+    }
+    let mut gns_driver = impls::gns_log::GNSDriver::create_gns_with_name(GNS_INIT_PATH)?;
     let gns = GNSData::empty();
     let password_hash = rcrypt::hash(&config.auth.root_key, rcrypt::DEFAULT_COST).unwrap();
     // now go ahead and initialize our root user
@@ -108,6 +118,7 @@ pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
         SystemDatabase::ROOT_ACCOUNT,
         &password_hash,
     ))?;
+    FileSystem::rename(GNS_INIT_PATH, GNS_PATH)?;
     assert!(gns.sys_db().__raw_create_user(
         SystemDatabase::ROOT_ACCOUNT.to_owned().into_boxed_str(),
         password_hash.into_boxed_slice(),
-- 
2.43.0


From 10436da85495b92c7bf1b75311f70f567d6241ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 21/39] fix: create model restores its space's directory if a
 crash took it

---
 server/src/engine/fractal/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index 8bc51a6..bcac4fb 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -216,8 +216,8 @@ impl GlobalInstanceLike for Global {
         model_name: &str,
         model_uuid: Uuid,
     ) -> RuntimeResult<FractalModelDriver> {
-        // create dir
-        FileSystem::create_dir(&paths_v1::model_dir(
+        // create dir (the space's dir might've been lost in a crash since it isn't synced with the GNS)
+        FileSystem::create_dir_all(&paths_v1::model_dir(
             space_name, space_uuid, model_name, model_uuid,
         ))?;
         // init driver
-- 
2.43.0


From bf1ed758f38647653ff96fa22b26d50929895e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:00 +0000
Subject: [PATCH 22/39] fix: statements that arrive together are all answered

---
 server/src/engine/net/protocol/exchange.rs |  7 +++++-
 server/src/engine/net/protocol/mod.rs      | 26 +++++++++++++---------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 54563f5..e5dd7cf 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -29,6 +29,10 @@ use {super::AccumlatorStatus, crate::engine::mem::BufferedScanner};
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
 pub struct Resume(usize);
 impl Resume {
+    /// The number of bytes that were consumed
+    pub(super) const fn consumed(&self) -> usize {
+        self.0
+    }
     #[cfg(test)]
     pub(super) const fn test_new(v: usize) -> Self {
         Self(v)
@@ -233,8 +237,9 @@ impl QExchangeState {
             // the query window doesn't fit into the packet
             _ => return QExchangeResult::Error,
         };
-        if scanner.remaining() == df_size {
+        if scanner.remaining() >= df_size {
             unsafe {
+                // UNSAFE(@ohsayan): just verified; whatever comes after this packet is the next packet
                 QExchangeResult::SQCompleted(SQuery::new(
                     scanner.next_chunk_variable(df_size),
                     self.md_q_window as usize,
diff --git a/server/src/engine/net/protocol/mod.rs b/server/src/engine/net/protocol/mod.rs
index c1745ea..412703f 100644
--- a/server/src/engine/net/protocol/mod.rs
+++ b/server/src/engine/net/protocol/mod.rs
@@ -163,22 +163,22 @@ pub(super) async fn query_loop<S: Socket>(
     let mut state = QExchangeState::default();
     let mut cursor = Default::default();
     loop {
-        if con.read_buf(buf).await? == 0 {
-            if buf.is_empty() {
-                return Ok(QueryLoopResult::Fin);
-            } else {
-                return Ok(QueryLoopResult::Rst);
-            }
-        }
         if !state.has_reached_target(buf) {
             // we haven't buffered sufficient bytes; keep working
+            if con.read_buf(buf).await? == 0 {
+                if buf.is_empty() {
+                    return Ok(QueryLoopResult::Fin);
+                } else {
+                    return Ok(QueryLoopResult::Rst);
+                }
+            }
             continue;
         }
-        let sq = match unsafe {
+        let (consumed, sq) = match unsafe {
             // UNSAFE(@ohsayan): as the resume cursor is private, we can't access this anyways
             exchange::resume(buf, cursor, state)
         } {
-            (_, QExchangeResult::SQCompleted(sq)) => sq,
+            (consumed, QExchangeResult::SQCompleted(sq)) => (consumed.consumed(), sq),
             (new_cursor, QExchangeResult::ChangeState(new_state)) => {
                 cursor = new_cursor;
                 state = new_state;
@@ -222,8 +222,12 @@ pub(super) async fn query_loop<S: Socket>(
             }
         }
         con.flush().await?;
-        // reset buffer, cursor and state
-        buf.clear();
+        // reset buffer, cursor and state (a client may have sent more than one packet, so don't throw away what's left)
+        if consumed == buf.len() {
+            buf.clear();
+        } else {
+            buf.advance(consumed);
+        }
         cursor = Default::default();
         state = QExchangeState::default();
     }
-- 
2.43.0


From 9c1c66e00f4ec55d2906a18fed7020e386ff60cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:39 +0000
Subject: [PATCH 23/39] fix: a stalled TLS handshake does not keep others from
 connecting

---
 server/src/engine/net/mod.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/server/src/engine/net/mod.rs b/server/src/engine/net/mod.rs
index 4467fd8..d3f94bc 100644
--- a/server/src/engine/net/mod.rs
+++ b/server/src/engine/net/mod.rs
@@ -264,11 +264,9 @@ impl Listener {
             let stream = async {
                 let (stream, _) = self.accept().await?;
                 let ssl = Ssl::new(acceptor.context())?;
-                let mut stream = SslStream::new(ssl, stream)?;
-                Pin::new(&mut stream).accept().await?;
-                RuntimeResult::Ok(stream)
+                RuntimeResult::Ok(SslStream::new(ssl, stream)?)
             };
-            let stream = match stream.await {
+            let mut stream = match stream.await {
                 Ok(s) => s,
                 Err(e) => {
                     /*
@@ -278,13 +276,21 @@ impl Listener {
                     continue;
                 }
             };
-            let mut handler = ConnectionHandler::new(
-                stream,
-                self.global.clone(),
-                self.sig_shutdown.subscribe(),
-                self.sig_inflight.clone(),
-            );
+            let global = self.global.clone();
+            let mut term_sig = self.sig_shutdown.subscribe();
+            let inflight = self.sig_inflight.clone();
             tokio::spawn(async move {
+                // the client decides how long the TLS handshake takes, so this must not hold up the others
+                let tls_handshake = async { Pin::new(&mut stream).accept().await };
+                let accepted = tokio::select! {
+                    ret = tls_handshake => ret,
+                    _ = term_sig.recv() => return,
+                };
+                if let Err(e) = accepted {
+                    warn!("failed to accept connection on TLS socket: `{e}`");
+                    return;
+                }
+                let mut handler = ConnectionHandler::new(stream, global, term_sig, inflight);
                 if let Err(e) = handler.run().await {
                     warn!("error handling client TLS connection: `{e}`");
                 }
-- 
2.43.0


From 5ff5e271682dc34e40618c35f43685fce8ca3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 24/39] fix: statements that end early or have an odd limit get
 an error instead of a panic

---
 server/src/engine/ql/ast/mod.rs | 15 +++++++++------
 server/src/engine/ql/ddl/alt.rs |  3 +++
 server/src/engine/ql/ddl/syn.rs |  6 ++++++
 server/src/engine/ql/dml/ins.rs |  2 +-
 server/src/engine/ql/dml/sel.rs | 28 ++++++++++++++--------------
 5 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 5446f58..07cb9af 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -88,12 +88,15 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
     }
     pub fn try_entity_buffered_into_state_uninit(&mut self) -> MaybeInit<EntityIDRef<'a>> {
         let mut ret = MaybeInit::uninit();
-        let self_has_full = Self::_entity_signature_match_self_full(
-            &self.t[self.cursor()],
-            &self.t[self.cursor() + 1],
-            &self.t[self.cursor() + 2],
-        );
-        let self_has_full_cs = self._entity_signature_match_cs(&self.t[self.cursor()]);
+        // NB: there might be fewer than three tokens left
+        let self_has_full = self.has_remaining(3)
+            && Self::_entity_signature_match_self_full(
+                self.offset_current_r(0),
+                self.offset_current_r(1),
+                self.offset_current_r(2),
+            );
+        let self_has_full_cs =
+            self.not_exhausted() && self._entity_signature_match_cs(self.offset_current_r(0));
         unsafe {
             if self_has_full {
                 ret = MaybeInit::new(self._entity_new_from_tokens());
diff --git a/server/src/engine/ql/ddl/alt.rs b/server/src/engine/ql/ddl/alt.rs
index b6069a0..0e4b285 100644
--- a/server/src/engine/ql/ddl/alt.rs
+++ b/server/src/engine/ql/ddl/alt.rs
@@ -120,6 +120,9 @@ impl<'a> AlterModel<'a> {
             // FIXME(@ohsayan): bad because no specificity
         }
         let model_name = state.try_entity_ref_result()?;
+        if compiler::unlikely(state.exhausted()) {
+            return compiler::cold_rerr(QueryError::QLUnexpectedEndOfStatement);
+        }
         let kind = match state.fw_read() {
             Token![add] => AlterKind::alter_add(state),
             Token![remove] => AlterKind::alter_remove(state),
diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index 1c1a938..34ffd44 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -378,6 +378,9 @@ impl<'a> FieldSpec<'a> {
         let is_null = state.cursor_eq(Token![null]);
         state.cursor_ahead_if(is_null);
         state.poison_if(is_primary & is_null);
+        if compiler::unlikely(state.remaining() < 2) {
+            return Err(QueryError::QLUnexpectedEndOfStatement);
+        }
         // parse layers
         // field name
         let field_name = match (state.fw_read(), state.fw_read()) {
@@ -440,6 +443,9 @@ impl<'a> ExpandedField<'a> {
             state.poison_if_not(state.cursor_eq(Token![:]));
             state.cursor_ahead();
             rfold_layers(state, &mut layers);
+            if compiler::unlikely(state.exhausted()) {
+                return Err(QueryError::QLUnexpectedEndOfStatement);
+            }
             match state.fw_read() {
                 Token![,] => {
                     rfold_dict(DictFoldState::CB_OR_IDENT, state, &mut props);
diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 9bd4069..19cd231 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -140,7 +140,7 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
                     state.read_lit_into_data_type_unchecked_from(tok)
                 }
             }
-            Token![open []] => {
+            Token![open []] if state.not_exhausted() => {
                 // a nested list
                 let mut nested_list = Vec::new();
                 let nlist_dscr = parse_list(state, &mut nested_list);
diff --git a/server/src/engine/ql/dml/sel.rs b/server/src/engine/ql/dml/sel.rs
index e379db2..3e0349e 100644
--- a/server/src/engine/ql/dml/sel.rs
+++ b/server/src/engine/ql/dml/sel.rs
@@ -210,20 +210,20 @@ impl<'a> SelectAllStatement<'a> {
         state.cursor_ahead_if(state.okay()); // we did read limit
         state.poison_if(state.exhausted()); // we MUST have the limit
         if state.okay() {
-            let lit = unsafe { state.fw_read().uck_read_lit() };
-            match lit.try_uint() {
-                Some(limit) => {
-                    return unsafe {
-                        // UNSAFE(@ohsayan): state guarantees this works
-                        Ok(Self::new(
-                            entity.assume_init(),
-                            select_fields,
-                            is_wildcard,
-                            limit,
-                        ))
-                    };
-                }
-                _ => {}
+            let limit = match state.fw_read() {
+                Token::Lit(lit) => lit.try_uint(),
+                _ => None,
+            };
+            if let Some(limit) = limit {
+                return unsafe {
+                    // UNSAFE(@ohsayan): state guarantees this works
+                    Ok(Self::new(
+                        entity.assume_init(),
+                        select_fields,
+                        is_wildcard,
+                        limit,
+                    ))
+                };
             }
         }
         Err(QueryError::QLInvalidSyntax)
-- 
2.43.0


From 553615828370c98d7c1a932d575b00308247ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 25/39] fix: an insert that ends in the middle of its data is
 not executed

---
 server/src/engine/ql/dml/ins.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 19cd231..41ff0e2 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -180,6 +180,7 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
         state.cursor_ahead_if(state.okay());
         stop = nx_csqrb;
     }
+    state.poison_if_not(stop);
     overall_dscr
 }
 
@@ -234,6 +235,7 @@ pub(super) fn parse_data_tuple_syntax<'a, Qd: QueryData<'a>>(
         state.cursor_ahead_if(state.okay());
         stop = nx_csprn;
     }
+    state.poison_if_not(stop);
     data
 }
 
@@ -290,6 +292,7 @@ pub(super) fn parse_data_map_syntax<'a, Qd: QueryData<'a>>(
         state.cursor_ahead_if(state.okay());
         stop = nx_csbrc;
     }
+    state.poison_if_not(stop);
     data
 }
 
-- 
2.43.0


From e44b4409f5c14757b85e6e3720d0b41755b6865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 26/39] fix: limit how deep a statement's collections and types
 can be nested

---
 server/src/engine/ql/ast/mod.rs | 17 +++++++++++++++++
 server/src/engine/ql/ddl/syn.rs |  8 ++++++++
 server/src/engine/ql/dml/ins.rs |  4 ++++
 3 files changed, 29 insertions(+)

diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 07cb9af..1a20838 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -43,6 +43,9 @@ use {
     },
 };
 
+/// The maximum depth up to which collections and types can be nested (each level needs stack space)
+const MAX_NESTING: usize = 128;
+
 #[derive(Debug, PartialEq)]
 /// Query parse state
 pub struct State<'a, Qd> {
@@ -51,6 +54,7 @@ pub struct State<'a, Qd> {
     i: usize,
     f: bool,
     cs: Option<&'static str>,
+    nesting: usize,
 }
 
 impl<'a> State<'a, InplaceData> {
@@ -145,9 +149,22 @@ impl<'a, Qd: QueryData<'a>> State<'a, Qd> {
             t,
             d,
             cs: None,
+            nesting: 0,
         }
     }
     #[inline(always)]
+    /// Descend into a nested collection or type. Poisons the state and returns false if it is nested too deeply
+    pub fn enter_nested(&mut self) -> bool {
+        self.nesting += 1;
+        self.poison_if(self.nesting > MAX_NESTING);
+        self.okay()
+    }
+    #[inline(always)]
+    /// Return from a nested collection or type
+    pub fn leave_nested(&mut self) {
+        self.nesting -= 1;
+    }
+    #[inline(always)]
     /// Returns `true` if the state is okay
     pub const fn okay(&self) -> bool {
         self.f
diff --git a/server/src/engine/ql/ddl/syn.rs b/server/src/engine/ql/ddl/syn.rs
index 34ffd44..5c516b4 100644
--- a/server/src/engine/ql/ddl/syn.rs
+++ b/server/src/engine/ql/ddl/syn.rs
@@ -188,8 +188,12 @@ where
             }
             (Token![open {}], DictFoldState::LIT_OR_OB) => {
                 // found a nested dict
+                if !state.enter_nested() {
+                    break;
+                }
                 let mut ndict = DictGeneric::new();
                 _rfold_dict::<Qd, NoBreakpoint>(DictFoldState::CB_OR_IDENT, state, &mut ndict);
+                state.leave_nested();
                 state.poison_if_not(
                     dict.insert(
                         unsafe {
@@ -291,7 +295,11 @@ fn rfold_layers<'a, Qd: QueryData<'a>>(state: &mut State<'a, Qd>, layers: &mut V
                     // but we first need a colon
                     state.poison_if_not(state.cursor_rounded_eq(Token![:]));
                     state.cursor_ahead_if(state.okay());
+                    if !state.enter_nested() {
+                        break;
+                    }
                     rfold_layers(state, layers);
+                    state.leave_nested();
                     // we are yet to parse the remaining props
                     mstate = LayerFoldState::FOLD_INCOMPLETE;
                 } else {
diff --git a/server/src/engine/ql/dml/ins.rs b/server/src/engine/ql/dml/ins.rs
index 41ff0e2..0428e39 100644
--- a/server/src/engine/ql/dml/ins.rs
+++ b/server/src/engine/ql/dml/ins.rs
@@ -142,8 +142,12 @@ pub(super) fn parse_list<'a, Qd: QueryData<'a>>(
             }
             Token![open []] if state.not_exhausted() => {
                 // a nested list
+                if !state.enter_nested() {
+                    break;
+                }
                 let mut nested_list = Vec::new();
                 let nlist_dscr = parse_list(state, &mut nested_list);
+                state.leave_nested();
                 // check type return
                 state.poison_if_not(
                     prev_nlist_dscr.is_none()
-- 
2.43.0


From 2e4dbf86c9ade8af8a05594012acd11d55ae201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 27/39] fix: a damaged tag in a data file is reported instead
 of being turned into an invalid enum value

---
 .../src/engine/storage/v1/raw/batch_jrnl/restore.rs  |  5 +----
 server/src/engine/storage/v2/impls/mdl_journal.rs    |  5 +----
 sky-macros/src/lib.rs                                | 12 ++++++++++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 91da055..6405fdf 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -488,10 +488,7 @@ impl DataBatchRestoreDriver {
                     PrimaryIndexKey::new_from_dual(pk_type, len, md.as_mut_ptr() as usize)
                 }
             }
-            _ => unsafe {
-                // UNSAFE(@ohsayan): TagUnique::try_from_raw rejects an construction with Invalid as the dscr
-                impossible!()
-            },
+            TagUnique::Illegal => return Err(StorageError::DataBatchRestoreCorruptedEntry.into()),
         })
     }
     fn decode_cell(&mut self) -> RuntimeResult<Datacell> {
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 697c112..4a2d1c5 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -674,10 +674,7 @@ mod restore_impls {
                     PrimaryIndexKey::new_from_dual(pk_type, len, md.as_mut_ptr() as usize)
                 }
             }
-            TagUnique::Illegal => unsafe {
-                // UNSAFE(@ohsayan): TagUnique::try_from_raw rejects an construction with Invalid as the dscr
-                impossible!()
-            },
+            TagUnique::Illegal => return Err(StorageError::DataBatchRestoreCorruptedEntry.into()),
         })
     }
     pub fn decode_row_data(
diff --git a/sky-macros/src/lib.rs b/sky-macros/src/lib.rs
index 77bd995..3940898 100644
--- a/sky-macros/src/lib.rs
+++ b/sky-macros/src/lib.rs
@@ -133,6 +133,18 @@ pub fn derive_tagged_enum(input: TokenStream) -> TokenStream {
             unsafe fn from_raw(d: #repr_type_ident) -> Self {
                 core::mem::transmute(d)
             }
+            fn try_from_raw(d: #repr_type_ident) -> Option<Self> {
+                // the discriminants might not be contiguous
+                let values = #value_expressions;
+                if values.contains(&d) {
+                    Some(unsafe {
+                        // UNSAFE(@ohsayan): just verified the dscr
+                        core::mem::transmute(d)
+                    })
+                } else {
+                    None
+                }
+            }
         }
     }
     .into()
-- 
2.43.0


From 2d92ab4b9f1718f1ff88c284281e3809921a8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 28/39] fix: alter user works for every user but root, whose
 password comes from the configuration

---
 server/src/engine/core/dcl.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/server/src/engine/core/dcl.rs b/server/src/engine/core/dcl.rs
index bac0c3e..358a5a3 100644
--- a/server/src/engine/core/dcl.rs
+++ b/server/src/engine/core/dcl.rs
@@ -25,6 +25,7 @@
 */
 
 use crate::engine::{
+    core::system_db::SystemDatabase,
     data::{tag::TagClass, DictEntryGeneric},
     error::{QueryError, QueryResult},
     fractal::GlobalInstanceLike,
@@ -45,7 +46,7 @@ pub fn exec<G: GlobalInstanceLike>(
     match cmd {
         SysctlCommand::CreateUser(new) => create_user(&g, new),
         SysctlCommand::DropUser(drop) => drop_user(&g, current_user, drop),
-        SysctlCommand::AlterUser(usermod) => alter_user(&g, current_user, usermod),
+        SysctlCommand::AlterUser(usermod) => alter_user(&g, usermod),
         SysctlCommand::ReportStatus => {
             if g.health().status_okay() {
                 Ok(())
@@ -56,12 +57,8 @@ pub fn exec<G: GlobalInstanceLike>(
     }
 }
 
-fn alter_user(
-    global: &impl GlobalInstanceLike,
-    cstate: &ClientLocalState,
-    user: UserDecl,
-) -> QueryResult<()> {
-    if cstate.is_root() {
+fn alter_user(global: &impl GlobalInstanceLike, user: UserDecl) -> QueryResult<()> {
+    if user.username() == SystemDatabase::ROOT_ACCOUNT {
         // the root password can only be changed by shutting down the server
         return Err(QueryError::SysAuthError);
     }
-- 
2.43.0


From b69369c91cc4521e1805362916ba5cd19e6efb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 29/39] fix: a password that can not be hashed is refused
 instead of ending in a panic

---
 server/src/engine/config.rs         |  4 ++++
 server/src/engine/core/system_db.rs | 13 +++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 9c1e8ee..cc2bea3 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -963,6 +963,10 @@ fn validate_configuration<CS: ConfigurationSource>(
             CS::SOURCE,
             ConfigErrorKind::ErrorString("the root password must have at least 16 characters".into()),
         ).into(),
+        if config.auth.root_key.contains('\0') => ConfigError::with_src(
+            CS::SOURCE,
+            ConfigErrorKind::ErrorString("the root password must not have null characters".into()),
+        ).into(),
     );
     Ok(config)
 }
diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index 27e5321..6b153df 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -95,8 +95,8 @@ impl SystemDatabase {
                             VerifyUser::Okay
                         }
                     }
-                    Ok(false) => VerifyUser::IncorrectPassword,
-                    Err(_) => unreachable!(),
+                    // NB: an error is something that can't be a password, for example because it has a null character
+                    Ok(false) | Err(_) => VerifyUser::IncorrectPassword,
                 }
             })
             .unwrap_or(VerifyUser::NotFound)
@@ -128,6 +128,11 @@ impl SystemDatabase {
 }
 
 impl SystemDatabase {
+    /// Hash a password. Passwords that are empty or have a null character are invalid
+    fn hash_password(password: &str) -> QueryResult<Vec<u8>> {
+        rcrypt::hash(password, rcrypt::DEFAULT_COST)
+            .map_err(|_| QueryError::QExecDdlInvalidProperties)
+    }
     pub fn create_user(
         &self,
         global: &impl GlobalInstanceLike,
@@ -138,7 +143,7 @@ impl SystemDatabase {
         if users.contains_key(&username) {
             return Err(QueryError::SysAuthError);
         }
-        let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+        let password_hash = Self::hash_password(password)?;
         global.state().gns_driver().driver_context(
             global,
             |drv| drv.commit_event(CreateUserTxn::new(&username, &password_hash)),
@@ -155,7 +160,7 @@ impl SystemDatabase {
     ) -> QueryResult<()> {
         match self.users.write().get_mut(username) {
             Some(user) => {
-                let password_hash = rcrypt::hash(password, rcrypt::DEFAULT_COST).unwrap();
+                let password_hash = Self::hash_password(password)?;
                 global.state().gns_driver().driver_context(
                     global,
                     |drv| drv.commit_event(AlterUserTxn::new(username, &password_hash)),
-- 
2.43.0


From b9454eb7de9fcdd6042573607f8abc67810d075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:55 +0000
Subject: [PATCH 30/39] fix: passwords beyond what the hash can tell apart are
 refused

---
 server/src/engine/config.rs         | 6 +++++-
 server/src/engine/core/system_db.rs | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index cc2bea3..080afd5 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -25,7 +25,7 @@
 */
 
 use {
-    crate::engine::{error::RuntimeResult, fractal},
+    crate::engine::{core::system_db::SystemDatabase, error::RuntimeResult, fractal},
     core::fmt,
     serde::Deserialize,
     std::{collections::HashMap, fs},
@@ -963,6 +963,10 @@ fn validate_configuration<CS: ConfigurationSource>(
             CS::SOURCE,
             ConfigErrorKind::ErrorString("the root password must have at least 16 characters".into()),
         ).into(),
+        if config.auth.root_key.len() > SystemDatabase::PASSWORD_MAX_LEN => ConfigError::with_src(
+            CS::SOURCE,
+            ConfigErrorKind::ErrorString("the root password must have at most 72 bytes".into()),
+        ).into(),
         if config.auth.root_key.contains('\0') => ConfigError::with_src(
             CS::SOURCE,
             ConfigErrorKind::ErrorString("the root password must not have null characters".into()),
diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index 6b153df..3e7970e 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -71,6 +71,8 @@ impl VerifyUser {
 
 impl SystemDatabase {
     pub const ROOT_ACCOUNT: &'static str = "root";
+    /// The password hash doesn't look beyond this length: two longer passwords could be taken for one another
+    pub const PASSWORD_MAX_LEN: usize = 72;
     pub fn empty() -> Self {
         Self {
             users: RWLIdx::default(),
@@ -84,7 +86,7 @@ impl SystemDatabase {
             .read()
             .get(username)
             .map(|user| {
-                if password.is_empty() {
+                if password.is_empty() | (password.len() > Self::PASSWORD_MAX_LEN) {
                     return VerifyUser::IncorrectPassword;
                 }
                 match rcrypt::verify(password, user.hash()) {
@@ -128,8 +130,11 @@ impl SystemDatabase {
 }
 
 impl SystemDatabase {
-    /// Hash a password. Passwords that are empty or have a null character are invalid
+    /// Hash a password. Passwords that are empty, too long or have a null character are invalid
     fn hash_password(password: &str) -> QueryResult<Vec<u8>> {
+        if password.len() > Self::PASSWORD_MAX_LEN {
+            return Err(QueryError::QExecDdlInvalidProperties);
+        }
         rcrypt::hash(password, rcrypt::DEFAULT_COST)
             .map_err(|_| QueryError::QExecDdlInvalidProperties)
     }
-- 
2.43.0


From 9c4c1c0e96332b7d9bbe3253aaa3ca34c75091af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 31/39] fix: an unfinished event is told from damage by any
 later event, not only by the next one

---
 .../src/engine/storage/v2/raw/journal/raw/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 175aee0..830f750 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -673,15 +673,21 @@ fn is_closed_tail(tail: &[u8], tail_offset: u64) -> bool {
     }
 }
 
-/// Check if an event with the given ID starts anywhere within the given tail (except for the very beginning)
-fn has_event(tail: &[u8], txn_id: u64) -> bool {
+/// Check if an event that follows the event with the given ID starts anywhere within the given tail (except for the very
+/// beginning)
+fn has_later_event(tail: &[u8], txn_id: u64) -> bool {
     const MAX_SERVER_EV_MD: u64 = u8::MAX as u64;
-    let id = (txn_id as u128).to_le_bytes();
+    // NB: there can't be more events than this many, because every event has an ID and metadata
+    let max_events = (tail.len() / DriverEvent::OFFSET_1_EVENT_KIND.end) as u128;
+    let txn_id = txn_id as u128;
     for at in 1..tail.len() {
         let Some(header) = tail.get(at..at + DriverEvent::OFFSET_1_EVENT_KIND.end) else {
             break;
         };
-        if header[DriverEvent::OFFSET_0_TXN_ID] != id {
+        let mut id = [0; sizeof!(u128)];
+        id.copy_from_slice(&header[DriverEvent::OFFSET_0_TXN_ID]);
+        let id = u128::from_le_bytes(id);
+        if (id <= txn_id) | (id > txn_id + max_events) {
             continue;
         }
         let mut md = [0; sizeof!(u64)];
@@ -800,7 +806,7 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
         let mut file = tr.into_inner();
         file.seek_from_start(boundary)?;
         let tail = file.read_full()?;
-        if is_closed_tail(&tail, boundary) || has_event(&tail, txn_id + 1) {
+        if is_closed_tail(&tail, boundary) || has_later_event(&tail, txn_id) {
             // this is not the last event
             return Err(e);
         }
-- 
2.43.0


From 864d8f4f7fe7089118bbebdfb5ae2db229bf6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 32/39] fix: a damaged count in an alter model event made the
 start panic

---
 .../src/engine/storage/common_encoding/r1/impls/gns/model.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
index faafbab..c56995e 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
@@ -420,7 +420,8 @@ impl<'a> PersistObject for AlterModelRemoveTxn<'a> {
         md: Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let model_id = <ModelID as PersistObject>::obj_dec(s, md.model_id_meta)?;
-        let mut removed_fields = Vec::with_capacity(md.remove_field_c as usize);
+        // NB: the count can't be trusted
+        let mut removed_fields = Vec::new();
         while !s.eof()
             & (removed_fields.len() as u64 != md.remove_field_c)
             & s.has_left(sizeof!(u64))
-- 
2.43.0


From eb389c701e73480b9dda71c8ddd3504ffe677381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:08 +0000
Subject: [PATCH 33/39] fix: rows of a v1 data batch are restored with the
 fields their model had when they were written

---
 .../storage/v1/raw/batch_jrnl/restore.rs      | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
index 6405fdf..2bbd9c1 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/restore.rs
@@ -37,7 +37,7 @@ use {
             },
             data::{cell::Datacell, tag::TagUnique},
             error::{RuntimeResult, StorageError},
-            idx::{MTIndex, STIndex, STIndexSeq},
+            idx::{MTIndex, STIndex},
             storage::{
                 common::interface::fs::File,
                 common_encoding::r1::{
@@ -210,13 +210,23 @@ impl DataBatchRestoreDriver {
     ) -> RuntimeResult<()> {
         // NOTE(@ohsayan): current complexity is O(n) which is good enough (in the future I might revise this to a fancier impl)
         // pin model
-        let g = unsafe { crossbeam_epoch::unprotected() };
+        // NB: we must pin because we look at rows that we have just removed
+        let g = crossbeam_epoch::pin();
         let mut pending_delete = HashMap::new();
         let p_index = m.primary_index().__raw_index();
+        // the rows were written with the fields that the model had at this point, which need not be its current fields
+        let fields = unsafe {
+            // UNSAFE(@ohsayan): model in scope, we're good
+            m.fields_at(DeltaVersion::__new(schema_version))
+        }
+        .ok_or(StorageError::DataBatchRestoreCorruptedBatch)?;
         // scan rows
         for DecodedBatchEvent { txn_id, pk, kind } in events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
+                    if new_row.len() != fields.len() - 1 {
+                        return Err(StorageError::DataBatchRestoreCorruptedBatch.into());
+                    }
                     // this is more like a "newrow"
                     match p_index.mt_get_element(&pk, &g) {
                         Some(row) if row.d_data().read().get_txn_revised() > txn_id => {
@@ -229,9 +239,8 @@ impl DataBatchRestoreDriver {
                             // new row (logically)
                             let _ = p_index.mt_delete(&pk, &g);
                             let mut data = DcFieldIndex::default();
-                            for (field_name, new_data) in m
-                                .fields()
-                                .stseq_ord_key()
+                            for (field_name, new_data) in fields
+                                .iter()
                                 .filter(|key| key.as_str() != m.p_key())
                                 .zip(new_row)
                             {
@@ -286,8 +295,7 @@ impl DataBatchRestoreDriver {
                     let _ = p_index.mt_delete(&pk, &g);
                 }
                 None => {
-                    // since we never delete rows until here, this is quite impossible
-                    unreachable!()
+                    // the row was inserted and deleted as part of the same diff, so the insert was never written
                 }
             }
         }
-- 
2.43.0


From 8ec5ef26c3829194dfbfe8f1598a42f6e42e0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:57 +0000
Subject: [PATCH 34/39] fix: models that were upgraded from storage v1 can be
 loaded again and the configured root password applies

---
 server/src/engine/storage/mod.rs              |  4 +-
 .../engine/storage/v2/impls/mdl_journal.rs    | 37 ++++++++++---------
 server/src/engine/storage/v2/mod.rs           | 18 ++++-----
 3 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/server/src/engine/storage/mod.rs b/server/src/engine/storage/mod.rs
index 2bec1cf..2f3bfc2 100644
--- a/server/src/engine/storage/mod.rs
+++ b/server/src/engine/storage/mod.rs
@@ -67,7 +67,9 @@ pub fn load(cfg: &Configuration) -> RuntimeResult<SELoaded> {
         let gns = v1::load_gns_prepare_migration()?;
         info!("loaded data. now upgrading to new storage format");
         context::set_dmsg("upgrading storage-v1 to storage-v2 format");
-        return v2::recreate(gns);
+        v2::recreate(gns)?;
+        // the models that we have just created start out with no schema deltas, so use what we've written and not what was loaded
+        return v2::restore(cfg);
     }
     if !Path::new(v2::GNS_PATH).is_file() {
         info!("initializing databases");
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 4a2d1c5..25d1e03 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -116,16 +116,15 @@ impl<'b> RowWriter<'b> {
     /// - pk tag
     /// - schema version
     /// - column count
-    fn write_row_global_metadata(&mut self, model: &ModelData) -> RuntimeResult<()> {
+    fn write_row_global_metadata(
+        &mut self,
+        model: &ModelData,
+        schema_version: DeltaVersion,
+    ) -> RuntimeResult<()> {
         self.f
             .dtrack_write(&[model.p_tag().tag_unique().value_u8()])?;
-        self.f.dtrack_write(
-            &model
-                .delta_state()
-                .schema_current_version()
-                .value_u64()
-                .u64_bytes_le(),
-        )?;
+        self.f
+            .dtrack_write(&schema_version.value_u64().u64_bytes_le())?;
         e!(self
             .f
             .dtrack_write(&(model.fields().st_len() - 1).u64_bytes_le()))
@@ -247,7 +246,8 @@ impl<'a, 'b> BatchWriter<'a, 'b> {
         f: &'b mut TrackedWriter<<BatchAdapter<ModelDataAdapter> as RawJournalAdapter>::Spec>,
     ) -> RuntimeResult<Self> {
         let mut row_writer = RowWriter { f };
-        row_writer.write_row_global_metadata(model)?;
+        row_writer
+            .write_row_global_metadata(model, model.delta_state().schema_current_version())?;
         Ok(Self {
             model,
             row_writer,
@@ -343,7 +343,8 @@ impl<'a> JournalAdapterEvent<BatchAdapter<ModelDataAdapter>> for FullModel<'a> {
             .f
             .dtrack_write(&current_row_count.u64_bytes_le())?;
         // [pk tag][schema version][column cnt]
-        row_writer.write_row_global_metadata(self.0)?;
+        // NB: the model is created with its current fields, so this is its first version no matter what it went through before
+        row_writer.write_row_global_metadata(self.0, DeltaVersion::genesis())?;
         for (key, row_data) in index.mt_iter_kv(&g) {
             let row_data = row_data.read();
             row_writer.write_row_metadata(DataDeltaKind::Insert, row_data.get_txn_revised())?;
@@ -514,9 +515,16 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
         // the rows were written with the fields that the model had at this point, which need not be its current fields
+        let schema_version = if m.delta_state().schema_current_version() == DeltaVersion::genesis()
+        {
+            // the model never changed; however, if it was upgraded from storage-v1 then the version it had there may be present
+            DeltaVersion::genesis()
+        } else {
+            DeltaVersion::__new(batch_md.schema_version)
+        };
         let fields = unsafe {
             // UNSAFE(@ohsayan): model in scope, we're good
-            m.fields_at(DeltaVersion::__new(batch_md.schema_version))
+            m.fields_at(schema_version)
         }
         .ok_or(StorageError::DataBatchRestoreCorruptedBatch)?;
         if fields.len() as u64 - 1 != batch_md.column_count {
@@ -554,12 +562,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                             new_data,
                         );
                     }
-                    let row = Row::new_restored(
-                        pk,
-                        data,
-                        DeltaVersion::__new(batch_md.schema_version),
-                        txn_id,
-                    );
+                    let row = Row::new_restored(pk, data, schema_version, txn_id);
                     // resolve any deltas
                     let _ = row.resolve_schema_deltas_and_freeze(m.delta_state());
                     // put it back in (lol); blame @ohsayan for this joke
diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index 0dbc1cd..ad6d945 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -45,7 +45,7 @@ use {
         },
         RuntimeResult,
     },
-    impls::mdl_journal::ModelDriver,
+    impls::{gns_log::GNSDriver, mdl_journal::ModelDriver},
     std::io::ErrorKind,
 };
 
@@ -57,9 +57,9 @@ pub const GNS_PATH: &str = v1::GNS_PATH;
 const GNS_INIT_PATH: &str = "gns.db-tlog.new";
 pub const DATA_DIR: &str = v1::DATA_DIR;
 
-pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
+pub fn recreate(gns: GNSData) -> RuntimeResult<()> {
     context::set_dmsg("creating gns");
-    let mut gns_driver = impls::gns_log::GNSDriver::create_gns()?;
+    let mut gns_driver = GNSDriver::create_gns()?;
     // create all spaces
     context::set_dmsg("creating all spaces");
     for (space_name, space) in gns.idx().read().iter() {
@@ -89,16 +89,14 @@ pub fn recreate(gns: GNSData) -> RuntimeResult<SELoaded> {
             model_data,
         ))?;
         model_driver.commit_with_ctx(FullModel::new(model_data), BatchStats::new())?;
-        model.driver().initialize_model_driver(model_driver);
+        ModelDriver::close_driver(&mut model_driver)?;
     }
     // create all users
     context::set_dmsg("creating all users");
     for (user_name, user) in gns.sys_db().users().read().iter() {
         gns_driver.commit_event(CreateUserTxn::new(&user_name, user.hash()))?;
     }
-    Ok(SELoaded {
-        gns: GlobalNS::new(gns, FractalGNSDriver::new(gns_driver)),
-    })
+    GNSDriver::close_driver(&mut gns_driver)
 }
 
 pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
@@ -110,7 +108,7 @@ pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
             return Err(e.into());
         }
     }
-    let mut gns_driver = impls::gns_log::GNSDriver::create_gns_with_name(GNS_INIT_PATH)?;
+    let mut gns_driver = GNSDriver::create_gns_with_name(GNS_INIT_PATH)?;
     let gns = GNSData::empty();
     let password_hash = rcrypt::hash(&config.auth.root_key, rcrypt::DEFAULT_COST).unwrap();
     // now go ahead and initialize our root user
@@ -131,7 +129,7 @@ pub fn initialize_new(config: &Configuration) -> RuntimeResult<SELoaded> {
 pub fn restore(cfg: &Configuration) -> RuntimeResult<SELoaded> {
     let gns = GNSData::empty();
     context::set_dmsg("loading gns");
-    let mut gns_driver = impls::gns_log::GNSDriver::open_gns(&gns)?;
+    let mut gns_driver = GNSDriver::open_gns(&gns)?;
     for (id, model) in gns.idx_models().write().iter_mut() {
         let model_data = model.data();
         let space_uuid = gns.idx().read().get(id.space()).unwrap().get_uuid();
@@ -139,7 +137,7 @@ pub fn restore(cfg: &Configuration) -> RuntimeResult<SELoaded> {
             paths_v1::model_path(id.space(), space_uuid, id.entity(), model_data.get_uuid());
         context::set_dmsg(format!("loading model driver in {model_data_file_path}"));
         let model_driver =
-            impls::mdl_journal::ModelDriver::open_model_driver(model_data, &model_data_file_path)?;
+            ModelDriver::open_model_driver(model_data, &model_data_file_path)?;
         model.driver().initialize_model_driver(model_driver);
         unsafe {
             // UNSAFE(@ohsayan): all pieces of data are upgraded by now, so vacuum
-- 
2.43.0


From 771336441ea313a761e51d5f017f5645aecbdbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 35/39] fix: an interrupted upgrade from storage v1 is
 continued or started over instead of losing the data

---
 server/src/engine/storage/mod.rs              | 13 +--
 server/src/engine/storage/v1/loader.rs        | 86 +++++++------------
 server/src/engine/storage/v1/mod.rs           | 81 ++++++++++++++---
 .../engine/storage/v1/raw/batch_jrnl/mod.rs   | 10 +--
 .../storage/v1/raw/batch_jrnl/persist.rs      | 59 -------------
 .../src/engine/storage/v1/raw/journal/raw.rs  | 75 ++--------------
 server/src/engine/storage/v2/mod.rs           | 40 +++++----
 7 files changed, 141 insertions(+), 223 deletions(-)
 delete mode 100644 server/src/engine/storage/v1/raw/batch_jrnl/persist.rs

diff --git a/server/src/engine/storage/mod.rs b/server/src/engine/storage/mod.rs
index 2f3bfc2..6195943 100644
--- a/server/src/engine/storage/mod.rs
+++ b/server/src/engine/storage/mod.rs
@@ -59,17 +59,20 @@ pub struct SELoaded {
 
 pub fn load(cfg: &Configuration) -> RuntimeResult<SELoaded> {
     // first determine if this is a new install, an existing install or if it uses the old driver
-    if Path::new(v1::SYSDB_PATH).is_file() {
+    if Path::new(v1::SYSDB_PATH).is_file() && !v1::upgrade_is_pending() {
         warn!("older storage format detected");
         // this is an old install
         info!("loading data");
         context::set_dmsg("loading storage-v1 in compatibility mode");
-        let gns = v1::load_gns_prepare_migration()?;
+        let gns = v1::load_gns()?;
         info!("loaded data. now upgrading to new storage format");
         context::set_dmsg("upgrading storage-v1 to storage-v2 format");
-        v2::recreate(gns)?;
-        // the models that we have just created start out with no schema deltas, so use what we've written and not what was loaded
-        return v2::restore(cfg);
+        v1::upgrade_prepare(|dir| v2::recreate(gns, dir))?;
+    }
+    if v1::upgrade_is_pending() {
+        // the models that were created start out with no schema deltas, so use what was written and not what was loaded
+        context::set_dmsg("completing upgrade to storage-v2 format");
+        v1::upgrade_complete()?;
     }
     if !Path::new(v2::GNS_PATH).is_file() {
         info!("initializing databases");
diff --git a/server/src/engine/storage/v1/loader.rs b/server/src/engine/storage/v1/loader.rs
index 76764d1..8351d1e 100644
--- a/server/src/engine/storage/v1/loader.rs
+++ b/server/src/engine/storage/v1/loader.rs
@@ -24,69 +24,45 @@
  *
 */
 
-use {
-    crate::engine::{
-        core::{EntityIDRef, GNSData},
-        error::RuntimeResult,
-        fractal::{error::ErrorContext, ModelUniqueID},
-        storage::{
-            common::paths_v1,
-            v1::raw::{
-                batch_jrnl,
-                journal::{raw as raw_journal, GNSAdapter},
-                spec,
-            },
+use crate::engine::{
+    core::{EntityIDRef, GNSData},
+    error::RuntimeResult,
+    fractal::error::ErrorContext,
+    storage::{
+        common::paths_v1,
+        v1::raw::{
+            batch_jrnl,
+            journal::{raw as raw_journal, GNSAdapter},
+            spec,
         },
     },
-    std::collections::HashMap,
 };
 
+/// Load all the data
+///
+/// NB: nothing on disk may be changed by this, since an interrupted upgrade has to start over with the same files
 pub fn load_gns() -> RuntimeResult<GNSData> {
     let gns = GNSData::empty();
-    let gns_txn_driver =
-        raw_journal::load_journal::<GNSAdapter, spec::GNSTransactionLogV1>(super::GNS_PATH, &gns)?;
-    let mut model_drivers = HashMap::new();
-    let mut driver_guard = || {
-        let mut models = gns.idx_models().write();
-        // this is an existing instance, so read in all data
-        for (space_name, space) in gns.idx().read().iter() {
-            let space_uuid = space.get_uuid();
-            for model_name in space.models().iter() {
-                let model = models
-                    .get_mut(&EntityIDRef::new(&space_name, &model_name))
-                    .unwrap();
-                let path = paths_v1::model_path(
-                    space_name,
-                    space_uuid,
-                    model_name,
-                    model.data().get_uuid(),
-                );
-                let persist_driver = batch_jrnl::reinit(&path, model.data()).inherit_set_dmsg(
-                    format!("failed to restore model data from journal in `{path}`"),
-                )?;
-                unsafe {
-                    // UNSAFE(@ohsayan): all pieces of data are upgraded by now, so vacuum
-                    model.data_mut().model_mutator().vacuum_stashed();
-                }
-                let _ = model_drivers.insert(
-                    ModelUniqueID::new(space_name, model_name, model.data().get_uuid()),
-                    persist_driver,
-                );
+    raw_journal::load_journal::<GNSAdapter, spec::GNSTransactionLogV1>(super::GNS_PATH, &gns)?;
+    let mut models = gns.idx_models().write();
+    // this is an existing instance, so read in all data
+    for (space_name, space) in gns.idx().read().iter() {
+        let space_uuid = space.get_uuid();
+        for model_name in space.models().iter() {
+            let model = models
+                .get_mut(&EntityIDRef::new(&space_name, &model_name))
+                .unwrap();
+            let path =
+                paths_v1::model_path(space_name, space_uuid, model_name, model.data().get_uuid());
+            batch_jrnl::load(&path, model.data()).inherit_set_dmsg(format!(
+                "failed to restore model data from journal in `{path}`"
+            ))?;
+            unsafe {
+                // UNSAFE(@ohsayan): all pieces of data are upgraded by now, so vacuum
+                model.data_mut().model_mutator().vacuum_stashed();
             }
         }
-        RuntimeResult::Ok(())
-    };
-    if let Err(e) = driver_guard() {
-        gns_txn_driver.close().unwrap();
-        for (_, driver) in model_drivers {
-            driver.close().unwrap();
-        }
-        return Err(e);
-    }
-    // close all drivers
-    gns_txn_driver.close().unwrap();
-    for (_, driver) in model_drivers {
-        driver.close().unwrap();
     }
+    drop(models);
     Ok(gns)
 }
diff --git a/server/src/engine/storage/v1/mod.rs b/server/src/engine/storage/v1/mod.rs
index fa1f667..205b556 100644
--- a/server/src/engine/storage/v1/mod.rs
+++ b/server/src/engine/storage/v1/mod.rs
@@ -38,13 +38,21 @@ use {
         engine::{core::GNSData, RuntimeResult},
         util,
     },
+    std::path::Path,
 };
 
 pub const GNS_PATH: &str = "gns.db-tlog";
 pub const SYSDB_PATH: &str = "sys.db";
 pub const DATA_DIR: &str = "data";
+const BACKUPS_DIR: &str = "backups";
 
-pub fn load_gns_prepare_migration() -> RuntimeResult<GNSData> {
+/// the new files while they're being created
+const UPGRADE_INIT_DIR: &str = "upgrade.new";
+/// the new files once all of them have been created
+const UPGRADE_DIR: &str = "upgrade";
+
+/// Load all the data (without changing any files)
+pub fn load_gns() -> RuntimeResult<GNSData> {
     // load gns
     let gns = loader::load_gns()?;
     // load sysdb
@@ -53,17 +61,64 @@ pub fn load_gns_prepare_migration() -> RuntimeResult<GNSData> {
     for (user, phash) in users {
         gns.sys_db().__raw_create_user(user, phash);
     }
-    // now move all our files into a backup directory
-    let backup_dir_path = format!(
-        "backups/{}",
-        util::time_now_with_postfix("before_upgrade_to_v2")
-    );
-    // move data folder
-    FileSystem::create_dir_all(&backup_dir_path)?;
-    util::os::move_files_recursively("data", &format!("{backup_dir_path}/data"))?;
-    // move GNS
-    FileSystem::rename(GNS_PATH, &format!("{backup_dir_path}/{GNS_PATH}"))?;
-    // move sysdb
-    FileSystem::rename(SYSDB_PATH, &format!("{backup_dir_path}/{SYSDB_PATH}"))?;
     Ok(gns)
 }
+
+/*
+    upgrade
+    ---
+    we might be interrupted at any point, so:
+    1. the new files are created in a directory of their own; if we are interrupted we start over
+    2. the directory is renamed once all the new files are complete. from here on we never look at the old files again
+    3. the old files are moved away and the new ones are put into their place; if we are interrupted we simply continue
+*/
+
+/// Returns true if an upgrade was interrupted after all the new files were created
+pub fn upgrade_is_pending() -> bool {
+    Path::new(UPGRADE_DIR).is_dir()
+}
+
+/// Create all the new files
+pub fn upgrade_prepare(
+    create: impl FnOnce(/* target directory */ &str) -> RuntimeResult<()>,
+) -> RuntimeResult<()> {
+    if Path::new(UPGRADE_INIT_DIR).exists() {
+        // left behind by an earlier attempt
+        FileSystem::remove_dir_all(UPGRADE_INIT_DIR)?;
+    }
+    FileSystem::create_dir_all(UPGRADE_INIT_DIR)?;
+    create(UPGRADE_INIT_DIR)?;
+    e!(FileSystem::rename(UPGRADE_INIT_DIR, UPGRADE_DIR))
+}
+
+/// Move the old files to a backup directory and put the new files into their place
+pub fn upgrade_complete() -> RuntimeResult<()> {
+    let old_dir = format!("{UPGRADE_DIR}/old");
+    if Path::new(SYSDB_PATH).exists() {
+        FileSystem::create_dir_all(&old_dir)?;
+        for path in [DATA_DIR, GNS_PATH] {
+            let new_path = format!("{UPGRADE_DIR}/{path}");
+            if !Path::new(&new_path).exists() {
+                // already in place
+                continue;
+            }
+            if Path::new(path).exists() {
+                FileSystem::rename(path, &format!("{old_dir}/{path}"))?;
+            }
+            FileSystem::rename(&new_path, path)?;
+        }
+        FileSystem::rename(SYSDB_PATH, &format!("{old_dir}/{SYSDB_PATH}"))?;
+    }
+    if Path::new(&old_dir).exists() {
+        FileSystem::create_dir_all(BACKUPS_DIR)?;
+        let mut backup_dir = format!(
+            "{BACKUPS_DIR}/{}",
+            util::time_now_with_postfix("before_upgrade_to_v2")
+        );
+        while Path::new(&backup_dir).exists() {
+            backup_dir.push('_');
+        }
+        FileSystem::rename(&old_dir, &backup_dir)?;
+    }
+    e!(FileSystem::remove_dir(UPGRADE_DIR))
+}
diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs b/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs
index ba6217a..ff898ac 100644
--- a/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs
+++ b/server/src/engine/storage/v1/raw/batch_jrnl/mod.rs
@@ -24,7 +24,6 @@
  *
 */
 
-mod persist;
 mod restore;
 
 /// the data batch file was reopened
@@ -38,18 +37,17 @@ const MARKER_ACTUAL_BATCH_EVENT: u8 = 0xFE;
 /// recovery batch event marker
 const MARKER_RECOVERY_EVENT: u8 = 0xFF;
 
-pub use {persist::DataBatchPersistDriver, restore::DataBatchRestoreDriver};
+pub use restore::DataBatchRestoreDriver;
 
 use {
     super::{rw::SDSSFileIO, spec},
     crate::engine::{core::model::ModelData, error::RuntimeResult},
 };
 
-/// Re-initialize an existing batch journal and read all its data into model
-pub fn reinit(name: &str, model: &ModelData) -> RuntimeResult<DataBatchPersistDriver> {
+/// Read all the data of an existing batch journal into the model
+pub fn load(name: &str, model: &ModelData) -> RuntimeResult<()> {
     let (f, _header) = SDSSFileIO::open::<spec::DataBatchJournalV1>(name)?;
     // restore
     let mut restore_driver = DataBatchRestoreDriver::new(f)?;
-    restore_driver.read_data_batch_into_model(model)?;
-    DataBatchPersistDriver::new(restore_driver.into_file(), false)
+    restore_driver.read_data_batch_into_model(model)
 }
diff --git a/server/src/engine/storage/v1/raw/batch_jrnl/persist.rs b/server/src/engine/storage/v1/raw/batch_jrnl/persist.rs
deleted file mode 100644
index 0811406..0000000
--- a/server/src/engine/storage/v1/raw/batch_jrnl/persist.rs
+++ /dev/null
@@ -1,59 +0,0 @@
-/*
- * Created on Tue Sep 05 2023
- *
- * This file is a part of Skytable
- * Skytable (formerly known as TerrabaseDB or Skybase) is a free and open-source
- * NoSQL database written by Sayan Nandan ("the Author") with the
- * vision to provide flexibility in data modelling without compromising
- * on performance, queryability or scalability.
- *
- * Copyright (c) 2023, Sayan Nandan <ohsayan@outlook.com>
- *
- * This program is free software: you can redistribute it and/or modify
- * it under the terms of the GNU Affero General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * This program is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
- * GNU Affero General Public License for more details.
- *
- * You should have received a copy of the GNU Affero General Public License
- * along with this program. If not, see <https://www.gnu.org/licenses/>.
- *
-*/
-
-use {
-    super::{MARKER_BATCH_CLOSED, MARKER_BATCH_REOPEN},
-    crate::engine::{
-        error::{RuntimeResult, StorageError},
-        storage::{
-            common::interface::fs::File,
-            v1::raw::rw::{SDSSFileIO, TrackedWriter},
-        },
-    },
-};
-
-pub struct DataBatchPersistDriver {
-    f: TrackedWriter,
-}
-
-impl DataBatchPersistDriver {
-    pub fn new(mut file: SDSSFileIO<File>, is_new: bool) -> RuntimeResult<Self> {
-        if !is_new {
-            file.fsynced_write(&[MARKER_BATCH_REOPEN])?;
-        }
-        Ok(Self {
-            f: TrackedWriter::new(file)?,
-        })
-    }
-    pub fn close(self) -> RuntimeResult<()> {
-        let mut slf = self.f.sync_into_inner()?;
-        if slf.fsynced_write(&[MARKER_BATCH_CLOSED]).is_ok() {
-            return Ok(());
-        } else {
-            return Err(StorageError::DataBatchCloseError.into());
-        }
-    }
-}
diff --git a/server/src/engine/storage/v1/raw/journal/raw.rs b/server/src/engine/storage/v1/raw/journal/raw.rs
index 1c0d42d..e4929b6 100644
--- a/server/src/engine/storage/v1/raw/journal/raw.rs
+++ b/server/src/engine/storage/v1/raw/journal/raw.rs
@@ -61,10 +61,9 @@ const CRC: crc::Crc<u32> = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC);
 pub fn load_journal<TA: JournalAdapter, F: sdss::sdss_r1::FileSpecV1<DecodeArgs = ()>>(
     log_file_name: &str,
     gs: &TA::GlobalState,
-) -> RuntimeResult<JournalWriter<TA>> {
+) -> RuntimeResult<()> {
     let (file, _) = SDSSFileIO::open::<F>(log_file_name)?;
-    let (file, last_txn_id) = JournalReader::<TA>::scroll(file, gs)?;
-    JournalWriter::new(file, last_txn_id, false)
+    JournalReader::<TA>::scroll(file, gs)
 }
 
 /// The journal adapter
@@ -293,17 +292,14 @@ impl<TA: JournalAdapter> JournalReader<TA> {
             Err(StorageError::JournalCorrupted.into())
         }
     }
-    /// Read and apply all events in the given log file to the global state, returning the (open file, last event ID)
-    pub fn scroll(
-        file: SDSSFileIO<File>,
-        gs: &TA::GlobalState,
-    ) -> RuntimeResult<(SDSSFileIO<File>, u64)> {
+    /// Read and apply all events in the given log file to the global state
+    pub fn scroll(file: SDSSFileIO<File>, gs: &TA::GlobalState) -> RuntimeResult<()> {
         let mut slf = Self::new(file)?;
         while !slf.end_of_file() {
             slf.rapply_next_event(gs)?;
         }
         if slf.closed {
-            Ok((slf.log_file.downgrade_reader(), slf.evid))
+            Ok(())
         } else {
             Err(StorageError::JournalCorrupted.into())
         }
@@ -336,64 +332,3 @@ impl<TA> JournalReader<TA> {
         Ok(())
     }
 }
-
-pub struct JournalWriter<TA> {
-    /// the txn log file
-    log_file: SDSSFileIO<File>,
-    /// the id of the **next** journal
-    id: u64,
-    _m: PhantomData<TA>,
-    closed: bool,
-}
-
-impl<TA: JournalAdapter> JournalWriter<TA> {
-    pub fn new(mut log_file: SDSSFileIO<File>, last_txn_id: u64, new: bool) -> RuntimeResult<Self> {
-        let log_size = log_file.file_length()?;
-        log_file.seek_from_start(log_size)?; // avoid jumbling with headers
-        let mut slf = Self {
-            log_file,
-            id: last_txn_id,
-            _m: PhantomData,
-            closed: false,
-        };
-        if !new {
-            // IMPORTANT: don't forget this; otherwise the journal reader will report a false error!
-            slf.append_journal_reopen()?;
-        }
-        Ok(slf)
-    }
-}
-
-impl<TA> JournalWriter<TA> {
-    pub fn append_journal_reopen(&mut self) -> RuntimeResult<()> {
-        let id = self._incr_id() as u128;
-        e!(self.log_file.fsynced_write(
-            &JournalEntryMetadata::new(id, EventSourceMarker::DRIVER_REOPENED, 0, 0).encoded(),
-        ))
-    }
-    pub fn __close_mut(&mut self) -> RuntimeResult<()> {
-        self.closed = true;
-        let id = self._incr_id() as u128;
-        self.log_file.fsynced_write(
-            &JournalEntryMetadata::new(id, EventSourceMarker::DRIVER_CLOSED, 0, 0).encoded(),
-        )?;
-        Ok(())
-    }
-    pub fn close(mut self) -> RuntimeResult<()> {
-        self.__close_mut()
-    }
-}
-
-impl<TA> JournalWriter<TA> {
-    fn _incr_id(&mut self) -> u64 {
-        let current = self.id;
-        self.id += 1;
-        current
-    }
-}
-
-impl<TA> Drop for JournalWriter<TA> {
-    fn drop(&mut self) {
-        assert!(self.closed, "log not closed");
-    }
-}
diff --git a/server/src/engine/storage/v2/mod.rs b/server/src/engine/storage/v2/mod.rs
index ad6d945..13c2c4e 100644
--- a/server/src/engine/storage/v2/mod.rs
+++ b/server/src/engine/storage/v2/mod.rs
@@ -57,13 +57,18 @@ pub const GNS_PATH: &str = v1::GNS_PATH;
 const GNS_INIT_PATH: &str = "gns.db-tlog.new";
 pub const DATA_DIR: &str = v1::DATA_DIR;
 
-pub fn recreate(gns: GNSData) -> RuntimeResult<()> {
+/// Create all files for the given data in the given directory
+pub fn recreate(gns: GNSData, dir: &str) -> RuntimeResult<()> {
     context::set_dmsg("creating gns");
-    let mut gns_driver = GNSDriver::create_gns()?;
+    FileSystem::create_dir_all(&format!("{dir}/{DATA_DIR}"))?;
+    let mut gns_driver = GNSDriver::create_gns_with_name(&format!("{dir}/{GNS_PATH}"))?;
     // create all spaces
     context::set_dmsg("creating all spaces");
     for (space_name, space) in gns.idx().read().iter() {
-        FileSystem::create_dir_all(&paths_v1::space_dir(space_name, space.get_uuid()))?;
+        FileSystem::create_dir_all(&format!(
+            "{dir}/{}",
+            paths_v1::space_dir(space_name, space.get_uuid())
+        ))?;
         gns_driver.commit_event(CreateSpaceTxn::new(space.props(), &space_name, space))?;
     }
     // create all models
@@ -71,17 +76,23 @@ pub fn recreate(gns: GNSData) -> RuntimeResult<()> {
     for (model_id, model) in gns.idx_models().read().iter() {
         let model_data = model.data();
         let space_uuid = gns.idx().read().get(model_id.space()).unwrap().get_uuid();
-        FileSystem::create_dir_all(&paths_v1::model_dir(
-            model_id.space(),
-            space_uuid,
-            model_id.entity(),
-            model_data.get_uuid(),
+        FileSystem::create_dir_all(&format!(
+            "{dir}/{}",
+            paths_v1::model_dir(
+                model_id.space(),
+                space_uuid,
+                model_id.entity(),
+                model_data.get_uuid(),
+            )
         ))?;
-        let mut model_driver = ModelDriver::create_model_driver(&paths_v1::model_path(
-            model_id.space(),
-            space_uuid,
-            model_id.entity(),
-            model_data.get_uuid(),
+        let mut model_driver = ModelDriver::create_model_driver(&format!(
+            "{dir}/{}",
+            paths_v1::model_path(
+                model_id.space(),
+                space_uuid,
+                model_id.entity(),
+                model_data.get_uuid(),
+            )
         ))?;
         gns_driver.commit_event(CreateModelTxn::new(
             SpaceIDRef::with_uuid(model_id.space(), space_uuid),
@@ -136,8 +147,7 @@ pub fn restore(cfg: &Configuration) -> RuntimeResult<SELoaded> {
         let model_data_file_path =
             paths_v1::model_path(id.space(), space_uuid, id.entity(), model_data.get_uuid());
         context::set_dmsg(format!("loading model driver in {model_data_file_path}"));
-        let model_driver =
-            ModelDriver::open_model_driver(model_data, &model_data_file_path)?;
+        let model_driver = ModelDriver::open_model_driver(model_data, &model_data_file_path)?;
         model.driver().initialize_model_driver(model_driver);
         unsafe {
             // UNSAFE(@ohsayan): all pieces of data are upgraded by now, so vacuum
-- 
2.43.0


From 5c46585022401fa2c06c53f4de31ef93d156e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:47 +0000
Subject: [PATCH 36/39] fix: the removal of an event that could not be
 committed may not be undone by a crash after the next start

---
 server/src/engine/storage/v2/raw/journal/raw/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 830f750..47b21e4 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -750,7 +750,11 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
             if me.tr.is_eof() {
                 // the log simply ends after the last event, without being closed; we were probably killed
                 warn!("journal was not closed properly");
-                return Ok(me.complete());
+                let (initializer, mut file) = me.complete();
+                // NB: we may only rely on what we've just read if it can't change anymore (for example, the removal of an
+                // event that could not be committed might not have reached the disk)
+                file.fsync_all()?;
+                return Ok((initializer, file));
             }
             match me._apply_next_event_and_stop(gs) {
                 Ok(false) => {}
-- 
2.43.0


From 19ecf24636801ede839c71e9180fc145a5d1889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:26 +0000
Subject: [PATCH 37/39] fix: an environment change may not replace a dictionary
 by a plain value

---
 server/src/engine/data/dict.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index 7c0b90a..6e7a8f1 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -154,6 +154,11 @@ fn rmerge_metadata_prepare_patch(
             (Some(DictEntryGeneric::Data(_)), DictEntryGeneric::Map(_)) => {
                 okay = false;
             }
+            (Some(DictEntryGeneric::Map(_)), DictEntryGeneric::Data(new_data))
+                if new_data.is_init() =>
+            {
+                okay = false;
+            }
             (
                 Some(DictEntryGeneric::Map(this_recursive_data)),
                 DictEntryGeneric::Map(new_recursive_data),
-- 
2.43.0


From bea7148ff1e06d94dd33981a69db8d304e75719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:08 +0000
Subject: [PATCH 38/39] fix: lengths read from a damaged journal may not
 overflow when they are added

---
 .../common_encoding/r1/impls/gns/model.rs     | 24 ++++++++++++++-----
 .../src/engine/storage/common_encoding/r2.rs  |  4 ++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
index c56995e..6d73aca 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
@@ -92,7 +92,7 @@ impl<'a> PersistObject for ModelID<'a> {
     type OutputType = ModelIDRes;
     type Metadata = ModelIDMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left(md.model_name_l as usize + md.space_id.space_name_l as usize)
+        scanner.has_left(md.model_name_l.saturating_add(md.space_id.space_name_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         <super::SpaceID as PersistObject>::meta_enc(buf, data.space_id());
@@ -202,7 +202,7 @@ impl<'a> PersistObject for CreateModelTxn<'a> {
     type OutputType = CreateModelTxnRestorePL;
     type Metadata = CreateModelTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.model_meta.p_key_len() + md.model_name_l) as usize)
+        scanner.has_left(md.model_meta.p_key_len().saturating_add(md.model_name_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // space ID
@@ -313,7 +313,10 @@ impl<'a> PersistObject for AlterModelAddTxn<'a> {
     type Metadata = AlterModelAddTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            (md.model_id_meta.space_id.space_name_l + md.model_id_meta.model_name_l) as usize,
+            md.model_id_meta
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_meta.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -394,7 +397,10 @@ impl<'a> PersistObject for AlterModelRemoveTxn<'a> {
     type Metadata = AlterModelRemoveTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            (md.model_id_meta.space_id.space_name_l + md.model_id_meta.model_name_l) as usize,
+            md.model_id_meta
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_meta.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -485,7 +491,10 @@ impl<'a> PersistObject for AlterModelUpdateTxn<'a> {
     type Metadata = AlterModelUpdateTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            md.model_id_md.space_id.space_name_l as usize + md.model_id_md.model_name_l as usize,
+            md.model_id_md
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_md.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -559,7 +568,10 @@ impl<'a> PersistObject for DropModelTxn<'a> {
     type Metadata = DropModelTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            md.model_id_md.space_id.space_name_l as usize + md.model_id_md.model_name_l as usize,
+            md.model_id_md
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_md.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
diff --git a/server/src/engine/storage/common_encoding/r2.rs b/server/src/engine/storage/common_encoding/r2.rs
index bd05e6d..bb7483d 100644
--- a/server/src/engine/storage/common_encoding/r2.rs
+++ b/server/src/engine/storage/common_encoding/r2.rs
@@ -94,7 +94,7 @@ impl<'a> PersistObject for CreateUserTxn<'a> {
     type OutputType = FullUserDefinition;
     type Metadata = CreateUserMetadata;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.uname_l + md.pwd_l) as usize)
+        scanner.has_left(md.uname_l.saturating_add(md.pwd_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // [username length: 8B][password length: 8B][properties length: 8B]
@@ -154,7 +154,7 @@ impl<'a> PersistObject for AlterUserTxn<'a> {
     type OutputType = FullUserDefinition;
     type Metadata = CreateUserMetadata;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.uname_l + md.pwd_l) as usize)
+        scanner.has_left(md.uname_l.saturating_add(md.pwd_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // [username length: 8B][password length: 8B][properties length: 8B]
-- 
2.43.0


From 8dc6cdc4e37b5399d4f04c6e5f39c1c84ce4e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:22 +0000
Subject: [PATCH 39/39] fix: a damaged event that removes an unknown field is
 refused and does not panic

---
 server/src/engine/core/model/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index f753835..844fff2 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -501,12 +501,15 @@ impl<'a> ModelMutator<'a> {
     }
     pub fn remove_field(&mut self, name: &str) -> bool {
         // remove
-        let position = self
+        let position = match self
             .model
             .fields
             .stseq_ord_key()
             .position(|key| key.as_str() == name)
-            .unwrap_or_default();
+        {
+            Some(position) => position,
+            None => return false,
+        };
         let r = self.model.fields.st_delete(name);
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
-- 
2.43.0

