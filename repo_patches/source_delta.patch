From bc008161634c25414c7a0dd35de8bcb8d4392a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:29 +0000
Subject: [PATCH 01/44] fix: assign every resolved key to the tablet clockwise
 of it

Resolving a query dropped the key hash that advanced the walk over the tablet
ids, advanced by a single tablet only, and after wrapping around zero kept on
cycling. Look up the owner of every key hash instead.
---
 .../service/src/transaction/metadata.rs         | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 687df3e..71d731d 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -453,24 +453,29 @@ impl TableMetadata {
             if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
                 // Note that tablet ids must contain at least one entry. It may be the only entry on
                 // the whole consistent hashing ring.
-                let mut tablet_ids_it = fresh_tablet_ids.iter().cycle();
-                let mut curr_tablet_id = *tablet_ids_it.next().unwrap();
+                let first_tablet_id = *fresh_tablet_ids.first().unwrap();
+                let mut curr_tablet_id = first_tablet_id;
                 let mut curr_key_hashes = Vec::new();
                 // Merge two sorted lists of tablet ids and key hashes. Key hashes are handled by
                 // a tablet that is clockwise on the consistent hashing ring.
                 let mut resolve_result = Vec::new();
                 for key_hash in table_query.get_key_hashes() {
-                    if *key_hash > curr_tablet_id {
+                    // The first tablet at or after the key hash, or the very first one if the
+                    // consistent hashing ring wraps around zero.
+                    let tablet_id = *fresh_tablet_ids
+                        .range(*key_hash..)
+                        .next()
+                        .unwrap_or(&first_tablet_id);
+                    if tablet_id != curr_tablet_id {
                         if !curr_key_hashes.is_empty() {
                             resolve_result.push((
                                 table_query.create_from(mem::take(&mut curr_key_hashes)),
                                 self.tablets.get(&curr_tablet_id).unwrap().clone(),
                             ));
                         }
-                        curr_tablet_id = *tablet_ids_it.next().unwrap();
-                    } else {
-                        curr_key_hashes.push(*key_hash);
+                        curr_tablet_id = tablet_id;
                     }
+                    curr_key_hashes.push(*key_hash);
                 }
                 if !curr_key_hashes.is_empty() {
                     resolve_result.push((
-- 
2.43.0


From 4bfc8f8ca1aa53959972e9e9c512adfe3d621e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:02 +0000
Subject: [PATCH 02/44] fix: cover the last region of the consistent hashing
 ring

The region holding the largest key hashes was never created, so resolving a key
in it panicked.
---
 apps/tablet_cache/service/src/transaction/metadata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 71d731d..d925b28 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -354,9 +354,9 @@ struct TableMetadata {
 impl TableMetadata {
     // Prefills table regions and marks them all as stale.
     fn create(table_name: String, region_size: u32) -> Self {
-        let regions_count = u32::MAX / region_size;
-        let mut regions = HashMap::with_capacity(regions_count as usize);
-        for region_idx in 0..regions_count {
+        let last_region_idx = Self::map_table_region(region_size, u32::MAX);
+        let mut regions = HashMap::with_capacity(last_region_idx as usize + 1);
+        for region_idx in 0..=last_region_idx {
             // Regions are identified by the starting position on the consistent hashing ring.
             regions.insert(region_idx, TableRegion::create());
         }
-- 
2.43.0


From a48a09d25649230e97f14f11369fc62ecc646c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:04 +0000
Subject: [PATCH 03/44] fix: let several queries of one resolve request wait
 for a region

Two queries that share a stale region replaced each other, so the keys of the
first were lost and the request was notified twice.
---
 .../service/src/transaction/metadata.rs       | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index d925b28..d9dbd0c 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -555,8 +555,8 @@ enum TableResolveNotification {
 // Tracks pending request to resolve tablets.
 struct TabletResolve {
     notification: TableResolveNotification,
-    // Maps table name and region index to a pending table query.
-    pending_table_queries: HashMap<(String, u32), TableQuery>,
+    // Maps table name and region index to pending table queries.
+    pending_table_queries: HashMap<(String, u32), Vec<TableQuery>>,
     // Maps table name and tablet id to resolve result builder.
     results: HashMap<(String, u32), TabletResolveResult>,
 }
@@ -595,12 +595,16 @@ impl TabletResolve {
                 tablet_resolve.append_results(table_query_result);
             } else {
                 // Otherwise register pending query and wait for the corresponding region
-                // state to become fresh.
-                table_metadata.register_pending_query(resolve_request_id, table_region_idx);
-                tablet_resolve.pending_table_queries.insert(
-                    (table_query.get_table_name().clone(), table_region_idx),
-                    table_query,
-                );
+                // state to become fresh. Several queries may wait for the same region, but the
+                // request must be notified only once.
+                let pending_table_queries = tablet_resolve
+                    .pending_table_queries
+                    .entry((table_query.get_table_name().clone(), table_region_idx))
+                    .or_insert(Vec::new());
+                if pending_table_queries.is_empty() {
+                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
+                }
+                pending_table_queries.push(table_query);
             }
         }
         // Try to produce results if there are no more pending queries.
@@ -657,10 +661,11 @@ impl TabletResolve {
         table_region_idx: u32,
         table_metadata: &TableMetadata,
     ) {
-        // Remove pending query now that corresponding region state is fresh.
-        if let Some(pending_table_query) = self
+        // Remove pending queries now that corresponding region state is fresh.
+        for pending_table_query in self
             .pending_table_queries
             .remove(&(table_name.clone(), table_region_idx))
+            .unwrap_or_default()
         {
             // Resolve pending query into a number of sub-queries that are mapped
             // to particular tablets.
-- 
2.43.0


From 7e8abb20fc960417d3039b8ee63c4f3d480e9680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 04/44] fix: reject loaded tablet contents that do not match
 the recorded hash

The metadata carries the hash of the blob for integrity checking, but contents
returned by the untrusted storage were accepted unchecked.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 2261515..4c9007a 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -314,6 +314,14 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_metadata: &TabletMetadata,
         tablet_contents: Bytes,
     ) -> Result<T, ()> {
+        // Loaded contents come from an untrusted storage and must match the hash recorded
+        // when the tablet was stored.
+        if !tablet_metadata.blob_hash.is_empty()
+            && tablet_metadata.blob_hash.as_ref() != Sha256::digest(&tablet_contents).as_slice()
+        {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From 3567281f341e763c05936c05e40507da4ccfc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 05/44] fix: complete a tablet batch only when all of its
 entries are ready

A batch whose first entry was already cached completed with that entry alone,
and then failed an assertion when the others became ready.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 4c9007a..1896c4c 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -281,6 +281,7 @@ impl<T> DefaultTabletDataCache<T> {
         // Register batch with each of the tablet cache entries it affects such that
         // when tablet cache entry is ready the corresponding tablet batch can be
         // notified.
+        tablet_batch.expect_cache_entries(tablet_cache_keys.len());
         for tablet_cache_key in tablet_cache_keys {
             if let Some(tablet_cache_entry) = self.tablet_cache_entries.get_mut(tablet_cache_key) {
                 tablet_batch.add_pending_cache_entry(tablet_cache_entry);
@@ -783,8 +784,13 @@ impl<T> TabletBatch<T> {
         self.remaining_cache_entries == 0
     }
 
+    // Sets the number of cache entries the batch consists of. The batch must not complete
+    // before all of them are ready, even if the first ones are already cached.
+    fn expect_cache_entries(&mut self, cache_entries: usize) {
+        self.remaining_cache_entries = cache_entries;
+    }
+
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-        self.remaining_cache_entries += 1;
         match tablet_cache_entry.get_state() {
             TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                 tablet_cache_entry.register_waiting_batch(self.batch_id);
-- 
2.43.0


From 1bfc430d10ec92396435f02347e5a8def38e952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 06/44] fix: complete an empty tablet batch

A transaction that only reads tablets stores an empty batch, which never
completed, so the transaction could never be committed.
---
 apps/tablet_cache/service/src/transaction/data.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 1896c4c..5adc4df 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -788,6 +788,19 @@ impl<T> TabletBatch<T> {
     // before all of them are ready, even if the first ones are already cached.
     fn expect_cache_entries(&mut self, cache_entries: usize) {
         self.remaining_cache_entries = cache_entries;
+        if cache_entries == 0 {
+            // There is nothing to wait for.
+            match &mut self.batch_state {
+                TabletBatchState::Load(_, loaded_tablets_source) => {
+                    loaded_tablets_source.set_result(Vec::new())
+                }
+                TabletBatchState::Store(stored_tablets_source) => {
+                    stored_tablets_source.set_result(())
+                }
+                _ => {}
+            }
+            self.batch_state = TabletBatchState::Completed;
+        }
     }
 
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-- 
2.43.0


From 6135377bf09890d9b1779f0e2fc5b891f14b07da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:41 +0000
Subject: [PATCH 07/44] fix: keep tablets without a blob apart in the tablet
 data cache

All tablets that have never been stored have an empty blob uri and shared one
cache entry, so loading two of them returned the first one twice.
---
 apps/tablet_cache/service/src/transaction/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 5adc4df..01e5f88 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -573,6 +573,8 @@ impl<T> TabletDataCachePolicy<T> for DefaultTabletDataCachePolicy<T> {
 // Uniquely identifies tablet cache entry.
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
 struct TabletCacheKey {
+    // Id of the tablet. Tablets that have never been stored all have an empty uri.
+    tablet_id: u32,
     // Uri of the blob in Tablet Data Storage.
     uri: String,
 }
@@ -580,6 +582,7 @@ struct TabletCacheKey {
 impl TabletCacheKey {
     fn from(tablet_metadata: &TabletMetadata) -> Self {
         Self {
+            tablet_id: tablet_metadata.tablet_id,
             uri: tablet_metadata.blob_uri.clone(),
         }
     }
-- 
2.43.0


From 4eea4764c4f280ec62ed681d70a1250ce56ff865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 08/44] fix: allow the same contents of a tablet to be stored
 again

Retrying a transaction, or two concurrent ones, may produce the very same
version of a tablet, which panicked.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 01e5f88..df3cdcc 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -465,10 +465,10 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     self.out_messages.push(store_tablet_request);
                     map_entry.insert(tablet_cache_entry);
                 }
-                Occupied(map_entry) => {
-                    // Any new tablet cache write must be unique as once created tablets
-                    // are immutable.
-                    panic!("Cache entry with given cache id already exists");
+                Occupied(_) => {
+                    // The uri contains the hash of the contents, and once created tablets are
+                    // immutable. Hence the same contents are already in the cache or on the
+                    // way, for example because a transaction is being retried.
                 }
             }
         }
-- 
2.43.0


From 188e64c16f96a33b5ddf582ede9168f6e4ae8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:40 +0000
Subject: [PATCH 09/44] fix: reject contents for a tablet that has never been
 stored

Such a tablet has no recorded hash, so the untrusted storage could make up its
contents.
---
 apps/tablet_cache/service/src/transaction/data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index df3cdcc..7b12983 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -323,6 +323,11 @@ impl<T> DefaultTabletDataCache<T> {
             return Err(());
         }
 
+        // A tablet that has never been stored has no uri and is empty.
+        if tablet_metadata.blob_uri.is_empty() && !tablet_contents.is_empty() {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From 1dd3009ede42e88f1452c36b7592f9c86a03fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:41 +0000
Subject: [PATCH 10/44] fix: do not consider failed processing pending

A transaction whose loading or storing failed stayed pending forever, so it
could never be committed and its consumer never learned that it failed.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index acbfe95..7ec7138 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -495,7 +495,9 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let TabletProcessStatus::Completed = process_state.status else {
+            let (TabletProcessStatus::Completed | TabletProcessStatus::Failed) =
+                process_state.status
+            else {
                 return true;
             };
         }
-- 
2.43.0


From 2a755e2e1aafa80b3096b69144e4c45a01423072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:42 +0000
Subject: [PATCH 11/44] fix: cache updated tablet metadata only if the whole
 transaction succeeded

Tablet Store applies either all ops or none, but the metadata of updates that
were fine on their own was cached even if another op failed. Later transactions
then read a version that has never been committed. A response that does not
answer every op must not count as success either.
---
 .../service/src/transaction/coordinator.rs       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 7ec7138..46ebb6c 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -545,12 +545,17 @@ impl CommittingTabletTransactionState {
         // but for the time being we are doing a simple check of that all tablet ops
         // succeeded.
         let mut metadata_to_update_cache = Vec::new();
-        let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
+        let all_succeeded = self.tablet_ops.len() == tablet_op_results.len()
+            && tablet_op_results
+                .iter()
+                .all(|result| result.status == TabletOpStatus::Succeeded as i32);
+        let transaction_outcome = if all_succeeded {
+            TabletTransactionOutcome::Succeeded
+        } else {
+            TabletTransactionOutcome::Failed
+        };
         for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
             let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
-            if !op_succeeded {
-                transaction_outcome = TabletTransactionOutcome::Failed;
-            }
             match (&tablet_op.op, &tablet_op_result.op_result) {
                 (
                     Some(tablet_op::Op::CheckTablet(check_tablet_op)),
@@ -582,7 +587,8 @@ impl CommittingTabletTransactionState {
                                 .clone(),
                             true,
                         ));
-                    } else {
+                    } else if all_succeeded {
+                        // The tablet is only updated if all ops of the transaction succeed.
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
                             update_tablet_op.tablet_metadata.as_ref().unwrap().clone(),
-- 
2.43.0


From 252a358419a6fe7a31343cade61e717d632e4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 12/44] fix: do not require the existing tablet in a failed
 tablet op

If the request fails as a whole, for example because of an rpc error, there is
no existing tablet in the results, and completing the transaction panicked.
---
 .../service/src/transaction/coordinator.rs    | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 46ebb6c..1a2d39b 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -561,14 +561,13 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op::Op::CheckTablet(check_tablet_op)),
                     Some(tablet_op_result::OpResult::CheckTablet(check_tablet_op_result)),
                 ) => {
-                    if !op_succeeded {
+                    // The existing tablet is unknown if the request itself has failed.
+                    if let (false, Some(existing_tablet)) =
+                        (op_succeeded, &check_tablet_op_result.existing_tablet)
+                    {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
-                            check_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
+                            existing_tablet.clone(),
                             true,
                         ));
                     }
@@ -577,14 +576,13 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op::Op::UpdateTablet(update_tablet_op)),
                     Some(tablet_op_result::OpResult::UpdateTablet(update_tablet_op_result)),
                 ) => {
-                    if !op_succeeded {
+                    // The existing tablet is unknown if the request itself has failed.
+                    if let (false, Some(existing_tablet)) =
+                        (op_succeeded, &update_tablet_op_result.existing_tablet)
+                    {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
-                            update_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
+                            existing_tablet.clone(),
                             true,
                         ));
                     } else if all_succeeded {
-- 
2.43.0


From 87c030e182412369e083a8ccc814f7132d939b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:18 +0000
Subject: [PATCH 13/44] fix: treat an incomplete tablets response as an error

Tablet Store answers an op against an unknown table with an invalid status and
no result. Such results were dropped, so the remaining ones were matched with
the wrong ops or, if none remained, the requester was never notified.
---
 .../service/src/transaction/manager.rs          | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 1ddb701..f125bcc 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -275,7 +275,13 @@ impl<T> TabletTransactionManagerCore<T> {
                 _execute_ops_response,
                 tablets_response,
             ) => {
-                self.tablets_errors.remove(&correlation_id);
+                // A response that does not answer every op is as good as an error.
+                let tablets_response = match self.tablets_errors.remove(&correlation_id) {
+                    Some(tablets_error) if !is_complete(&tablets_response, &tablets_error) => {
+                        tablets_error
+                    }
+                    _ => tablets_response,
+                };
                 self.process_in_tablets_op_response(correlation_id, tablets_response);
             }
             InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {
@@ -408,6 +414,15 @@ impl<T> TabletTransactionManagerCore<T> {
     }
 }
 
+// Checks that the response has a result for every op that the precomputed error has.
+fn is_complete(tablets_response: &TabletsResponse, tablets_error: &TabletsResponse) -> bool {
+    tablets_response.tablet_results.len() == tablets_error.tablet_results.len()
+        && tablets_response
+            .tablet_results
+            .iter()
+            .all(|result| result.op_result.is_some())
+}
+
 fn create_failed_op_result(tablet_op: &TabletOp) -> TabletOpResult {
     let tablet_op_result = match &tablet_op.op {
         Some(Op::ListTablet(list_tablet_op)) => Some(OpResult::ListTablet(ListTabletResult {
-- 
2.43.0


From 3ce480bb67c09e5e9cc28ea27f8e82551c8c3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 14/44] fix: succeed a transaction that touched no tablets

Its commit request has no ops and so its response has no results, which left
the transaction waiting for an outcome forever.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 1a2d39b..fa939b7 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -271,6 +271,12 @@ impl<T> TabletTransactionCoordinator<T> for DefaultTabletTransactionCoordinator<
                 );
                 // Completion in preparing state goes over results of each process call.
                 match transaction_state.complete() {
+                    // There is nothing to commit if no tablets were touched.
+                    PreparingTabletTransactionOutcome::Succeeded(tablet_ops)
+                        if tablet_ops.is_empty() =>
+                    {
+                        TabletTransactionState::Completed(TabletTransactionOutcome::Succeeded)
+                    }
                     // Try to commit transaction if all processing succeeded.
                     PreparingTabletTransactionOutcome::Succeeded(tablet_ops) => {
                         // Stash outgoing message to commit transaction to the Tablet Store.
-- 
2.43.0


From f09575d65e221500ac1ed1a05c12bb10912d500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:28 +0000
Subject: [PATCH 15/44] fix: keep tablets of different tables apart within a
 transaction

Tablet ids are only unique within a table. A transaction that touched tablets
with the same id and version in two tables lost one of them, and committed
without checking or updating it.
---
 .../service/src/transaction/coordinator.rs    | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index fa939b7..318d88c 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -398,7 +398,7 @@ impl<T> PreparingTabletTransactionState<T> {
                                 for (query, metadata) in resolve_values {
                                     // Start tracking state of the affected tablet.
                                     process_state.tablets.insert(
-                                        create_tablet_key(&metadata),
+                                        create_tablet_key(query.get_table_name(), &metadata),
                                         TabletState::create(query, metadata.clone()),
                                     );
                                     resolved_metadata.push(metadata);
@@ -428,12 +428,13 @@ impl<T> PreparingTabletTransactionState<T> {
 
                                 for (metadata, data) in load_values {
                                     // Set loaded tablet data in corresponding tablet state that we look up
-                                    // using metadata.
-                                    let tablet_state = process_state
-                                        .tablets
-                                        .get_mut(&create_tablet_key(&metadata))
-                                        .unwrap();
-                                    tablet_state.tablet_init(data);
+                                    // using metadata. Tablets of different tables may have the same
+                                    // metadata, but then they also have the same contents.
+                                    for tablet_state in process_state.tablets.values_mut() {
+                                        if *tablet_state.tablet.get_metadata() == metadata {
+                                            tablet_state.tablet_init(data.clone());
+                                        }
+                                    }
                                 }
 
                                 // Create collection of  mutable references that process handler will consume.
@@ -609,9 +610,10 @@ impl CommittingTabletTransactionState {
     }
 }
 
-// Creates tablet key that consists of tablet id and its version.
-fn create_tablet_key(metadata: &TabletMetadata) -> u64 {
-    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
+// Creates tablet key that consists of table name and tablet id, which is only
+// unique within the table.
+fn create_tablet_key(table_name: &String, metadata: &TabletMetadata) -> (String, u32) {
+    (table_name.clone(), metadata.tablet_id)
 }
 
 // Tracks state of a tablet affected by a transaction.
@@ -681,8 +683,8 @@ struct TabletProcessState<T> {
     status: TabletProcessStatus<T>,
     // Handler that will be called to process tablets.
     handler: Box<ProcessHandler<T>>,
-    // Maps tablet key that of tablet id and its version to the tablet state.
-    tablets: HashMap<u64, TabletState<T>>,
+    // Maps tablet key that of table name and tablet id to the tablet state.
+    tablets: HashMap<(String, u32), TabletState<T>>,
 }
 
 enum TabletProcessStatus<T> {
-- 
2.43.0


From f01dde240980f69a12ceffadb19d2e4a36efef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:30 +0000
Subject: [PATCH 16/44] fix: let process requests of a transaction build on
 each other

Two process requests of one transaction that touched the same tablet both read
the version that existed before the transaction and both updated it to the same
new version. Tablet Store accepted both updates and the first one was lost.
---
 .../service/src/transaction/coordinator.rs    | 56 +++++++++++++++----
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 318d88c..b7a38cd 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -377,7 +377,10 @@ impl<T> PreparingTabletTransactionState<T> {
         data_cache: &mut dyn TabletDataCache<T>,
     ) {
         // Advance state of each process.
-        for process_state in &mut self.process_requests {
+        for process_index in 0..self.process_requests.len() {
+            let (earlier_requests, later_requests) =
+                self.process_requests.split_at_mut(process_index);
+            let process_state = &mut later_requests[0];
             // Attempt to advance process to the next state.
             let status = match &mut process_state.status {
                 TabletProcessStatus::Pending(process_queries) => {
@@ -386,6 +389,13 @@ impl<T> PreparingTabletTransactionState<T> {
                     let resolve_result = metadata_cache.resolve_tablets(process_queries);
                     Some(TabletProcessStatus::Resolving(resolve_result))
                 }
+                // Tablets may be shared with earlier process requests of this transaction, which
+                // then must be processed first.
+                TabletProcessStatus::Resolving(_)
+                    if earlier_requests.iter().any(|earlier| earlier.is_active()) =>
+                {
+                    None
+                }
                 TabletProcessStatus::Resolving(resolve_result) => {
                     if let Some(resolve_outcome) = resolve_result.check_result() {
                         // Resolve has completed, move to loading or failed state depending on the
@@ -396,12 +406,20 @@ impl<T> PreparingTabletTransactionState<T> {
                                     Vec::with_capacity(resolve_values.len());
 
                                 for (query, metadata) in resolve_values {
-                                    // Start tracking state of the affected tablet.
-                                    process_state.tablets.insert(
-                                        create_tablet_key(query.get_table_name(), &metadata),
-                                        TabletState::create(query, metadata.clone()),
-                                    );
-                                    resolved_metadata.push(metadata);
+                                    // Start tracking state of the affected tablet, or continue with the
+                                    // state that an earlier process request has left.
+                                    let tablet_key =
+                                        create_tablet_key(query.get_table_name(), &metadata);
+                                    let mut tablet_state = earlier_requests
+                                        .iter_mut()
+                                        .find_map(|earlier| earlier.tablets.remove(&tablet_key))
+                                        .unwrap_or_else(|| {
+                                            TabletState::create(query.clone(), metadata)
+                                        });
+                                    tablet_state.query = query;
+                                    resolved_metadata
+                                        .push(tablet_state.tablet.get_metadata().clone());
+                                    process_state.tablets.insert(tablet_key, tablet_state);
                                 }
                                 // Initiate affected tablets loading through Tablet Data Cache and switch to
                                 // loading state waiting for completion.
@@ -502,11 +520,9 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let (TabletProcessStatus::Completed | TabletProcessStatus::Failed) =
-                process_state.status
-            else {
+            if process_state.is_active() {
                 return true;
-            };
+            }
         }
         false
     }
@@ -623,6 +639,8 @@ struct TabletState<T> {
     query: TableQuery,
     // Tablet metadata and data, along with tracking if this tablet was updated.
     tablet: Tablet<T>,
+    // Whether metadata already describes the new version the transaction creates.
+    has_new_version: bool,
 }
 
 impl<T> TabletState<T> {
@@ -630,6 +648,7 @@ impl<T> TabletState<T> {
         Self {
             query,
             tablet: Tablet::<T>::create(metadata),
+            has_new_version: false,
         }
     }
 
@@ -649,6 +668,12 @@ impl<T> TabletState<T> {
     // with the data to be written to the Tablet Data Storage.
     fn tablet_prepare(&mut self) -> Option<(&mut TabletMetadata, T)> {
         if let Some(updated_contents) = self.tablet.take_updated_contents() {
+            if self.has_new_version {
+                // A transaction creates a single new version no matter how many times the
+                // tablet is updated, hence replace the previous one.
+                self.tablet.get_metadata_mut().tablet_version -= 1;
+            }
+            self.has_new_version = true;
             Some((self.tablet.get_metadata_mut(), updated_contents))
         } else {
             None
@@ -687,6 +712,15 @@ struct TabletProcessState<T> {
     tablets: HashMap<(String, u32), TabletState<T>>,
 }
 
+impl<T> TabletProcessState<T> {
+    fn is_active(&self) -> bool {
+        !matches!(
+            self.status,
+            TabletProcessStatus::Completed | TabletProcessStatus::Failed
+        )
+    }
+}
+
 enum TabletProcessStatus<T> {
     Pending(Vec<TableQuery>),
     // Table queries are being resolved into a set of affected tablets.
-- 
2.43.0


From 1f3ab435cc19f23d763df7efa0048784313f12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 17/44] fix: respect the configured minimum of requests per
 tablet

The configuration was never stored, so the minimum was zero: requests were not
batched, and tablets without any requests kept starting empty transactions.
---
 apps/tablet_cache/service/src/store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3607eef..2b27856 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -190,6 +190,7 @@ impl SimpleKeyValueStoreCore {
         self.table_accessor = TableAccessor::create(config.table_name.clone());
         self.request_tracker =
             RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
+        self.config = config;
     }
 
     fn handle_query_resolve(
-- 
2.43.0


From d53d6ab4d8b4663f3c9fc6dd3db851351b4aad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 18/44] fix: do not resolve or process without requests

With a minimum of zero, the default, every iteration resolved an empty query and
started an empty transaction, which kept the tablet busy.
---
 apps/tablet_cache/service/src/store.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 2b27856..c4d8e6c 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -390,7 +390,7 @@ impl RequestTracker {
         // If minimum pending requests threshold has been reached, create
         // table query with these requests and resolve which tablets they
         // affect.
-        if self.pending_requests.len() >= self.min_pending {
+        if !self.pending_requests.is_empty() && self.pending_requests.len() >= self.min_pending {
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_resolution_requests
                 .insert(query.get_id(), mem::take(&mut self.pending_requests));
@@ -447,7 +447,10 @@ impl TabletTracker {
         // If minimum pending threshold has been reached and there is no
         // active transaction, create table query with these requests to
         // process within a transaction.
-        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {
+        if !self.pending_requests.is_empty()
+            && self.pending_requests.len() >= self.min_pending
+            && !self.has_transaction
+        {
             self.has_transaction = true;
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_processing_requests
-- 
2.43.0


From 0917f024f1f579584adc2ab1d468cbf5e336bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:44 +0000
Subject: [PATCH 19/44] fix: hand resolved requests to the tablet that owns
 their key

All requests of a batch were handed to the first of the resolved tablets, so
keys were read from and written to tablets that do not own them.
---
 apps/tablet_cache/service/src/store.rs | 40 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index c4d8e6c..a70694e 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -209,7 +209,7 @@ impl SimpleKeyValueStoreCore {
             // Move resolved requests as pending to the tablet they affect.
             tablet_tracker.append_pending_requests(
                 self.request_tracker
-                    .take_resolved_requests(table_query.get_id()),
+                    .take_resolved_requests(&self.table_accessor, &table_query),
             );
         }
     }
@@ -353,6 +353,13 @@ impl TableAccessor {
         hasher.finish() as u32
     }
 
+    fn hash_request_key(&self, request: &KeyValueRequest) -> u32 {
+        match request {
+            KeyValueRequest::Put(_, put_request) => self.hash_key(&put_request.key),
+            KeyValueRequest::Get(_, get_request) => self.hash_key(&get_request.key),
+        }
+    }
+
     fn get_next_id(&mut self) -> u64 {
         self.query_counter += 1;
         self.query_counter
@@ -400,11 +407,28 @@ impl RequestTracker {
         queries
     }
 
-    fn take_resolved_requests(&mut self, table_query_id: u64) -> Vec<KeyValueRequest> {
-        // Resolved requests are taken for processing within a transaction.
-        self.waiting_resolution_requests
-            .remove(&table_query_id)
+    fn take_resolved_requests(
+        &mut self,
+        table_accessor: &TableAccessor,
+        table_query: &transaction::TableQuery,
+    ) -> Vec<KeyValueRequest> {
+        // Resolved requests are taken for processing within a transaction. The original query
+        // may be split between several tablets, so leave the requests for the other ones.
+        let (resolved_requests, waiting_requests): (Vec<_>, Vec<_>) = self
+            .waiting_resolution_requests
+            .remove(&table_query.get_id())
             .unwrap_or(Vec::new())
+            .into_iter()
+            .partition(|request| {
+                table_query
+                    .get_key_hashes()
+                    .contains(&table_accessor.hash_request_key(request))
+            });
+        if !waiting_requests.is_empty() {
+            self.waiting_resolution_requests
+                .insert(table_query.get_id(), waiting_requests);
+        }
+        resolved_requests
     }
 }
 
@@ -650,11 +674,7 @@ fn create_table_query(
     let mut hashes = Vec::new();
 
     for request in requests {
-        let hash = match &request {
-            KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
-            KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
-        };
-        hashes.push(hash);
+        hashes.push(table_accessor.hash_request_key(request));
     }
 
     transaction::TableQuery::create(
-- 
2.43.0


From 1a8106d678a3e11d1a6e88eafc123ed9f57d1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 20/44] fix: do not hold the store borrowed while resolving
 tablets

The resolve handler is called right away if the tablets are already known, and
it borrows the store again, which panicked.
---
 apps/tablet_cache/service/src/store.rs | 37 +++++++++++---------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index a70694e..4ec53b6 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -114,17 +114,21 @@ impl KeyValueStore for SimpleKeyValueStore {
         _instant: u64,
         transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
     ) {
-        let mut core = self.core.borrow_mut();
-
-        let mut core_clone = self.core.clone();
         // If enough pending requests have accumulated initiate resolution of
-        // the affected tablets.
-        core.maybe_resolve_tablets(
-            transaction_context,
-            Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
-        );
+        // the affected tablets. Note that the handler is called right away if the
+        // tablets are known, hence the core must not be borrowed.
+        let resolve_queries = self.core.borrow_mut().collect_resolve_queries();
+        if !resolve_queries.is_empty() {
+            let core_clone = self.core.clone();
+            transaction_context.resolve(
+                resolve_queries,
+                Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
+            );
+        }
 
-        core_clone = self.core.clone();
+        let mut core = self.core.borrow_mut();
+
+        let core_clone = self.core.clone();
         // If enough pending requests has accumulated on some tablets initiate a
         // transaction covering the tablets that passed the threshold.
         core.maybe_start_transaction(
@@ -237,19 +241,10 @@ impl SimpleKeyValueStoreCore {
         }
     }
 
-    fn maybe_resolve_tablets(
-        &mut self,
-        transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
-        handler: Box<transaction::ResolveHandler>,
-    ) {
+    fn collect_resolve_queries(&mut self) -> Vec<transaction::TableQuery> {
         // Initiate resolution of affected tablets if there are enough pending requests.
-        let resolve_queries = self
-            .request_tracker
-            .collect_resolve_queries(&mut self.table_accessor);
-
-        if !resolve_queries.is_empty() {
-            transaction_context.resolve(resolve_queries, handler);
-        }
+        self.request_tracker
+            .collect_resolve_queries(&mut self.table_accessor)
     }
 
     fn maybe_start_transaction(
-- 
2.43.0


From 5495efab52a47f12c6708f8e79357284540c767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:47 +0000
Subject: [PATCH 21/44] fix: retry the requests of failed transactions

Requests of a failed transaction were collected for retry and then dropped, and
those that had not been processed yet stayed behind, so they were never
answered.
---
 apps/tablet_cache/service/src/store.rs | 40 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 4ec53b6..f9c7311 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -19,7 +19,7 @@ use core::{
 };
 
 use ahash::AHasher;
-use alloc::{boxed::Box, rc::Rc, string::String, vec::Vec};
+use alloc::{boxed::Box, rc::Rc, string::String, vec, vec::Vec};
 use hashbrown::HashMap;
 use slog::Logger;
 use tcp_runtime::logger::log::create_logger;
@@ -231,11 +231,14 @@ impl SimpleKeyValueStoreCore {
                     // Deserialize tablet contents and process requests that are associated with
                     // the table query. Store processing results comprising or original request
                     // and produced response next to the transaction.
-                    transaction_tracker.append_process_results(tablet_tracker.process_table_query(
-                        &self.table_accessor,
-                        &table_query,
-                        &mut tablet,
-                    ));
+                    transaction_tracker.append_process_results(
+                        tablet.get_id(),
+                        tablet_tracker.process_table_query(
+                            &self.table_accessor,
+                            &table_query,
+                            &mut tablet,
+                        ),
+                    );
                 }
             }
         }
@@ -306,6 +309,13 @@ impl SimpleKeyValueStoreCore {
             }
         }
 
+        // Enqueue requests of failed transactions for retry.
+        for (tablet_id, request) in failed_requests {
+            if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet_id) {
+                tablet_tracker.append_pending_requests(vec![request]);
+            }
+        }
+
         // Clear all completed transactions and associated state.
         for transaction_id in completed_transactions {
             self.transaction_trackers.remove(&transaction_id);
@@ -588,13 +598,19 @@ impl TabletTracker {
 
     fn complete_transaction(&mut self) {
         self.has_transaction = false;
+        // If the transaction has failed early, some requests have not been processed and
+        // must be part of the next one.
+        for (_, mut requests) in mem::take(&mut self.waiting_processing_requests) {
+            self.pending_requests.append(&mut requests);
+        }
     }
 }
 
 // Tracks requests for a particular transaction.
 struct TransactionTracker {
     tablet_ids: Vec<u32>,
-    requests: Vec<KeyValueRequest>,
+    // Processed requests along with the id of the tablet they affect.
+    requests: Vec<(u32, KeyValueRequest)>,
     responses: Vec<KeyValueResponse>,
     transaction: Option<Box<dyn transaction::TabletTransaction<Bytes>>>,
     waiting_commit: Option<Box<dyn transaction::TabletTransactionCommit>>,
@@ -614,10 +630,14 @@ impl TransactionTracker {
         }
     }
 
-    fn append_process_results(&mut self, results: Vec<(KeyValueRequest, KeyValueResponse)>) {
+    fn append_process_results(
+        &mut self,
+        tablet_id: u32,
+        results: Vec<(KeyValueRequest, KeyValueResponse)>,
+    ) {
         // Store orinal requests and local responses until transaction is committed.
         for (request, response) in results {
-            self.requests.push(request);
+            self.requests.push((tablet_id, request));
             self.responses.push(response);
         }
     }
@@ -638,7 +658,7 @@ impl TransactionTracker {
     fn maybe_finalize_transaction(
         &mut self,
         affected_tablet_ids: &mut Vec<u32>,
-        failed_requests: &mut Vec<KeyValueRequest>,
+        failed_requests: &mut Vec<(u32, KeyValueRequest)>,
         succeeded_responses: &mut Vec<KeyValueResponse>,
     ) -> bool {
         // If transaction has completed successfully, collect responses. Otherwise
-- 
2.43.0


From 05cb629b4df54b64960b8a0d2e9c98a4fa7785d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 22/44] fix: advance the transaction manager of the tablet
 cache actor

Nothing ever called it, so tablets were never resolved, loaded or stored and no
request was answered.
---
 apps/tablet_cache/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 5feca3d..f15e54f 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -189,6 +189,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         let instant = self.get_context().instant();
         self.key_value_store
             .make_progress(instant, &mut self.transaction_manager);
+        self.transaction_manager.make_progress(instant);
 
         let transaction_out_commands = self
             .transaction_manager
-- 
2.43.0


From 73474fc16c5e2ac38a63d4649b0c22c919508205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 23/44] fix: keep the term when stepping a reassembled snapshot

The message that hands a snapshot assembled from chunks to Raft has no term. A
candidate that receives it becomes a follower in term zero: it loses its term
and its vote.
---
 runtime/src/consensus.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 797405e..3efd9ab 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -22,8 +22,9 @@ use prost::bytes::Bytes;
 use raft::{
     eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfState as RaftConfigState,
     eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
-    eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
-    Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
+    eraftpb::Message as RaftMessage, eraftpb::MessageType as RaftMessageType,
+    eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig, Error as RaftError,
+    RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
     SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage,
 };
 use slog::Logger;
@@ -304,7 +305,13 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         Ok(())
     }
 
-    fn make_step(&mut self, message: RaftMessage) -> Result<(), RaftError> {
+    fn make_step(&mut self, mut message: RaftMessage) -> Result<(), RaftError> {
+        // A snapshot assembled from chunks does not carry the term of the sender. It must
+        // not change the current term, otherwise a candidate would go back to term zero.
+        if message.term == 0 && message.msg_type() == RaftMessageType::MsgSnapshot {
+            message.term = self.raft_node().raft.term;
+        }
+
         self.mut_raft_node().step(message)
     }
 
-- 
2.43.0


From cc42c069de6d94f39e41f4dd8070de4374e18753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 24/44] fix: reject cluster changes that cannot be made

A replica that is not the leader, and a leader with a pending change, reported a
change as pending that was never going to be made. Removing the last replica
was committed and then could not be applied.
---
 runtime/src/consensus.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 3efd9ab..12c8ab7 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -20,12 +20,13 @@ use alloc::vec::Vec;
 use hashbrown::HashMap;
 use prost::bytes::Bytes;
 use raft::{
-    eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfState as RaftConfigState,
-    eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
-    eraftpb::Message as RaftMessage, eraftpb::MessageType as RaftMessageType,
-    eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig, Error as RaftError,
-    RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
-    SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage,
+    eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfChangeType as RaftConfigChangeType,
+    eraftpb::ConfState as RaftConfigState, eraftpb::Entry as RaftEntry,
+    eraftpb::HardState as RaftHardState, eraftpb::Message as RaftMessage,
+    eraftpb::MessageType as RaftMessageType, eraftpb::Snapshot as RaftSnapshot,
+    Config as RaftConfig, Error as RaftError, RawNode as RaftNode, RawNode, Ready,
+    SnapshotStatus as RaftSnapshotStatus, SoftState as RaftSoftState, StateRole as RaftStateRole,
+    Storage as RaftStorage,
 };
 use slog::Logger;
 
@@ -323,6 +324,19 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         &mut self,
         config_change: RaftConfigChange,
     ) -> Result<(), RaftError> {
+        // Only a leader without a pending change can take a change. A follower would forward it
+        // and a leader would replace it with an empty entry, in both cases without an error.
+        if !self.leader() || self.raft_node().raft.has_pending_conf() {
+            return Err(RaftError::ProposalDropped);
+        }
+        // A cluster without voters cannot commit or apply anything.
+        let voters = self.raft_node().raft.prs().conf().voters().ids();
+        if config_change.change_type() == RaftConfigChangeType::RemoveNode
+            && voters.iter().all(|id| id == config_change.node_id)
+        {
+            return Err(RaftError::ProposalDropped);
+        }
+
         self.mut_raft_node()
             .propose_conf_change(vec![], config_change)
     }
-- 
2.43.0


From c5f5de46fc0cf4e2818c215d1bef43acbe57c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 25/44] fix: a leader that has been removed steps down

After its removal a leader went on as leader without being able to propose or to
commit: commands that it accepted made the replica panic or were never answered.
---
 runtime/src/consensus.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 12c8ab7..35de20c 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -26,7 +26,7 @@ use raft::{
     eraftpb::MessageType as RaftMessageType, eraftpb::Snapshot as RaftSnapshot,
     Config as RaftConfig, Error as RaftError, RawNode as RaftNode, RawNode, Ready,
     SnapshotStatus as RaftSnapshotStatus, SoftState as RaftSoftState, StateRole as RaftStateRole,
-    Storage as RaftStorage,
+    Storage as RaftStorage, INVALID_ID,
 };
 use slog::Logger;
 
@@ -385,7 +385,15 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
     }
 
     fn advance_apply(&mut self) {
-        self.mut_raft_node().advance_apply()
+        self.mut_raft_node().advance_apply();
+
+        // A leader that has been removed from the cluster steps down, it can neither propose
+        // nor commit anything anymore.
+        let raft = &mut self.mut_raft_node().raft;
+        if raft.state == RaftStateRole::Leader && !raft.prs().conf().voters().contains(raft.id) {
+            let term = raft.term;
+            raft.become_follower(term, INVALID_ID);
+        }
     }
 
     fn report_snapshot(&mut self, replica_id: u64, status: RaftSnapshotStatus) {
-- 
2.43.0


From 06f163427d693d6d9b628d02133b82af2bc8f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 26/44] fix: a proposal that Raft drops does not bring down the
 replica

Raft drops proposals when it cannot take them, for example in a follower that
does not know the leader.
---
 runtime/src/driver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8838820..bc5eae9 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -385,7 +385,10 @@ impl<
     fn make_raft_proposal(&mut self, proposal_contents: Bytes) {
         debug!(self.logger, "Making Raft proposal");
 
-        self.raft.make_proposal(proposal_contents).unwrap();
+        if let Err(e) = self.raft.make_proposal(proposal_contents) {
+            // The replica cannot propose at the moment, for example there is no known leader.
+            warn!(self.logger, "Dropping Raft proposal: {}", e);
+        }
     }
 
     fn make_raft_config_change_proposal(
-- 
2.43.0


From 417e4dea95dacf3256f5ddc07b6d8eed2befc808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 27/44] fix: report the unchanged value of a counter as its new
 value

The response to a failed compare and swap says, by its definition, that the new
value equals the old value. It always said zero.
---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ce988e1..ea24f78 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -136,6 +136,7 @@ impl CounterActor {
             compare_and_swap_response.new_value = compare_and_swap_request.new_value;
         } else {
             response.status = CounterStatus::InvalidArgumentError.into();
+            compare_and_swap_response.new_value = existing_value.value;
         }
         response.op = Some(counter_response::Op::CompareAndSwap(
             compare_and_swap_response,
-- 
2.43.0


From 545a778a10ac36d60b710bcf43b78ecc5528bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 28/44] fix: replace the counters when loading a snapshot

Counters that were not in the snapshot, for example from an initial value that
only this replica was configured with, survived: replicas differed.
---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ea24f78..0481939 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -195,6 +195,7 @@ impl Actor for CounterActor {
         let snapshot =
             CounterSnapshot::decode(snapshot).map_err(|_| ActorError::SnapshotLoading)?;
 
+        self.values.clear();
         for (name, value) in snapshot.values {
             self.values.insert(
                 name,
-- 
2.43.0


From 02ee7dfcd445dbfb3a4b803b5e0077fef66848d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 29/44] fix: ignore misrouted and malformed Raft messages

They were logged as ignored and then handed to Raft.
---
 runtime/src/driver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index bc5eae9..b546a12 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -359,6 +359,8 @@ impl<
                         "Ignoring incorectly routed Raft message: recipient id {}",
                         recipient_replica_id
                     );
+
+                    return Ok(());
                 }
                 if message.get_from() != sender_replica_id {
                     // Ignore malformed message
@@ -366,6 +368,8 @@ impl<
                         self.logger,
                         "Ignoring malformed Raft message: sender id {}", sender_replica_id
                     );
+
+                    return Ok(());
                 }
 
                 // Advance Raft internal state by one step.
-- 
2.43.0


From 3ef342f51242093d95211569bf46bae9868d5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 30/44] fix: ignore Raft responses of unknown peers

A response that arrives after its sender has been removed from the cluster
terminated the replica.
---
 runtime/src/driver.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index b546a12..dd45dab 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -374,6 +374,15 @@ impl<
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
+                    Err(RaftError::StepPeerNotFound) => {
+                        // A late response from a peer that has been removed in the meantime.
+                        warn!(
+                            self.logger,
+                            "Ignoring Raft response from unknown peer: {}", sender_replica_id
+                        );
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
-- 
2.43.0


From 1104e6fef13007039e7c9778047134288678846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 31/44] fix: do not use the snapshot processor of a replica
 that is not started

A poll or a snapshot message before the replica was started panicked.
---
 runtime/src/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index dd45dab..ea500c0 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -956,6 +956,7 @@ impl<
         &mut self,
         deliver_snapshot_request: DeliverSnapshotRequest,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -996,6 +997,7 @@ impl<
         &mut self,
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -1034,6 +1036,7 @@ impl<
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         match self.snapshot.mut_processor(self.instant) {
             SnapshotProcessorRole::Sender(sender) => sender.process_response(
@@ -1090,6 +1093,10 @@ impl<
     }
 
     fn process_snapshot_sending(&mut self) -> Result<(), PalError> {
+        if self.driver_state != DriverState::Started {
+            return Ok(());
+        }
+
         let snapshot_messages = mem::take(&mut self.snapshots);
 
         let mut out_messages: Vec<OutgoingMessage> = Vec::new();
-- 
2.43.0


From bc9223175d317447ecc5e0e70338b28a9662966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 32/44] fix: only accept chunks of the snapshot that is being
 received

A late chunk of a previous transfer from the same sender was taken as a chunk of
the current one: the assembled snapshot was a mix of the two.
---
 runtime/src/snapshot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 0544317..6897a46 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -768,8 +768,14 @@ impl ReceiverState {
         }
     }
 
-    fn accept_chunk(&mut self, sender_id: u64, index: u64, chunk_contents: Bytes) -> bool {
-        if sender_id != self.sender_id {
+    fn accept_chunk(
+        &mut self,
+        sender_id: u64,
+        snapshot_id: u32,
+        index: u64,
+        chunk_contents: Bytes,
+    ) -> bool {
+        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {
             return false;
         }
 
@@ -904,6 +910,7 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                                 // within range.
                                 if state.accept_chunk(
                                     request.sender_replica_id,
+                                    payload.snapshot_id,
                                     chunk.chunk_index.into(),
                                     chunk.chunk_contents,
                                 ) {
-- 
2.43.0


From 78b0525354dafae6ae39dc5558024575df76aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 33/44] fix: a late delivery failure does not abort another
 snapshot transfer

The failure of a delivery that belonged to a previous transfer to the same
receiver aborted the current one.
---
 runtime/src/snapshot.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 6897a46..65ab826 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -458,6 +458,11 @@ impl SnapshotSenderState {
         delivery_id: u64,
         response: Result<DeliverSnapshotResponse, SnapshotError>,
     ) {
+        if response.is_err() && !self.pending_chunks.contains_key(&delivery_id) {
+            warn!(self.logger, "Ignoring failure of unknown delivery");
+            return;
+        }
+
         let success = match response {
             Ok(response) => {
                 let payload_result = deliver_snapshot_response::SnapshotAck::decode(
-- 
2.43.0


From 1cb66e9834b8d42e3a2c699aa4c84731bf2b82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 34/44] fix: let one of two simultaneous handshakes proceed

---
 runtime/src/communication.rs | 37 +++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9759b4f..6c90404 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -31,7 +31,10 @@ use oak_proto_rust::oak::attestation::v1::{Endorsements, ReferenceValues};
 use oak_time::Clock;
 use raft::prelude::MessageType;
 use slog::{info, o, warn, Logger};
-use tcp_proto::runtime::endpoint::*;
+use tcp_proto::runtime::endpoint::{
+    secure_channel_handshake::{noise_protocol, Encryption, NoiseProtocol},
+    *,
+};
 
 #[derive(PartialEq, Debug)]
 // Configuration for the Communication Module.
@@ -256,6 +259,16 @@ impl CommunicationModule for DefaultCommunicationModule {
             CommunicationState::new(logger.clone(), self.config.handshake_initiated_tick_timeout)
         });
 
+        if replica_state.has_initiated() && is_initiator_request(&message) {
+            // Both replicas have initiated a handshake with each other. Only the handshake of
+            // the replica with the lower id proceeds, otherwise both may keep failing.
+            if self.replica_id < peer_replica_id {
+                info!(logger, "Ignoring handshake initiated by {}", peer_replica_id);
+                return Ok(None);
+            }
+            replica_state.reset_state_machine();
+        }
+
         if !replica_state.is_initialized() {
             let handshake_session = self
                 .handshake_session_provider
@@ -320,10 +333,25 @@ impl CommunicationModule for DefaultCommunicationModule {
     }
 }
 
+// Returns whether the message has been sent by the initiator of a handshake.
+fn is_initiator_request(message: &in_message::Msg) -> bool {
+    matches!(
+        message,
+        in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
+            encryption: Some(Encryption::NoiseProtocol(NoiseProtocol {
+                message: Some(noise_protocol::Message::InitiatorRequest(_)),
+            })),
+            ..
+        })
+    )
+}
+
 // Manages communication with a given peer replica.
 pub struct CommunicationState {
     logger: Logger,
     handshake_state: HandshakeState,
+    // Whether this replica is the initiator of the handshake.
+    is_initiator: bool,
     pending_handshake_message: Option<SecureChannelHandshake>,
     handshake_session: Option<Box<dyn HandshakeSession>>,
     // Unencrypted stashed messages that will be encrypted and sent out once
@@ -354,6 +382,7 @@ impl CommunicationState {
         Self {
             logger,
             handshake_state: HandshakeState::Unknown,
+            is_initiator: false,
             pending_handshake_message: None,
             handshake_session: None,
             unencrypted_messages: Vec::new(),
@@ -379,6 +408,10 @@ impl CommunicationState {
         self.handshake_state != HandshakeState::Unknown
     }
 
+    fn has_initiated(&self) -> bool {
+        self.is_initiator && matches!(self.handshake_state, HandshakeState::Initiated(_))
+    }
+
     fn make_tick(&mut self) {
         match &self.handshake_state {
             &HandshakeState::Failed(mut ticks_since_failed) => {
@@ -402,6 +435,7 @@ impl CommunicationState {
     fn reset_state_machine(&mut self) {
         info!(self.logger, "Resetting state");
         self.handshake_state = HandshakeState::Unknown;
+        self.is_initiator = false;
         self.pending_handshake_message = None;
         self.handshake_session = None;
         self.encryptor = None;
@@ -453,6 +487,7 @@ impl CommunicationState {
                 }
                 self.push_or_replace_unencrypted_message(message);
                 self.handshake_state = HandshakeState::Initiated(0);
+                self.is_initiator = true;
                 Ok(())
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
-- 
2.43.0


From 0ad614bc40a09d89247f9956249d3ec4c8df0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 35/44] fix: renegotiate a session that only the peer knows

---
 runtime/src/communication.rs | 60 ++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 6c90404..35915dd 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -270,9 +270,14 @@ impl CommunicationModule for DefaultCommunicationModule {
         }
 
         if !replica_state.is_initialized() {
+            let role = if replica_state.must_initiate(&message) {
+                Role::Initiator
+            } else {
+                Role::Recipient
+            };
             let handshake_session = self
                 .handshake_session_provider
-                .get(self.replica_id, peer_replica_id, Role::Recipient)
+                .get(self.replica_id, peer_replica_id, role)
                 .map_err(|err| {
                     warn!(logger, "Failed to get handshake_session {:?}", err);
                     PalError::Internal
@@ -352,6 +357,8 @@ pub struct CommunicationState {
     handshake_state: HandshakeState,
     // Whether this replica is the initiator of the handshake.
     is_initiator: bool,
+    // Whether the peer uses a session that is not known to this replica.
+    is_session_lost: bool,
     pending_handshake_message: Option<SecureChannelHandshake>,
     handshake_session: Option<Box<dyn HandshakeSession>>,
     // Unencrypted stashed messages that will be encrypted and sent out once
@@ -383,6 +390,7 @@ impl CommunicationState {
             logger,
             handshake_state: HandshakeState::Unknown,
             is_initiator: false,
+            is_session_lost: false,
             pending_handshake_message: None,
             handshake_session: None,
             unencrypted_messages: Vec::new(),
@@ -408,6 +416,12 @@ impl CommunicationState {
         self.handshake_state != HandshakeState::Unknown
     }
 
+    // Whether to initiate a handshake because the peer keeps using a session that is not known
+    // to this replica. The peer would never initiate another one by itself.
+    fn must_initiate(&self, message: &in_message::Msg) -> bool {
+        self.is_session_lost && !matches!(message, in_message::Msg::SecureChannelHandshake(_))
+    }
+
     fn has_initiated(&self) -> bool {
         self.is_initiator && matches!(self.handshake_state, HandshakeState::Initiated(_))
     }
@@ -462,6 +476,27 @@ impl CommunicationState {
         self.unencrypted_messages.push(message);
     }
 
+    fn initiate_handshake(&mut self) -> anyhow::Result<()> {
+        self.pending_handshake_message = self
+            .handshake_session
+            .as_mut()
+            .unwrap()
+            .take_out_message()
+            .inspect_err(|err| {
+                self.transition_to_failed(&err);
+            })?;
+
+        if self.pending_handshake_message.is_none() {
+            let err = anyhow!("No initial handshake message found.");
+            self.transition_to_failed(&err);
+            return Err(err);
+        }
+        self.handshake_state = HandshakeState::Initiated(0);
+        self.is_initiator = true;
+        self.is_session_lost = false;
+        Ok(())
+    }
+
     fn process_out_message(&mut self, message: OutgoingMessage) -> anyhow::Result<()> {
         match &self.handshake_state {
             HandshakeState::Unknown => {
@@ -471,23 +506,8 @@ impl CommunicationState {
                 return Err(err);
             }
             HandshakeState::Initialized => {
-                self.pending_handshake_message = self
-                    .handshake_session
-                    .as_mut()
-                    .unwrap()
-                    .take_out_message()
-                    .inspect_err(|err| {
-                        self.transition_to_failed(&err);
-                    })?;
-
-                if self.pending_handshake_message.is_none() {
-                    let err = anyhow!("No initial handshake message found.");
-                    self.transition_to_failed(&err);
-                    return Err(err);
-                }
+                self.initiate_handshake()?;
                 self.push_or_replace_unencrypted_message(message);
-                self.handshake_state = HandshakeState::Initiated(0);
-                self.is_initiator = true;
                 Ok(())
             }
             HandshakeState::Initiated(_) | HandshakeState::Completed => {
@@ -515,6 +535,10 @@ impl CommunicationState {
                 self.transition_to_failed(&err);
                 return Err(err);
             }
+            HandshakeState::Initialized if self.must_initiate(&message) => {
+                self.initiate_handshake()?;
+                Ok(None)
+            }
             HandshakeState::Initialized | HandshakeState::Initiated(_) => {
                 match message {
                     // Messages in Initialized/Initiated state must be handshake messages.
@@ -539,6 +563,7 @@ impl CommunicationState {
                             let handshake_session = self.handshake_session.take();
                             self.encryptor = handshake_session.unwrap().get_encryptor();
                             self.handshake_state = HandshakeState::Completed;
+                            self.is_session_lost = false;
                         } else if self.handshake_state == HandshakeState::Initialized {
                             self.handshake_state = HandshakeState::Initiated(0);
                         }
@@ -549,6 +574,7 @@ impl CommunicationState {
                             "Message must be SecureChannelHandshake but found {:?}",
                             message
                         ));
+                        self.is_session_lost = self.handshake_state == HandshakeState::Initialized;
                         self.transition_to_failed(&err);
                         Err(err)
                     }
-- 
2.43.0


From ed4e20da37ed23faf5d7c94d655e69c954b99cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 36/44] fix: answer a cluster check of a replica that knows
 nothing yet

A check of the cluster is answered by reporting a change relative to an empty
state, so a replica whose state is empty never answered.
---
 runtime/src/driver.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index ea500c0..f8d1c96 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -194,7 +194,7 @@ pub struct Driver<R: Raft, S: Store, P: SnapshotProcessor, A: Actor, C: Communic
     snapshot: P,
     actor: A,
     raft_state: RaftState,
-    prev_raft_state: RaftState,
+    prev_raft_state: Option<RaftState>,
     raft_progress: RaftProgress,
     communication: C,
     is_ephemeral: bool,
@@ -244,7 +244,7 @@ impl<
             snapshot,
             actor,
             raft_state: RaftState::new(),
-            prev_raft_state: RaftState::new(),
+            prev_raft_state: Some(RaftState::new()),
             raft_progress: RaftProgress::new(),
             communication,
             is_ephemeral: false,
@@ -318,7 +318,7 @@ impl<
 
         self.tick_instant = self.instant;
         // No need to initially report the state of the cluster, only after the changes.
-        self.prev_raft_state = self.get_raft_state();
+        self.prev_raft_state = Some(self.get_raft_state());
 
         Ok(())
     }
@@ -688,7 +688,7 @@ impl<
     }
 
     fn reset_leader_state(&mut self) {
-        self.prev_raft_state = RaftState::new();
+        self.prev_raft_state = None;
     }
 
     fn collect_config_state(&mut self, config_state: RaftConfigState) {
@@ -698,11 +698,11 @@ impl<
     fn stash_leader_state(&mut self) {
         self.raft_state = self.get_raft_state();
 
-        if self.prev_raft_state == self.raft_state {
+        if self.prev_raft_state.as_ref() == Some(&self.raft_state) {
             return;
         }
 
-        self.prev_raft_state = self.raft_state.clone();
+        self.prev_raft_state = Some(self.raft_state.clone());
 
         // Update snapshot processor with the latest raft cluster state.
         self.update_snapshot_cluster_change();
@@ -721,7 +721,7 @@ impl<
     }
 
     fn preset_state_machine(&mut self, instant: u64) {
-        self.prev_raft_state = self.raft_state.clone();
+        self.prev_raft_state = Some(self.raft_state.clone());
         self.instant = cmp::max(self.instant, instant);
         let instant = self.instant;
         let leader = self.check_raft_leadership();
-- 
2.43.0


From 28a1eae0e66f52a3a482cb9b51f449d2d16b0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:56 +0000
Subject: [PATCH 37/44] fix: answer that adding and removing tablets is not
 supported

---
 apps/tablet_store/service/src/actor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0a8f284..c08a2c9 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -187,8 +187,11 @@ impl TableMetadata {
                 }
                 OpResult::UpdateTablet(update_tablet_result)
             }
-            Op::AddTablet(_add_tablet_op) => todo!(),
-            Op::RemoveTablet(_remove_tablet_op) => todo!(),
+            // Adding and removing tablets is not supported yet.
+            Op::AddTablet(_) | Op::RemoveTablet(_) => {
+                op_result.status = TabletOpStatus::Invalid.into();
+                return op_result;
+            }
         });
 
         op_result
-- 
2.43.0


From 2552d9acd230c39393034c16231498c016fde654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:56 +0000
Subject: [PATCH 38/44] fix: a tablet with the highest version cannot be
 updated

---
 apps/tablet_store/service/src/actor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index c08a2c9..161140c 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -179,7 +179,9 @@ impl TableMetadata {
                 let mut update_tablet_result = UpdateTabletResult::default();
                 if let Some(updated_tablet) = &update_tablet_op.tablet_metadata {
                     if let Some(existing_tablet) = self.tablets.get(&updated_tablet.tablet_id) {
-                        if updated_tablet.tablet_version == existing_tablet.tablet_version + 1 {
+                        if Some(updated_tablet.tablet_version)
+                            == existing_tablet.tablet_version.checked_add(1)
+                        {
                             op_result.status = TabletOpStatus::Succeeded.into();
                         }
                         update_tablet_result.existing_tablet = Some(existing_tablet.clone());
-- 
2.43.0


From f58fda59eb03ad74b01bf619b2a088da948d4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 39/44] fix: only one of several updates of a tablet in a
 request can succeed

---
 apps/tablet_store/service/src/actor.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 161140c..83798d0 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -307,8 +307,21 @@ impl<C: TabletConfigurator> TabletStoreActor<C> {
     fn on_apply_tablets_request(&mut self, request: TabletsRequest) -> (OutMsg, Bytes) {
         let mut all_succeeded = true;
         let mut tablet_op_prepare_results = Vec::new();
+        let mut updated_tablets = HashSet::new();
         for tablet_op in &request.tablet_ops {
-            let tablet_op_result = self.prepare_tablet_op(tablet_op);
+            let mut tablet_op_result = self.prepare_tablet_op(tablet_op);
+            if let Some(Op::UpdateTablet(UpdateTabletOp {
+                tablet_metadata: Some(tablet_metadata),
+            })) = &tablet_op.op
+            {
+                // Of several updates of the same tablet only one can follow its version.
+                if tablet_op_result.status == TabletOpStatus::Succeeded as i32
+                    && !updated_tablets
+                        .insert((tablet_op.table_name.clone(), tablet_metadata.tablet_id))
+                {
+                    tablet_op_result.status = TabletOpStatus::Failed.into();
+                }
+            }
             all_succeeded &= tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             tablet_op_prepare_results.push(tablet_op_result);
         }
-- 
2.43.0


From 335fd23424e3d528b6f2af7ecaddbc641748e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:35 +0000
Subject: [PATCH 40/44] fix: do not panic on a message without payload

---
 runtime/src/communication.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 35915dd..2ec3ae9 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -591,8 +591,11 @@ impl CommunicationState {
     fn decrypt_message(&mut self, message: in_message::Msg) -> Option<in_message::Msg> {
         let encryptor = self.encryptor.as_mut().unwrap();
         let result = match message {
-            in_message::Msg::DeliverSystemMessage(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+            in_message::Msg::DeliverSystemMessage(mut msg) => msg
+                .payload
+                .as_ref()
+                .ok_or_else(|| anyhow!("Message has no payload."))
+                .and_then(|payload| encryptor.decrypt(payload))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -600,8 +603,11 @@ impl CommunicationState {
                     });
                     Ok(in_message::Msg::DeliverSystemMessage(msg))
                 }),
-            in_message::Msg::DeliverSnapshotRequest(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+            in_message::Msg::DeliverSnapshotRequest(mut msg) => msg
+                .payload
+                .as_ref()
+                .ok_or_else(|| anyhow!("Message has no payload."))
+                .and_then(|payload| encryptor.decrypt(payload))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -609,8 +615,11 @@ impl CommunicationState {
                     });
                     Ok(in_message::Msg::DeliverSnapshotRequest(msg))
                 }),
-            in_message::Msg::DeliverSnapshotResponse(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+            in_message::Msg::DeliverSnapshotResponse(mut msg) => msg
+                .payload
+                .as_ref()
+                .ok_or_else(|| anyhow!("Message has no payload."))
+                .and_then(|payload| encryptor.decrypt(payload))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
-- 
2.43.0


From 5be29f7f3db9c05c3d32a3c10460bc58f1e39726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:52 +0000
Subject: [PATCH 41/44] fix: handshakes of two replicas that keep missing each
 other

---
 runtime/src/communication.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 2ec3ae9..cd62ab4 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -259,14 +259,20 @@ impl CommunicationModule for DefaultCommunicationModule {
             CommunicationState::new(logger.clone(), self.config.handshake_initiated_tick_timeout)
         });
 
-        if replica_state.has_initiated() && is_initiator_request(&message) {
-            // Both replicas have initiated a handshake with each other. Only the handshake of
-            // the replica with the lower id proceeds, otherwise both may keep failing.
-            if self.replica_id < peer_replica_id {
-                info!(logger, "Ignoring handshake initiated by {}", peer_replica_id);
-                return Ok(None);
+        if is_initiator_request(&message) {
+            if replica_state.has_initiated() {
+                // Both replicas have initiated a handshake with each other. Only the handshake of
+                // the replica with the lower id proceeds, otherwise both may keep failing.
+                if self.replica_id < peer_replica_id {
+                    info!(logger, "Ignoring handshake initiated by {}", peer_replica_id);
+                    return Ok(None);
+                }
+                replica_state.reset_state_machine();
+            } else if replica_state.has_failed() && self.replica_id > peer_replica_id {
+                // The peer ignores the handshakes of this replica while its own one is underway,
+                // so both may keep missing each other's if this one is not taken up.
+                replica_state.reset_state_machine();
             }
-            replica_state.reset_state_machine();
         }
 
         if !replica_state.is_initialized() {
@@ -426,6 +432,10 @@ impl CommunicationState {
         self.is_initiator && matches!(self.handshake_state, HandshakeState::Initiated(_))
     }
 
+    fn has_failed(&self) -> bool {
+        matches!(self.handshake_state, HandshakeState::Failed(_))
+    }
+
     fn make_tick(&mut self) {
         match &self.handshake_state {
             &HandshakeState::Failed(mut ticks_since_failed) => {
-- 
2.43.0


From 7b36d2599c81135e8f011c346e9c596bdf70ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:06 +0000
Subject: [PATCH 42/44] fix: transfers of snapshots to replicas that have left
 do not block the others

---
 runtime/src/snapshot.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 65ab826..5baba9b 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -218,6 +218,11 @@ pub trait SnapshotSenderImpl: SnapshotSender {
     fn set_instant(&mut self, instant: u64);
 
     fn reset(&mut self) -> Vec<(u64, RaftSnapshotStatus)>;
+
+    /// Cancels transfers to the replicas that are not listed, and returns their statuses.
+    fn retain(&mut self, _replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        Vec::new()
+    }
 }
 
 pub trait SnapshotReceiverImpl: SnapshotReceiver {
@@ -296,6 +301,10 @@ impl SnapshotProcessor for DefaultSnapshotProcessor {
                     panic!("Snapshot processor is not initialized");
                 }
             }
+        } else if self.state == ReplicaState::Leader {
+            // Replicas that have left will not respond anymore, their pending chunks
+            // must not block transfers to the other ones.
+            cancelled_snapshots = self.sender.retain(replicas);
         }
 
         // Update replica state according to the cluster state.
@@ -591,6 +600,18 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
 
         cancellations
     }
+
+    fn retain(&mut self, replicas: &[u64]) -> Vec<(u64, RaftSnapshotStatus)> {
+        let mut cancellations: Vec<(u64, RaftSnapshotStatus)> = Vec::new();
+        self.receivers.retain(|receiver_id, _| {
+            let retained = replicas.contains(receiver_id);
+            if !retained {
+                cancellations.push((*receiver_id, RaftSnapshotStatus::Failure));
+            }
+            retained
+        });
+        cancellations
+    }
 }
 
 impl SnapshotSender for DefaultSnapshotSender {
-- 
2.43.0


From 71c529f87d65673d8556a2196c31cf9fff9a18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:32 +0000
Subject: [PATCH 43/44] fix: a replica that has been stopped takes no further
 part in the cluster

---
 runtime/src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index f8d1c96..3071e1e 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -1300,6 +1300,7 @@ impl<
         // Update state of the context that will remain unchanged while messages are
         // dispatched for processing.
         self.preset_state_machine(instant);
+        let was_stopped = self.driver_state == DriverState::Stopped;
 
         let mut deliver_app_message_opt = None;
         // Dispatch incoming message for processing.
@@ -1360,7 +1361,8 @@ impl<
             self.communication.make_tick();
         }
 
-        if !self.is_ephemeral {
+        // A replica that has been stopped takes no further part in the cluster.
+        if !self.is_ephemeral && !was_stopped {
             // Processes outputs from the actor to make raft proposals.
             self.process_actor_raft_proposals();
 
-- 
2.43.0


From a5e6f9f3b64a7a31663e2a1eed9780b56521900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:26 +0000
Subject: [PATCH 44/44] fix: malformed messages do not terminate a tablet cache
 replica

A command with a header that cannot be decoded or has no known message
terminated the replica, and an undecodable response of the tablet store
made it panic. Commands come from outside of the replica: warn and ignore
the former as the tablet store does, treat the latter as a failure of the
operations.
---
 apps/tablet_cache/service/src/actor.rs | 48 ++++++++++++++++++--------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index f15e54f..3d3e789 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -14,8 +14,8 @@
 
 use crate::{
     apps::tablet_cache::service::{
-        tablet_cache_in_message::*, tablet_cache_out_message::OutMsg, TabletCacheConfig,
-        TabletCacheInMessage, TabletCacheOutMessage, TransactionManagerConfig,
+        tablet_cache_in_message::*, tablet_cache_out_message::OutMsg, ExecuteTabletOpsError,
+        TabletCacheConfig, TabletCacheInMessage, TabletCacheOutMessage, TransactionManagerConfig,
     },
     store, transaction,
 };
@@ -27,7 +27,7 @@ use oak_proto_rust::oak::attestation::v1::{
     ReferenceValues, RootLayerReferenceValues, SkipVerification, TextReferenceValue,
 };
 use prost::{bytes::Bytes, Message};
-use slog::{debug, o};
+use slog::{debug, o, warn};
 use tcp_runtime::model::{
     Actor, ActorCommand, ActorContext, ActorError, ActorEvent, ActorEventContext, CommandOutcome,
     EventOutcome,
@@ -127,10 +127,15 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         command: Option<ActorCommand>,
     ) -> Result<CommandOutcome, ActorError> {
         if let Some(command) = command {
+            // The command comes from outside, a malformed one must not terminate the replica.
             let in_header = match TabletCacheInMessage::decode(command.header.clone()) {
                 Ok(in_message) => in_message.in_msg,
-                Err(_) => {
-                    return Err(ActorError::Internal);
+                Err(e) => {
+                    warn!(
+                        self.get_context().logger(),
+                        "Failed to decode command header: {}", e
+                    );
+                    None
                 }
             };
 
@@ -164,14 +169,26 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                             response,
                         )),
                     InMsg::ExecuteTabletOpsResponse(response) => {
-                        let tablets_response = TabletsResponse::decode(command.payload).unwrap();
-                        self.transaction_manager.process_in_message(
-                            transaction::InMessage::ExecuteTabletOpsResponse(
-                                command.correlation_id,
-                                response,
-                                tablets_response,
-                            ),
-                        )
+                        let in_message = match TabletsResponse::decode(command.payload) {
+                            Ok(tablets_response) => {
+                                transaction::InMessage::ExecuteTabletOpsResponse(
+                                    command.correlation_id,
+                                    response,
+                                    tablets_response,
+                                )
+                            }
+                            Err(e) => {
+                                warn!(
+                                    self.get_context().logger(),
+                                    "Failed to decode tablets response: {}", e
+                                );
+                                transaction::InMessage::ExecuteTabletOpsError(
+                                    command.correlation_id,
+                                    ExecuteTabletOpsError::default(),
+                                )
+                            }
+                        };
+                        self.transaction_manager.process_in_message(in_message)
                     }
                     InMsg::ExecuteTabletOpsError(error) => self
                         .transaction_manager
@@ -181,7 +198,10 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                         )),
                 },
                 None => {
-                    return Err(ActorError::Internal);
+                    warn!(
+                        self.get_context().logger(),
+                        "Ignored command without known message: {}", command.correlation_id
+                    );
                 }
             };
         }
-- 
2.43.0

