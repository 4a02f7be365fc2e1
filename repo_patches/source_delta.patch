From 886fa27e9182b6295a9db35a5c5b9941b414c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 01/34] fix: cache clear must not report success when the cache
 directory cannot be examined

---
 src/persistent_cache.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/persistent_cache.rs b/src/persistent_cache.rs
index 69bf812..92c00bf 100644
--- a/src/persistent_cache.rs
+++ b/src/persistent_cache.rs
@@ -456,13 +456,17 @@ impl PersistentDerivedProductCache {
             })
         })?;
         let namespace = self.namespace_root();
-        if namespace.exists() {
-            std::fs::remove_dir_all(&namespace).with_context(|| {
-                format!(
-                    "clearing Ruby Fast LSP-owned derived products under {}",
-                    namespace.display()
-                )
-            })?;
+        match std::fs::remove_dir_all(&namespace) {
+            Ok(()) => {}
+            Err(error) if error.kind() == ErrorKind::NotFound => {}
+            Err(error) => {
+                return Err(error).with_context(|| {
+                    format!(
+                        "clearing Ruby Fast LSP-owned derived products under {}",
+                        namespace.display()
+                    )
+                });
+            }
         }
         FileExt::unlock(&maintenance_lock).context("unlocking persistent cache after clear")?;
         *self.inner.accounting.lock() = CacheAccounting {
-- 
2.43.0


From c6c7ee54940593d3f70753e1b2da184ef7bdf91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:33 +0000
Subject: [PATCH 02/34] fix: cache summary must tolerate a product removed
 while it is listed

---
 src/persistent_cache.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/persistent_cache.rs b/src/persistent_cache.rs
index 92c00bf..40523ad 100644
--- a/src/persistent_cache.rs
+++ b/src/persistent_cache.rs
@@ -1196,7 +1196,12 @@ fn scan_product_entries(namespace_root: &Path) -> Result<Vec<CacheEntry>> {
                 {
                     continue;
                 }
-                let metadata = entry.metadata()?;
+                let metadata = match entry.metadata() {
+                    Ok(metadata) => metadata,
+                    // A corrupt product may be removed concurrently under its key lock.
+                    Err(error) if error.kind() == ErrorKind::NotFound => continue,
+                    Err(error) => return Err(error.into()),
+                };
                 entries.push(CacheEntry {
                     path: entry.path(),
                     bytes: metadata.len(),
-- 
2.43.0


From 6fd71b5d47909f146b858e61b4d7948af4ad3a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 03/34] fix: wake remaining indexing waiters after a resource
 admission

---
 src/indexing_resources.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/indexing_resources.rs b/src/indexing_resources.rs
index 402176a..07b7c4e 100644
--- a/src/indexing_resources.rs
+++ b/src/indexing_resources.rs
@@ -693,6 +693,9 @@ impl IndexingResourceGovernor {
                             );
                         }
                         registration.admitted = true;
+                        drop(admission);
+                        // Waiters that lost to this entry may still fit in what is left.
+                        self.state.changed.notify_waiters();
                         return Ok(ActiveResourceLease {
                             state: self.state.clone(),
                             spec: queued.spec,
-- 
2.43.0


From 69ee3769f93af9d47ea69b73d42001ca246284cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 04/34] fix: forget a failed single flight before its failure
 is observable

---
 src/single_flight.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/single_flight.rs b/src/single_flight.rs
index 8df54e1..9c21183 100644
--- a/src/single_flight.rs
+++ b/src/single_flight.rs
@@ -154,9 +154,8 @@ where
                 counters.record_producer_wall(producer_started.elapsed());
                 if result.is_err() {
                     counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                    // Forget the failed flight before anyone can observe its
+                    // failure, so the next request retries.
                     let mut entries = entries.lock();
                     if entries
                         .get(&producer_key)
@@ -165,6 +164,7 @@ where
                         entries.remove(&producer_key);
                     }
                 }
+                producer_cell.complete(result);
             });
         }
         let wait_started = Instant::now();
@@ -329,9 +329,8 @@ where
                     .record_producer_wall(producer_started.elapsed());
                 if result.is_err() {
                     cache.counters.failures.fetch_add(1, Ordering::Relaxed);
-                }
-                producer_cell.complete(result);
-                if producer_cell.get().is_some_and(Result::is_err) {
+                    // Forget the failed flight before anyone can observe its
+                    // failure, so the next request retries.
                     let mut entries = cache.entries.lock();
                     if entries
                         .get(&producer_key)
@@ -339,9 +338,9 @@ where
                     {
                         entries.remove(&producer_key);
                     }
-                } else {
-                    cache.evict_completed_to_limits();
                 }
+                producer_cell.complete(result);
+                cache.evict_completed_to_limits();
             });
         }
         let wait_started = Instant::now();
-- 
2.43.0


From ee9ead965bc540a9212f934cd95a8a5feca8de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:27 +0000
Subject: [PATCH 05/34] fix: index a standalone project whose file is opened
 while it is indexed

---
 src/indexer/coordinator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/indexer/coordinator.rs b/src/indexer/coordinator.rs
index 109d5ab..f610f1b 100644
--- a/src/indexer/coordinator.rs
+++ b/src/indexer/coordinator.rs
@@ -2473,7 +2473,10 @@ impl IndexingCoordinator {
         navigation_demands: Option<(crate::navigation_demand::NavigationDemandController, u64)>,
         project_frontier_release: tokio::sync::oneshot::Sender<()>,
     ) -> Result<(IndexerGem, Duration)> {
-        if priority_keys.is_empty() {
+        // Bounded navigation discovery reads the owning project's lockfile
+        // identities, so a standalone project without a Gemfile always takes
+        // the complete discovery path.
+        if priority_keys.is_empty() || !workspace_root.join("Gemfile").is_file() {
             let (gem_indexer, discovery, discovery_dur) = run_cpu_indexing_task(
                 server,
                 Some(workspace_root),
-- 
2.43.0


From 4f4c071005cce308473233817ca74d0e53bb9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:15 +0000
Subject: [PATCH 06/34] fix: do not keep constant equations of a replaced text
 in its syntax seed

---
 src/indexer/file_processor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index 15eadf5..1bc140d 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -2003,7 +2003,11 @@ fn replace_analysis_facts_for_file(
 ) {
     let mut file_facts = file_analysis_facts_from_index(facts);
     if file_facts.inference == ruby_analysis::core::InferenceEvidence::default() {
-        if let Some(previous) = analysis_engine.read().inference_evidence_in_file(file_id) {
+        if let Some(mut previous) = analysis_engine.read().inference_evidence_in_file(file_id) {
+            // Constant equations target assignment facts of the previous text. The seed does
+            // not contain them, so another file's resolution must not solve them until the
+            // complete replacement installs both together.
+            previous.constant_type_equations.clear();
             file_facts.inference = previous;
         }
     }
-- 
2.43.0


From 391a322bd0a3c7b29a01d8d019e54c0627776989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:39 +0000
Subject: [PATCH 07/34] fix: record every reopening of a module as a
 declaration of it

---
 .../ruby-analysis/src/indexer/analysis_indexer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/analysis_indexer.rs b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
index 5fe59c1..ef51a39 100644
--- a/crates/ruby-analysis/src/indexer/analysis_indexer.rs
+++ b/crates/ruby-analysis/src/indexer/analysis_indexer.rs
@@ -1267,7 +1267,17 @@ impl Visit<'_> for AnalysisIndexer {
 
     fn visit_module_node(&mut self, node: &ModuleNode<'_>) {
         let lexical_context = self.namespace_stack.clone();
-        let reopened_target = constant_parts_and_absolute(&node.constant_path())
+        let syntactic_fqn =
+            constant_parts_and_absolute(&node.constant_path()).map(|(parts, absolute)| {
+                if absolute {
+                    FullyQualifiedName::namespace(parts)
+                } else {
+                    let mut probe = lexical_context.clone();
+                    probe.extend(parts);
+                    FullyQualifiedName::namespace(probe)
+                }
+            });
+        let mut reopened_target = constant_parts_and_absolute(&node.constant_path())
             .and_then(|(parts, absolute)| {
                 self.resolve_declaration_constant_value_type_from(
                     &parts,
@@ -1287,6 +1297,9 @@ impl Visit<'_> for AnalysisIndexer {
                 | RubyType::Union(_)
                 | RubyType::Unknown => None,
             });
+        if syntactic_fqn.as_ref() == reopened_target.as_ref() {
+            reopened_target = None;
+        }
         let (parts, previous_namespace) = if let Some(target) = &reopened_target {
             let parts = target.namespace_parts().to_vec();
             assert!(
-- 
2.43.0


From 56ce42f233e1c64e71bbf7f0053ea16222883e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 08/34] fix: resolve the project on save of a text an edit
 already indexed

---
 src/indexer/file_processor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index 1bc140d..dc5c066 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -374,6 +374,11 @@ impl FileProcessor {
                 analysis_file_id,
             );
             let diagnostics = generate_diagnostics(&parse_result, &doc);
+            if resolution == FileResolution::Full {
+                // The edit resolved only its own file; the requested project-wide
+                // propagation is still outstanding.
+                server.analysis_engine_for_uri(uri).write().resolve();
+            }
             return Ok(ProcessResult {
                 affected_uris: HashSet::new(),
                 diagnostics,
-- 
2.43.0


From 4a84f3e9b71aad63de7b5490766dccee9a091189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 09/34] fix: order watched-file changes with the document
 notifications of the same file

---
 src/capabilities/indexing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index d2da286..0b91741 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -706,6 +706,11 @@ pub async fn handle_watched_files_changed(
         let Ok(path) = change.uri.to_file_path() else {
             continue;
         };
+        // Order this change with the document notifications received for the same file: a
+        // pending close must finish before the file counts as open, and an open or edit
+        // arriving while the file is read must not be overwritten by its disk content.
+        let semantic_lock = server.document_semantic_lock(&change.uri);
+        let _semantic_guard = semantic_lock.lock().await;
         if server.docs.lock().contains_key(&change.uri) {
             continue;
         }
-- 
2.43.0


From 25004eb14ddcc7bd4b392d63258b7cf83f65afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 10/34] fix: refresh dependent open documents from their
 current text

---
 src/capabilities/indexing.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index 0b91741..3e9814b 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -508,7 +508,17 @@ async fn refresh_bounded_open_diagnostics(
     let open_documents = bounded_open_diagnostic_refresh_targets(server, changed_uri);
 
     let mut refreshed = 0;
-    for (uri, content) in open_documents {
+    for (uri, _) in open_documents {
+        // Publishing suspends this task: an edit or close of a target may have arrived since
+        // the targets were selected, and its text must not be rolled back.
+        let Some(content) = server
+            .docs
+            .lock()
+            .get(&uri)
+            .map(|document| document.read().content.clone())
+        else {
+            continue;
+        };
         let Ok(result) =
             indexer.process_file_current_file_resolution_forced(&uri, &content, server)
         else {
-- 
2.43.0


From 0df4d1cf1d385d34b498e94a2f6518ad696ba98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:21 +0000
Subject: [PATCH 11/34] fix: an unreadable project file must not fail the whole
 project index

---
 src/indexer/indexer_project.rs | 39 +++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/indexer/indexer_project.rs b/src/indexer/indexer_project.rs
index 65c638a..28fd0a8 100644
--- a/src/indexer/indexer_project.rs
+++ b/src/indexer/indexer_project.rs
@@ -690,21 +690,21 @@ impl IndexerProject {
             let semantic_seed_started = Instant::now();
             let outcomes = project_files
                 .par_iter()
-                .map(|path| -> Result<(PathBuf, FileFacts)> {
-                    let (content, _) = Self::read_authoritative_project_source(server, path)
-                        .with_context(|| {
-                            format!(
-                                "failed to read project semantic seed source {}",
-                                path.display()
-                            )
-                        })?;
+                .map(|path| -> Result<Option<(PathBuf, FileFacts)>> {
+                    let content = match Self::read_authoritative_project_source(server, path) {
+                        Ok((content, _)) => content,
+                        Err(error) => {
+                            warn!("Skipping unreadable project semantic seed source: {error:#}");
+                            return Ok(None);
+                        }
+                    };
                     let uri = Url::from_file_path(path).map_err(|_| {
                         anyhow!(
                             "project semantic seed path is not a valid file URI: {}",
                             path.display()
                         )
                     })?;
-                    Ok((
+                    Ok(Some((
                         path.clone(),
                         self.file_processor.collect_project_direct_semantic_seed(
                             &uri,
@@ -712,12 +712,14 @@ impl IndexerProject {
                             &semantic_context,
                             baseline_known_namespaces.as_ref(),
                         ),
-                    ))
+                    )))
                 })
                 .collect::<Vec<_>>();
             let mut engine = semantic_context.write();
             for outcome in outcomes {
-                let (path, facts) = outcome?;
+                let Some((path, facts)) = outcome? else {
+                    continue;
+                };
                 let file_id = engine.file_id(&path).unwrap_or_else(|| {
                     panic!(
                         "INVARIANT VIOLATED: project-wide semantic seed lost the registered identity for {}. \
@@ -819,7 +821,20 @@ impl IndexerProject {
                 .map(&read_file)
                 .collect::<Vec<_>>(),
         );
-        let inputs = input_results.into_iter().collect::<Result<Vec<_>>>()?;
+        // A file that disappeared since it was listed, or that cannot be decoded, contributes
+        // no facts; it must not cost the project every other file.
+        let mut inputs = Vec::with_capacity(input_results.len());
+        let mut readable_priority_file_count = 0usize;
+        for (index, input) in input_results.into_iter().enumerate() {
+            match input {
+                Ok(input) => {
+                    readable_priority_file_count += usize::from(index < priority_file_count);
+                    inputs.push(input);
+                }
+                Err(error) => warn!("Skipping unreadable project source: {error:#}"),
+            }
+        }
+        let priority_file_count = readable_priority_file_count;
 
         if !uses_immutable_semantic_context {
             if let Some(input) = inputs.first() {
-- 
2.43.0


From 14bc5c9d388f01f08c2cc2e4ce23cb131034b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:36 +0000
Subject: [PATCH 12/34] fix: drop the unsaved text of a closed project document

---
 src/capabilities/indexing.rs | 44 ++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index 3e9814b..c8782ea 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -681,6 +681,18 @@ pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextD
         return;
     }
 
+    // Edits the editor discarded must not outlive the document: from here on the file's
+    // content is what is on disk.
+    if discard_unsaved_project_content(server, &uri).await {
+        let processor = FileProcessor::with_extension_registry(server.extension_registry.clone());
+        refresh_open_project_files_for_dependency_engines(
+            &processor,
+            server,
+            std::slice::from_ref(&uri),
+        );
+        server.invalidate_namespace_tree_cache_debounced();
+    }
+
     // Keep unresolved entry diagnostics visible (project-wide diagnostics).
     // Use the file's workspace index so we don't surface diagnostics from
     // other workspaces.
@@ -689,6 +701,38 @@ pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextD
     server.publish_diagnostics(uri, diagnostics).await;
 }
 
+async fn discard_unsaved_project_content(server: &RubyLanguageServer, uri: &Url) -> bool {
+    if analysis_file_kind(server, uri) != Some(SourceKind::Project) {
+        return false;
+    }
+    let Ok(path) = uri.to_file_path() else {
+        return false;
+    };
+    match tokio::fs::read_to_string(&path).await {
+        Ok(content) => {
+            if indexed_disk_content_matches(server, uri, &content) {
+                return false;
+            }
+            let processor =
+                FileProcessor::with_extension_registry(server.extension_registry.clone());
+            match processor.collect_file_facts(uri, &content, server) {
+                Ok(()) => true,
+                Err(error) => {
+                    log::error!("Failed to index closed file {}: {error}", path.display());
+                    clear_project_file_facts(server, uri)
+                }
+            }
+        }
+        Err(error) if error.kind() == std::io::ErrorKind::NotFound => {
+            clear_project_file_facts(server, uri)
+        }
+        Err(error) => {
+            log::warn!("Failed to read closed file {}: {error}", path.display());
+            false
+        }
+    }
+}
+
 pub async fn handle_watched_files_changed(
     server: &RubyLanguageServer,
     mut params: DidChangeWatchedFilesParams,
-- 
2.43.0


From c7b9a0b9b5596ecfaaea4e9cd1585602bc159448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 13/34] fix: apply watched-file batches in the order they
 arrived

---
 src/handlers/notification.rs | 4 ++++
 src/server.rs                | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/handlers/notification.rs b/src/handlers/notification.rs
index 51e2ff8..f4c61ef 100644
--- a/src/handlers/notification.rs
+++ b/src/handlers/notification.rs
@@ -368,6 +368,9 @@ pub async fn handle_did_change_watched_files(
 ) {
     let debounce_generation = server.queue_watched_file_changes(params.changes);
     tokio::time::sleep(crate::server::WATCHED_FILE_DEBOUNCE_INTERVAL).await;
+    // A batch waiting for a busy document must not apply its older events after a newer
+    // batch has been applied.
+    let order_guard = server.lock_watched_file_order().await;
     let Some(changes) = server.take_watched_file_changes(debounce_generation) else {
         return;
     };
@@ -449,6 +452,7 @@ pub async fn handle_did_change_watched_files(
     if !params.changes.is_empty() {
         indexing::handle_watched_files_changed(server, params).await;
     }
+    drop(order_guard);
     for workspace in project_rebuilds {
         rebuild_runtime_owned_project_state(server, workspace).await;
     }
diff --git a/src/server.rs b/src/server.rs
index f25bd32..d085d85 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -418,6 +418,7 @@ pub struct RubyLanguageServer {
     indexing_status_publication: Arc<tokio::sync::Mutex<IndexingStatusPublicationState>>,
     diagnostic_publication: Arc<Mutex<DiagnosticPublicationState>>,
     watched_file_changes: Arc<Mutex<WatchedFileChangeBatch>>,
+    watched_file_order: Arc<tokio::sync::Mutex<()>>,
     pub extension_watch_dynamic_registration: Arc<AtomicBool>,
     pub extension_watch_registration: Arc<tokio::sync::Mutex<Vec<String>>>,
     pub namespace_tree_cache: Arc<Mutex<Option<(u64, NamespaceTreeResponse)>>>,
@@ -498,6 +499,7 @@ impl RubyLanguageServer {
             )),
             diagnostic_publication: Arc::new(Mutex::new(DiagnosticPublicationState::default())),
             watched_file_changes: Arc::new(Mutex::new(WatchedFileChangeBatch::default())),
+            watched_file_order: Arc::new(tokio::sync::Mutex::new(())),
             extension_watch_dynamic_registration: Arc::new(AtomicBool::new(false)),
             extension_watch_registration: Arc::new(tokio::sync::Mutex::new(Vec::new())),
             namespace_tree_cache: Arc::new(Mutex::new(None)),
@@ -548,6 +550,11 @@ impl RubyLanguageServer {
         self.watched_file_changes.lock().take(generation)
     }
 
+    /// Held while one batch is applied, so that batches take effect in arrival order.
+    pub(crate) async fn lock_watched_file_order(&self) -> tokio::sync::MutexGuard<'_, ()> {
+        self.watched_file_order.lock().await
+    }
+
     pub(crate) fn cancel_watched_file_changes(&self) {
         self.watched_file_changes.lock().cancel();
     }
@@ -1690,6 +1697,7 @@ impl Default for RubyLanguageServer {
             )),
             diagnostic_publication: Arc::new(Mutex::new(DiagnosticPublicationState::default())),
             watched_file_changes: Arc::new(Mutex::new(WatchedFileChangeBatch::default())),
+            watched_file_order: Arc::new(tokio::sync::Mutex::new(())),
             extension_watch_dynamic_registration: Arc::new(AtomicBool::new(false)),
             extension_watch_registration: Arc::new(tokio::sync::Mutex::new(Vec::new())),
         }
-- 
2.43.0


From f916b47b61b5488e62206c54961ae67f675c9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:02 +0000
Subject: [PATCH 14/34] fix: a queued project must not block the siblings it is
 waiting for

Opening a document of a project that waits for a scheduler permit reserved the
parallel indexing lanes for it, so the projects holding the permits could never
finish and indexing stopped for good. The reservation could also outlive its
project's navigation pass when the phase changed while it was being set.
---
 src/server.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index d085d85..1b8e6ea 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -524,22 +524,36 @@ impl RubyLanguageServer {
     }
 
     pub fn prioritize_indexing_project(&self, project_root: &Path) {
-        let navigation_pending = self
-            .workspaces
-            .read()
-            .iter()
-            .find(|workspace| workspace.root_path == project_root)
-            .is_some_and(|workspace| {
-                workspace
-                    .indexing_status
-                    .snapshot()
-                    .phase
-                    .project_navigation_pending()
-            });
+        let navigation_pending = self.reserves_project_navigation(project_root);
         self.indexing_scheduler
             .prioritize_active_project(project_root);
         self.indexing_resources
             .prioritize_active_project_with_navigation_pending(project_root, navigation_pending);
+        // The phase may have moved on since it was read.
+        self.release_stale_navigation_reservation();
+    }
+
+    /// A project that waits for a scheduler permit must not hold back its
+    /// siblings: they hold the permits it is waiting for.
+    fn reserves_project_navigation(&self, project_root: &Path) -> bool {
+        self.workspaces
+            .read()
+            .iter()
+            .find(|workspace| workspace.root_path == project_root)
+            .is_some_and(|workspace| {
+                let phase = workspace.indexing_status.snapshot().phase;
+                phase != IndexingPhase::Queued && phase.project_navigation_pending()
+            })
+    }
+
+    fn release_stale_navigation_reservation(&self) {
+        let Some(active_root) = self.indexing_resources.snapshot().active_project else {
+            return;
+        };
+        if !self.reserves_project_navigation(&active_root) {
+            self.indexing_resources
+                .mark_project_navigation_complete_if_active(&active_root);
+        }
     }
 
     pub(crate) fn queue_watched_file_changes(&self, changes: Vec<FileEvent>) -> u64 {
@@ -685,6 +699,7 @@ impl RubyLanguageServer {
     }
 
     pub async fn publish_indexing_status(&self) {
+        self.release_stale_navigation_reservation();
         let schedule_sender;
         let schedule_counter_flush;
         {
-- 
2.43.0


From f558e28273b9eaaa95d55c2a687382542d35cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:04 +0000
Subject: [PATCH 15/34] fix: published diagnostics must be complete and current

Publishing replaces everything the editor shows for a file, but the end of
indexing, cross-file propagation and the require refresh published only the
engine's findings: syntax errors and linter findings of open documents vanished.
Refreshed open documents were not published at all, and an open or save that
waited for the linter published what the engine knew before.
---
 Cargo.lock                   |   2 +-
 src/capabilities/indexing.rs | 102 +++++++++++++++++++++-------
 src/indexer/coordinator.rs   | 127 +++++++++--------------------------
 src/server.rs                |   8 ++-
 4 files changed, 116 insertions(+), 123 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 6a0b4ac..f53b754 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -2147,7 +2147,7 @@ dependencies = [
 
 [[package]]
 name = "ruby-fast-lsp"
-version = "0.2.6"
+version = "0.3.0"
 dependencies = [
  "anyhow",
  "async-trait",
diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index c8782ea..3a17b09 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -237,7 +237,7 @@ pub async fn handle_did_open(server: &RubyLanguageServer, params: DidOpenTextDoc
         }
     };
     if !skip_processing {
-        refresh_open_project_files_after_dependency_open(&indexer, server, &uri);
+        refresh_open_project_files_after_dependency_open(&indexer, server, &uri).await;
     }
     let process_elapsed = process_start.elapsed();
 
@@ -250,8 +250,9 @@ pub async fn handle_did_open(server: &RubyLanguageServer, params: DidOpenTextDoc
     // Add unresolved entry diagnostics from the analysis engine.
     let diag_start = Instant::now();
     let query = EngineQuery::with_engine(server.analysis_engine_for_uri(&uri));
-    diagnostics.extend(query.get_unresolved_diagnostics(&uri));
+    // The linter suspends this task, so the engine is asked after it.
     append_external_linter_diagnostics(server, &uri, &content, &mut diagnostics).await;
+    diagnostics.extend(query.get_unresolved_diagnostics(&uri));
     if !source_kind.is_editable() {
         diagnostics.clear();
     }
@@ -267,7 +268,7 @@ pub async fn handle_did_open(server: &RubyLanguageServer, params: DidOpenTextDoc
     for affected_uri in affected_uris {
         if affected_uri != uri {
             affected_count += 1;
-            let affected_diagnostics = query.get_unresolved_diagnostics(&affected_uri);
+            let affected_diagnostics = current_diagnostics(server, &affected_uri);
             server
                 .publish_diagnostics(affected_uri, affected_diagnostics)
                 .await;
@@ -304,7 +305,19 @@ fn indexed_disk_content_matches(server: &RubyLanguageServer, uri: &Url, content:
         .is_some_and(|file_id| engine.file_content_matches(file_id, content))
 }
 
-fn refresh_open_project_files_after_dependency_open(
+/// Replacing the facts of an open file also replaced its findings.
+async fn publish_refreshed_diagnostics(
+    server: &RubyLanguageServer,
+    uri: Url,
+    own: Vec<Diagnostic>,
+) {
+    if analysis_file_kind(server, &uri).is_some_and(SourceKind::contributes_project_diagnostics) {
+        let diagnostics = with_retained_diagnostics(server, &uri, own);
+        server.publish_diagnostics(uri, diagnostics).await;
+    }
+}
+
+async fn refresh_open_project_files_after_dependency_open(
     indexer: &FileProcessor,
     server: &RubyLanguageServer,
     opened_uri: &Url,
@@ -326,13 +339,12 @@ fn refresh_open_project_files_after_dependency_open(
     };
 
     for (uri, content) in open_docs {
-        if let Err(err) =
-            indexer.process_file_current_file_resolution_forced(&uri, &content, server)
-        {
-            log::warn!(
+        match indexer.process_file_current_file_resolution_forced(&uri, &content, server) {
+            Ok(result) => publish_refreshed_diagnostics(server, uri, result.diagnostics).await,
+            Err(err) => log::warn!(
                 "Failed to refresh open file after dependency open: {}: {err}",
                 uri.path()
-            );
+            ),
         }
     }
 }
@@ -383,6 +395,7 @@ pub async fn handle_did_change(server: &RubyLanguageServer, params: DidChangeTex
         Some(change) => change.text.clone(),
         None => return,
     };
+    server.linter_diagnostics.lock().remove(&uri);
     let register_start = Instant::now();
     let source_kind = analysis_file_kind(server, &uri)
         .unwrap_or_else(|| source_kind_for_new_open_file(server, &uri));
@@ -475,7 +488,7 @@ pub async fn handle_did_change(server: &RubyLanguageServer, params: DidChangeTex
     for affected_uri in affected_uris {
         if affected_uri != uri {
             affected_count += 1;
-            let affected_diagnostics = query.get_unresolved_diagnostics(&affected_uri);
+            let affected_diagnostics = current_diagnostics(server, &affected_uri);
             server
                 .publish_diagnostics(affected_uri, affected_diagnostics)
                 .await;
@@ -525,9 +538,7 @@ async fn refresh_bounded_open_diagnostics(
             log::warn!("Failed to refresh open-file diagnostics for {}", uri.path());
             continue;
         };
-        let query = EngineQuery::with_engine(server.analysis_engine_for_uri(&uri));
-        let mut diagnostics = result.diagnostics;
-        diagnostics.extend(query.get_unresolved_diagnostics(&uri));
+        let diagnostics = with_retained_diagnostics(server, &uri, result.diagnostics);
         server.publish_diagnostics(uri, diagnostics).await;
         refreshed += 1;
     }
@@ -598,14 +609,15 @@ pub async fn handle_did_save(server: &RubyLanguageServer, params: DidSaveTextDoc
 
     // Add unresolved diagnostics from the analysis engine.
     let query = EngineQuery::with_engine(server.analysis_engine_for_uri(&uri));
-    diagnostics.extend(query.get_unresolved_diagnostics(&uri));
+    // The linter suspends this task, so the engine is asked after it.
     append_external_linter_diagnostics(server, &uri, &content, &mut diagnostics).await;
+    diagnostics.extend(query.get_unresolved_diagnostics(&uri));
     server.publish_diagnostics(uri.clone(), diagnostics).await;
 
     // Publish diagnostics for files affected by removed definitions
     for affected_uri in affected_uris {
         if affected_uri != uri {
-            let affected_diagnostics = query.get_unresolved_diagnostics(&affected_uri);
+            let affected_diagnostics = current_diagnostics(server, &affected_uri);
             server
                 .publish_diagnostics(affected_uri, affected_diagnostics)
                 .await;
@@ -616,12 +628,46 @@ pub async fn handle_did_save(server: &RubyLanguageServer, params: DidSaveTextDoc
     server.refresh_inlay_hints().await;
 }
 
+/// What is known about a file now: the findings of its own text while it is open, and the
+/// engine's. Publishing replaces everything shown before, so neither may be left out.
+pub(crate) fn current_diagnostics(server: &RubyLanguageServer, uri: &Url) -> Vec<Diagnostic> {
+    let document = server
+        .docs
+        .lock()
+        .get(uri)
+        .map(|document| document.read().clone());
+    let own = match document {
+        Some(document)
+            if analysis_file_kind(server, uri).is_some_and(SourceKind::is_editable) =>
+        {
+            let parse_result = document.parse();
+            generate_diagnostics(&parse_result, &document)
+        }
+        Some(_) | None => Vec::new(),
+    };
+    with_retained_diagnostics(server, uri, own)
+}
+
+fn with_retained_diagnostics(
+    server: &RubyLanguageServer,
+    uri: &Url,
+    mut diagnostics: Vec<Diagnostic>,
+) -> Vec<Diagnostic> {
+    if let Some(linter) = server.linter_diagnostics.lock().get(uri) {
+        diagnostics.extend(linter.iter().cloned());
+    }
+    let query = EngineQuery::with_engine(server.analysis_engine_for_uri(uri));
+    diagnostics.extend(query.get_unresolved_diagnostics(uri));
+    diagnostics
+}
+
 async fn append_external_linter_diagnostics(
     server: &RubyLanguageServer,
     uri: &Url,
     content: &str,
     diagnostics: &mut Vec<Diagnostic>,
 ) {
+    server.linter_diagnostics.lock().remove(uri);
     if !analysis_file_kind(server, uri).is_some_and(SourceKind::is_editable) {
         return;
     }
@@ -656,7 +702,13 @@ async fn append_external_linter_diagnostics(
     )
     .await
     {
-        Ok(linter_diagnostics) => diagnostics.extend(linter_diagnostics),
+        Ok(linter_diagnostics) => {
+            server
+                .linter_diagnostics
+                .lock()
+                .insert(uri.clone(), linter_diagnostics.clone());
+            diagnostics.extend(linter_diagnostics);
+        }
         Err(error) => log::warn!(
             "External linter diagnostics unavailable for {}: {error:#}. \
              Ensure the selected linter is available through the owning project's bundle.",
@@ -672,6 +724,7 @@ pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextD
 
     // Remove the document from in-memory cache but keep analysis facts.
     server.docs.lock().remove(&uri);
+    server.linter_diagnostics.lock().remove(&uri);
     server.release_external_document_project(&uri);
     debug!("Doc cache size: {}", server.docs.lock().len());
 
@@ -689,7 +742,8 @@ pub async fn handle_did_close(server: &RubyLanguageServer, params: DidCloseTextD
             &processor,
             server,
             std::slice::from_ref(&uri),
-        );
+        )
+        .await;
         server.invalidate_namespace_tree_cache_debounced();
     }
 
@@ -839,13 +893,14 @@ pub async fn handle_watched_files_changed(
             &processor,
             server,
             &changed_dependency_uris,
-        );
+        )
+        .await;
         server.invalidate_namespace_tree_cache_debounced();
         debug!("Reindexed watched project files and invalidated namespace tree cache");
     }
 }
 
-fn refresh_open_project_files_for_dependency_engines(
+async fn refresh_open_project_files_for_dependency_engines(
     processor: &FileProcessor,
     server: &RubyLanguageServer,
     changed_uris: &[Url],
@@ -885,13 +940,12 @@ fn refresh_open_project_files_for_dependency_engines(
     open_project_files.sort_by(|left, right| left.0.as_str().cmp(right.0.as_str()));
 
     for (uri, content) in open_project_files {
-        if let Err(error) =
-            processor.process_file_current_file_resolution_forced(&uri, &content, server)
-        {
-            log::warn!(
+        match processor.process_file_current_file_resolution_forced(&uri, &content, server) {
+            Ok(result) => publish_refreshed_diagnostics(server, uri, result.diagnostics).await,
+            Err(error) => log::warn!(
                 "Failed to refresh open project consumer after dependency change: {}: {error}",
                 uri.path()
-            );
+            ),
         }
     }
 }
diff --git a/src/indexer/coordinator.rs b/src/indexer/coordinator.rs
index f610f1b..02003a5 100644
--- a/src/indexer/coordinator.rs
+++ b/src/indexer/coordinator.rs
@@ -30,10 +30,7 @@ use crate::server::RubyLanguageServer;
 use anyhow::{anyhow, Context, Result};
 use log::{debug, info, warn};
 use rayon::prelude::*;
-use ruby_analysis::core::{
-    DiagnosticFact, DiagnosticSeverity as AnalysisDiagnosticSeverity, TextRange,
-};
-use ruby_analysis::engine::{AnalysisEngine, SourceFile};
+use ruby_analysis::engine::AnalysisEngine;
 use ruby_fast_lsp_jvm_metadata::ArchiveLimits;
 use ruby_prism::{ConstantPathNode, ConstantReadNode, Visit};
 use sha2::{Digest, Sha256};
@@ -43,7 +40,9 @@ use std::process::Command;
 use std::sync::Arc;
 use std::time::{Duration, Instant};
 use tokio_util::sync::CancellationToken;
-use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, NumberOrString, Position, Range, Url};
+#[cfg(test)]
+use tower_lsp::lsp_types::Position;
+use tower_lsp::lsp_types::Url;
 
 const MIB: usize = 1024 * 1024;
 const MAX_ACTIVE_PROJECT_FILE_PRIORITY_KEYS: usize = 8;
@@ -361,29 +360,6 @@ pub struct IndexingTimings {
     pub total: Duration,
 }
 
-fn diagnostic_from_fact_fast(file: &SourceFile, fact: &DiagnosticFact) -> Option<Diagnostic> {
-    Some(Diagnostic {
-        range: lsp_range_for_text_range_fast(file, fact.range)?,
-        severity: Some(lsp_diagnostic_severity(fact.severity)),
-        code: Some(NumberOrString::String(fact.code.clone())),
-        code_description: None,
-        source: Some("ruby-fast-lsp".to_string()),
-        message: fact.message.clone(),
-        related_information: None,
-        tags: None,
-        data: None,
-    })
-}
-
-fn lsp_diagnostic_severity(severity: AnalysisDiagnosticSeverity) -> DiagnosticSeverity {
-    match severity {
-        AnalysisDiagnosticSeverity::Error => DiagnosticSeverity::ERROR,
-        AnalysisDiagnosticSeverity::Warning => DiagnosticSeverity::WARNING,
-        AnalysisDiagnosticSeverity::Information => DiagnosticSeverity::INFORMATION,
-        AnalysisDiagnosticSeverity::Hint => DiagnosticSeverity::HINT,
-    }
-}
-
 fn configured_gem_selection(
     inferred: Vec<String>,
     config: &IndexingConfig,
@@ -818,15 +794,6 @@ fn index_jruby_runtime_sources_blocking(
     Ok(())
 }
 
-fn lsp_range_for_text_range_fast(file: &SourceFile, range: TextRange) -> Option<Range> {
-    let (start_line, start_character) = file.byte_offset_to_line_character(range.start_byte)?;
-    let (end_line, end_character) = file.byte_offset_to_line_character(range.end_byte)?;
-    Some(Range::new(
-        Position::new(start_line, start_character),
-        Position::new(end_line, end_character),
-    ))
-}
-
 /// The IndexingCoordinator manages the entire indexing process.
 ///
 /// It works in 5 simple steps:
@@ -2171,72 +2138,42 @@ impl IndexingCoordinator {
         Ok(())
     }
 
-    /// Publish diagnostics for unresolved entries in currently open files.
+    /// Publish what final resolution found for the project's open files.
     async fn publish_unresolved_diagnostics(&self, server: &RubyLanguageServer) -> Result<()> {
         self.indexing_checkpoint(server)?;
-        let open_uris = server.docs.lock().keys().cloned().collect::<HashSet<_>>();
-        let file_ids = {
+        let open_uris = server.docs.lock().keys().cloned().collect::<Vec<_>>();
+        let open_count = open_uris.len();
+        let mut project_uris = {
             let analysis_engine = self.analysis_engine(server);
             let engine = analysis_engine.read();
-            let mut file_ids = engine.diagnostic_store().file_ids();
-            file_ids.retain(|file_id| {
-                engine
-                    .file(*file_id)
-                    .and_then(|file| Url::from_file_path(&file.path).ok())
-                    .is_some_and(|uri| open_uris.contains(&uri))
-            });
-            file_ids.sort_by(|left, right| {
-                let left_path = engine
-                    .file(*left)
-                    .map(|file| file.path.as_path())
-                    .unwrap_or_else(|| Path::new(""));
-                let right_path = engine
-                    .file(*right)
-                    .map(|file| file.path.as_path())
-                    .unwrap_or_else(|| Path::new(""));
-                left_path.cmp(right_path)
-            });
-            info!(
-                "Publishing diagnostics for {} open files with analysis diagnostics ({} open documents)",
-                file_ids.len(),
-                open_uris.len()
-            );
-            file_ids
+            open_uris
+                .into_iter()
+                .filter(|uri| {
+                    uri.to_file_path()
+                        .ok()
+                        .and_then(|path| engine.file_id(&path))
+                        .and_then(|file_id| engine.file(file_id))
+                        .is_some_and(|file| file.kind.contributes_project_diagnostics())
+                })
+                .collect::<Vec<_>>()
         };
+        project_uris.sort_by(|left, right| left.as_str().cmp(right.as_str()));
+        info!(
+            "Publishing diagnostics for {} open project files ({} open documents)",
+            project_uris.len(),
+            open_count
+        );
 
-        for file_id in file_ids {
+        for uri in project_uris {
             self.indexing_checkpoint(server)?;
-            let Some((uri, diagnostics)) = ({
-                let analysis_engine = self.analysis_engine(server);
-                let engine = analysis_engine.read();
-                match engine.file(file_id) {
-                    Some(file) => match Url::from_file_path(&file.path) {
-                        Ok(uri) => {
-                            let diagnostics = engine
-                                .diagnostic_store()
-                                .facts_for_file(file_id)
-                                .iter()
-                                .filter_map(|fact| diagnostic_from_fact_fast(file, fact))
-                                .collect::<Vec<_>>();
-                            if diagnostics.is_empty() {
-                                None
-                            } else {
-                                Some((uri, diagnostics))
-                            }
-                        }
-                        Err(()) => None,
-                    },
-                    None => None,
-                }
-            }) else {
+            // An open or edit still being handled looked at the engine before it was
+            // resolved; it must not publish that after this.
+            let semantic_lock = server.document_semantic_lock(&uri);
+            let _semantic_guard = semantic_lock.lock().await;
+            if !server.docs.lock().contains_key(&uri) {
                 continue;
-            };
-            debug!(
-                "Publishing {} unresolved diagnostics for {}",
-                diagnostics.len(),
-                uri.path()
-            );
-            self.indexing_checkpoint(server)?;
+            }
+            let diagnostics = crate::capabilities::indexing::current_diagnostics(server, &uri);
             server.publish_diagnostics(uri, diagnostics).await;
         }
         Ok(())
diff --git a/src/server.rs b/src/server.rs
index 1b8e6ea..15c950e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -383,6 +383,8 @@ pub struct RubyLanguageServer {
     pub workspaces: Arc<RwLock<Vec<Workspace>>>,
     pub docs: Arc<Mutex<HashMap<Url, Arc<RwLock<RubyDocument>>>>>,
     document_semantic_locks: Arc<Mutex<HashMap<Url, Weak<tokio::sync::Mutex<()>>>>>,
+    /// External linter findings for the current text of open documents.
+    pub(crate) linter_diagnostics: Arc<Mutex<HashMap<Url, Vec<Diagnostic>>>>,
     /// Analysis state for open files outside every registered Ruby project.
     /// Project facts live in `Workspace::analysis_engine` and must never be
     /// written here.
@@ -471,6 +473,7 @@ impl RubyLanguageServer {
             workspaces: Arc::new(RwLock::new(Vec::new())),
             docs: Arc::new(Mutex::new(HashMap::new())),
             document_semantic_locks: Arc::new(Mutex::new(HashMap::new())),
+            linter_diagnostics: Arc::new(Mutex::new(HashMap::new())),
             analysis_engine: new_orphan_analysis_engine(),
             external_document_projects: Arc::new(RwLock::new(HashMap::new())),
             config: Arc::new(Mutex::new(config)),
@@ -879,7 +882,6 @@ impl RubyLanguageServer {
         use crate::indexer::require_paths::{
             unresolved_require_diagnostics, UNRESOLVED_REQUIRE_CODE,
         };
-        use crate::query::EngineQuery;
 
         let dependency_roots = workspace.dependency_require_paths();
         let load_paths = self
@@ -953,8 +955,7 @@ impl RubyLanguageServer {
         refreshed_open.sort_by(|left, right| left.as_str().cmp(right.as_str()));
         refreshed_open.dedup();
         for uri in refreshed_open {
-            let diagnostics = EngineQuery::with_engine(workspace.analysis_engine.clone())
-                .get_unresolved_diagnostics(&uri);
+            let diagnostics = crate::capabilities::indexing::current_diagnostics(self, &uri);
             self.publish_diagnostics(uri, diagnostics).await;
         }
     }
@@ -1674,6 +1675,7 @@ impl Default for RubyLanguageServer {
             workspaces: Arc::new(RwLock::new(Vec::new())),
             docs: Arc::new(Mutex::new(HashMap::new())),
             document_semantic_locks: Arc::new(Mutex::new(HashMap::new())),
+            linter_diagnostics: Arc::new(Mutex::new(HashMap::new())),
             analysis_engine: new_orphan_analysis_engine(),
             external_document_projects: Arc::new(RwLock::new(HashMap::new())),
             config: Arc::new(Mutex::new(RubyFastLspConfig::default())),
-- 
2.43.0


From 6d69edc988180bb1c69dd9091e7d685e58f8e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:34 +0000
Subject: [PATCH 16/34] fix: a definition demanded during the navigation
 frontier must not abort project indexing

A demand registered between the frontier's two drains collects tail files, after which
validating the baseline again before the first tail batch failed an assertion and left
the whole project failed. The frontier has already validated that baseline.
---
 src/indexer/coordinator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/indexer/coordinator.rs b/src/indexer/coordinator.rs
index 02003a5..2fecd1a 100644
--- a/src/indexer/coordinator.rs
+++ b/src/indexer/coordinator.rs
@@ -1889,7 +1889,8 @@ impl IndexingCoordinator {
             "bounded exhaustive project fact collection",
             move || {
                 let result = (|| -> Result<(usize, usize, usize, usize, usize)> {
-                    project_indexer.refresh_exhaustive_semantic_context(&worker_server)?;
+                    // The completed frontier validated the collection baseline; it may since
+                    // have collected demanded files of the tail against that same baseline.
                     let mut batch_count = 0usize;
                     let mut demanded_batch_count = 0usize;
                     let mut collected_file_count = 0usize;
-- 
2.43.0


From 243e4c1cc56d01e28b1837897be307df724a72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 17/34] fix: an unreadable directory below the project root
 must not hide the project

One directory that cannot be read (no permission, or removed during the walk)
failed project discovery and the whole file walk, so nothing was indexed.
---
 src/indexer/project_roots.rs |  6 ++++-
 src/utils/file_ops.rs        | 43 ++++++++++++++++++++++++------------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/indexer/project_roots.rs b/src/indexer/project_roots.rs
index b9e7dc5..06681fd 100644
--- a/src/indexer/project_roots.rs
+++ b/src/indexer/project_roots.rs
@@ -2,6 +2,7 @@ use std::fs;
 use std::path::{Component, Path, PathBuf};
 
 use anyhow::{Context, Result};
+use log::warn;
 
 const PRUNED_PROJECT_DISCOVERY_DIRECTORIES: &[&str] = &[
     ".bundle",
@@ -123,7 +124,10 @@ fn discover_nested_project_roots(directory: &Path, roots: &mut Vec<PathBuf>) ->
             roots.push(path);
             continue;
         }
-        discover_nested_project_roots(&path, roots)?;
+        // One directory that cannot be read must not hide the other projects.
+        if let Err(error) = discover_nested_project_roots(&path, roots) {
+            warn!("Skipping project discovery below {}: {error:#}", path.display());
+        }
     }
     Ok(())
 }
diff --git a/src/utils/file_ops.rs b/src/utils/file_ops.rs
index 3015237..ee308b8 100644
--- a/src/utils/file_ops.rs
+++ b/src/utils/file_ops.rs
@@ -7,6 +7,7 @@
 
 use anyhow::Result;
 use globset::{Glob, GlobSet, GlobSetBuilder};
+use log::warn;
 use std::path::{Path, PathBuf};
 use tower_lsp::lsp_types::Url;
 use walkdir::{DirEntry, WalkDir};
@@ -175,13 +176,9 @@ pub fn collect_project_files(dir: &Path, config: &IndexingConfig) -> Result<Vec<
         .into_iter()
         .filter_entry(is_not_git_directory)
     {
-        let entry = entry.map_err(|error| {
-            anyhow::anyhow!(
-                "Failed to walk project directory {}: {}",
-                dir.display(),
-                error
-            )
-        })?;
+        let Some(entry) = readable_entry(dir, entry)? else {
+            continue;
+        };
         if !entry.file_type().is_file() {
             continue;
         }
@@ -206,13 +203,9 @@ pub fn collect_project_signature_files(
         .into_iter()
         .filter_entry(is_not_git_directory)
     {
-        let entry = entry.map_err(|error| {
-            anyhow::anyhow!(
-                "Failed to walk project signature directory {}: {}",
-                dir.display(),
-                error
-            )
-        })?;
+        let Some(entry) = readable_entry(dir, entry)? else {
+            continue;
+        };
         if entry.file_type().is_file() && policy.includes_signature(dir, entry.path()) {
             files.push(entry.into_path());
         }
@@ -221,6 +214,28 @@ pub fn collect_project_signature_files(
     Ok(files)
 }
 
+/// An entry below the project root that cannot be read (no permission, or it
+/// disappeared during the walk) is skipped so it cannot hide the rest of the
+/// project. Only an unreadable root fails the walk.
+fn readable_entry(dir: &Path, entry: walkdir::Result<DirEntry>) -> Result<Option<DirEntry>> {
+    match entry {
+        Ok(entry) => Ok(Some(entry)),
+        Err(error) if error.depth() == 0 => Err(anyhow::anyhow!(
+            "Failed to walk project directory {}: {}",
+            dir.display(),
+            error
+        )),
+        Err(error) => {
+            warn!(
+                "Skipping unreadable entry in project directory {}: {}",
+                dir.display(),
+                error
+            );
+            Ok(None)
+        }
+    }
+}
+
 fn is_rbs_file(path: &Path) -> bool {
     path.extension().is_some_and(|extension| extension == "rbs")
 }
-- 
2.43.0


From 066989d5608b30ddf67cbdaf747a7bc524ec8853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 18/34] fix: survive a workspace folder leaving and returning
 during indexing

The file id was registered with the engine that owned the document at that
moment, which may no longer be the one that receives the facts, and a
superseded run met an engine or workspace list that replaced its own.
---
 src/indexer/coordinator.rs     | 30 +++++++++++++++++-------------
 src/indexer/file_processor.rs  | 12 +++++++++++-
 src/indexer/indexer_project.rs | 15 +++------------
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/indexer/coordinator.rs b/src/indexer/coordinator.rs
index 2fecd1a..8a17bf6 100644
--- a/src/indexer/coordinator.rs
+++ b/src/indexer/coordinator.rs
@@ -1036,19 +1036,23 @@ impl IndexingCoordinator {
         let startup_gem_priority_keys = active_priority_keys.dependency_roots.clone();
         let (_, startup_excluded_gems) =
             configured_gem_selection(Vec::new(), &self.config.indexing);
-        let dependency_navigation_demands = self.indexing_run.as_ref().map(|run| {
-            let workspace = server
-                .list_workspaces()
-                .into_iter()
-                .find(|workspace| workspace.root_path == self.workspace_root)
-                .expect(
-                    "INVARIANT VIOLATED: active indexing run has no registered workspace while \
-                     preparing dependency navigation. This is a coordinator bug because the \
-                     generation checkpoint already proved exact workspace ownership. Fix: keep \
-                     workspace removal and coordinator cancellation atomic.",
-                );
-            (workspace.navigation_demands, run.generation())
-        });
+        let dependency_navigation_demands = match self.indexing_run.as_ref() {
+            Some(run) => {
+                let workspace = server
+                    .list_workspaces()
+                    .into_iter()
+                    .find(|workspace| workspace.root_path == self.workspace_root)
+                    .ok_or_else(|| {
+                        anyhow!(
+                            "Indexing generation {} was cancelled because project {} is no longer registered",
+                            run.generation(),
+                            self.workspace_root.display()
+                        )
+                    })?;
+                Some((workspace.navigation_demands, run.generation()))
+            }
+            None => None,
+        };
         let startup_dependency_seed = {
             let dependency_seed = dependency_seed_engine.read();
             assert!(
diff --git a/src/indexer/file_processor.rs b/src/indexer/file_processor.rs
index dc5c066..eedc160 100644
--- a/src/indexer/file_processor.rs
+++ b/src/indexer/file_processor.rs
@@ -395,8 +395,18 @@ impl FileProcessor {
         let parse_result = ruby_prism::parse(analysis_source.as_bytes());
         let node = parse_result.node();
         let source_kind = self.analysis_source_kind_for_uri(server, uri);
+        // The engine that owns the document may change meanwhile (workspace folders); the
+        // file id must come from the engine that receives the facts.
         let analysis_file_id =
-            server.open_or_update_analysis_file_with_kind(uri, content.to_string(), source_kind);
+            analysis_engine
+                .write()
+                .register_file(ruby_analysis::engine::SourceFileInput {
+                    path: uri
+                        .to_file_path()
+                        .unwrap_or_else(|_| PathBuf::from(uri.to_string())),
+                    content: content.to_string(),
+                    kind: source_kind,
+                });
         let document_version = server
             .docs
             .lock()
diff --git a/src/indexer/indexer_project.rs b/src/indexer/indexer_project.rs
index 28fd0a8..532e699 100644
--- a/src/indexer/indexer_project.rs
+++ b/src/indexer/indexer_project.rs
@@ -1404,18 +1404,9 @@ impl IndexerProject {
             let engine = analysis_engine.read();
             open_project_paths
                 .iter()
-                .map(|path| {
-                    engine.file_id(path).unwrap_or_else(|| {
-                        panic!(
-                            "INVARIANT VIOLATED: open project document {} has no registered \
-                             analysis file after project fact collection. This is a bug because \
-                             didOpen and the project pass share the owning isolated engine. Fix: \
-                             keep open-document registration and project routing on the same \
-                             longest-prefix workspace owner.",
-                            path.display()
-                        )
-                    })
-                })
+                // A superseded run may meet the engine that replaced its own when the
+                // folder left and came back; that engine's run resolves its documents.
+                .filter_map(|path| engine.file_id(path))
                 .collect::<Vec<_>>()
         };
         analysis_engine
-- 
2.43.0


From 5f7e6812c1ebfeb65a6d4f00eafcbd5d3992398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 19/34] fix: rebuild and rehome open documents with their
 current text

A rebuild (ruby version, configuration, Gemfile) or a workspace folder change
reopened documents with the text they had before it began, so edits made
meanwhile were rolled back and closed documents came back. Loose facts stayed
in the orphan engine, and two runs could index one project at once.
---
 src/capabilities/indexing.rs | 61 +++++++++++++++++++++++++
 src/handlers/notification.rs | 86 +++++++++++++++++-------------------
 src/server.rs                | 58 ++++++++++++++++++++++++
 3 files changed, 160 insertions(+), 45 deletions(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index 3a17b09..ef0c7f5 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -147,6 +147,67 @@ pub async fn handle_did_open(server: &RubyLanguageServer, params: DidOpenTextDoc
     let uri = params.text_document.uri.clone();
     let semantic_lock = server.document_semantic_lock(&uri);
     let _semantic_guard = semantic_lock.lock().await;
+    open_locked_document(server, params, total_start).await;
+}
+
+/// Analyze an open document again after the engine that owns it was replaced. The text is
+/// read once earlier notifications for the document are done, so no edit is rolled back
+/// and no closed document is reopened.
+pub(crate) async fn reopen_document(server: &RubyLanguageServer, uri: &Url, owner_changed: bool) {
+    let total_start = Instant::now();
+    let semantic_lock = server.document_semantic_lock(uri);
+    let _semantic_guard = semantic_lock.lock().await;
+    let Some(document) = server.docs.lock().get(uri).cloned() else {
+        return;
+    };
+    if owner_changed {
+        server.clear_file_from_other_engines(uri, &server.analysis_engine_for_uri(uri));
+    }
+    let text_document = {
+        let mut document = document.write();
+        document.indexed_version = None;
+        TextDocumentItem {
+            uri: uri.clone(),
+            language_id: "ruby".to_string(),
+            version: document.version,
+            text: document.content.clone(),
+        }
+    };
+    let params = DidOpenTextDocumentParams { text_document };
+    open_locked_document(server, params, total_start).await;
+}
+
+/// Register the current text of every open document below `project_root` with the engine
+/// that owns it now.
+pub(crate) fn register_open_documents(server: &RubyLanguageServer, project_root: &Path) {
+    let documents = server
+        .docs
+        .lock()
+        .iter()
+        .map(|(uri, document)| (uri.clone(), document.clone()))
+        .collect::<Vec<_>>();
+    for (uri, document) in documents {
+        if !uri
+            .to_file_path()
+            .is_ok_and(|path| path.starts_with(project_root))
+        {
+            continue;
+        }
+        let mut document = document.write();
+        let kind = source_kind_for_new_open_file(server, &uri);
+        let file_id =
+            server.open_or_update_analysis_file_with_kind(&uri, document.content.clone(), kind);
+        document.set_analysis_file_id(file_id);
+        document.indexed_version = None;
+    }
+}
+
+async fn open_locked_document(
+    server: &RubyLanguageServer,
+    params: DidOpenTextDocumentParams,
+    total_start: Instant,
+) {
+    let uri = params.text_document.uri.clone();
     let content = params.text_document.text.clone();
     let existing_kind = analysis_file_kind(server, &uri);
     let indexed_content_matches = existing_kind == Some(SourceKind::Project)
diff --git a/src/handlers/notification.rs b/src/handlers/notification.rs
index f4c61ef..1f8f149 100644
--- a/src/handlers/notification.rs
+++ b/src/handlers/notification.rs
@@ -252,8 +252,11 @@ pub async fn handle_initialized(server: &RubyLanguageServer, _params: Initialize
 
     let total = workspaces.len();
 
+    // A configuration change handled while `initialized` waited for the client has
+    // already begun to index the project with the newer configuration.
     let scheduled = workspaces
         .into_iter()
+        .filter(|ws| ws.indexing_status.snapshot().generation == 0)
         .map(|ws| {
             let run = ws.begin_indexing_run();
             let admission = server.indexing_scheduler.register_cancellable(
@@ -525,7 +528,11 @@ async fn rebuild_runtime_owned_project_state(
         "Rebuilding runtime-owned semantic state for project {}",
         workspace.root_path.display()
     );
-    let run = workspace.begin_indexing_run();
+    // A folder that left meanwhile has nothing to rebuild; if it came back, it did so as
+    // another workspace with its own indexing run.
+    let Some(run) = server.begin_registered_indexing_run(&workspace) else {
+        return;
+    };
     server.publish_indexing_status().await;
     let Some(_permit) = server
         .indexing_scheduler
@@ -555,32 +562,19 @@ async fn rebuild_runtime_owned_project_state(
     // The scheduler admits at most one generation per project. Only after the
     // superseded coordinator has released its permit may the replacement clear
     // and rebuild that project's semantic state.
-    let open_documents = server
-        .docs
-        .lock()
-        .values()
-        .filter_map(|document| {
-            let document = document.read();
-            let path = document.uri.to_file_path().ok()?;
-            path.starts_with(&workspace.root_path)
-                .then(|| TextDocumentItem {
-                    uri: document.uri.clone(),
-                    language_id: "ruby".to_string(),
-                    version: document.version,
-                    text: document.content.clone(),
-                })
-        })
-        .collect::<Vec<_>>();
+    let document_guards = server.lock_all_documents().await;
     server.release_external_documents_for_project(&workspace.root_uri);
     server.set_jruby_import_provider(&workspace.root_path, None);
     server.set_runtime_classpath_fingerprint(&workspace.root_path, None);
     server.set_effective_runtime(&workspace.root_path, None);
     server.set_extension_project_ruby_version(&workspace.root_path, None);
     *workspace.analysis_engine.write() = ruby_analysis::engine::AnalysisEngine::new();
+    indexing::register_open_documents(server, &workspace.root_path);
+    drop(document_guards);
     let rebuild =
         indexing::init_workspace_for_run(server, workspace.root_uri.clone(), run.clone()).await;
-    for text_document in open_documents {
-        indexing::handle_did_open(server, DidOpenTextDocumentParams { text_document }).await;
+    for uri in open_documents_below(server, std::slice::from_ref(&workspace.root_path)) {
+        indexing::reopen_document(server, &uri, false).await;
     }
     match rebuild {
         Ok(_) => {
@@ -625,6 +619,22 @@ async fn rebuild_runtime_owned_project_state(
     }
 }
 
+fn open_documents_below(
+    server: &RubyLanguageServer,
+    directories: &[std::path::PathBuf],
+) -> Vec<tower_lsp::lsp_types::Url> {
+    server
+        .docs
+        .lock()
+        .keys()
+        .filter(|uri| {
+            uri.to_file_path()
+                .is_ok_and(|path| directories.iter().any(|root| path.starts_with(root)))
+        })
+        .cloned()
+        .collect()
+}
+
 /// Add or remove workspace folders at runtime in response to
 /// `workspace/didChangeWorkspaceFolders`. Each added folder gets a freshly
 /// spawned indexing coordinator.
@@ -639,25 +649,6 @@ pub async fn handle_did_change_workspace_folders(
         .chain(params.event.added.iter())
         .filter_map(|folder| folder.uri.to_file_path().ok())
         .collect::<Vec<_>>();
-    let open_documents_to_rehome = server
-        .docs
-        .lock()
-        .values()
-        .filter_map(|document| {
-            let document = document.read();
-            let path = document.uri.to_file_path().ok()?;
-            changed_paths
-                .iter()
-                .any(|removed| path.starts_with(removed))
-                .then(|| TextDocumentItem {
-                    uri: document.uri.clone(),
-                    language_id: "ruby".to_string(),
-                    version: document.version,
-                    text: document.content.clone(),
-                })
-        })
-        .collect::<Vec<_>>();
-
     for removed in &params.event.removed {
         info!("Removing workspace folder: {}", removed.uri.as_str());
         server.remove_workspace_folder(&removed.uri);
@@ -667,7 +658,11 @@ pub async fn handle_did_change_workspace_folders(
     for added in params.event.added {
         info!("Adding workspace folder: {}", added.uri.as_str());
         match server.add_workspace_folder(added.uri.clone()) {
-            Ok(projects) => added_workspaces.extend(projects),
+            // Begun at once, so that a removal arriving meanwhile cancels the run.
+            Ok(projects) => added_workspaces.extend(projects.into_iter().map(|workspace| {
+                let run = workspace.begin_indexing_run();
+                (workspace, run)
+            })),
             Err(error) => warn!(
                 "Failed to discover Ruby projects in workspace folder {}: {}",
                 added.uri.as_str(),
@@ -690,20 +685,21 @@ pub async fn handle_did_change_workspace_folders(
     }
     refresh_extension_watch_registration(server).await;
 
-    for text_document in open_documents_to_rehome {
-        let owner = server.analysis_engine_for_uri(&text_document.uri);
-        server.clear_file_from_other_engines(&text_document.uri, &owner);
-        indexing::handle_did_open(server, DidOpenTextDocumentParams { text_document }).await;
+    // Handlers that began before the change finish in the engine they began with.
+    let document_guards = server.lock_all_documents().await;
+    server.clear_files_owned_elsewhere(&changed_paths);
+    drop(document_guards);
+    for uri in open_documents_below(server, &changed_paths) {
+        indexing::reopen_document(server, &uri, true).await;
     }
 
-    for workspace in added_workspaces {
+    for (workspace, run) in added_workspaces {
         // Spawn coordinator for the new workspace. Mirrors the per-workspace
         // task spawned in `handle_initialized`, but only after extension
         // discovery includes the new root.
         let server_clone = server.clone();
         let workspace_uri = workspace.root_uri.clone();
         let project_root = workspace.root_path.clone();
-        let run = workspace.begin_indexing_run();
         let indexing_status = workspace.indexing_status.clone();
         tokio::spawn(async move {
             server_clone.publish_indexing_status().await;
diff --git a/src/server.rs b/src/server.rs
index 15c950e..ba10da9 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -383,6 +383,7 @@ pub struct RubyLanguageServer {
     pub workspaces: Arc<RwLock<Vec<Workspace>>>,
     pub docs: Arc<Mutex<HashMap<Url, Arc<RwLock<RubyDocument>>>>>,
     document_semantic_locks: Arc<Mutex<HashMap<Url, Weak<tokio::sync::Mutex<()>>>>>,
+    all_documents_lock: Arc<tokio::sync::Mutex<()>>,
     /// External linter findings for the current text of open documents.
     pub(crate) linter_diagnostics: Arc<Mutex<HashMap<Url, Vec<Diagnostic>>>>,
     /// Analysis state for open files outside every registered Ruby project.
@@ -473,6 +474,7 @@ impl RubyLanguageServer {
             workspaces: Arc::new(RwLock::new(Vec::new())),
             docs: Arc::new(Mutex::new(HashMap::new())),
             document_semantic_locks: Arc::new(Mutex::new(HashMap::new())),
+            all_documents_lock: Arc::new(tokio::sync::Mutex::new(())),
             linter_diagnostics: Arc::new(Mutex::new(HashMap::new())),
             analysis_engine: new_orphan_analysis_engine(),
             external_document_projects: Arc::new(RwLock::new(HashMap::new())),
@@ -587,6 +589,27 @@ impl RubyLanguageServer {
         lock
     }
 
+    /// Wait until no document notification is being handled and keep it that way while
+    /// the guards are held. Every handler holds at most one document lock.
+    pub(crate) async fn lock_all_documents(&self) -> Vec<tokio::sync::OwnedMutexGuard<()>> {
+        let mut held: Vec<Arc<tokio::sync::Mutex<()>>> = Vec::new();
+        // Two callers at once would each hold a lock the other waits for.
+        let mut guards = vec![self.all_documents_lock.clone().lock_owned().await];
+        loop {
+            let next = self
+                .document_semantic_locks
+                .lock()
+                .values()
+                .filter_map(Weak::upgrade)
+                .find(|lock| !held.iter().any(|known| Arc::ptr_eq(known, lock)));
+            let Some(lock) = next else {
+                return guards;
+            };
+            guards.push(lock.clone().lock_owned().await);
+            held.push(lock);
+        }
+    }
+
     pub fn indexing_status_snapshot(&self) -> IndexingStatusSnapshot {
         let mut projects = self
             .workspaces
@@ -1180,6 +1203,28 @@ impl RubyLanguageServer {
         }
     }
 
+    /// Clear every file below `directories` from the engines that do not own it, such as
+    /// the loose files indexed while their workspace folder was not registered.
+    pub(crate) fn clear_files_owned_elsewhere(&self, directories: &[PathBuf]) {
+        for analysis_engine in self.analysis_engines() {
+            let paths = analysis_engine
+                .read()
+                .files()
+                .map(|file| file.path.clone())
+                .filter(|path| directories.iter().any(|root| path.starts_with(root)))
+                .collect::<Vec<_>>();
+            for path in paths {
+                let Ok(uri) = Url::from_file_path(&path) else {
+                    continue;
+                };
+                let owner = self.analysis_engine_for_uri(&uri);
+                if !Arc::ptr_eq(&owner, &analysis_engine) {
+                    self.clear_file_from_other_engines(&uri, &owner);
+                }
+            }
+        }
+    }
+
     pub fn open_or_update_analysis_file(
         &self,
         uri: &Url,
@@ -1281,6 +1326,18 @@ impl RubyLanguageServer {
         });
     }
 
+    /// Begin an indexing run unless the workspace has been removed.
+    pub(crate) fn begin_registered_indexing_run(
+        &self,
+        workspace: &Workspace,
+    ) -> Option<IndexingRun> {
+        let workspaces = self.workspaces.read();
+        workspaces
+            .iter()
+            .any(|known| Arc::ptr_eq(&known.indexing_status, &workspace.indexing_status))
+            .then(|| workspace.begin_indexing_run())
+    }
+
     pub fn cancel_all_indexing(&self) {
         for workspace in self.workspaces.read().iter() {
             workspace.cancel_current_indexing_run();
@@ -1675,6 +1732,7 @@ impl Default for RubyLanguageServer {
             workspaces: Arc::new(RwLock::new(Vec::new())),
             docs: Arc::new(Mutex::new(HashMap::new())),
             document_semantic_locks: Arc::new(Mutex::new(HashMap::new())),
+            all_documents_lock: Arc::new(tokio::sync::Mutex::new(())),
             linter_diagnostics: Arc::new(Mutex::new(HashMap::new())),
             analysis_engine: new_orphan_analysis_engine(),
             external_document_projects: Arc::new(RwLock::new(HashMap::new())),
-- 
2.43.0


From 04dd90068159418dfadf3e3276521ec367a3bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:48 +0000
Subject: [PATCH 20/34] fix: refresh open documents after an export change
 under their own lock

The refresh could run between another document's analysis, which still saw the
previous exports, and the publication of its result, so that document kept
stale unresolved-constant diagnostics until its next edit.
---
 src/capabilities/indexing.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index ef0c7f5..f7c3eb6 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -448,7 +448,7 @@ pub async fn handle_did_change(server: &RubyLanguageServer, params: DidChangeTex
     let total_start = Instant::now();
     let uri = params.text_document.uri.clone();
     let semantic_lock = server.document_semantic_lock(&uri);
-    let _semantic_guard = semantic_lock.lock().await;
+    let semantic_guard = semantic_lock.lock().await;
     let version = params.text_document.version;
 
     // Get the final content from the last change
@@ -528,6 +528,8 @@ pub async fn handle_did_change(server: &RubyLanguageServer, params: DidChangeTex
     server.publish_diagnostics(uri.clone(), diagnostics).await;
     let publish_elapsed = publish_start.elapsed();
 
+    // Every handler holds at most one document lock; the refresh takes those of its targets.
+    drop(semantic_guard);
     let open_refresh_start = Instant::now();
     let open_refresh_count =
         if semantic_change == ruby_analysis::engine::SemanticChange::ExportsChanged {
@@ -583,8 +585,10 @@ async fn refresh_bounded_open_diagnostics(
 
     let mut refreshed = 0;
     for (uri, _) in open_documents {
-        // Publishing suspends this task: an edit or close of a target may have arrived since
-        // the targets were selected, and its text must not be rolled back.
+        // The target may be in the middle of an analysis that saw the previous exports, and
+        // its text may have changed since the targets were selected.
+        let semantic_lock = server.document_semantic_lock(&uri);
+        let _semantic_guard = semantic_lock.lock().await;
         let Some(content) = server
             .docs
             .lock()
-- 
2.43.0


From 1e33824b349611d36c0fff08660e60e63d01dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:39 +0000
Subject: [PATCH 21/34] fix: resolve a reused file again when it is opened

---
 src/capabilities/indexing.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/capabilities/indexing.rs b/src/capabilities/indexing.rs
index f7c3eb6..d21c8ca 100644
--- a/src/capabilities/indexing.rs
+++ b/src/capabilities/indexing.rs
@@ -263,6 +263,9 @@ async fn open_locked_document(
             Vec::new()
         };
         if indexed_content_matches {
+            // The facts are those of this text, but other documents may have changed their
+            // exports since they were resolved, and only open documents follow such changes.
+            resolve_reused_file(server, &uri);
             server
                 .docs
                 .lock()
@@ -352,6 +355,17 @@ async fn open_locked_document(
     );
 }
 
+fn resolve_reused_file(server: &RubyLanguageServer, uri: &Url) {
+    let Ok(path) = uri.to_file_path() else {
+        return;
+    };
+    let analysis_engine = server.analysis_engine_for_uri(uri);
+    let mut engine = analysis_engine.write();
+    if let Some(file_id) = engine.file_id(&path) {
+        engine.resolve_file(file_id);
+    }
+}
+
 fn indexed_disk_content_matches(server: &RubyLanguageServer, uri: &Url, content: &str) -> bool {
     let Ok(path) = uri.to_file_path() else {
         return false;
-- 
2.43.0


From 10a0c88cbb7f555a3aa8195714b43e9cb853b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 22/34] fix: an editor of another user is alive even if it may
 not be signalled

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index ba10da9..88f833f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -262,7 +262,9 @@ fn is_process_alive(pid: u32) -> bool {
     // On Unix, sending signal 0 to a process checks if it exists without actually sending a signal
     // kill(pid, 0) returns 0 if the process exists and we have permission to send it signals
     // It returns -1 with ESRCH if the process doesn't exist
-    unsafe { libc::kill(pid as libc::pid_t, 0) == 0 }
+    // or with EPERM if it exists but belongs to somebody we may not signal
+    let signalled = unsafe { libc::kill(pid as libc::pid_t, 0) == 0 };
+    signalled || std::io::Error::last_os_error().raw_os_error() == Some(libc::EPERM)
 }
 
 #[cfg(windows)]
-- 
2.43.0


From 2620592841447a2646f2d1176d5a290f4bff6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 23/34] fix: watch the editor's process from a thread that
 survives the runtime

---
 src/server.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 88f833f..5296933 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -830,16 +830,20 @@ impl RubyLanguageServer {
         }
     }
 
-    /// Start a background task that monitors the parent process.
+    /// Start a background thread that monitors the parent process.
     /// If the parent process is no longer running, exit the server.
+    ///
+    /// This is a thread rather than a task because it has to outlive the async runtime: once
+    /// the output pipe is broken the runtime shuts down, which drops its tasks and then waits
+    /// for the pending read of standard input.
     fn start_parent_process_monitor(&self, parent_pid: u32) {
         info!("Starting parent process monitor for PID: {}", parent_pid);
 
-        tokio::spawn(async move {
+        std::thread::spawn(move || {
             let check_interval = Duration::from_secs(5);
 
             loop {
-                sleep(check_interval).await;
+                std::thread::sleep(check_interval);
 
                 if !is_process_alive(parent_pid) {
                     warn!(
@@ -847,7 +851,7 @@ impl RubyLanguageServer {
                         parent_pid
                     );
                     // Give a moment for any pending operations to complete
-                    sleep(Duration::from_millis(100)).await;
+                    std::thread::sleep(Duration::from_millis(100));
                     exit(0);
                 }
             }
-- 
2.43.0


From 901b742daed9d702a676fa9f5a4782151c9ae240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 24/34] fix: exit when the editor hangs up while handlers wait
 for its answers

---
 src/main.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 18d364a..f351fa4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,6 +2,7 @@ use ruby_fast_lsp::check::{render_report, CheckOutputFormat, CheckSession};
 use ruby_fast_lsp::server::RubyLanguageServer;
 use std::path::PathBuf;
 use std::process::exit;
+use std::time::Duration;
 
 use anyhow::{anyhow, Result};
 use log::{error, info};
@@ -11,6 +12,12 @@ use tower_lsp::{LspService, Server};
 #[global_allocator]
 static GLOBAL_ALLOCATOR: tikv_jemallocator::Jemalloc = tikv_jemallocator::Jemalloc;
 
+/// How much input may wait for the server to read it.
+const INPUT_BUFFER_BYTES: usize = 64 * 1024;
+
+/// How long handlers may go on after the editor has closed the connection.
+const DISCONNECTED_HANDLER_GRACE: Duration = Duration::from_secs(10);
+
 #[tokio::main]
 async fn main() -> Result<()> {
     if let Some(exit_code) = run_cli_command_if_requested().await? {
@@ -41,7 +48,12 @@ async fn main() -> Result<()> {
 
     info!("Starting Ruby Fast LSP server");
 
-    let stdin = tokio::io::stdin();
+    // Read standard input on behalf of the server so that its end is noticed even when the
+    // server itself has stopped reading.
+    let (stdin, mut input) = tokio::io::duplex(INPUT_BUFFER_BYTES);
+    let input_ended = tokio::spawn(async move {
+        let _ = tokio::io::copy(&mut tokio::io::stdin(), &mut input).await;
+    });
     let stdout = tokio::io::stdout();
 
     let (service, socket) = LspService::build(|client| {
@@ -97,15 +109,23 @@ async fn main() -> Result<()> {
 
     info!("Ruby LSP server initialized, waiting for client connections");
 
-    Server::new(stdin, stdout, socket)
+    let serving = Server::new(stdin, stdout, socket)
         // tower-lsp defaults to 4 concurrent request handlers. Completed handlers
         // that are waiting on a backpressured stdout response slot still occupy
         // those slots, so a small limit turns client IO stalls into multi-second
         // goto/hover delays. Keep CPU-heavy work off the reactor; this only
         // bounds how many LSP futures may be in flight.
         .concurrency_level(64)
-        .serve(service)
-        .await;
+        .serve(service);
+
+    tokio::select! {
+        () = serving => {}
+        // A handler that still awaits an answer of the editor will never get it now.
+        () = async {
+            let _ = input_ended.await;
+            tokio::time::sleep(DISCONNECTED_HANDLER_GRACE).await;
+        } => info!("Connection closed; abandoning unfinished handlers"),
+    }
 
     Ok(())
 }
-- 
2.43.0


From d4bd4cd9350a8b19db8f86fba87422a93b19ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 25/34] fix: feed a tool its input while reading its output,
 within the time limit

---
 src/linter.rs | 64 +++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/linter.rs b/src/linter.rs
index b4508c4..fc936cb 100644
--- a/src/linter.rs
+++ b/src/linter.rs
@@ -2,10 +2,10 @@ use crate::config::{FormatterKind, LinterKind, RubyFastLspConfig};
 use anyhow::{anyhow, Context, Result};
 use serde::Deserialize;
 use std::path::Path;
-use std::process::Stdio;
+use std::process::{Output, Stdio};
 use std::time::Duration;
 use tokio::io::AsyncWriteExt;
-use tokio::process::Command;
+use tokio::process::{Child, Command};
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, NumberOrString, Position, Range};
 
 use crate::indexing_resources::{
@@ -90,7 +90,7 @@ async fn lint_document_admitted(
         .stderr(Stdio::piped())
         .kill_on_drop(true);
 
-    let mut child = command.spawn().with_context(|| {
+    let child = command.spawn().with_context(|| {
         format!(
             "failed to start {} linter command `{}` in {}",
             config.linter.data_name().unwrap_or("configured"),
@@ -98,18 +98,7 @@ async fn lint_document_admitted(
             workspace_root.display()
         )
     })?;
-    let mut stdin = child.stdin.take().expect(
-        "INVARIANT VIOLATED: spawned linter has no piped stdin. \
-         This is a bug because the command is always configured with Stdio::piped(). \
-         Fix: keep stdin piped before taking the child handle.",
-    );
-    stdin
-        .write_all(content.as_bytes())
-        .await
-        .context("failed to write Ruby source to linter stdin")?;
-    drop(stdin);
-
-    let output = tokio::time::timeout(timeout, child.wait_with_output())
+    let output = tokio::time::timeout(timeout, exchange(child, content, "linter"))
         .await
         .map_err(|_| {
             anyhow!(
@@ -118,8 +107,7 @@ async fn lint_document_admitted(
                 timeout.as_millis(),
                 file_path.display()
             )
-        })?
-        .context("failed while waiting for linter process")?;
+        })??;
 
     let exit_code = output.status.code();
     if !matches!(exit_code, Some(0) | Some(1)) {
@@ -271,7 +259,7 @@ async fn run_correction(
         "INVARIANT VIOLATED: correction command argv is empty after resolution. This is a bug because enabled tools must always resolve to a program. Fix: preserve default commands or validate configured argv before execution.",
     );
     let stdin_path = file_path.strip_prefix(workspace_root).unwrap_or(file_path);
-    let mut child = Command::new(program)
+    let child = Command::new(program)
         .args(initial_args)
         .args([fix_flag, "--stderr", "--force-exclusion", "--stdin"])
         .arg(stdin_path)
@@ -289,18 +277,7 @@ async fn run_correction(
                 workspace_root.display()
             )
         })?;
-    let mut stdin = child.stdin.take().expect(
-        "INVARIANT VIOLATED: spawned linter fix has no piped stdin. \
-         This is a bug because the command is always configured with Stdio::piped(). \
-         Fix: keep stdin piped before taking the child handle.",
-    );
-    stdin
-        .write_all(content.as_bytes())
-        .await
-        .context("failed to write Ruby source to safe linter fix stdin")?;
-    drop(stdin);
-
-    let output = tokio::time::timeout(timeout, child.wait_with_output())
+    let output = tokio::time::timeout(timeout, exchange(child, content, "safe linter fix"))
         .await
         .map_err(|_| {
             anyhow!(
@@ -309,8 +286,7 @@ async fn run_correction(
                 timeout.as_millis(),
                 file_path.display()
             )
-        })?
-        .context("failed while waiting for safe linter fix process")?;
+        })??;
     if !matches!(output.status.code(), Some(0) | Some(1)) {
         return Err(anyhow!(
             "safe {} fix failed for {} with exit status {:?}: {}",
@@ -331,6 +307,30 @@ async fn run_correction(
     Ok(fixed)
 }
 
+/// Give the tool its input while collecting its output: a tool may write before it has read
+/// everything, and one that stops reading must run into the caller's time limit.
+async fn exchange(mut child: Child, content: &str, tool: &str) -> Result<Output> {
+    let mut stdin = child.stdin.take().expect(
+        "INVARIANT VIOLATED: spawned editor tool has no piped stdin. \
+         This is a bug because the command is always configured with Stdio::piped(). \
+         Fix: keep stdin piped before taking the child handle.",
+    );
+    let write = async move {
+        stdin
+            .write_all(content.as_bytes())
+            .await
+            .with_context(|| format!("failed to write Ruby source to {tool} stdin"))
+    };
+    let wait = async {
+        child
+            .wait_with_output()
+            .await
+            .with_context(|| format!("failed while waiting for {tool} process"))
+    };
+    let ((), output) = tokio::try_join!(write, wait)?;
+    Ok(output)
+}
+
 fn editor_tool_work_spec(workspace_root: &Path) -> IndexingWorkSpec {
     IndexingWorkSpec::new(
         Some(workspace_root.to_path_buf()),
-- 
2.43.0


From f19b831414326a982b17de10139939fc8d772503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 26/34] fix: a project without locked gems has no priority gem
 archives

---
 src/indexer/indexer_gem.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/indexer/indexer_gem.rs b/src/indexer/indexer_gem.rs
index 727f039..f9a588e 100644
--- a/src/indexer/indexer_gem.rs
+++ b/src/indexer/indexer_gem.rs
@@ -1664,13 +1664,6 @@ impl IndexerGem {
              bug because an empty navigation frontier cannot select bounded work. Fix: skip the \
              priority phase when the active document exposes no constant roots."
         );
-        assert!(
-            !self.locked_gems.is_empty(),
-            "INVARIANT VIOLATED: priority vendor-archive discovery started before lockfile \
-             identities were loaded. This is a bug because source selection must use the exact \
-             owning-project lock identity. Fix: load and select Gemfile.lock identities before \
-             scheduling priority archive work."
-        );
         self.discover_cached_gem_archives_matching(Some(priority_keys))
     }
 
-- 
2.43.0


From 64319d56fea34b5fd3eea653e011f67454613eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 27/34] fix: skip unreadable gem and standard library files

---
 src/indexer/indexer_gem.rs    | 21 ++++++++++++++++++---
 src/indexer/indexer_stdlib.rs | 20 ++++++++++++++++----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/indexer/indexer_gem.rs b/src/indexer/indexer_gem.rs
index f9a588e..9212bff 100644
--- a/src/indexer/indexer_gem.rs
+++ b/src/indexer/indexer_gem.rs
@@ -890,6 +890,7 @@ impl IndexerGem {
             gem_info.name, gem_info.version, gem_info.platform, gem_info.source
         );
         let mut sources = Vec::new();
+        let mut unreadable = None;
         for (lib_index, lib_path) in gem_info.lib_paths.iter().enumerate() {
             if !lib_path.is_dir() {
                 continue;
@@ -913,9 +914,18 @@ impl IndexerGem {
                     lib_index,
                     normalized_relative_path(relative)?
                 );
-                let content = std::fs::read_to_string(&file_path).with_context(|| {
-                    format!("failed to read gem dependency {}", file_path.display())
-                })?;
+                let content = match std::fs::read_to_string(&file_path) {
+                    Ok(content) => content,
+                    Err(error) => {
+                        // One unreadable file must not hide the rest of the gem.
+                        warn!(
+                            "Skipping unreadable gem dependency {}: {error}",
+                            file_path.display()
+                        );
+                        unreadable.get_or_insert((file_path, error));
+                        continue;
+                    }
+                };
                 sources.push(GemDependencySource::new(
                     0,
                     logical_path,
@@ -926,6 +936,11 @@ impl IndexerGem {
                 )?);
             }
         }
+        if let (true, Some((file_path, error))) = (sources.is_empty(), unreadable) {
+            return Err(error).with_context(|| {
+                format!("failed to read gem dependency {}", file_path.display())
+            });
+        }
         if sources.is_empty() {
             return Ok(None);
         }
diff --git a/src/indexer/indexer_stdlib.rs b/src/indexer/indexer_stdlib.rs
index 774b891..5b480f3 100644
--- a/src/indexer/indexer_stdlib.rs
+++ b/src/indexer/indexer_stdlib.rs
@@ -707,17 +707,29 @@ impl IndexerStdlib {
         let sources = files
             .par_iter()
             .map(|path| {
-                let content = std::fs::read_to_string(path)
-                    .with_context(|| format!("failed to read runtime stdlib {}", path.display()))?;
+                let content = match std::fs::read_to_string(path) {
+                    Ok(content) => content,
+                    Err(error) => {
+                        warn!(
+                            "Skipping unreadable runtime stdlib file {}: {}",
+                            path.display(),
+                            error
+                        );
+                        return Ok(None);
+                    }
+                };
                 let uri = Url::from_file_path(path).map_err(|()| {
                     anyhow::anyhow!(
                         "runtime stdlib path is not a valid file URI: {}",
                         path.display()
                     )
                 })?;
-                Ok((path.clone(), uri, content))
+                Ok(Some((path.clone(), uri, content)))
             })
-            .collect::<Result<Vec<_>>>()?;
+            .collect::<Result<Vec<_>>>()?
+            .into_iter()
+            .flatten()
+            .collect::<Vec<_>>();
 
         {
             let mut engine = analysis_engine.write();
-- 
2.43.0


From eb560660aa2031c871ee823513edd0f9a6ef9d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 28/34] fix: publish despite temporary files of an earlier
 process with the same id

---
 src/persistent_cache.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/persistent_cache.rs b/src/persistent_cache.rs
index 40523ad..1d7e79d 100644
--- a/src/persistent_cache.rs
+++ b/src/persistent_cache.rs
@@ -743,12 +743,6 @@ impl PersistentDerivedProductReservation {
         std::fs::create_dir_all(parent).with_context(|| {
             format!("creating persistent product directory {}", parent.display())
         })?;
-        let temp_path = parent.join(format!(
-            ".{}.{}.{}.tmp",
-            self.cache_id,
-            std::process::id(),
-            TEMP_SEQUENCE.fetch_add(1, Ordering::Relaxed)
-        ));
         let mut options = OpenOptions::new();
         options.write(true).create_new(true);
         #[cfg(unix)]
@@ -756,9 +750,25 @@ impl PersistentDerivedProductReservation {
             use std::os::unix::fs::OpenOptionsExt;
             options.mode(0o600);
         }
-        let mut temp = options.open(&temp_path).with_context(|| {
-            format!("creating atomic persistent product {}", temp_path.display())
-        })?;
+        // A process which died while publishing may have had this process id and
+        // left its temporary file behind; such a name is never used again.
+        let (temp_path, mut temp) = loop {
+            let temp_path = parent.join(format!(
+                ".{}.{}.{}.tmp",
+                self.cache_id,
+                std::process::id(),
+                TEMP_SEQUENCE.fetch_add(1, Ordering::Relaxed)
+            ));
+            match options.open(&temp_path) {
+                Ok(temp) => break (temp_path, temp),
+                Err(error) if error.kind() == std::io::ErrorKind::AlreadyExists => continue,
+                Err(error) => {
+                    return Err(error).with_context(|| {
+                        format!("creating atomic persistent product {}", temp_path.display())
+                    })
+                }
+            }
+        };
         let write_result = (|| -> Result<()> {
             temp.write_all(&encoded)
                 .with_context(|| format!("writing persistent product {}", temp_path.display()))?;
-- 
2.43.0


From 00d25d19653e069256ab4fd9c5a4a8192563b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 29/34] fix: no panic on require and gem lines with non-ASCII
 text before the quote

---
 src/indexer/indexer_project.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indexer/indexer_project.rs b/src/indexer/indexer_project.rs
index 532e699..03c2e02 100644
--- a/src/indexer/indexer_project.rs
+++ b/src/indexer/indexer_project.rs
@@ -1468,7 +1468,7 @@ impl IndexerProject {
         if line.starts_with("require ") || line.starts_with("require_relative ") {
             // Find the quoted string
             if let Some(start) = line.find('"').or_else(|| line.find('\'')) {
-                let quote_char = line.chars().nth(start).unwrap();
+                let quote_char = if line[start..].starts_with('"') { '"' } else { '\'' };
                 if let Some(end) = line[start + 1..].find(quote_char) {
                     let module_name = &line[start + 1..start + 1 + end];
                     return Some(module_name.to_string());
@@ -1558,7 +1558,7 @@ impl IndexerProject {
         if line.starts_with("gem ") {
             // Find the quoted gem name
             if let Some(start) = line.find('"').or_else(|| line.find('\'')) {
-                let quote_char = line.chars().nth(start).unwrap();
+                let quote_char = if line[start..].starts_with('"') { '"' } else { '\'' };
                 if let Some(end) = line[start + 1..].find(quote_char) {
                     let gem_name = &line[start + 1..start + 1 + end];
                     return Some(gem_name.to_string());
-- 
2.43.0


From 8362fd080b509f04d98e33df45509866617ceb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 30/34] fix: keep variable write traversal balanced for
 malformed variable names

---
 .../class_variable_write_node.rs              | 23 +++++++++++--------
 .../global_variable_write_node.rs             |  9 ++++++--
 .../instance_variable_write_node.rs           | 23 +++++++++++--------
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs
index 1b594cf..048503e 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/class_variable_write_node.rs
@@ -18,14 +18,28 @@ impl FactCollector {
     ) {
         let variable_name = String::from_utf8_lossy(name).to_string();
 
+        let owner = FullyQualifiedName::namespace_with_kind(
+            self.scope_tracker.get_ns_stack(),
+            self.scope_tracker.current_method_context(),
+        );
+        let subject = TypeSubject::ClassVariable {
+            owner,
+            name: variable_name.clone(),
+        };
+        let range = self.document.prism_location_to_text_range(&name_loc);
+
         // Validate class variable name
         if !variable_name.starts_with("@@") {
             error!("Class variable name must start with @@: {}", variable_name);
+            // The exit callback finishes this write as well.
+            self.begin_nonlocal_write(subject, range);
             return;
         }
 
         if variable_name.len() < 3 {
             error!("Class variable name too short: {}", variable_name);
+            // The exit callback finishes this write as well.
+            self.begin_nonlocal_write(subject, range);
             return;
         }
         if let Ok(fqn) = FullyQualifiedName::class_variable(variable_name.clone()) {
@@ -38,15 +52,6 @@ impl FactCollector {
         } else {
             RubyType::Unknown
         };
-        let owner = FullyQualifiedName::namespace_with_kind(
-            self.scope_tracker.get_ns_stack(),
-            self.scope_tracker.current_method_context(),
-        );
-        let subject = TypeSubject::ClassVariable {
-            owner,
-            name: variable_name.clone(),
-        };
-        let range = self.document.prism_location_to_text_range(&name_loc);
         self.direct_push_assignment_type(subject.clone(), inferred_type.clone(), &name_loc);
 
         self.type_store.add(TypeFact::new(
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs
index 375961e..e55319a 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/global_variable_write_node.rs
@@ -19,14 +19,21 @@ impl FactCollector {
         let variable_name = String::from_utf8_lossy(name).to_string();
         trace!("Processing global variable: {}", variable_name);
 
+        let subject = TypeSubject::GlobalVariable(variable_name.clone());
+        let range = self.document.prism_location_to_text_range(&name_loc);
+
         // Validate global variable name
         if !variable_name.starts_with('$') {
             error!("Global variable name must start with $: {}", variable_name);
+            // The exit callback finishes this write as well.
+            self.begin_nonlocal_write(subject, range);
             return;
         }
 
         if variable_name.len() < 2 {
             error!("Global variable name too short: {}", variable_name);
+            // The exit callback finishes this write as well.
+            self.begin_nonlocal_write(subject, range);
             return;
         }
         if let Ok(fqn) = FullyQualifiedName::global_variable(variable_name.clone()) {
@@ -39,8 +46,6 @@ impl FactCollector {
         } else {
             RubyType::Unknown
         };
-        let subject = TypeSubject::GlobalVariable(variable_name.clone());
-        let range = self.document.prism_location_to_text_range(&name_loc);
         self.direct_push_assignment_type(subject.clone(), inferred_type.clone(), &name_loc);
 
         self.type_store.add(TypeFact::new(
diff --git a/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs b/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs
index 1388364..0e29102 100644
--- a/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs
+++ b/crates/ruby-analysis/src/indexer/fact_collector/instance_variable_write_node.rs
@@ -19,17 +19,31 @@ impl FactCollector {
         let variable_name = String::from_utf8_lossy(name).to_string();
         trace!("Processing instance variable: {}", variable_name);
 
+        let owner = FullyQualifiedName::namespace_with_kind(
+            self.scope_tracker.get_ns_stack(),
+            self.scope_tracker.current_method_context(),
+        );
+        let subject = TypeSubject::InstanceVariable {
+            owner,
+            name: variable_name.clone(),
+        };
+        let range = self.document.prism_location_to_text_range(&name_loc);
+
         // Validate instance variable name
         if !variable_name.starts_with('@') {
             error!(
                 "Instance variable name must start with @: {}",
                 variable_name
             );
+            // The exit callback finishes this write as well.
+            self.begin_nonlocal_write(subject, range);
             return;
         }
 
         if variable_name.len() < 2 {
             error!("Instance variable name too short: {}", variable_name);
+            // The exit callback finishes this write as well.
+            self.begin_nonlocal_write(subject, range);
             return;
         }
         if let Ok(fqn) = FullyQualifiedName::instance_variable(variable_name.clone()) {
@@ -42,15 +56,6 @@ impl FactCollector {
         } else {
             RubyType::Unknown
         };
-        let owner = FullyQualifiedName::namespace_with_kind(
-            self.scope_tracker.get_ns_stack(),
-            self.scope_tracker.current_method_context(),
-        );
-        let subject = TypeSubject::InstanceVariable {
-            owner,
-            name: variable_name.clone(),
-        };
-        let range = self.document.prism_location_to_text_range(&name_loc);
         self.direct_push_assignment_type(subject.clone(), inferred_type.clone(), &name_loc);
 
         self.type_store.add(TypeFact::new(
-- 
2.43.0


From 2b65955f8f030578f1eccc808387a471d366b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 31/34] fix: a cache entry count dropped during a publication
 must not let the cache exceed its limits

Rejecting a product resets the accounting. A publication completing before the next
scan then counted from nothing, so products already on disk were not counted and
nothing was evicted. Clearing likewise forgot a publication completing just before its
count was reset.
---
 src/persistent_cache.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/persistent_cache.rs b/src/persistent_cache.rs
index 1d7e79d..64fd013 100644
--- a/src/persistent_cache.rs
+++ b/src/persistent_cache.rs
@@ -468,13 +468,13 @@ impl PersistentDerivedProductCache {
                 });
             }
         }
-        FileExt::unlock(&maintenance_lock).context("unlocking persistent cache after clear")?;
         *self.inner.accounting.lock() = CacheAccounting {
             initialized: true,
             entries: 0,
             bytes: 0,
             publications_since_scan: 0,
         };
+        FileExt::unlock(&maintenance_lock).context("unlocking persistent cache after clear")?;
         Ok(PersistentCacheSummary {
             root: namespace,
             entries: before.len(),
@@ -575,7 +575,10 @@ impl PersistentDerivedProductCache {
             accounting.bytes = accounting.bytes.saturating_add(bytes);
             accounting.publications_since_scan =
                 accounting.publications_since_scan.saturating_add(1);
-            accounting.entries > self.inner.max_entries
+            // Accounting dropped while this product was being published knows nothing of the
+            // products already on disk; only a scan does.
+            !accounting.initialized
+                || accounting.entries > self.inner.max_entries
                 || accounting.bytes > self.inner.max_bytes
                 || accounting.publications_since_scan >= RESCAN_PUBLICATION_INTERVAL
         };
-- 
2.43.0


From 2fde6eeae4a0af7c8b8fb3f54447ce26cd449dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:00 +0000
Subject: [PATCH 32/34] fix: a definition that opened no scope must not close
 one

While a class, module or def is being typed, entering it may be refused (no valid name,
unsupported receiver). Its exit still popped the scope stacks, so requests on such a
document panicked and remained unanswered.
---
 .../indexer/identifier_visitor/class_node.rs   | 13 ++++++++-----
 .../src/indexer/identifier_visitor/def_node.rs | 10 ++++++----
 .../src/indexer/identifier_visitor/mod.rs      | 18 ++++++++++++------
 .../indexer/identifier_visitor/module_node.rs  | 13 ++++++++-----
 4 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
index a4dd6c2..07f1c57 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/class_node.rs
@@ -6,9 +6,10 @@ use crate::{analyzer_utils as utils, Identifier, LVScopeKind};
 use super::{IdentifierType, IdentifierVisitor};
 
 impl IdentifierVisitor {
-    pub fn process_class_node_entry(&mut self, node: &ClassNode) {
+    /// Whether a scope was entered; only then may the exit leave it.
+    pub fn process_class_node_entry(&mut self, node: &ClassNode) -> bool {
         if self.is_result_set() || !self.is_position_in_location(&node.location()) {
-            return;
+            return false;
         }
 
         let constant_path = node.constant_path();
@@ -42,17 +43,19 @@ impl IdentifierVisitor {
                 );
             }
 
-            return;
+            return false;
         }
 
         // Add the class name to the namespace stack
         if self
             .scope_tracker
             .push_namespace_from_constant_path(&constant_path, node.name().as_slice())
-            .is_ok()
+            .is_err()
         {
-            self.scope_tracker.push_scope_kind(LVScopeKind::Constant);
+            return false;
         }
+        self.scope_tracker.push_scope_kind(LVScopeKind::Constant);
+        true
     }
 
     pub fn process_class_node_exit(&mut self, node: &ClassNode) {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
index c1e335e..ea655c5 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/def_node.rs
@@ -7,9 +7,10 @@ use crate::{analyzer_utils as utils, Identifier, LVScopeKind, MethodReceiver};
 use super::{IdentifierType, IdentifierVisitor};
 
 impl IdentifierVisitor {
-    pub fn process_def_node_entry(&mut self, node: &DefNode) {
+    /// Whether a scope was entered; only then may the exit leave it.
+    pub fn process_def_node_entry(&mut self, node: &DefNode) -> bool {
         if self.is_result_set() || !self.is_position_in_location(&node.location()) {
-            return;
+            return false;
         }
 
         let (definition_namespace, namespace_kind) = match node.receiver() {
@@ -17,7 +18,7 @@ impl IdentifierVisitor {
             Some(receiver) if receiver.as_self_node().is_some() => {
                 let (namespace, receiver_kind) = self.scope_tracker.implicit_receiver_context();
                 if receiver_kind != NamespaceKind::Singleton {
-                    return;
+                    return false;
                 }
                 (namespace, NamespaceKind::Singleton)
             }
@@ -37,7 +38,7 @@ impl IdentifierVisitor {
 
         if method.is_err() {
             warn!("Invalid method name: {}", name);
-            return;
+            return false;
         }
 
         let method = method.unwrap();
@@ -79,6 +80,7 @@ impl IdentifierVisitor {
                 Some(0),
             );
         }
+        true
     }
 
     pub fn process_def_node_exit(&mut self, node: &DefNode) {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
index 496255c..a215e91 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/mod.rs
@@ -323,9 +323,11 @@ fn concern_class_methods_block_namespace(node: &CallNode) -> Option<Vec<RubyCons
 
 impl Visit<'_> for IdentifierVisitor {
     fn visit_class_node(&mut self, node: &ClassNode) {
-        self.process_class_node_entry(node);
+        let entered = self.process_class_node_entry(node);
         visit_class_node(self, node);
-        self.process_class_node_exit(node);
+        if entered {
+            self.process_class_node_exit(node);
+        }
     }
 
     fn visit_singleton_class_node(&mut self, node: &SingletonClassNode) {
@@ -335,15 +337,19 @@ impl Visit<'_> for IdentifierVisitor {
     }
 
     fn visit_module_node(&mut self, node: &ModuleNode) {
-        self.process_module_node_entry(node);
+        let entered = self.process_module_node_entry(node);
         visit_module_node(self, node);
-        self.process_module_node_exit(node);
+        if entered {
+            self.process_module_node_exit(node);
+        }
     }
 
     fn visit_def_node(&mut self, node: &DefNode) {
-        self.process_def_node_entry(node);
+        let entered = self.process_def_node_entry(node);
         visit_def_node(self, node);
-        self.process_def_node_exit(node);
+        if entered {
+            self.process_def_node_exit(node);
+        }
     }
 
     fn visit_alias_method_node(&mut self, node: &AliasMethodNode) {
diff --git a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
index 1009e0a..40aced5 100644
--- a/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
+++ b/crates/ruby-analysis/src/indexer/identifier_visitor/module_node.rs
@@ -6,9 +6,10 @@ use crate::{analyzer_utils as utils, Identifier, LVScopeKind};
 use super::{IdentifierType, IdentifierVisitor};
 
 impl IdentifierVisitor {
-    pub fn process_module_node_entry(&mut self, node: &ModuleNode) {
+    /// Whether a scope was entered; only then may the exit leave it.
+    pub fn process_module_node_entry(&mut self, node: &ModuleNode) -> bool {
         if self.is_result_set() || !self.is_position_in_location(&node.location()) {
-            return;
+            return false;
         }
 
         let constant_path = node.constant_path();
@@ -42,17 +43,19 @@ impl IdentifierVisitor {
                 );
             }
 
-            return;
+            return false;
         }
 
         // Add the module name to the namespace stack
         if self
             .scope_tracker
             .push_namespace_from_constant_path(&constant_path, node.name().as_slice())
-            .is_ok()
+            .is_err()
         {
-            self.scope_tracker.push_scope_kind(LVScopeKind::Constant);
+            return false;
         }
+        self.scope_tracker.push_scope_kind(LVScopeKind::Constant);
+        true
     }
 
     pub fn process_module_node_exit(&mut self, node: &ModuleNode) {
-- 
2.43.0


From f03db550bd66529379dca03ea16cf51676b2e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:00 +0000
Subject: [PATCH 33/34] fix: semantic tokens visited out of textual order must
 not underflow

Modifiers and incomplete code are visited in another order than written; the relative
position then underflowed: a panic, or garbage in release builds.
---
 .../src/indexer/semantic_tokens.rs            | 55 ++++++++++++-------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/crates/ruby-analysis/src/indexer/semantic_tokens.rs b/crates/ruby-analysis/src/indexer/semantic_tokens.rs
index 78ed038..eee6283 100644
--- a/crates/ruby-analysis/src/indexer/semantic_tokens.rs
+++ b/crates/ruby-analysis/src/indexer/semantic_tokens.rs
@@ -162,7 +162,8 @@ pub static TOKEN_MODIFIERS_MAP: LazyLock<HashMap<SemanticTokenModifier, usize>>
 pub struct TokenVisitor<'a> {
     document: &'a RubyDocument,
     pub tokens: Vec<SemanticToken>,
-    current_position: (u32, u32),
+    /// Line and column at which each token starts, in order.
+    starts: Vec<(u32, u32)>,
 }
 
 impl<'a> TokenVisitor<'a> {
@@ -170,7 +171,7 @@ impl<'a> TokenVisitor<'a> {
         Self {
             document,
             tokens: Vec::new(),
-            current_position: (0, 0),
+            starts: Vec::new(),
         }
     }
 
@@ -187,13 +188,6 @@ impl<'a> TokenVisitor<'a> {
         let start_pos = self.document.offset_to_position(location.start_offset());
         let end_pos = self.document.offset_to_position(location.end_offset());
 
-        let delta_line = start_pos.line - self.current_position.0;
-        let delta_column = if delta_line == 0 {
-            start_pos.character - self.current_position.1
-        } else {
-            start_pos.character
-        };
-
         // Calculate token length in UTF-16 code units
         let length = if start_pos.line == end_pos.line {
             // If on the same line, just subtract character positions
@@ -219,17 +213,40 @@ impl<'a> TokenVisitor<'a> {
             end_pos.character
         );
 
-        // Add token to the list
-        self.tokens.push(SemanticToken {
-            delta_line,
-            delta_start: delta_column,
-            length,
-            token_type: token_type_index,
-            token_modifiers_bitset: modifiers_bitset,
-        });
+        // Tokens are encoded relative to the one before them in the text, but the syntax tree
+        // is not always visited in that order (modifiers, incomplete code).
+        let start = (start_pos.line, start_pos.character);
+        let index = self.starts.partition_point(|other| *other <= start);
+        self.starts.insert(index, start);
+        self.tokens.insert(
+            index,
+            SemanticToken {
+                delta_line: 0,
+                delta_start: 0,
+                length,
+                token_type: token_type_index,
+                token_modifiers_bitset: modifiers_bitset,
+            },
+        );
+        self.encode_start(index);
+        if index + 1 < self.tokens.len() {
+            self.encode_start(index + 1);
+        }
+    }
 
-        // Update current position
-        self.current_position = (start_pos.line, start_pos.character);
+    fn encode_start(&mut self, index: usize) {
+        let (line, column) = self.starts[index];
+        let (previous_line, previous_column) = match index.checked_sub(1) {
+            Some(previous) => self.starts[previous],
+            None => (0, 0),
+        };
+        let token = &mut self.tokens[index];
+        token.delta_line = line - previous_line;
+        token.delta_start = if line == previous_line {
+            column - previous_column
+        } else {
+            column
+        };
     }
 
     fn token_type_to_index(&self, token_type: SemanticTokenType) -> u32 {
-- 
2.43.0


From 20aba33c81278eb4c905bd9d3a628305beb7b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:00 +0000
Subject: [PATCH 34/34] fix: a constant path without any name is not a constant
 reference

'X = ::' and the like, while being typed, violated the dependency invariant and panicked.
---
 crates/ruby-analysis/src/indexer/analyzer_utils.rs     | 4 ++++
 crates/ruby-analysis/src/indexer/scope_tracker.rs      | 4 ++++
 crates/ruby-analysis/src/inference/type_tracker/mod.rs | 7 ++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/ruby-analysis/src/indexer/analyzer_utils.rs b/crates/ruby-analysis/src/indexer/analyzer_utils.rs
index 413d153..f9991ce 100644
--- a/crates/ruby-analysis/src/indexer/analyzer_utils.rs
+++ b/crates/ruby-analysis/src/indexer/analyzer_utils.rs
@@ -56,6 +56,10 @@ pub fn mixin_ref_from_node(node: &Node) -> Option<MixinRef> {
     } else if let Some(n) = node.as_constant_path_node() {
         let mut parts = vec![];
         collect_namespaces(&n, &mut parts);
+        // a path still being typed may not contain a single name
+        if parts.is_empty() {
+            return None;
+        }
         let absolute = constant_path_is_absolute(&n);
         Some(MixinRef { parts, absolute })
     } else {
diff --git a/crates/ruby-analysis/src/indexer/scope_tracker.rs b/crates/ruby-analysis/src/indexer/scope_tracker.rs
index ee09e40..9162fa8 100644
--- a/crates/ruby-analysis/src/indexer/scope_tracker.rs
+++ b/crates/ruby-analysis/src/indexer/scope_tracker.rs
@@ -553,6 +553,10 @@ pub fn mixin_ref_from_node(node: &Node) -> Option<MixinRef> {
     if let Some(n) = node.as_constant_path_node() {
         let mut parts = Vec::new();
         collect_namespaces(&n, &mut parts);
+        // a path still being typed may not contain a single name
+        if parts.is_empty() {
+            return None;
+        }
         return Some(MixinRef {
             parts,
             absolute: constant_path_is_absolute(&n),
diff --git a/crates/ruby-analysis/src/inference/type_tracker/mod.rs b/crates/ruby-analysis/src/inference/type_tracker/mod.rs
index ab437c1..fad809c 100644
--- a/crates/ruby-analysis/src/inference/type_tracker/mod.rs
+++ b/crates/ruby-analysis/src/inference/type_tracker/mod.rs
@@ -4451,7 +4451,12 @@ impl<'a> TypeTracker<'a> {
         let constant_path = node.as_constant_path_node()?;
         let fqn = Self::resolve_constant_path(&constant_path)?;
         let absolute = Self::constant_path_is_absolute(&constant_path);
-        Some((fqn.namespace_parts(), absolute))
+        let parts = fqn.namespace_parts();
+        // a path still being typed may not contain a single name
+        if parts.is_empty() {
+            return None;
+        }
+        Some((parts, absolute))
     }
 
     fn constant_path_is_absolute(constant_path: &ConstantPathNode<'_>) -> bool {
-- 
2.43.0

