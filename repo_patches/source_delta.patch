From cf98c90db35571828f7b56f380e9f6d5d1c10d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 01/35] fix: a ref resolves to the attribute definition, not to
 a refined copy inherited through extends

An attribute inherited through 'extends' and overridden by a 'ref' was recorded
as a root definition. Whichever group came first in (non deterministic) file
order then decided what every other 'ref' to that attribute resolved to.
---
 crates/weaver_resolver/src/attribute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index 153fb3e..0fb720b 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -481,13 +481,18 @@ impl AttributeCatalog {
                         group_id: group_id.to_owned(),
                     },
                 };
+                // An `Id` spec the group's lineage knows about was inherited from
+                // another group (and possibly refined here). It must not compete
+                // with the definition it was inherited from, or which of the two a
+                // `ref` resolves to would depend on the order of the groups.
+                let is_inherited = lineage.is_some_and(|l| l.has_attribute(id));
                 let root_attr = AttributeWithSource {
                     attribute: attr.clone(),
                     source,
                     // An `Id` spec carrying an origin is an attribute inherited
                     // from a dependency through a refinement, not a definition
                     // this registry owns.
-                    is_definition: origin.is_none(),
+                    is_definition: origin.is_none() && !is_inherited,
                 };
                 let root_attr = match self.root_attributes.get(id) {
                     Some(existing) => resolve_conflict(id, root_attr, existing.clone())?,
-- 
2.43.0


From 02acda1f2869c89567a4d22b19abf7cabf960eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 02/35] fix: load registry files in path order so that
 resolution is deterministic

Files were used in file system enumeration / parallel completion order, which
decided between conflicting attribute definitions and which parse error was
reported.
---
 crates/weaver_resolver/src/loader.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index e8a3a72..c497cea 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -447,7 +447,7 @@ fn load_definition_repository(
     // Loads the semantic convention specifications from the git repo.
     // All yaml files are recursively loaded and parsed in parallel from
     // the given path.
-    let result = walkdir::WalkDir::new(local_path.clone())
+    let mut result = walkdir::WalkDir::new(local_path.clone())
         .follow_links(follow_symlinks)
         .into_iter()
         .filter_entry(|e| !is_hidden(e))
@@ -460,7 +460,7 @@ fn load_definition_repository(
                     }
 
                     // TODO - less confusing way to load semconv specs.
-                    vec![SemConvRegistry::semconv_spec_from_file(
+                    let spec = SemConvRegistry::semconv_spec_from_file(
                         registry_repo.schema_url().clone(),
                         entry.path(),
                         |path| {
@@ -478,16 +478,22 @@ fn load_definition_repository(
                                 format!("{registry_path_repr}/{relative_path}")
                             }
                         },
-                    )]
-                    .into_par_iter()
+                    );
+                    vec![(entry.into_path(), spec)].into_par_iter()
                 }
-                Err(e) => vec![WResult::FatalErr(weaver_semconv::Error::SemConvSpecError {
-                    error: e.to_string(),
-                })]
+                Err(e) => vec![(
+                    e.path().map(|p| p.to_path_buf()).unwrap_or_default(),
+                    WResult::FatalErr(weaver_semconv::Error::SemConvSpecError {
+                        error: e.to_string(),
+                    }),
+                )]
                 .into_par_iter(),
             }
         })
         .collect::<Vec<_>>();
+    // The files are enumerated in file system order and parsed in parallel. Order
+    // them by path, so that the same files always give the same result.
+    result.sort_by(|(l, _), (r, _)| l.cmp(r));
 
     let mut non_fatal_errors = vec![];
     let mut specs = vec![];
@@ -496,7 +502,7 @@ fn load_definition_repository(
     // The first fatal error will stop the processing and return the error.
     // Otherwise, all non-fatal errors will be collected and returned along
     // with the result.
-    for r in result {
+    for (_, r) in result {
         match r {
             WResult::Ok(t) => specs.push(t),
             WResult::OkWithNFEs(t, nfes) => {
-- 
2.43.0


From 0b9105828dff49d6445627bbe2842d805d0c9407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:49 +0000
Subject: [PATCH 03/35] fix: report a v2 refinement whose base is a signal of
 another type

---
 crates/weaver_resolver/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index ab2376f..4a1ffea 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -819,12 +819,15 @@ fn collect_included_group_attrs<'a>(
 /// Resolves a group's parent (`extends`) signal, applies the fields a V2
 /// refinement inherits from it, and returns the parent's attributes.
 /// `Ok(None)` — with a recoverable error recorded; `Err` is fatal.
+/// An invalid refinement goes to `fatal_errors`, because the group is resolved
+/// anyway and `errors` only lives for the current iteration.
 fn resolve_refinement_parent(
     group: &mut UnresolvedGroup,
     extends: &str,
     group_index: &HashMap<String, GroupSummary>,
     dependencies: &[ResolvedDependency],
     errors: &mut Vec<Error>,
+    fatal_errors: &mut Vec<Error>,
 ) -> Result<Option<Vec<UnresolvedAttribute>>, Error> {
     let parent =
         match lookup_group_with_dependencies(dependencies, group_index, extends, &group.group.id) {
@@ -852,7 +855,7 @@ fn resolve_refinement_parent(
         lineage.extends(extends, parent.r#type.clone());
     }
     if group.is_v2 {
-        inherit_v2_refinement_fields(group, extends, &parent, errors);
+        inherit_v2_refinement_fields(group, extends, &parent, fatal_errors);
     }
     Ok(Some(parent.attributes))
 }
@@ -959,6 +962,7 @@ fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error
                     &group_index,
                     dependencies,
                     &mut errors,
+                    &mut fatal_errors,
                 )? {
                     Some(parent_attrs) => {
                         if unresolved_group.is_v2
-- 
2.43.0


From 440ff5ba309166a7f404537b2191226938a635fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 04/35] fix: report the non-fatal errors found while resolving
 dependencies

---
 crates/weaver_resolver/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/weaver_resolver/src/lib.rs b/crates/weaver_resolver/src/lib.rs
index 8b4451b..3b22a1b 100644
--- a/crates/weaver_resolver/src/lib.rs
+++ b/crates/weaver_resolver/src/lib.rs
@@ -447,6 +447,7 @@ impl WeaverResolver {
             versions: None,
             registry_manifest: manifest,
         })
+        .extend_non_fatal_errors(non_fatal_errors)
     }
 
     /// Resolves an already loaded semantic convention repository, executing graph deduplication
-- 
2.43.0


From f8f76dd86bfb4ae89209b2092f16b0d6c6a6a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:19 +0000
Subject: [PATCH 05/35] fix: load a registry whose folder is given as '.' or
 starts with a dot

---
 crates/weaver_resolver/src/loader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index c497cea..2dc14f3 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -450,7 +450,8 @@ fn load_definition_repository(
     let mut result = walkdir::WalkDir::new(local_path.clone())
         .follow_links(follow_symlinks)
         .into_iter()
-        .filter_entry(|e| !is_hidden(e))
+        // Only what is inside the registry can be hidden, not the registry itself (e.g. `.`).
+        .filter_entry(|e| e.depth() == 0 || !is_hidden(e))
         .par_bridge()
         .flat_map(|entry| {
             match entry {
-- 
2.43.0


From 69f4479cb06aec1bda3ee77e78021da0737bc871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:19 +0000
Subject: [PATCH 06/35] fix: the same dependency version never conflicts with
 itself

---
 crates/weaver_resolver/src/conflict_strategy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/weaver_resolver/src/conflict_strategy.rs b/crates/weaver_resolver/src/conflict_strategy.rs
index ce30fa0..e640dcb 100644
--- a/crates/weaver_resolver/src/conflict_strategy.rs
+++ b/crates/weaver_resolver/src/conflict_strategy.rs
@@ -25,6 +25,10 @@ pub(crate) struct UseLatestMajorVersion;
 
 impl DependencyVersionConflictStrategy for UseLatestMajorVersion {
     fn resolve_conflict(&self, url1: &SchemaUrl, url2: &SchemaUrl) -> Result<SchemaUrl, Error> {
+        // The same version does not conflict with itself, even if it isn't a semantic version.
+        if url1 == url2 {
+            return Ok(url1.clone());
+        }
         if url1.name() != url2.name() {
             return Err(Error::AmbiguousReference {
                 r#ref: format!("registry mismatch: {} vs {}", url1.name(), url2.name()),
-- 
2.43.0


From 613b927449a0cf3775ae062ca04d71b75df8d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 07/35] fix: the resolver cache never changes what a registry
 resolves to

---
 crates/weaver_resolver/src/lib.rs    | 58 +++++++++++++-----
 crates/weaver_resolver/src/loader.rs | 89 +++++++++++++++++++++-------
 2 files changed, 110 insertions(+), 37 deletions(-)

diff --git a/crates/weaver_resolver/src/lib.rs b/crates/weaver_resolver/src/lib.rs
index 3b22a1b..aeeffac 100644
--- a/crates/weaver_resolver/src/lib.rs
+++ b/crates/weaver_resolver/src/lib.rs
@@ -137,6 +137,10 @@ pub struct WeaverResolver {
     /// Bounded LRU cache mapping exact SchemaUrls to reference-counted resolved schema bundles.
     cache: LruCache<SchemaUrl, Arc<WeaverResolvedSchema>>,
 
+    /// Every schema that takes part in the resolution in progress. Unlike the cache, it never
+    /// evicts a schema that is still needed and holds none that is unrelated.
+    in_use: LruCache<SchemaUrl, Arc<WeaverResolvedSchema>>,
+
     /// Internal engine configuration.
     config: WeaverResolverConfig,
 }
@@ -147,6 +151,7 @@ impl WeaverResolver {
     pub fn new(config: WeaverResolverConfig) -> Self {
         Self {
             cache: LruCache::new(config.cache_capacity),
+            in_use: LruCache::unbounded(),
             config,
         }
     }
@@ -179,6 +184,31 @@ impl WeaverResolver {
         )
     }
 
+    /// Keeps the schemas that `loaded` took from the cache until the end of the resolution.
+    fn retain_pre_resolved(&mut self, loaded: &LoadedSemconvRegistry) {
+        let schema_url = match loaded {
+            LoadedSemconvRegistry::Unresolved { dependencies, .. } => {
+                for d in dependencies {
+                    self.retain_pre_resolved(d);
+                }
+                return;
+            }
+            LoadedSemconvRegistry::Resolved(s) => SchemaUrl::try_from(s.schema_url.as_str()).ok(),
+            LoadedSemconvRegistry::ResolvedV2(s) => Some(s.schema_url.clone()),
+        };
+        if let Some(url) = schema_url {
+            _ = loader::collect_pre_resolved(&self.cache, &url, u32::MAX, &mut self.in_use);
+        }
+    }
+
+    /// Adds a resolved schema to the cache.
+    fn store(&mut self, arc: &Arc<WeaverResolvedSchema>) {
+        if let Ok(url) = SchemaUrl::try_from(arc.schema_url_str()) {
+            _ = self.in_use.put(url.clone(), arc.clone());
+            _ = self.cache.put(url, arc.clone());
+        }
+    }
+
     /// Dynamically resolves a LoadedSemconvRegistry dependency, serving pre-resolved schemas from cache if available.
     fn resolve_dependency(
         &mut self,
@@ -204,7 +234,8 @@ impl WeaverResolver {
             LoadedSemconvRegistry::ResolvedV2(s) => s.schema_url.clone(),
         };
 
-        if let Some(cached) = self.cache.get(&schema_url) {
+        if let Some(cached) = self.in_use.get(&schema_url) {
+            _ = self.cache.promote(&schema_url);
             match &**cached {
                 WeaverResolvedSchema::V1(s) => return WResult::Ok(s.clone().into()),
                 WeaverResolvedSchema::V2(s) => return WResult::Ok(s.clone().into()),
@@ -230,6 +261,7 @@ impl WeaverResolver {
         } else {
             loaded
         };
+        self.retain_pre_resolved(&loaded);
 
         match self.resolve_loaded(loaded) {
             WResult::Ok(arc) => match &*arc {
@@ -422,7 +454,7 @@ impl WeaverResolver {
         }
         let lookup_ctx = SchemaLookupContext {
             chosen_versions,
-            cache: &self.cache,
+            cache: &self.in_use,
         };
 
         let include_unreferenced = self.config.include_unreferenced;
@@ -467,16 +499,12 @@ impl WeaverResolver {
                 match res {
                     WResult::Ok(resolved) => {
                         let arc = Arc::new(WeaverResolvedSchema::V1(resolved));
-                        if let Ok(url) = SchemaUrl::try_from(arc.schema_url_str()) {
-                            _ = self.cache.put(url, arc.clone());
-                        }
+                        self.store(&arc);
                         WResult::Ok(arc)
                     }
                     WResult::OkWithNFEs(resolved, nfes) => {
                         let arc = Arc::new(WeaverResolvedSchema::V1(resolved));
-                        if let Ok(url) = SchemaUrl::try_from(arc.schema_url_str()) {
-                            _ = self.cache.put(url, arc.clone());
-                        }
+                        self.store(&arc);
                         WResult::OkWithNFEs(arc, nfes)
                     }
                     WResult::FatalErr(e) => WResult::FatalErr(e),
@@ -484,16 +512,12 @@ impl WeaverResolver {
             }
             LoadedSemconvRegistry::Resolved(schema) => {
                 let arc = Arc::new(WeaverResolvedSchema::V1(schema));
-                if let Ok(url) = SchemaUrl::try_from(arc.schema_url_str()) {
-                    _ = self.cache.put(url, arc.clone());
-                }
+                self.store(&arc);
                 WResult::Ok(arc)
             }
             LoadedSemconvRegistry::ResolvedV2(schema) => {
                 let arc = Arc::new(WeaverResolvedSchema::V2(schema));
-                if let Ok(url) = SchemaUrl::try_from(arc.schema_url_str()) {
-                    _ = self.cache.put(url, arc.clone());
-                }
+                self.store(&arc);
                 WResult::Ok(arc)
             }
         }
@@ -574,6 +598,7 @@ impl WeaverResolver {
         registry_repo: RegistryRepo,
         mut visitor: V,
     ) -> WResult<WeaverResolvedSchema, Error> {
+        self.in_use.clear();
         let (loaded, mut load_nfes) = match self.load_repository(registry_repo) {
             WResult::Ok(loaded) => (loaded, vec![]),
             WResult::OkWithNFEs(loaded, nfes) => (loaded, nfes),
@@ -584,7 +609,10 @@ impl WeaverResolver {
             return WResult::FatalErr(Error::LoadingAbortedByVisitor);
         }
 
-        match self.resolve_loaded(loaded) {
+        self.retain_pre_resolved(&loaded);
+        let resolved = self.resolve_loaded(loaded);
+        self.in_use.clear();
+        match resolved {
             WResult::Ok(arc) => {
                 let owned = Arc::unwrap_or_clone(arc);
                 if load_nfes.is_empty() {
diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index 2dc14f3..6cb277c 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -222,11 +222,51 @@ pub(crate) fn load_semconv_repository_with_cache(
     result
 }
 
-pub(crate) fn find_pre_resolved(
+/// Collects from the cache the schema of `schema_url` along with the schemas of all the
+/// dependencies it was resolved from.
+///
+/// Returns false if one of them is not in the cache, or is nested too deep. The schema must then
+/// be loaded again: a resolution may need to look up any of its dependencies.
+pub(crate) fn collect_pre_resolved(
     cache: &lru::LruCache<SchemaUrl, std::sync::Arc<crate::WeaverResolvedSchema>>,
     schema_url: &SchemaUrl,
-) -> Option<std::sync::Arc<crate::WeaverResolvedSchema>> {
-    cache.peek(schema_url).cloned()
+    max_dependency_depth: u32,
+    collected: &mut lru::LruCache<SchemaUrl, std::sync::Arc<crate::WeaverResolvedSchema>>,
+) -> bool {
+    if max_dependency_depth == 0 {
+        return false;
+    }
+    let Some(schema) = cache.peek(schema_url) else {
+        return false;
+    };
+    _ = collected.put(schema_url.clone(), schema.clone());
+    // The dependencies of a published (v2) schema are not loaded.
+    schema
+        .as_v1()
+        .and_then(|v1| v1.registry_manifest.as_ref())
+        .is_none_or(|manifest| {
+            manifest.dependencies().iter().all(|d| {
+                collect_pre_resolved(cache, &d.schema_url, max_dependency_depth - 1, collected)
+            })
+        })
+}
+
+/// Takes the dependencies of an already resolved schema into account in the choice of versions.
+fn register_resolved_dependencies(
+    dependencies: &std::collections::BTreeSet<SchemaUrl>,
+    chosen_versions: &mut std::collections::HashMap<String, SchemaUrl>,
+) -> Result<(), Error> {
+    for dep in dependencies {
+        let dep_name = dep.name().to_owned();
+        let chosen = match chosen_versions.get(&dep_name) {
+            Some(prev_schema_url) => {
+                UseLatestMajorVersion.resolve_conflict(prev_schema_url, dep)?
+            }
+            None => dep.clone(),
+        };
+        let _ = chosen_versions.insert(dep_name, chosen);
+    }
+    Ok(())
 }
 
 /// Recursively iterates over semconv dependencies and loads their definition.
@@ -282,13 +322,28 @@ fn load_semconv_repository_recursive(
 
     // Check for pre-resolved schema in cache.
     if let Some(cache) = cache {
-        if let Some(arc) = find_pre_resolved(cache, &schema_url) {
-            let loaded = match &*arc {
-                crate::WeaverResolvedSchema::V1(s) => LoadedSemconvRegistry::Resolved(s.clone()),
-                crate::WeaverResolvedSchema::V2(s) => LoadedSemconvRegistry::ResolvedV2(s.clone()),
+        let mut pre_resolved = lru::LruCache::unbounded();
+        let complete =
+            collect_pre_resolved(cache, &schema_url, max_dependency_depth, &mut pre_resolved);
+        // A cycle through a cached schema is reported below.
+        let circular = pre_resolved
+            .iter()
+            .any(|(url, _)| *url != schema_url && dependency_chain.iter().any(|n| n == url.name()));
+        if let (true, false, Some(arc)) = (complete, circular, pre_resolved.peek(&schema_url)) {
+            let (loaded, dependencies) = match &**arc {
+                crate::WeaverResolvedSchema::V1(s) => {
+                    (LoadedSemconvRegistry::Resolved(s.clone()), &s.dependencies)
+                }
+                crate::WeaverResolvedSchema::V2(s) => (
+                    LoadedSemconvRegistry::ResolvedV2(s.clone()),
+                    &s.dependencies,
+                ),
             };
             let _ = dependency_chain.pop();
-            return WResult::Ok(loaded);
+            return match register_resolved_dependencies(dependencies, chosen_versions) {
+                Ok(()) => WResult::Ok(loaded),
+                Err(e) => WResult::FatalErr(e),
+            };
         }
     }
 
@@ -301,20 +356,10 @@ fn load_semconv_repository_recursive(
             if let WResult::Ok(LoadedSemconvRegistry::ResolvedV2(ref schema))
             | WResult::OkWithNFEs(LoadedSemconvRegistry::ResolvedV2(ref schema), _) = res
             {
-                for dep in schema.dependencies.iter() {
-                    let dep_name = dep.name().to_owned();
-                    if let Some(prev_schema_url) = chosen_versions.get(&dep_name) {
-                        if prev_schema_url != dep {
-                            match UseLatestMajorVersion.resolve_conflict(prev_schema_url, dep) {
-                                Ok(chosen) => {
-                                    let _ = chosen_versions.insert(dep_name, chosen);
-                                }
-                                Err(e) => return WResult::FatalErr(e),
-                            }
-                        }
-                    } else {
-                        let _ = chosen_versions.insert(dep_name, dep.clone());
-                    }
+                if let Err(e) =
+                    register_resolved_dependencies(&schema.dependencies, chosen_versions)
+                {
+                    return WResult::FatalErr(e);
                 }
             }
             let _ = dependency_chain.pop();
-- 
2.43.0


From 717955b22ac8f12f77f7f1ec87a39ebfd68a239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:53 +0000
Subject: [PATCH 08/35] fix: report the non-fatal errors of a dependency loaded
 through a schema URL override

---
 crates/weaver_resolver/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_resolver/src/lib.rs b/crates/weaver_resolver/src/lib.rs
index aeeffac..6855ebf 100644
--- a/crates/weaver_resolver/src/lib.rs
+++ b/crates/weaver_resolver/src/lib.rs
@@ -242,6 +242,7 @@ impl WeaverResolver {
             }
         }
 
+        let mut load_nfes: Vec<Error> = vec![];
         let loaded = if let Some(override_path) = self.config.schema_url_overrides.get(&schema_url)
         {
             let mut nfes = vec![];
@@ -251,11 +252,17 @@ impl WeaverResolver {
                 &mut nfes,
                 &self.config.auth,
             ) {
-                Ok(repo) => match self.load_repository(repo) {
-                    WResult::Ok(l) => l,
-                    WResult::OkWithNFEs(l, _) => l,
-                    WResult::FatalErr(e) => return WResult::FatalErr(e),
-                },
+                Ok(repo) => {
+                    load_nfes.extend(nfes.into_iter().map(Error::FailToResolveDefinition));
+                    match self.load_repository(repo) {
+                        WResult::Ok(l) => l,
+                        WResult::OkWithNFEs(l, nfes) => {
+                            load_nfes.extend(nfes);
+                            l
+                        }
+                        WResult::FatalErr(e) => return WResult::FatalErr(e),
+                    }
+                }
                 Err(e) => return WResult::FatalErr(Error::FailToResolveDefinition(e)),
             }
         } else {
@@ -274,6 +281,7 @@ impl WeaverResolver {
             },
             WResult::FatalErr(e) => WResult::FatalErr(e),
         }
+        .extend_non_fatal_errors(load_nfes)
     }
 }
 
-- 
2.43.0


From bad7b006e468b2eb0fe1b6f66cd4349ed35aa8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 09/35] fix: list the changes between two schemas in a
 deterministic order

---
 crates/weaver_resolved_schema/src/lib.rs    | 15 ++++++++++++---
 crates/weaver_resolved_schema/src/v2/mod.rs |  6 +++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index a72318f..7fb6ddf 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -11,7 +11,7 @@ use crate::instrumentation_library::InstrumentationLibrary;
 use crate::registry::{Group, Registry};
 use crate::resource::Resource;
 use serde::Serialize;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use weaver_semconv::deprecated::Deprecated;
 use weaver_semconv::group::GroupType;
 use weaver_semconv::manifest::RegistryManifest;
@@ -368,8 +368,12 @@ impl ResolvedTelemetrySchema {
         baseline_schema: &ResolvedTelemetrySchema,
         changes: &mut SchemaChanges,
     ) {
-        let latest_attributes = self.registry_attribute_map();
-        let baseline_attributes = baseline_schema.registry_attribute_map();
+        // Sorted, so that the same schemas always give the same list of changes.
+        let latest_attributes: BTreeMap<_, _> = self.registry_attribute_map().into_iter().collect();
+        let baseline_attributes: BTreeMap<_, _> = baseline_schema
+            .registry_attribute_map()
+            .into_iter()
+            .collect();
 
         // ToDo for future PR, process differences at the field level (not required for the schema update)
 
@@ -456,6 +460,11 @@ impl ResolvedTelemetrySchema {
         baseline_signals: &HashMap<&str, &Group>,
         changes: &mut SchemaChanges,
     ) {
+        // Sorted, so that the same schemas always give the same list of changes.
+        let latest_signals: BTreeMap<_, _> = latest_signals.iter().map(|(k, v)| (*k, *v)).collect();
+        let baseline_signals: BTreeMap<_, _> =
+            baseline_signals.iter().map(|(k, v)| (*k, *v)).collect();
+
         // Collect all the information related to the signals that have been
         // deprecated in the latest schema.
         for (signal_name, group) in latest_signals.iter() {
diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index cb3e391..9b6f74e 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -1,6 +1,6 @@
 //! Version 2 of semantic convention schema.
 
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
@@ -809,6 +809,10 @@ fn diff_signals_by_hash<T: Signal>(
     latest: &HashMap<&str, &T>,
     baseline: &HashMap<&str, &T>,
 ) -> Vec<SchemaItemChange> {
+    // Sorted, so that the same schemas always give the same list of changes.
+    let latest: BTreeMap<_, _> = latest.iter().map(|(k, v)| (*k, *v)).collect();
+    let baseline: BTreeMap<_, _> = baseline.iter().map(|(k, v)| (*k, *v)).collect();
+
     let mut changes: Vec<SchemaItemChange> = Vec::new();
     for (&signal_id, latest_signal) in latest.iter() {
         let baseline_signal = baseline.get(signal_id);
-- 
2.43.0


From adf65d5e2b3dd73a6b8299988d9910223acf2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:36 +0000
Subject: [PATCH 10/35] fix: show entity and attribute group changes in the
 text diff reports

---
 defaults/diff_templates/ansi-stats/diff.txt.j2 | 4 +++-
 defaults/diff_templates/ansi/diff.txt.j2       | 2 +-
 defaults/diff_templates/markdown/diff.md.j2    | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/defaults/diff_templates/ansi-stats/diff.txt.j2 b/defaults/diff_templates/ansi-stats/diff.txt.j2
index fa5f772..0b636ea 100644
--- a/defaults/diff_templates/ansi-stats/diff.txt.j2
+++ b/defaults/diff_templates/ansi-stats/diff.txt.j2
@@ -1,8 +1,9 @@
 
 {{ ("Summary of Schema Changes between " ~ ctx.head.semconv_version ~ " and " ~ ctx.baseline.semconv_version) | ansi_red | ansi_bold }}
 
-{% set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] %}
+{% set item_types = ["registry_attributes", "attribute_groups", "metrics", "events", "spans", "resources", "entities"] %}
 {% for item_type in item_types %}
+{% if ctx.changes[item_type] is defined %}
 {% set added_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'added') | count %}
 {% set renamed_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'renamed') | count %}
 {% set obsoleted_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'obsoleted') | count %}
@@ -15,4 +16,5 @@
     Uncategorized : {{ uncategorized_count }}
     Removed       : {{ removed_count }}
     
+{% endif %}
 {% endfor %}
diff --git a/defaults/diff_templates/ansi/diff.txt.j2 b/defaults/diff_templates/ansi/diff.txt.j2
index 23ca056..e64fafd 100644
--- a/defaults/diff_templates/ansi/diff.txt.j2
+++ b/defaults/diff_templates/ansi/diff.txt.j2
@@ -1,4 +1,4 @@
-{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] %}
+{%- set item_types = ["registry_attributes", "attribute_groups", "metrics", "events", "spans", "resources", "entities"] %}
 
 {{ ("Schema Changes between `" ~ ctx.head.semconv_version ~ "` and `" ~ ctx.baseline.semconv_version ~ "`") | ansi_red | ansi_bold }}
 
diff --git a/defaults/diff_templates/markdown/diff.md.j2 b/defaults/diff_templates/markdown/diff.md.j2
index d2988ee..1bde6c1 100644
--- a/defaults/diff_templates/markdown/diff.md.j2
+++ b/defaults/diff_templates/markdown/diff.md.j2
@@ -1,4 +1,4 @@
-{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] -%}
+{%- set item_types = ["registry_attributes", "attribute_groups", "metrics", "events", "spans", "resources", "entities"] -%}
 # Summary of Schema Changes
 ## Registry versions
 Baseline: {{ ctx.baseline.semconv_version }}
-- 
2.43.0


From 34bd8ff1eec3eb490f7f8f5b60521d3d3934dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:10 +0000
Subject: [PATCH 11/35] fix: do not take a v2 refinement for the signal it
 refines when comparing v1 schemas

---
 crates/weaver_resolved_schema/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index 7fb6ddf..b4a7db1 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -289,6 +289,8 @@ impl ResolvedTelemetrySchema {
             .groups
             .iter()
             .filter(|group| group.r#type == group_type)
+            // A v2 refinement carries the name of the signal it refines.
+            .filter(|group| !group.is_v2_refinement())
             .filter_map(|g| g.signal_name().map(|name| (name, g)))
             .collect()
     }
-- 
2.43.0


From 652533d401034ce64cbb8fef0785ebf05b7736d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:56 +0000
Subject: [PATCH 12/35] fix: check exponential histogram data points for the
 attributes of their metric

---
 .../src/advice/type_advisor.rs                | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index f1836e3..7d241c0 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -699,6 +699,36 @@ impl Advisor for TypeAdvisor {
                     Ok(Vec::new())
                 }
             }
+            SampleRef::ExponentialHistogramDataPoint(sample_exponential_histogram_data_point) => {
+                if let Some(semconv_metric) = registry_group {
+                    let advice_list = match &*semconv_metric {
+                        VersionedSignal::Group(group) => check_attributes(
+                            &group.attributes,
+                            &sample_exponential_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Metric(metric) => check_attributes(
+                            &metric.attributes,
+                            &sample_exponential_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Span(_span) => vec![],
+                        VersionedSignal::Event(_event) => vec![],
+                    };
+
+                    // Emit each finding if emitter available
+                    emit_findings(
+                        &advice_list,
+                        &sample,
+                        otlp_emitter.as_deref(),
+                        parent_signal,
+                    );
+
+                    Ok(advice_list)
+                } else {
+                    Ok(Vec::new())
+                }
+            }
             SampleRef::Log(sample_log) => {
                 if let Some(semconv_event) = registry_group {
                     let advice_list = match &*semconv_event {
-- 
2.43.0


From 85e4eccc2710382121d7cf87211269431a3926df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:56 +0000
Subject: [PATCH 13/35] fix: keep the resource an OTLP message states for its
 own signals in live check

---
 src/registry/live_check.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 844a25d..17a1b04 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -388,17 +388,21 @@ pub(crate) fn command(
     };
 
     let mut samples = Vec::new();
+    let is_otlp_input = matches!(&input_source, InputSource::Otlp);
     let mut current_resource: Option<std::rc::Rc<SampleResource>> = None;
     for mut sample in ingester {
         // Track the most-recently-seen resource and attach it to signals that carry one.
         // This mirrors what the OTLP ingester does when building metrics/logs/spans from
-        // OTLP protocol buffers, and allows JSON file inputs to associate a resource.
-        match &mut sample {
-            Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
-            Sample::Metric(m) => m.resource = current_resource.clone(),
-            Sample::Log(l) => l.resource = current_resource.clone(),
-            Sample::Span(s) => s.resource = current_resource.clone(),
-            _ => {}
+        // OTLP protocol buffers, and allows JSON file inputs to associate a resource. A
+        // signal received over OTLP already carries the resource of its own message, if any.
+        if !is_otlp_input {
+            match &mut sample {
+                Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
+                Sample::Metric(m) => m.resource = current_resource.clone(),
+                Sample::Log(l) => l.resource = current_resource.clone(),
+                Sample::Span(s) => s.resource = current_resource.clone(),
+                _ => {}
+            }
         }
         sample.run_live_check(&mut live_checker, &mut stats, None, &sample.clone())?;
         //TODO: Check for violations and set exit_code here for no-stats mode
-- 
2.43.0


From de93fe17dcbd08c2d89a1e008182504bfc26681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:59 +0000
Subject: [PATCH 14/35] fix: count template attributes in live check coverage
 whether or not their finding is filtered

---
 .../weaver_live_check/src/sample_attribute.rs | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/crates/weaver_live_check/src/sample_attribute.rs b/crates/weaver_live_check/src/sample_attribute.rs
index 15105c4..d32fe24 100644
--- a/crates/weaver_live_check/src/sample_attribute.rs
+++ b/crates/weaver_live_check/src/sample_attribute.rs
@@ -147,24 +147,11 @@ impl SampleAttribute {
         }
     }
 
-    fn update_stats(&mut self, stats: &mut LiveCheckStatistics) {
+    fn update_stats(&self, stats: &mut LiveCheckStatistics, template_name: Option<&str>) {
         stats.inc_entity_count("attribute");
         stats.maybe_add_live_check_result(self.live_check_result.as_ref());
-        let mut seen_attribute_name = self.name.clone();
-        if let Some(result) = &mut self.live_check_result {
-            for advice in &mut result.all_advice {
-                // If the advice is a template, adjust the name
-                if advice.id.parse::<FindingId>() == Ok(FindingId::TemplateAttribute) {
-                    if let Some(template_name) = advice
-                        .context
-                        .as_ref()
-                        .and_then(|c| c["template_name"].as_str())
-                    {
-                        seen_attribute_name = template_name.to_owned();
-                    }
-                }
-            }
-        }
+        // An attribute that matches a template covers the template
+        let seen_attribute_name = template_name.unwrap_or(&self.name).to_owned();
         stats.add_attribute_name_to_coverage(seen_attribute_name);
     }
 }
@@ -241,7 +228,11 @@ impl LiveCheckRunner for SampleAttribute {
             );
         }
         self.live_check_result = Some(result);
-        self.update_stats(stats);
+        let template_name = semconv_attribute
+            .as_ref()
+            .filter(|attribute| matches!(attribute.r#type(), AttributeType::Template(_)))
+            .map(|attribute| attribute.name());
+        self.update_stats(stats, template_name);
         Ok(())
     }
 }
-- 
2.43.0


From 9cf55341aef6134a92f3b0de22f17a1dc603f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:57 +0000
Subject: [PATCH 15/35] fix: a v2 registry under live check knows the
 attributes its signals take from dependencies

---
 crates/weaver_live_check/src/live_checker.rs | 53 +++++++++++++++++++-
 crates/weaver_live_check/src/stats.rs        |  7 ++-
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/crates/weaver_live_check/src/live_checker.rs b/crates/weaver_live_check/src/live_checker.rs
index ede3e89..cf41c35 100644
--- a/crates/weaver_live_check/src/live_checker.rs
+++ b/crates/weaver_live_check/src/live_checker.rs
@@ -3,7 +3,7 @@
 //! Holds the registry, helper structs, and the advisors for the live check
 
 use serde::Serialize;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 use std::sync::Arc;
 use weaver_semconv::{attribute::AttributeType, group::GroupType};
@@ -12,7 +12,9 @@ use crate::{
     advice::Advisor, finding_modifier::FindingModifier, otlp_logger::OtlpEmitter,
     VersionedAttribute, VersionedEntity, VersionedRegistry, VersionedSignal,
 };
+use weaver_forge::v2::attribute::Attribute as V2Attribute;
 use weaver_forge::v2::entity::{Entity as V2Entity, EntityRef};
+use weaver_forge::v2::registry::ForgeResolvedRegistry;
 
 #[cfg(test)]
 use crate::CumulativeStatistics;
@@ -112,7 +114,7 @@ impl LiveChecker {
                     let _ = semconv_entities
                         .insert(entity_type, VersionedEntity::V2(Box::new(entity.clone())));
                 }
-                for attribute in &registry.registry.attributes {
+                for attribute in known_v2_attributes(registry) {
                     let attribute_rc = Rc::new(VersionedAttribute::V2(attribute.clone()));
                     match &attribute.r#type {
                         AttributeType::Template(_) => {
@@ -203,6 +205,53 @@ impl LiveChecker {
     }
 }
 
+/// The attributes that a v2 registry knows: those it defines, followed by those
+/// of its dependencies that its signals use.
+///
+/// A v2 registry lists only the attributes it defines itself. An attribute that
+/// one of its signals refers to in a dependency is just as much part of it.
+pub(crate) fn known_v2_attributes(registry: &ForgeResolvedRegistry) -> Vec<&V2Attribute> {
+    let mut known: Vec<&V2Attribute> = registry.registry.attributes.iter().collect();
+    let mut keys: HashSet<&str> = known.iter().map(|a| a.key.as_str()).collect();
+    let signals = &registry.registry;
+    let refinements = &registry.refinements;
+    let used = (signals.attribute_groups.iter())
+        .flat_map(|g| g.attributes.iter().map(|a| &a.base))
+        .chain(
+            (signals.metrics.iter())
+                .chain(refinements.metrics.iter().map(|r| &r.metric))
+                .flat_map(|m| m.attributes.iter().map(|a| &a.base)),
+        )
+        .chain(
+            (signals.spans.iter())
+                .chain(refinements.spans.iter().map(|r| &r.span))
+                .flat_map(|s| s.attributes.iter().map(|a| &a.base)),
+        )
+        .chain(
+            (signals.events.iter())
+                .chain(refinements.events.iter().map(|r| &r.event))
+                .flat_map(|e| e.attributes.iter().map(|a| &a.base)),
+        )
+        .chain(
+            (signals.entities.iter())
+                .chain(refinements.entities.iter().map(|r| &r.entity))
+                .flat_map(|e| e.identity.iter().chain(&e.description).map(|a| &a.base)),
+        );
+    for attribute in used {
+        if keys.insert(attribute.key.as_str()) {
+            // The signal can refine the attribute, so read the definition.
+            let definition = (attribute.provenance.source.as_ref())
+                .and_then(|url| registry.dependencies.iter().find(|d| &d.schema_url == url))
+                .and_then(|d| {
+                    (d.registry.attributes.iter())
+                        .find(|definition| definition.key == attribute.key)
+                });
+            known.push(definition.unwrap_or(attribute));
+        }
+    }
+    known
+}
+
 #[cfg(test)]
 mod tests {
     use std::fs::File;
diff --git a/crates/weaver_live_check/src/stats.rs b/crates/weaver_live_check/src/stats.rs
index 06bb8fa..ba992a3 100644
--- a/crates/weaver_live_check/src/stats.rs
+++ b/crates/weaver_live_check/src/stats.rs
@@ -9,7 +9,10 @@
 use serde::Serialize;
 use std::collections::HashMap;
 
-use crate::{FindingLevel, LiveCheckResult, PolicyFinding, VersionedRegistry};
+use crate::{
+    live_checker::known_v2_attributes, FindingLevel, LiveCheckResult, PolicyFinding,
+    VersionedRegistry,
+};
 use weaver_semconv::group::GroupType;
 
 /// Cumulative statistics that track all telemetry data
@@ -105,7 +108,7 @@ impl CumulativeStatistics {
                 }
             }
             VersionedRegistry::V2(reg) => {
-                for attribute in &reg.registry.attributes {
+                for attribute in known_v2_attributes(reg) {
                     if attribute.common.deprecated.is_none() {
                         let _ = seen_attributes.insert(attribute.key.clone(), 0);
                     }
-- 
2.43.0


From 987f6072d579286f8b12d8460bee23fb20fb3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 16/35] fix: unpack nested sub-folders of archives

---
 crates/weaver_common/src/vdir.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 3f1961d..b738763 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -987,11 +987,10 @@ impl VirtualDirectory {
         // If a sub-folder is specified, skip entries not in the sub-folder.
         if let Some(sub_folder) = sub_folder {
             if !sub_folder.trim().is_empty() {
-                // Skip any entry that is not in the sub-folder.
-                // If the entry is in the sub-folder, the sub-folder component is skipped.
-                let component = components.next();
-                if let Some(component) = component {
-                    if component.as_os_str() != sub_folder.as_str() {
+                // Skip any entry that is not in the sub-folder, which may be nested.
+                // If the entry is in the sub-folder, the sub-folder components are skipped.
+                for sub_folder_component in Path::new(sub_folder).components() {
+                    if components.next()? != sub_folder_component {
                         return None; // Skip entries not in the sub-folder
                     }
                 }
-- 
2.43.0


From 4127b6eae30e17e3220091792d517a3e1d54916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:10 +0000
Subject: [PATCH 17/35] fix: keep archive entries with parent components inside
 the target directory

---
 crates/weaver_common/src/vdir.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index b738763..64b9656 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -80,7 +80,7 @@ use std::fmt::Display;
 use std::fs::{create_dir_all, File};
 use std::io;
 use std::num::NonZeroU32;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Mutex};
@@ -966,7 +966,7 @@ impl VirtualDirectory {
     /// 3. Joins the remaining components onto the `target_path`.
     ///
     /// Returns `Some(PathBuf)` with the calculated target path if the entry should be unpacked,
-    /// or `None` if the entry should be skipped (e.g. outside the `sub_folder`).
+    /// or `None` if the entry should be skipped (e.g. outside the `sub_folder` or the `target_path`).
     ///
     /// # Arguments
     ///
@@ -996,7 +996,15 @@ impl VirtualDirectory {
                 }
             }
         }
-        Some(target_path.join(components.collect::<PathBuf>()))
+        // Skip any entry that would end up outside of the target directory.
+        let path: PathBuf = components.collect();
+        if path
+            .components()
+            .any(|component| !matches!(component, Component::Normal(_) | Component::CurDir))
+        {
+            return None;
+        }
+        Some(target_path.join(path))
     }
 
     /// Creates parent directories for the given path.
-- 
2.43.0


From b287cec4599ca8a782a166ceca42f58d49a98168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:30 +0000
Subject: [PATCH 18/35] fix: refuse archive entries located behind an unpacked
 symbolic link

---
 crates/weaver_common/src/vdir.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 64b9656..c3c0871 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -884,7 +884,7 @@ impl VirtualDirectory {
             })?;
 
             if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, target_path) {
-                Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
+                Self::create_parent_dirs(&valid_entry_path, target_path, archive_filename)?;
                 // Unpack returns an Unpacked type containing the file descriptor to the
                 // unpacked file. The file descriptor is ignored as we don't have any use for it.
                 _ = entry
@@ -926,7 +926,7 @@ impl VirtualDirectory {
 
             if let Some(path) = entry.enclosed_name() {
                 if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, tmp_path) {
-                    Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
+                    Self::create_parent_dirs(&valid_entry_path, tmp_path, archive_filename)?;
 
                     if entry.is_dir() {
                         create_dir_all(&valid_entry_path).map_err(|e| InvalidRegistryArchive {
@@ -1008,8 +1008,32 @@ impl VirtualDirectory {
     }
 
     /// Creates parent directories for the given path.
-    fn create_parent_dirs(new_path: &Path, archive_filename: &str) -> Result<(), Error> {
+    ///
+    /// # Errors
+    ///
+    /// Returns [`Error::InvalidRegistryArchive`] if a directory between the given path and the
+    /// `target_path` is a symbolic link (previously unpacked from the archive), as the entry could
+    /// then be written outside of the `target_path`.
+    fn create_parent_dirs(
+        new_path: &Path,
+        target_path: &Path,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
         if let Some(parent) = new_path.parent() {
+            for dir in parent
+                .ancestors()
+                .take_while(|dir| dir.starts_with(target_path))
+            {
+                if dir.is_symlink() {
+                    return Err(InvalidRegistryArchive {
+                        archive: archive_filename.to_owned(),
+                        error: format!(
+                            "The entry `{}` is located behind a symbolic link",
+                            new_path.display()
+                        ),
+                    });
+                }
+            }
             create_dir_all(parent).map_err(|e| InvalidRegistryArchive {
                 archive: archive_filename.to_owned(),
                 error: e.to_string(),
-- 
2.43.0


From 2b805abcb6822ae3f3fd499bc7a545afe74a9643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 19/35] fix: accept URLs with user information as registry
 sources

---
 crates/weaver_common/src/vdir.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index c3c0871..1c02a50 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -297,7 +297,7 @@ fn is_commit_sha(s: &str) -> bool {
 /// Regex to parse a virtual directory path string.
 ///
 /// Supports the following general format: `source[@refspec][\[sub_folder]]`
-/// - `source`: The main path or URL.
+/// - `source`: The main path or URL (whose authority may contain user information, `user@host`).
 /// - `refspec`: Optional Git refspec (tag, branch, commit).
 /// - `sub_folder`: Optional path within the source (for archives/repos).
 ///
@@ -307,8 +307,10 @@ fn is_commit_sha(s: &str) -> bool {
 /// - `source\[sub_folder]`
 /// - `source@tag\[sub_folder]`
 static REGISTRY_REGEX: Lazy<Regex> = Lazy::new(|| {
-    Regex::new(r"^(?P<source>.+?)(?:@(?P<refspec>.+?))?(?:\[(?P<sub_folder>.+?)])?$")
-        .expect("Invalid regex")
+    Regex::new(
+        r"^(?P<source>(?:https?://[^/]*)?.+?)(?:@(?P<refspec>.+?))?(?:\[(?P<sub_folder>.+?)])?$",
+    )
+    .expect("Invalid regex")
 });
 
 /// Represents a virtual path pointing to a directory-like resource.
-- 
2.43.0


From a9d5399e62ba45f764ba1476ece3477a69d088ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 20/35] fix: keep local paths with @ or brackets in them whole

---
 crates/weaver_common/src/vdir.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 1c02a50..71661c3 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -502,15 +502,21 @@ impl FromStr for VirtualDirectoryPath {
                     url: source.to_owned(),
                 })
             }
-        } else if source.ends_with(".zip") || source.ends_with(".tar.gz") {
-            Ok(Self::LocalArchive {
-                path: source.to_owned(),
-                sub_folder,
-            })
         } else {
-            Ok(Self::LocalFolder {
-                path: source.to_owned(),
-            })
+            // A local path has no refspec, an `@` in it belongs to the path, and only an archive
+            // has a sub-folder.
+            let (path, sub_folder) = match sub_folder {
+                Some(sub_folder) => (&s[..s.len() - sub_folder.len() - 2], Some(sub_folder)),
+                None => (s, None),
+            };
+            if path.ends_with(".zip") || path.ends_with(".tar.gz") {
+                Ok(Self::LocalArchive {
+                    path: path.to_owned(),
+                    sub_folder,
+                })
+            } else {
+                Ok(Self::LocalFolder { path: s.to_owned() })
+            }
         }
     }
 }
-- 
2.43.0


From 56900a11128ee2d1e00c94113fc978663973546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 21/35] fix: read policy findings whose signal_type or
 signal_name is null

The published JSON schema of a policy finding allows null for both, but a
finding with an explicit null made the whole evaluation fail, dropping every
other finding of the stage.
---
 crates/weaver_checker/src/finding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_checker/src/finding.rs b/crates/weaver_checker/src/finding.rs
index 186b82d..759b6d8 100644
--- a/crates/weaver_checker/src/finding.rs
+++ b/crates/weaver_checker/src/finding.rs
@@ -121,8 +121,8 @@ impl<'de> serde::de::Visitor<'de> for ViolationBuilder {
                 // TODO - ensure only one of advice_context or context are provided.
                 "advice_context" => opt_context = Some(map.next_value()?),
                 "context" => opt_context = Some(map.next_value()?),
-                "signal_type" => opt_signal_type = Some(map.next_value()?),
-                "signal_name" => opt_signal_name = Some(map.next_value()?),
+                "signal_type" => opt_signal_type = map.next_value()?,
+                "signal_name" => opt_signal_name = map.next_value()?,
                 _ => (),
             }
         }
-- 
2.43.0


From 5314a5aa2652ef38f7f37030270c5946432b08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 22/35] fix: fail when the admin port of the OTLP receiver is
 in use

---
 src/registry/otlp/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 7962910..13ae6b7 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -337,6 +337,12 @@ pub fn listen_otlp_requests(
             error: e.to_string(),
         })?;
 
+    let admin_listener = std::net::TcpListener::bind(("0.0.0.0", admin_port))
+        .and_then(|listener| listener.set_nonblocking(true).map(|()| listener))
+        .map_err(|e| Error::HttpAdminError {
+            error: format!("Failed to bind HTTP admin port {admin_port}: {e}"),
+        })?;
+
     let (tx, rx) = mpsc::channel(100);
     let stop_tx = tx.clone();
     // Create a watch channel for the last activity timestamp
@@ -377,7 +383,7 @@ pub fn listen_otlp_requests(
                 spawn_stop_signal_handlers(stop_tx.clone(), &mut tasks);
                 spawn_http_admin_handler(
                     stop_tx.clone(),
-                    admin_port,
+                    admin_listener,
                     coordinator_clone,
                     admin_shutdown_rx,
                     &mut tasks,
@@ -533,16 +539,12 @@ async fn stop_handler(State(state): State<AdminState>) -> impl IntoResponse {
 /// ignore as we don't need to abort these tasks.
 async fn spawn_http_admin_handler(
     stop_tx: mpsc::Sender<OtlpRequest>,
-    port: u16,
+    listener: std::net::TcpListener,
     coordinator: ShutdownCoordinator,
     admin_shutdown_rx: oneshot::Receiver<()>,
     tasks: &mut JoinSet<()>,
 ) {
-    let addr: SocketAddr = format!("0.0.0.0:{port}")
-        .parse()
-        .expect("Failed to parse HTTP admin port");
-
-    match TcpListener::bind(addr).await {
+    match TcpListener::from_std(listener) {
         Ok(listener) => {
             let state = AdminState {
                 stop_tx,
@@ -593,7 +595,7 @@ async fn spawn_http_admin_handler(
         Err(e) => {
             stop_tx
                 .send(OtlpRequest::Error(Error::HttpAdminError {
-                    error: format!("Failed to bind HTTP admin port {port}: {e}"),
+                    error: format!("Failed to listen on the HTTP admin port: {e}"),
                 }))
                 .await
                 .expect("Failed to send an OtlpRequest::Error");
-- 
2.43.0


From f99cd8157cd990c6900d99be2710e5856732b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 23/35] fix: apply code generation annotations when ignoring
 them is set to false

---
 defaults/jq/semconv.jq | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaults/jq/semconv.jq b/defaults/jq/semconv.jq
index b56a55e..4cd8b70 100644
--- a/defaults/jq/semconv.jq
+++ b/defaults/jq/semconv.jq
@@ -92,7 +92,7 @@ def get_id($signal; $obj):
 # $options is an object that can contain:
 # - ignore_code_generation_annotations: a boolean to ignore code generation annotations.
 def code_generation_exclude_filter($options):
-    if ($options | has("ignore_code_generation_annotations")) then
+    if ($options | has("ignore_code_generation_annotations") and $options.ignore_code_generation_annotations == true) then
         .
     else
         # null coalescence is not supported in jaq (but supported in jq)
-- 
2.43.0


From 1dcb970b2c035e2eeda75ef8bcc66fdcceb7042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 24/35] fix: apply the options of semconv_entities to the
 attributes of v2 entities

---
 defaults/jq/semconv.jq | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/defaults/jq/semconv.jq b/defaults/jq/semconv.jq
index 4cd8b70..7510548 100644
--- a/defaults/jq/semconv.jq
+++ b/defaults/jq/semconv.jq
@@ -185,6 +185,14 @@ def semconv_grouped_attributes: semconv_grouped_attributes({});
 
 # Generic Signal Functions
 
+# Filters a list of attributes nested in a signal. Anything else is left as it is.
+def nested_attributes_filter($options):
+  if type == "array" then
+    stability_filter($options) | code_generation_exclude_filter($options) | deprecated_filter($options)
+  else
+    .
+  end;
+
 # Extracts and processes semantic convention signals based on provided options.
 # $signal is the type of signal to process.
 # $options is an object that can contain:
@@ -208,6 +216,9 @@ def semconv_signal($signal; $options):
     | code_generation_exclude_filter($options)
     | deprecated_filter($options)
     | map(.attributes = (if .attributes == null then .attributes else .attributes | stability_filter($options) | code_generation_exclude_filter($options) | deprecated_filter($options) end))
+    # The attributes of a v2 entity are in its identity and its description.
+    | map(if .identity == null then . else .identity |= nested_attributes_filter($options) end)
+    | map(if .description == null then . else .description |= nested_attributes_filter($options) end)
     | if ($options | has("exclude_root_namespace")) then
         map(select(.root_namespace as $st | $options.exclude_root_namespace | index($st) | not))
       else
-- 
2.43.0


From 9e8a8996f896d534417b11368abb244329812626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 25/35] fix: merge the examples of attributes inferred on
 several signals

---
 crates/weaver_infer/src/lib.rs | 38 +++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/weaver_infer/src/lib.rs b/crates/weaver_infer/src/lib.rs
index 2498313..aadfcbf 100644
--- a/crates/weaver_infer/src/lib.rs
+++ b/crates/weaver_infer/src/lib.rs
@@ -221,13 +221,11 @@ impl AccumulatedSamples {
         let mut attribute_defs = HashMap::new();
         collect_attribute_defs(self.resources.values(), &mut attribute_defs);
 
-        let mut spans = self
-            .spans
-            .values()
+        let mut spans = sorted_values(&self.spans)
             .map(|span| {
                 collect_attribute_defs(span.attributes.values(), &mut attribute_defs);
 
-                for event in span.events.values() {
+                for event in sorted_values(&span.events) {
                     collect_attribute_defs(event.attributes.values(), &mut attribute_defs);
                 }
 
@@ -255,9 +253,7 @@ impl AccumulatedSamples {
             .collect::<Vec<_>>();
         spans.sort_by_key(|left| left.r#type.to_string());
 
-        let mut metrics = self
-            .metrics
-            .values()
+        let mut metrics = sorted_values(&self.metrics)
             .map(|metric| {
                 collect_attribute_defs(metric.attributes.values(), &mut attribute_defs);
 
@@ -283,9 +279,7 @@ impl AccumulatedSamples {
             .collect::<Vec<_>>();
         metrics.sort_by_key(|left| left.name.to_string());
 
-        let mut merged_events: HashMap<String, Vec<String>> = self
-            .events
-            .values()
+        let mut merged_events: HashMap<String, Vec<String>> = sorted_values(&self.events)
             .map(|event| {
                 collect_attribute_defs(event.attributes.values(), &mut attribute_defs);
                 (
@@ -533,6 +527,8 @@ fn attribute_or_group_ref(name: &str) -> AttributeOrGroupRef {
     AttributeOrGroupRef::Attribute(attribute_ref(name))
 }
 
+/// Collects the definitions of attributes. For an attribute that has already been collected,
+/// the first definition is kept and the examples are merged.
 fn collect_attribute_defs<'a>(
     attributes: impl Iterator<Item = &'a AttributeSpec>,
     attribute_defs: &mut HashMap<String, AttributeDef>,
@@ -552,6 +548,11 @@ fn collect_attribute_defs<'a>(
         {
             let _ = attribute_defs
                 .entry(id.clone())
+                .and_modify(|def| {
+                    if def.r#type == *r#type {
+                        def.examples = merge_examples(def.examples.take(), examples);
+                    }
+                })
                 .or_insert_with(|| AttributeDef {
                     key: id.clone(),
                     r#type: r#type.clone(),
@@ -568,6 +569,23 @@ fn collect_attribute_defs<'a>(
     }
 }
 
+/// The values of a map in the order of their keys.
+fn sorted_values<T>(map: &HashMap<String, T>) -> impl Iterator<Item = &T> {
+    let mut entries = map.iter().collect::<Vec<_>>();
+    entries.sort_by_key(|(key, _)| *key);
+    entries.into_iter().map(|(_, value)| value)
+}
+
+/// Merge the examples of another observation of an attribute into `examples`.
+fn merge_examples(examples: Option<Examples>, other: &Option<Examples>) -> Option<Examples> {
+    let values = match serde_json::to_value(other) {
+        Ok(Value::Array(values)) => values,
+        Ok(value) => vec![value],
+        Err(_) => vec![],
+    };
+    values.iter().fold(examples, add_example)
+}
+
 fn span_attribute_ref_name(attribute: &SpanAttributeOrGroupRef) -> &str {
     match attribute {
         SpanAttributeOrGroupRef::Attribute(attribute) => &attribute.base.r#ref,
-- 
2.43.0


From 489ec91bc7a0f160718bdbf24a59ad2f03b015df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 26/35] fix: report markdown snippets without a trailer instead
 of dropping what follows

---
 crates/weaver_semconv_gen/src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a7cd1d1..ff12f42 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -66,6 +66,13 @@ pub enum Error {
         header: String,
     },
 
+    /// Thrown when a snippet has no trailer.
+    #[error("Snippet is not terminated: [{header}]")]
+    SnippetNotTerminated {
+        /// The line of the snippet header.
+        header: String,
+    },
+
     /// Thrown when a snippet lookup id is not valid.
     #[error("Could not parse snippet id: [{id}]")]
     InvalidSnippetId {
@@ -149,6 +156,8 @@ pub trait MarkdownSnippetGenerator {
     ) -> Result<String, Error> {
         let mut result = String::new();
         let mut snippet_context: Option<SnippetType> = None;
+        // The line of the last snippet header.
+        let mut header = "";
         for line in contents.lines() {
             match snippet_context {
                 Some(SnippetType::Semconv) => {
@@ -174,12 +183,14 @@ pub trait MarkdownSnippetGenerator {
                     // If so, generate the snippet and continue.
                     if parser::is_markdown_snippet_directive(line) {
                         snippet_context = Some(SnippetType::Semconv);
+                        header = line;
                         let arg = parser::parse_markdown_snippet_directive(line)?;
                         let snippet =
                             self.generate_markdown_snippet(arg, attribute_registry_base_url)?;
                         result.push_str(&snippet);
                     } else if parser::is_weaver_directive(line) {
                         snippet_context = Some(SnippetType::Weaver);
+                        header = line;
                         let arg = parser::parse_weaver_snippet_directive(line)?;
                         let snippet = self.generate_weaver_snippet(arg)?;
                         result.push_str(&snippet);
@@ -187,6 +198,12 @@ pub trait MarkdownSnippetGenerator {
                 }
             }
         }
+        if snippet_context.is_some() {
+            // Everything after the header would be lost.
+            return Err(Error::SnippetNotTerminated {
+                header: header.to_owned(),
+            });
+        }
         Ok(result)
     }
 
-- 
2.43.0


From 07300dc7172995f08432af8316c96d061391a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 27/35] fix: apply all tag filters of a markdown snippet

---
 crates/weaver_semconv_gen/src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/weaver_semconv_gen/src/parser.rs b/crates/weaver_semconv_gen/src/parser.rs
index 58bbc53..31aecd6 100644
--- a/crates/weaver_semconv_gen/src/parser.rs
+++ b/crates/weaver_semconv_gen/src/parser.rs
@@ -46,11 +46,10 @@ impl GenerateMarkdownArgs {
     pub fn tag_filters(&self) -> Vec<&str> {
         self.args
             .iter()
-            .find_map(|arg| match arg {
+            .filter_map(|arg| match arg {
                 MarkdownGenParameters::Tag(value) => Some(value.as_str()),
                 _ => None,
             })
-            .into_iter()
             .collect()
     }
 }
-- 
2.43.0


From 5416b3a79cbac40dfb1da23ce9cd944e181e050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 28/35] fix: keep the structure of nested lists, list items and
 quotes in comments

---
 crates/weaver_forge/src/formats/html.rs     |  9 ++++-
 crates/weaver_forge/src/formats/markdown.rs | 43 ++++++++++++++++++---
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/crates/weaver_forge/src/formats/html.rs b/crates/weaver_forge/src/formats/html.rs
index 5f1f3b4..c695336 100644
--- a/crates/weaver_forge/src/formats/html.rs
+++ b/crates/weaver_forge/src/formats/html.rs
@@ -309,8 +309,15 @@ impl<'source> HtmlRenderer<'source> {
                 }
             }
             Node::ListItem(item) => {
-                for child in &item.children {
+                for (i, child) in item.children.iter().enumerate() {
                     match child {
+                        Node::Paragraph(_) if i > 0 => {
+                            ctx.add_newline = true;
+                            ctx.add_old_style_paragraph = options.old_style_paragraph;
+                            self.write_html_to(ctx, indent, child, format, options)?;
+                            ctx.add_newline = false;
+                            ctx.add_old_style_paragraph = false;
+                        }
                         Node::Paragraph(paragraph) => {
                             for child in &paragraph.children {
                                 self.write_html_to(ctx, indent, child, format, options)?;
diff --git a/crates/weaver_forge/src/formats/markdown.rs b/crates/weaver_forge/src/formats/markdown.rs
index adf4301..7bf195c 100644
--- a/crates/weaver_forge/src/formats/markdown.rs
+++ b/crates/weaver_forge/src/formats/markdown.rs
@@ -371,6 +371,18 @@ impl MarkdownRenderer {
                 } else {
                     format!("{indent}  ")
                 };
+                // A nested list has its own numbering and line prefix, those of the
+                // enclosing list are restored after it.
+                let outer_item_number = std::mem::replace(
+                    &mut ctx.list_item_number,
+                    list.start
+                        .map_or(0, |start| (start as usize).saturating_sub(1)),
+                );
+                let outer_line_prefix = if ctx.list_level > 1 {
+                    std::mem::take(&mut ctx.line_prefix)
+                } else {
+                    String::new()
+                };
                 ctx.add_blank_line();
                 for item in &list.children {
                     let leftover_newlines = ctx.take_leftover_newlines();
@@ -390,16 +402,27 @@ impl MarkdownRenderer {
                     ctx.set_line_prefix(" ".repeat(line_prefix.len()).as_str());
                     // ctx.markdown.push_str(&line_prefix);
                     ctx.add_unbreakable_text(&line_prefix);
-                    Self::write_markdown_to(ctx, &indent, item, options)?;
+                    // A nested list is indented like the text of the item.
+                    let item_indent = " ".repeat(line_prefix.len() - 2);
+                    Self::write_markdown_to(ctx, &item_indent, item, options)?;
                     ctx.add_leftover_newlines(1);
                 }
                 ctx.list_level -= 1;
-                ctx.list_item_number = 0;
+                ctx.list_item_number = outer_item_number;
                 ctx.reset_line_prefix();
+                if ctx.list_level > 0 {
+                    ctx.set_line_prefix(&outer_line_prefix);
+                    ctx.skip_line_prefix_on_first_line();
+                }
                 ctx.add_leftover_newlines(1);
             }
             Node::ListItem(item) => {
-                for child in &item.children {
+                for (i, child) in item.children.iter().enumerate() {
+                    // Lists start with a new line.
+                    if i > 0 && !matches!(child, Node::List(..)) {
+                        ctx.add_blank_line();
+                        ctx.add_blank_line();
+                    }
                     match child {
                         Node::Paragraph(paragraph) => {
                             for child in &paragraph.children {
@@ -427,14 +450,24 @@ impl MarkdownRenderer {
                     .or(options.default_block_code_language.as_deref())
                     .unwrap_or("");
 
-                ctx.add_unbreakable_text(&format!("```{}\n{}\n```", lang, code.value));
+                let text = format!("```{}\n{}\n```", lang, code.value);
+                let text = text.replace('\n', &format!("\n{}", ctx.line_prefix));
+                ctx.add_unbreakable_text(&text);
                 ctx.add_blank_line();
             }
             Node::Blockquote(block_quote) => {
                 // Somehow we're getting  end of lines from the block quote.
                 ctx.add_cond_blank_line();
+                // The prefix is added once in front of the first line, and then in front
+                // of each new line.
+                ctx.add_unbreakable_text("> ");
                 ctx.set_line_prefix("> ");
-                for child in &block_quote.children {
+                ctx.skip_line_prefix_on_first_line();
+                for (i, child) in block_quote.children.iter().enumerate() {
+                    if i > 0 {
+                        ctx.add_blank_line();
+                        ctx.add_blank_line();
+                    }
                     match child {
                         Node::Paragraph(paragraph) => {
                             for child in &paragraph.children {
-- 
2.43.0


From 6100610ae357549293b84316e9a496be24d678ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 29/35] fix: accept comment line lengths shorter than the
 indentation and prefix

---
 crates/weaver_forge/src/extensions/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/extensions/code.rs b/crates/weaver_forge/src/extensions/code.rs
index f7fff69..d5d9806 100644
--- a/crates/weaver_forge/src/extensions/code.rs
+++ b/crates/weaver_forge/src/extensions/code.rs
@@ -157,7 +157,7 @@ pub(crate) fn comment(
 
             // TODO - reduce line limit by tabs.
             let actual_length_limit =
-                line_length_limit.map(|limit| limit - (indent.len() + prefix.len()));
+                line_length_limit.map(|limit| limit.saturating_sub(indent.len() + prefix.len()));
             comment = match &comment_format.format {
                 RenderFormat::Markdown(..) => markdown_snippet_renderer
                     .render(&comment, &comment_format_name, actual_length_limit)
-- 
2.43.0


From 694bfcfee346a417ee98b924d23b757f2030b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 30/35] fix: accept the documented values of indent_type in
 comment formats

---
 crates/weaver_forge/src/config.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/weaver_forge/src/config.rs b/crates/weaver_forge/src/config.rs
index 7d6db58..7c4b05f 100644
--- a/crates/weaver_forge/src/config.rs
+++ b/crates/weaver_forge/src/config.rs
@@ -375,8 +375,10 @@ pub struct CommentFormat {
 pub enum IndentType {
     /// Use spaces for indentation.
     #[default]
+    #[serde(alias = "space")]
     Space,
     /// Use tabs for indentation.
+    #[serde(alias = "tab")]
     Tab,
 }
 
-- 
2.43.0


From 6a9cea59de9bcd35299055f3ab8238be46dc26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 31/35] fix: comments: a word longer than the line length no
 longer leaves a blank line before it

---
 crates/weaver_forge/src/formats/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/weaver_forge/src/formats/mod.rs b/crates/weaver_forge/src/formats/mod.rs
index 5bdedbf..2ce2791 100644
--- a/crates/weaver_forge/src/formats/mod.rs
+++ b/crates/weaver_forge/src/formats/mod.rs
@@ -107,17 +107,23 @@ impl WordWrapContext {
         }
     }
 
+    /// Returns true if the input must go on a new line. A line without any content
+    /// is never wrapped, however long the input is: this would leave a blank line.
+    fn must_wrap(&self, input: &str, indent: &str) -> bool {
+        self.current_line_length > indent.len()
+            && self
+                .line_length
+                .map(|max| self.current_line_length + input.len() > max)
+                .unwrap_or(false)
+    }
+
     fn write_unbroken<O: Write>(
         &mut self,
         out: &mut O,
         input: &str,
         indent: &str,
     ) -> std::fmt::Result {
-        if self
-            .line_length
-            .map(|max| self.current_line_length + input.len() > max)
-            .unwrap_or(false)
-        {
+        if self.must_wrap(input, indent) {
             write!(out, "\n{indent}")?;
             self.current_line_length = indent.len();
         } else if self.letfover_space {
@@ -151,11 +157,7 @@ impl WordWrapContext {
         for word in self.word_separator.find_words(input) {
             // We either add an end of line or space between words.
             let mut newline = false;
-            if self
-                .line_length
-                .map(|max| self.current_line_length + word.len() > max)
-                .unwrap_or(false)
-            {
+            if self.must_wrap(word.word, indent) {
                 // Split the line.
                 write!(out, "\n{indent}")?;
                 self.current_line_length = indent.len();
-- 
2.43.0


From 18891443e84afa5191e0c911ac607de21fdc7a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 32/35] fix: an enum whose values are integral doubles is a
 double enum

---
 crates/weaver_forge/src/extensions/otel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/extensions/otel.rs b/crates/weaver_forge/src/extensions/otel.rs
index d291dac..c8b4dff 100644
--- a/crates/weaver_forge/src/extensions/otel.rs
+++ b/crates/weaver_forge/src/extensions/otel.rs
@@ -482,7 +482,7 @@ pub(crate) fn enum_type(attr_type: &Value) -> Result<String, minijinja::Error> {
             let value = member.get_attr("value")?;
             let member_type = match value.kind() {
                 ValueKind::Number => {
-                    if value.as_i64().is_some() {
+                    if value.is_integer() {
                         "int"
                     } else {
                         "double"
-- 
2.43.0


From 1fc7673385bbdfb035b395af8063f172eaff3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 33/35] fix: prometheus names: non-ASCII letters are always
 sanitized

---
 crates/weaver_forge/src/extensions/prom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/extensions/prom.rs b/crates/weaver_forge/src/extensions/prom.rs
index 18edcc1..8841472 100644
--- a/crates/weaver_forge/src/extensions/prom.rs
+++ b/crates/weaver_forge/src/extensions/prom.rs
@@ -226,7 +226,7 @@ pub(crate) fn sanitize_name<'a>(s: &Cow<'a, str>) -> Cow<'a, str> {
             true
         } else {
             // keep checking
-            !c.is_alphanumeric() && *c != '_' && *c != ':'
+            !c.is_ascii_alphanumeric() && *c != '_' && *c != ':'
         }
     }) {
         // up to `replace_idx` have been validated, convert the rest
-- 
2.43.0


From 8607efb89a8949eca3cad334648517c9cc534fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 34/35] fix: mcp live_check: findings_only has the findings of
 every part of a sample

---
 crates/weaver_mcp/src/service.rs | 225 +++++++++++++++++++++----------
 1 file changed, 151 insertions(+), 74 deletions(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 90ee3fc..a137a88 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -19,6 +19,8 @@ use weaver_live_check::advice::{
     Advisor, DeprecatedAdvisor, EnumAdvisor, RegoAdvisor, StabilityAdvisor, TypeAdvisor,
 };
 use weaver_live_check::live_checker::LiveChecker;
+use weaver_live_check::sample_attribute::SampleAttribute;
+use weaver_live_check::sample_metric::{DataPoints, SampleExemplar};
 use weaver_live_check::{
     DisabledStatistics, LiveCheckResult, LiveCheckRunner, LiveCheckStatistics, Sample,
     VersionedRegistry,
@@ -122,9 +124,7 @@ fn extract_findings(result: &Option<LiveCheckResult>) -> Vec<serde_json::Value>
 }
 
 /// Extract actionable findings from all attributes in a slice.
-fn extract_attr_findings(
-    attrs: &[weaver_live_check::sample_attribute::SampleAttribute],
-) -> Vec<serde_json::Value> {
+fn extract_attr_findings(attrs: &[SampleAttribute]) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
     for a in attrs {
         let findings = extract_findings(&a.live_check_result);
@@ -138,84 +138,156 @@ fn extract_attr_findings(
     out
 }
 
-/// Collect compact findings from all samples. Returns one entry per sample that has findings.
-fn collect_compact_findings(samples: &[Sample]) -> Vec<serde_json::Value> {
+/// Add a compact entry for a sample, or a part of a sample, unless it has no finding.
+fn push_compact_findings(
+    out: &mut Vec<serde_json::Value>,
+    entity_type: &str,
+    name: Option<&str>,
+    result: &Option<LiveCheckResult>,
+    attributes: &[SampleAttribute],
+) {
+    let findings = extract_findings(result);
+    let attribute_findings = extract_attr_findings(attributes);
+    if findings.is_empty() && attribute_findings.is_empty() {
+        return;
+    }
+    let mut entry = json!({
+        "type": entity_type,
+        "findings": findings,
+        "attribute_findings": attribute_findings,
+    });
+    if let Some(name) = name {
+        entry["name"] = json!(name);
+    }
+    out.push(entry);
+}
+
+/// Add the compact entries of the exemplars of a data point.
+fn push_exemplar_findings(out: &mut Vec<serde_json::Value>, exemplars: &[SampleExemplar]) {
+    for e in exemplars {
+        push_compact_findings(
+            out,
+            "exemplar",
+            None,
+            &e.live_check_result,
+            &e.filtered_attributes,
+        );
+    }
+}
+
+/// Collect compact findings from a sample. Returns one entry for the sample and each of its
+/// parts (span events, span links, data points, exemplars) that has findings.
+fn collect_compact_findings(sample: &Sample) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
-    for sample in samples {
-        match sample {
-            Sample::Attribute(a) => {
-                let findings = extract_findings(&a.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": a.name, "findings": findings}));
-                }
-            }
-            Sample::Span(s) => {
-                let mut parts = extract_findings(&s.live_check_result);
-                let attr_findings = extract_attr_findings(&s.attributes);
-                if !parts.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "type": "span",
-                        "findings": parts,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
-                // Check nested span events/links attributes
-                for evt in &s.span_events {
-                    parts = extract_attr_findings(&evt.attributes);
-                    if !parts.is_empty() {
-                        out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                    }
-                }
-            }
-            Sample::SpanEvent(e) => {
-                let parts = extract_attr_findings(&e.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                }
+    match sample {
+        Sample::Attribute(a) => {
+            let findings = extract_findings(&a.live_check_result);
+            if !findings.is_empty() {
+                out.push(json!({"name": a.name, "findings": findings}));
             }
-            Sample::SpanLink(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_link", "attribute_findings": parts}));
-                }
-            }
-            Sample::Resource(r) => {
-                let parts = extract_attr_findings(&r.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "resource", "attribute_findings": parts}));
-                }
+        }
+        Sample::Span(s) => {
+            push_compact_findings(&mut out, "span", None, &s.live_check_result, &s.attributes);
+            for e in &s.span_events {
+                push_compact_findings(
+                    &mut out,
+                    "span_event",
+                    None,
+                    &e.live_check_result,
+                    &e.attributes,
+                );
             }
-            Sample::InstrumentationScope(scope) => {
-                let findings = extract_findings(&scope.live_check_result);
-                let attr_findings = extract_attr_findings(&scope.attributes);
-                if !findings.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "name": scope.name,
-                        "type": "instrumentation_scope",
-                        "findings": findings,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
+            for l in &s.span_links {
+                push_compact_findings(
+                    &mut out,
+                    "span_link",
+                    None,
+                    &l.live_check_result,
+                    &l.attributes,
+                );
             }
-            Sample::Metric(m) => {
-                let findings = extract_findings(&m.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": m.name, "type": "metric", "findings": findings}));
+        }
+        Sample::SpanEvent(e) => push_compact_findings(
+            &mut out,
+            "span_event",
+            None,
+            &e.live_check_result,
+            &e.attributes,
+        ),
+        Sample::SpanLink(l) => push_compact_findings(
+            &mut out,
+            "span_link",
+            None,
+            &l.live_check_result,
+            &l.attributes,
+        ),
+        Sample::Resource(r) => push_compact_findings(
+            &mut out,
+            "resource",
+            None,
+            &r.live_check_result,
+            &r.attributes,
+        ),
+        Sample::InstrumentationScope(scope) => push_compact_findings(
+            &mut out,
+            "instrumentation_scope",
+            Some(&scope.name),
+            &scope.live_check_result,
+            &scope.attributes,
+        ),
+        Sample::Metric(m) => {
+            push_compact_findings(&mut out, "metric", Some(&m.name), &m.live_check_result, &[]);
+            match &m.data_points {
+                Some(DataPoints::Number(points)) => {
+                    for p in points {
+                        push_compact_findings(
+                            &mut out,
+                            "data_point",
+                            Some(&m.name),
+                            &p.live_check_result,
+                            &p.attributes,
+                        );
+                        push_exemplar_findings(&mut out, &p.exemplars);
+                    }
                 }
-            }
-            Sample::Log(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "log", "attribute_findings": parts}));
+                Some(DataPoints::Histogram(points)) => {
+                    for p in points {
+                        push_compact_findings(
+                            &mut out,
+                            "data_point",
+                            Some(&m.name),
+                            &p.live_check_result,
+                            &p.attributes,
+                        );
+                        push_exemplar_findings(&mut out, &p.exemplars);
+                    }
                 }
-            }
-            Sample::Profile(p) => {
-                let parts = extract_attr_findings(&p.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "profile", "attribute_findings": parts}));
+                Some(DataPoints::ExponentialHistogram(points)) => {
+                    for p in points {
+                        push_compact_findings(
+                            &mut out,
+                            "data_point",
+                            Some(&m.name),
+                            &p.live_check_result,
+                            &p.attributes,
+                        );
+                        push_exemplar_findings(&mut out, &p.exemplars);
+                    }
                 }
+                // Summaries are not checked.
+                _ => (),
             }
         }
+        Sample::Log(l) => {
+            push_compact_findings(&mut out, "log", None, &l.live_check_result, &l.attributes);
+        }
+        Sample::Profile(p) => push_compact_findings(
+            &mut out,
+            "profile",
+            None,
+            &p.live_check_result,
+            &p.attributes,
+        ),
     }
     out
 }
@@ -521,12 +593,17 @@ impl WeaverMcpService {
                 serde_json::to_string_pretty(&samples).unwrap_or_else(|e| format!("Error: {e}"))
             }
             LiveCheckOutput::FindingsOnly => {
-                let findings = collect_compact_findings(&samples);
+                let findings_by_sample: Vec<Vec<serde_json::Value>> =
+                    samples.iter().map(collect_compact_findings).collect();
+                let samples_with_findings =
+                    findings_by_sample.iter().filter(|f| !f.is_empty()).count();
+                let findings: Vec<serde_json::Value> =
+                    findings_by_sample.into_iter().flatten().collect();
                 let total = samples.len();
                 let result_json = json!({
                     "findings": findings,
                     "total_samples_checked": total,
-                    "samples_with_findings": findings.len(),
+                    "samples_with_findings": samples_with_findings,
                 });
                 serde_json::to_string_pretty(&result_json).unwrap_or_else(|e| format!("Error: {e}"))
             }
-- 
2.43.0


From 00d0c2ab1f9d0868db73db7ed59111ace615ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:03 +0000
Subject: [PATCH 35/35] fix: mcp get_attribute finds template attributes

---
 crates/weaver_mcp/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index a137a88..147fbd8 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -490,7 +490,11 @@ impl WeaverMcpService {
                        full documentation."
     )]
     fn get_attribute(&self, Parameters(params): Parameters<GetAttributeParams>) -> String {
-        match self.search_context.get_attribute(&params.key) {
+        match self
+            .search_context
+            .get_attribute(&params.key)
+            .or_else(|| self.search_context.get_template(&params.key))
+        {
             Some(attr) => serde_json::to_string_pretty(attr.as_ref())
                 .unwrap_or_else(|e| format!("Error: {e}")),
             None => format!("Attribute '{}' not found in registry", params.key),
-- 
2.43.0

