From 51bb3bd5787f1e07a4b4086bee5903c8aca5d207 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 01/42] fix: fail to resolve a directory that has neither main
 nor index

A directory without an entry used to be left as 'still resolving': a relative
request then panicked, and a bare request went on to the parent node_modules
with its target lost, so that it could resolve to an unrelated file.
---
 src/resolve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..34ab843 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -39,6 +39,7 @@ impl Resolver {
         MainFieldPlugin::new(&pkg_info_wrap)
             .apply(self, info)
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
+            .and_then(|info| ResolverStats::Error((Resolver::raise_tag(), info)))
     }
 
     #[tracing::instrument]
-- 
2.43.0


From c827fef6255457e844e5a8fa49704222d3768b7a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 02/42] fix: start every main field and main file candidate
 from the package directory

---
 src/lib.rs               |  8 --------
 src/plugin/main_field.rs | 10 +++-------
 src/plugin/main_file.rs  |  5 +----
 3 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..75f2c56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,14 +144,6 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
-
-    pub fn extract_info(self) -> ResolveInfo {
-        match self {
-            ResolverStats::Resolving(info) => info,
-            ResolverStats::Error((_, info)) => info,
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..742f2ea 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -21,8 +21,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,10 +32,10 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
-                        main_field_info.with_target(main_field)
+                    let main_field_info = if main_field.starts_with("./") {
+                        info.clone().with_target(main_field)
                     } else {
-                        main_field_info.with_target(&format!("./{main_field}"))
+                        info.clone().with_target(&format!("./{main_field}"))
                     };
 
                     let stats = AliasFieldPlugin::new(self.pkg_info)
@@ -47,8 +45,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     if stats.is_success() {
                         return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
                     }
                 }
             }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 85a0789..a9b520b 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -18,9 +18,8 @@ impl<'a> MainFilePlugin<'a> {
 
 impl<'a> Plugin for MainFilePlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        let mut main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
         for main_file in &resolver.options.main_files {
-            main_file_info = main_file_info.with_target(&format!("./{main_file}"));
+            let main_file_info = info.clone().with_target(&format!("./{main_file}"));
             let stats = ExportsFieldPlugin::new(self.pkg_info)
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
@@ -28,8 +27,6 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .and_then(|info| resolver.resolve_as_file(info));
             if stats.is_success() {
                 return stats;
-            } else {
-                main_file_info = stats.extract_info();
             }
         }
         ResolverStats::Resolving(info)
-- 
2.43.0


From 68a6eeef73b49b3d33ed46d35242ddd9dc7d3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 03/42] fix: do not panic on a scope without a package name

---
 src/plugin/exports_field.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..0be4265 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -47,8 +47,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
+                    target.find('/').map_or(&**target, |index| &target[index + 1..])
                 } else {
                     target
                 }
-- 
2.43.0


From 8adecf0baf3f29235816ae25b86db2b34e391c37 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 04/42] fix: split the package name of a non-ASCII request at a
 byte index

---
 src/resolve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 34ab843..801c49a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -51,8 +51,7 @@ impl Resolver {
             // join request part
             let has_namespace_scope = target.starts_with('@');
             let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
+                .char_indices()
                 .filter(|(_, char)| '/'.eq(char))
                 .map(|(index, _)| index)
                 .collect();
-- 
2.43.0


From b4d17296b82ca4fe81b03d3386e0cfe02c2db6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 05/42] fix: do not panic on a browser entry that is true

---
 src/description.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 416468d..5b0d0db 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -58,8 +58,9 @@ impl Resolver {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
                     if let Some(b) = value.as_bool() {
-                        assert!(!b);
-                        alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        if !b {
+                            alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        }
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
                     }
-- 
2.43.0


From 113fb90e13fb0815b797431b50e1ecbcc5ddad21 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 06/42] fix: keep the imports tree out of the exports cache

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 5b0d0db..4582528 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -91,7 +91,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From 7f714ac9119e672a2936f64ab07449b68a9a308b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 07/42] fix: substitute the matched part of a pattern unchanged
 when it contains a dollar sign

---
 src/map.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 8122f31..ee788d1 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -149,8 +149,7 @@ pub trait Field {
                 (false, true) => Err(format!("Expected {target} is file mapping")),
                 (false, false) => {
                     let request = remaining_request.as_ref().unwrap();
-                    let to = &request.replace('$', "$$");
-                    Ok(target.replace('*', to))
+                    Ok(target.replace('*', request))
                 }
             }
         } else if !is_folder {
-- 
2.43.0


From f2a4f433ca961a7150bac609e415e7b62cca3037 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 08/42] fix: do not panic on null or malformed values in
 exports and imports

---
 src/description.rs |  4 ++--
 src/map.rs         | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 4582528..df063b1 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -68,7 +68,7 @@ impl Resolver {
             }
         }
 
-        let exports_field_tree = if let Some(value) = json.get("exports") {
+        let exports_field_tree = if let Some(value) = json.get("exports").filter(|value| !value.is_null()) {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/exports to hash key failed", file_path.display())
             });
@@ -83,7 +83,7 @@ impl Resolver {
             None
         };
 
-        let imports_field_tree = if let Some(value) = json.get("imports") {
+        let imports_field_tree = if let Some(value) = json.get("imports").filter(|value| !value.is_null()) {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/imports to hash key failed", file_path.display())
             });
diff --git a/src/map.rs b/src/map.rs
index ee788d1..f089b09 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -119,7 +119,8 @@ pub trait Field {
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        MappingValue::Array(nested) if item.is_null() => temp.extend(nested),
+                        _ => return Err(format!("Nested array mapping {item} is not allowed")),
                     }
                 }
                 MappingValue::Array(temp)
@@ -131,7 +132,9 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            // `null` marks a path that has no target.
+            serde_json::Value::Null => MappingValue::Array(vec![]),
+            value => return Err(format!("Unexpected mapping value {value}")),
         };
         Ok(result)
     }
@@ -361,7 +364,11 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => {
+                return Err(format!(
+                    "Imports field should be an object, but got {imports_field_value}"
+                ))
+            }
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From 37b0a5591c1b35593db712be33785b9f2d15ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 09/42] fix: do not let an empty segment lead a mapped target
 out of the package

---
 src/map.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index f089b09..ff8711e 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -81,23 +81,18 @@ pub struct PathTreeNode {
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
     fn check_target(relative_path: &str) -> bool {
-        let relative_path = relative_path.chars().collect::<Vec<char>>();
-        let slash_index_list = PathTreeNode::get_next_list(&relative_path, '/');
-        let mut last_non_slash_index = 0;
         let mut cd = 0;
-        while let Some(&Some(slash_index)) = slash_index_list.get(last_non_slash_index) {
-            if relative_path[last_non_slash_index] == '.'
-                && relative_path[last_non_slash_index + 1] == '.'
-            {
-                cd -= 1;
-                if cd < 0 {
-                    return false;
+        for segment in relative_path.split('/') {
+            match segment {
+                "" | "." => (),
+                ".." => {
+                    cd -= 1;
+                    if cd < 0 {
+                        return false;
+                    }
                 }
-            } else if relative_path[last_non_slash_index] == '.' {
-            } else {
-                cd += 1;
+                _ => cd += 1,
             }
-            last_non_slash_index = slash_index + 1;
         }
         true
     }
-- 
2.43.0


From b1f31db4ef6b42268f7476e2c0b0d2f70b1c7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 10/42] fix: take the matched part of a nested or non-ASCII
 exports key from the right place

---
 src/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index ff8711e..65ea6a2 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -423,7 +423,7 @@ impl PathTreeNode {
         if let Some(map) = &node.wildcards {
             for (key, target) in map {
                 if remaining_request.starts_with(key) {
-                    let index = (last_non_slash_index + key.len()) as i32;
+                    let index = (last_non_slash_index + key.chars().count()) as i32;
                     if last_folder_match.is_none() || last_folder_match.unwrap().1 < index {
                         last_folder_match = Some((target, index));
                     }
@@ -487,7 +487,7 @@ impl PathTreeNode {
             .iter()
             .collect::<String>();
             if let Some(value) = node.files.get(&remaining_request) {
-                Some((value, (remaining_request.len() + 1) as i32))
+                Some((value, (request.len() + 1) as i32))
             } else {
                 Self::apply_wildcard_mappings(
                     Self::apply_folder_mapping(last_folder_match, node, last_non_slash_index),
-- 
2.43.0


From aad373d212fbb9c2e067b8db664720221fb1a66c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 11/42] fix: match a self reference on the whole package name

---
 src/plugin/exports_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 0be4265..482c57a 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -25,8 +25,8 @@ impl<'a> ExportsFieldPlugin<'a> {
         pkg_info
             .name
             .as_ref()
-            .map(|pkg_name| info.request.target.starts_with(pkg_name))
-            .map_or(false, |ans| ans)
+            .and_then(|pkg_name| info.request.target.strip_prefix(&**pkg_name))
+            .map_or(false, |rest| rest.is_empty() || rest.starts_with('/'))
     }
 }
 
-- 
2.43.0


From 02d48ec46f940a00901857d86bb6bbaf78e8be49 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 12/42] fix: stop at a cycle in the browser field

---
 src/plugin/alias_field.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..97c5469 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -14,19 +14,21 @@ impl<'a> AliasFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    pub(super) fn deal_with_alias_fields_recursive(
+    pub(super) fn deal_with_alias_fields_recursive<'b>(
         &self,
-        target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        target: &'b AliasMap,
+        alias_fields: &'b HashMap<String, AliasMap>,
+        visited: &mut Vec<&'b str>,
     ) -> AliasMap {
         match target {
-            AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
-                } else {
-                    AliasMap::Target(target.clone())
+            AliasMap::Target(target) => match alias_fields.get(target) {
+                // `visited` stops at the first target that appears twice.
+                Some(next) if !visited.contains(&target.as_str()) => {
+                    visited.push(target);
+                    self.deal_with_alias_fields_recursive(next, alias_fields, visited)
                 }
-            }
+                _ => AliasMap::Target(target.clone()),
+            },
             AliasMap::Ignored => AliasMap::Ignored,
         }
     }
@@ -69,9 +71,11 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                     ),
                 };
                 if should_deal_alias {
-                    return match self
-                        .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
-                    {
+                    return match self.deal_with_alias_fields_recursive(
+                        alias_target,
+                        &pkg_info.alias_fields,
+                        &mut vec![],
+                    ) {
                         AliasMap::Target(converted) => ResolverStats::Resolving(
                             info.with_path(pkg_info.abs_dir_path.to_path_buf())
                                 .with_target(&converted),
-- 
2.43.0


From 5845a2c35a461022785dfac02035999424c47222 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 13/42] fix: stop at a cycle of alias options

---
 src/lib.rs                    | 14 ++++++++++++--
 src/parse.rs                  |  8 ++++++++
 src/plugin/alias.rs           |  7 +++++--
 src/plugin/prefer_relative.rs |  2 +-
 src/utils.rs                  |  4 ++++
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 75f2c56..df5f964 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,7 +68,7 @@ use std::{
     sync::Arc,
 };
 
-use crate::utils::RAISE_RESOLVE_ERROR_TAG;
+use crate::utils::{MAX_DEPTH, RAISE_RECURSION_ERROR_TAG, RAISE_RESOLVE_ERROR_TAG};
 
 #[derive(Default, Debug)]
 pub struct Resolver {
@@ -144,6 +144,10 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
+
+    pub fn is_recursion(&self) -> bool {
+        matches!(self, ResolverStats::Error((err, _)) if err.eq(RAISE_RECURSION_ERROR_TAG))
+    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
@@ -204,6 +208,10 @@ impl Resolver {
 
     #[tracing::instrument]
     fn _resolve(&self, info: ResolveInfo) -> ResolverStats {
+        let depth = info.request.depth;
+        if depth > MAX_DEPTH {
+            return ResolverStats::Error((RAISE_RECURSION_ERROR_TAG.to_string(), info));
+        }
         let resolve_err_msg = Self::raise_resolve_failed_message(&info);
         let stats = AliasPlugin::default()
             .apply(self, info)
@@ -237,7 +245,9 @@ impl Resolver {
         match stats {
             ResolverStats::Success(result) => ResolverStats::Success(result),
             ResolverStats::Error((err_msg, info)) => {
-                let err_msg = if err_msg.eq(RAISE_RESOLVE_ERROR_TAG) {
+                let err_msg = if err_msg.eq(RAISE_RESOLVE_ERROR_TAG)
+                    || (depth == 0 && err_msg.eq(RAISE_RECURSION_ERROR_TAG))
+                {
                     resolve_err_msg
                 } else {
                     err_msg
diff --git a/src/parse.rs b/src/parse.rs
index a03f701..a9f9f15 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -9,6 +9,8 @@ pub struct Request {
     pub query: SmolStr,
     pub fragment: SmolStr,
     pub(crate) kind: PathKind,
+    /// How many mappings led to this request.
+    pub(crate) depth: usize,
 }
 
 impl std::fmt::Display for Request {
@@ -24,6 +26,7 @@ impl Request {
             query: "".into(),
             fragment: "".into(),
             kind: PathKind::Relative,
+            depth: 0,
         }
     }
 
@@ -66,6 +69,10 @@ impl Request {
         (target, query, fragment)
     }
 
+    pub(crate) fn with_depth(self, depth: usize) -> Self {
+        Self { depth, ..self }
+    }
+
     pub(crate) fn with_target(self, target: &str) -> Self {
         Self {
             kind: Resolver::get_target_kind(target),
@@ -83,6 +90,7 @@ impl Resolver {
             target: target.into(),
             query: query.into(),
             fragment: fragment.into(),
+            depth: 0,
         }
     }
 }
diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..721e6a3 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -24,10 +24,13 @@ impl Plugin for AliasPlugin {
                         let normalized_target = inner_target.replacen(from, to, 1);
                         let alias_info = ResolveInfo::from(
                             info.path.to_path_buf(),
-                            info.request.clone().with_target(&normalized_target),
+                            info.request
+                                .clone()
+                                .with_target(&normalized_target)
+                                .with_depth(info.request.depth + 1),
                         );
                         let stats = resolver._resolve(alias_info);
-                        if stats.is_success() {
+                        if stats.is_success() || stats.is_recursion() {
                             return stats;
                         }
                     }
diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 60c2351..03a27eb 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -17,7 +17,7 @@ impl Plugin for PreferRelativePlugin {
                 info.request.clone().with_target(&target),
             );
             let stats = resolver._resolve(info);
-            if stats.is_success() {
+            if stats.is_success() || stats.is_recursion() {
                 return stats;
             }
         }
diff --git a/src/utils.rs b/src/utils.rs
index c3f12d2..ba648ee 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,10 @@ use std::path::{Path, PathBuf};
 use crate::{ResolveInfo, Resolver};
 
 pub static RAISE_RESOLVE_ERROR_TAG: &str = "T0";
+/// Unlike `RAISE_RESOLVE_ERROR_TAG`, it ends the search: no other candidate is tried.
+pub static RAISE_RECURSION_ERROR_TAG: &str = "T1";
+/// A request reached through more mappings than this is in a cycle.
+pub static MAX_DEPTH: usize = 32;
 
 impl Resolver {
     pub(super) fn raise_tag() -> String {
-- 
2.43.0


From bbdbfd60fb15d8bbc12e89a0d75c5a50fcf15919 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 14/42] fix: stop at a cycle in the imports field

---
 src/plugin/exports_field.rs | 2 +-
 src/plugin/imports_field.rs | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 482c57a..3c52c79 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -89,7 +89,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
             };
 
             for item in list {
-                let request = resolver.parse(&item);
+                let request = resolver.parse(&item).with_depth(info.request.depth);
                 let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if info.get_path().is_file() && ExportsField::check_target(&info.request.target) {
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..2481af7 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -5,6 +5,7 @@ use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODU
 use super::{AliasFieldPlugin, Plugin};
 use crate::{
     map::{Field, ImportsField},
+    utils::{MAX_DEPTH, RAISE_RECURSION_ERROR_TAG},
     PathKind, ResolveInfo, ResolverStats,
 };
 
@@ -44,7 +45,10 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
             };
 
             if let Some(item) = list.first() {
-                let request = resolver.parse(item);
+                if info.request.depth > MAX_DEPTH {
+                    return ResolverStats::Error((RAISE_RECURSION_ERROR_TAG.to_string(), info));
+                }
+                let request = resolver.parse(item).with_depth(info.request.depth + 1);
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(
-- 
2.43.0


From 54e2092c3adc4dfb055c7c1645b2975af31d5525 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 15/42] fix: stop at a cycle of main fields

---
 src/plugin/main_field.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index 742f2ea..f0bcf0c 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -1,6 +1,10 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, Resolver};
+use crate::{
+    description::PkgFileInfo,
+    utils::{MAX_DEPTH, RAISE_RECURSION_ERROR_TAG},
+    Resolver,
+};
 
 use super::{AliasFieldPlugin, Plugin, ResolveInfo, ResolverStats};
 
@@ -27,23 +31,28 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                     .get(&user_main_field)
                     .and_then(|value| value.as_str())
                 {
-                    if main_field == "." || main_field == "./" {
+                    if info.path.join(format!("./{main_field}")) == info.path {
                         // if it pointed to itself.
                         break;
                     }
 
-                    let main_field_info = if main_field.starts_with("./") {
+                    if info.request.depth > MAX_DEPTH {
+                        return ResolverStats::Error((RAISE_RECURSION_ERROR_TAG.to_string(), info));
+                    }
+                    let mut main_field_info = if main_field.starts_with("./") {
                         info.clone().with_target(main_field)
                     } else {
                         info.clone().with_target(&format!("./{main_field}"))
                     };
 
+                    main_field_info.request.depth += 1;
+
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
                         .and_then(|info| resolver.resolve_as_file(info))
                         .and_then(|info| resolver.resolve_as_dir(info));
 
-                    if stats.is_success() {
+                    if stats.is_success() || stats.is_recursion() {
                         return stats;
                     }
                 }
-- 
2.43.0


From aecaa48b8c748232292c23341dcb3c06a1f050d7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 16/42] fix: report a tsconfig that extends itself

---
 src/tsconfig.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..d93ee0d 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -1,6 +1,6 @@
 // copy from https://github.com/drivasperez/tsconfig
 
-use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
+use crate::{utils::MAX_DEPTH, RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
 use std::collections::HashMap;
 use std::fs::read_to_string;
 use std::path::Path;
@@ -19,7 +19,7 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver)?;
+        let json = parse_file_to_value(location, resolver, 0)?;
         let compiler_options = json.get("compilerOptions").map(|options| {
             // TODO: should optimized
             let base_url = options
@@ -50,7 +50,14 @@ impl TsConfig {
     }
 }
 
-fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
+fn parse_file_to_value(
+    location: &Path,
+    resolver: &Resolver,
+    depth: usize,
+) -> RResult<serde_json::Value> {
+    if depth > MAX_DEPTH {
+        return Err(format!("Parse {} failed. It extends itself", location.display()));
+    }
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
@@ -65,7 +72,7 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
             let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver),
+                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver, depth + 1),
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
-- 
2.43.0


From 6fbcccaed33552665c3fcf682bc81b99620d70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 17/42] fix: report a malformed tsconfig instead of panicking

---
 src/tsconfig.rs | 53 +++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index d93ee0d..aa9d171 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -20,28 +20,37 @@ pub struct CompilerOptions {
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
         let json = parse_file_to_value(location, resolver, 0)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
-            // TODO: should optimized
-            let base_url = options
-                .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
-                let mut map = HashMap::new();
+        let unexpected = |key: &str| format!("{key} in {} had unexpected value", location.display());
+        let compiler_options = match json.get("compilerOptions") {
+            Some(options) => {
                 // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
-                    map.insert(
-                        key.to_string(),
-                        obj.as_array()
-                            .unwrap()
-                            .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
-                    );
-                }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+                let base_url = match options.get("baseUrl") {
+                    Some(v) => Some(v.as_str().ok_or_else(|| unexpected("baseUrl"))?.to_string()),
+                    None => None,
+                };
+                let paths = match options.get("paths") {
+                    Some(v) => {
+                        let mut map = HashMap::new();
+                        // TODO: should optimized
+                        for (key, obj) in v.as_object().ok_or_else(|| unexpected("paths"))? {
+                            let list = obj
+                                .as_array()
+                                .and_then(|list| {
+                                    list.iter()
+                                        .map(|v| v.as_str().map(String::from))
+                                        .collect::<Option<Vec<String>>>()
+                                })
+                                .ok_or_else(|| unexpected("paths"))?;
+                            map.insert(key.to_string(), list);
+                        }
+                        Some(map)
+                    }
+                    None => None,
+                };
+                Some(CompilerOptions { base_url, paths })
+            }
+            None => None,
+        };
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -62,7 +71,7 @@ fn parse_file_to_value(
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Transfer {} to serde value failed", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
-- 
2.43.0


From b192f771e16656d03ab8c625a7fd4257375bbdeb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 18/42] fix: match a non-ASCII request against tsconfig paths
 without slicing inside a character

---
 src/tsconfig_path.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..d2adf58 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -58,14 +58,7 @@ impl Resolver {
         pattern.find(|c| c == '*').and_then(|star_index| {
             let part1 = &pattern[..star_index];
             let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
-                return None;
-            }
-            if &search[search.len() - part2.len()..] != part2 {
-                return None;
-            }
-            let len = search.len() - part2.len() - part1.len();
-            Some(&search[star_index..star_index + len])
+            search.strip_prefix(part1)?.strip_suffix(part2)
         })
     }
 
-- 
2.43.0


From a3d25d9d37067e6a68155a20a504e48b9051570e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 19/42] fix: try tsconfig paths in a fixed order, most specific
 first

---
 src/tsconfig_path.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index d2adf58..1bee895 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -74,10 +74,20 @@ impl Resolver {
         } else {
             return vec![];
         };
-        paths
+        let mut entries = paths
             .as_ref()
             .map(|paths| Self::get_absolute_mapping_entries(&absolute_base_url, paths))
-            .unwrap_or_default()
+            .unwrap_or_default();
+        // An exact pattern comes first, then the one with the longest prefix before `*`.
+        entries.sort_by_key(|entry| {
+            let star_index = entry.pattern.find('*');
+            (
+                star_index.is_some(),
+                std::cmp::Reverse(star_index),
+                entry.pattern.clone(),
+            )
+        });
+        entries
     }
 
     pub(super) fn _resolve_with_tsconfig(
-- 
2.43.0


From dba9b30e7be19c8905ffbee3db1233ce5c335733 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 20/42] fix: match browser field entries in the order they are
 written

---
 src/description.rs        | 6 +++---
 src/plugin/alias_field.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index df063b1..918dbe9 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -17,7 +17,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -52,7 +52,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 97c5469..4c1564b 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
+use indexmap::IndexMap;
+use std::path::PathBuf;
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -17,7 +18,7 @@ impl<'a> AliasFieldPlugin<'a> {
     pub(super) fn deal_with_alias_fields_recursive<'b>(
         &self,
         target: &'b AliasMap,
-        alias_fields: &'b HashMap<String, AliasMap>,
+        alias_fields: &'b IndexMap<String, AliasMap>,
         visited: &mut Vec<&'b str>,
     ) -> AliasMap {
         match target {
-- 
2.43.0


From 0265b1604b25403d6f683e2c379a8365d6cc1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 21/42] fix: keep the query and fragment of a request mapped by
 tsconfig paths

---
 src/tsconfig_path.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 1bee895..1e0e954 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -119,7 +119,12 @@ impl Resolver {
                     .replace('*', star_match);
 
                 let path = PathBuf::from(physical_path);
-                let result = self._resolve(ResolveInfo::from(path, Request::empty()));
+                let request = Request {
+                    query: info.request.query.clone(),
+                    fragment: info.request.fragment.clone(),
+                    ..Request::empty()
+                };
+                let result = self._resolve(ResolveInfo::from(path, request));
                 if result.is_success() {
                     return result;
                 }
-- 
2.43.0


From 299b3edf1376a5461469143ceec9c54da27049ec Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 22/42] fix: apply prefer_relative to bare requests only

---
 src/plugin/prefer_relative.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 03a27eb..556edc6 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -1,4 +1,4 @@
-use crate::Resolver;
+use crate::{kind::PathKind, Resolver};
 
 use super::{Plugin, ResolveInfo, ResolverStats};
 #[derive(Default)]
@@ -6,7 +6,7 @@ pub struct PreferRelativePlugin;
 
 impl Plugin for PreferRelativePlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        if info.request.target.starts_with("../") || info.request.target.starts_with("./") {
+        if !info.request.kind.eq(&PathKind::Normal) {
             return ResolverStats::Resolving(info);
         }
 
-- 
2.43.0


From 4e477d9fa349d8553d054e9bf2cba289d4ca947d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 23/42] fix: keep the query and fragment of a request mapped by
 the imports field

---
 src/plugin/imports_field.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 2481af7..1f9a0f8 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -48,7 +48,11 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 if info.request.depth > MAX_DEPTH {
                     return ResolverStats::Error((RAISE_RECURSION_ERROR_TAG.to_string(), info));
                 }
-                let request = resolver.parse(item).with_depth(info.request.depth + 1);
+                let mut request = resolver.parse(item).with_depth(info.request.depth + 1);
+                if request.query.is_empty() && request.fragment.is_empty() {
+                    request.query = info.request.query.clone();
+                    request.fragment = info.request.fragment.clone();
+                }
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(
-- 
2.43.0


From 54109408d7ab521e635a14ca0af1e386ec052803 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 24/42] fix: resolve an imports target that names a package
 like any other package

---
 src/plugin/imports_field.rs | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 1f9a0f8..821fb3e 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,8 +1,8 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODULE};
+use crate::{description::PkgFileInfo, Resolver};
 
-use super::{AliasFieldPlugin, Plugin};
+use super::Plugin;
 use crate::{
     map::{Field, ImportsField},
     utils::{MAX_DEPTH, RAISE_RECURSION_ERROR_TAG},
@@ -55,33 +55,11 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 }
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
-                let info = ResolveInfo::from(
-                    if is_normal_kind {
-                        pkg_info.abs_dir_path.join(MODULE)
-                    } else {
-                        pkg_info.abs_dir_path.to_path_buf()
-                    },
-                    request,
-                );
+                let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if is_normal_kind {
-                    let path = info.get_path();
-                    // TODO: should optimized
-                    let pkg_info = match resolver.load_pkg_file(&path) {
-                        Ok(info) => info,
-                        Err(err) => return ResolverStats::Error((err, info)),
-                    };
-                    if let Some(ref pkg_info) = pkg_info {
-                        if !pkg_info.abs_dir_path.display().to_string().contains(MODULE) {
-                            return ResolverStats::Resolving(info);
-                        }
-                    }
-
-                    ExportsFieldPlugin::new(&pkg_info)
-                        .apply(resolver, info)
-                        .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| ImportsFieldPlugin::check_target(info, target))
+                    // it is resolved as modules by the caller.
+                    ResolverStats::Resolving(info)
                 } else if is_internal_kind {
                     self.apply(resolver, info)
                 } else {
-- 
2.43.0


From a3ca6152ae09263a0c8d31a539bd94804326ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 25/42] fix: do not apply the exports of an enclosing package
 to a directory in node_modules

---
 src/plugin/exports_field.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 3c52c79..160d5c6 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, kind::PathKind, Resolver, MODULE};
+use crate::{description::PkgFileInfo, kind::PathKind, Resolver};
 
 use super::Plugin;
 use crate::{
@@ -17,8 +17,9 @@ impl<'a> ExportsFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    fn is_in_module(&self, pkg_info: &PkgFileInfo) -> bool {
-        pkg_info.abs_dir_path.to_string_lossy().contains(MODULE)
+    /// `info.path` is the `node_modules` directory that is searched.
+    fn is_in_module(&self, pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
+        pkg_info.abs_dir_path.starts_with(&info.path)
     }
 
     pub(crate) fn is_resolve_self(pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
@@ -39,7 +40,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            if !self.is_in_module(pkg_info) && !Self::is_resolve_self(pkg_info, &info) {
+            if !self.is_in_module(pkg_info, &info) && !Self::is_resolve_self(pkg_info, &info) {
                 return ResolverStats::Resolving(info);
             }
 
-- 
2.43.0


From b5a398ae439c64456449f95abdc46a643b19ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 26/42] fix: apply the exports of a package to subpaths below a
 nested package.json

---
 src/resolve.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 801c49a..95d7c2a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -65,7 +65,12 @@ impl Resolver {
             let module_path = module_root_path.join(&*module_name);
 
             let module_info = ResolveInfo::from(module_root_path, info.request.clone());
-            let pkg_info = match self.load_pkg_file(&module_info.path.join(&**target)) {
+            let pkg_info = match self.load_pkg_file(&module_path) {
+                Ok(pkg_info) => pkg_info,
+                Err(err) => return ResolverStats::Error((err, info)),
+            };
+            // it maybe a package nested in `module_path`
+            let nested_pkg_info = match self.load_pkg_file(&module_info.path.join(&**target)) {
                 Ok(pkg_info) => pkg_info,
                 Err(err) => return ResolverStats::Error((err, info)),
             };
@@ -91,7 +96,7 @@ impl Resolver {
                             info
                         };
 
-                        AliasFieldPlugin::new(&pkg_info).apply(self, info)
+                        AliasFieldPlugin::new(&nested_pkg_info).apply(self, info)
                     })
                     .and_then(|info| self.resolve_as_file(info))
                     .and_then(|info| self.resolve_as_dir(info));
-- 
2.43.0


From 13627a3e45d1f4b1e3937b8d31ba3effcbd2c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 27/42] fix: apply alias below a directory whose name only
 contains node_modules

---
 src/plugin/alias.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 721e6a3..d319de6 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -9,7 +9,7 @@ pub struct AliasPlugin;
 impl Plugin for AliasPlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
         let inner_target = &info.request.target;
-        if info.path.display().to_string().contains(MODULE) {
+        if info.path.iter().any(|name| name == MODULE) {
             return ResolverStats::Resolving(info);
         }
         for (from, to) in &resolver.options.alias {
-- 
2.43.0


From 69bdfed97d2e76b0fcf26f58cde5017f9ed0f19d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 28/42] fix: allow a description file to be parsed twice

The debug assertion that forbids it fails when two threads load the same
file at once, when a malformed file is loaded again, and when another
resolver shares the cache.
---
 src/cache.rs       | 19 -------------------
 src/description.rs | 19 -------------------
 src/lib.rs         |  7 -------
 3 files changed, 45 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 85e0c79..c1900a8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -11,22 +11,3 @@ pub struct ResolverCache {
     pub exports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
     pub imports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
 }
-
-#[cfg(debug_assertions)]
-#[derive(Default, Debug, Clone)]
-pub(crate) struct DebugReadMap(DashMap<PathBuf, bool>);
-
-#[cfg(debug_assertions)]
-impl DebugReadMap {
-    pub(crate) fn remove(&self, path: &std::path::Path) {
-        self.0.remove(path);
-    }
-
-    pub(crate) fn contains_key(&self, path: &std::path::Path) -> bool {
-        self.0.contains_key(path)
-    }
-
-    pub(crate) fn insert(&self, path: &std::path::Path, value: bool) {
-        self.0.insert(path.to_path_buf(), value);
-    }
-}
diff --git a/src/description.rs b/src/description.rs
index 918dbe9..90568d5 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -27,20 +27,6 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        #[cfg(debug_assertions)]
-        {
-            // ensure that the same package.json is not parsed twice
-            if self.dbg_read_map.contains_key(&file_path) {
-                println!("{:?}", self.cache.file_dir_to_pkg_info);
-                println!("{:?}", self.dbg_read_map);
-                panic!(
-                    "Had try to parse same package.json, {}",
-                    file_path.display()
-                )
-            }
-            self.dbg_read_map.insert(&file_path, true);
-        }
-
         let str = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
@@ -184,11 +170,6 @@ impl Resolver {
                 // and not modified, then return
                 return Ok(r#ref.clone());
             } else {
-                #[cfg(debug_assertions)]
-                {
-                    self.dbg_read_map.remove(&description_file_path);
-                }
-
                 false
             }
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index df5f964..2839c47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,9 +54,6 @@ mod tsconfig;
 mod tsconfig_path;
 mod utils;
 
-#[cfg(debug_assertions)]
-use cache::DebugReadMap;
-
 pub use cache::ResolverCache;
 pub use description::SideEffects;
 use kind::PathKind;
@@ -75,8 +72,6 @@ pub struct Resolver {
     pub options: ResolverOptions,
     cache: Arc<ResolverCache>,
     fs: fs::CacheFile,
-    #[cfg(debug_assertions)]
-    dbg_read_map: DebugReadMap,
 }
 
 pub type ResolverError = String;
@@ -175,8 +170,6 @@ impl Resolver {
             fs,
             cache,
             options,
-            #[cfg(debug_assertions)]
-            dbg_read_map: Default::default(),
         }
     }
 
-- 
2.43.0


From 8b80043967c292b5158b625c928cd7795cd0de8d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 29/42] fix: notice that a description file was created or
 deleted

---
 src/description.rs | 40 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 90568d5..f28735d 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -164,42 +164,26 @@ impl Resolver {
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
-        let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        if !description_file_path.is_file() {
+            // it maybe had been deleted
+            self.cache.file_dir_to_pkg_info.remove(path);
+            // find the closest directory witch contains description file
+            return match Self::find_up(path, description_file_name) {
+                Some(target_dir) => self.load_pkg_file(&target_dir),
+                None => Ok(None),
+            };
+        }
+
+        if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
             // if pkg_info_cache contain this key
             if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
                 return Ok(r#ref.clone());
-            } else {
-                false
             }
-        } else {
-            !description_file_path.is_file()
-        };
+        }
 
         // pkg_info_cache do **not** contain this key
         // or this file had modified
-        if need_find_up {
-            // find the closest directory witch contains description file
-            if let Some(target_dir) = Self::find_up(path, description_file_name) {
-                return self.load_pkg_file(&target_dir);
-            } else {
-                // it means all paths during from the `path` to root pointed None.
-                // cache it
-                let mut path = path;
-                loop {
-                    if path.is_dir() {
-                        self.cache
-                            .file_dir_to_pkg_info
-                            .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
-                    }
-                }
-            }
-        }
-
         let pkg_info = Some(Arc::new(
             self.parse_description_file(path, description_file_path)?,
         ));
-- 
2.43.0


From 3198775c142bdde18eecd0811baae0815e3208da Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 30/42] fix: keep the modified time with the description it
 belongs to

It was kept per resolver and updated before the content was parsed: a
malformed file left the previous description looking fresh, a write
between the read and the stat or two threads loading at once could leave
a stale one looking fresh, and a file that became older was an error for
good.
---
 src/description.rs | 20 +++++++++++++----
 src/fs.rs          | 53 +++++++++++++++++-----------------------------
 2 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index f28735d..37124fc 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -3,6 +3,7 @@ use crate::{AliasMap, RResult, Resolver};
 use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use std::time::SystemTime;
 
 #[derive(Clone, Debug)]
 pub enum SideEffects {
@@ -22,12 +23,14 @@ pub struct PkgFileInfo {
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
     pub raw: serde_json::Value,
+    /// The modified time of the description file when it was read.
+    pub(crate) last_modified: SystemTime,
 }
 
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        let str = tracing::debug_span!("read_to_string").in_scope(|| {
+        let (str, last_modified) = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
                 .map_err(|_| format!("Open {} failed", file_path.display()))
@@ -131,6 +134,7 @@ impl Resolver {
             imports_field_tree,
             side_effects,
             raw: json,
+            last_modified,
         })
     }
 
@@ -174,11 +178,19 @@ impl Resolver {
             };
         }
 
-        if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        let cached = self
+            .cache
+            .file_dir_to_pkg_info
+            .get(path)
+            .and_then(|info| info.clone());
+        if let Some(info) = cached {
             // if pkg_info_cache contain this key
-            if !self.fs.need_update(&description_file_path)? {
+            if !self
+                .fs
+                .need_update(&description_file_path, info.last_modified)?
+            {
                 // and not modified, then return
-                return Ok(r#ref.clone());
+                return Ok(Some(info));
             }
         }
 
diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..397fb24 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -1,9 +1,6 @@
-use dashmap::DashMap;
 use std::fmt::Debug;
 use std::fs;
 use std::path::Path;
-use std::path::PathBuf;
-use std::sync::Arc;
 use std::time;
 
 use crate::RResult;
@@ -11,7 +8,6 @@ use crate::RResult;
 #[derive(Default, Debug)]
 pub struct CacheFile {
     duration: time::Duration,
-    cached_file: DashMap<PathBuf, (Arc<String>, time::SystemTime)>,
 }
 
 impl CacheFile {
@@ -19,7 +15,6 @@ impl CacheFile {
     pub fn new(duration: u64) -> Self {
         CacheFile {
             duration: time::Duration::from_millis(duration),
-            cached_file: Default::default(),
         }
     }
 
@@ -32,37 +27,29 @@ impl CacheFile {
             .map_err(|_| format!("Get modified time of {} failed", path.as_ref().display()))
     }
 
+    /// `last_modified` belongs to the content that is in use.
     #[tracing::instrument]
-    pub fn need_update<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<bool> {
-        if !path.as_ref().is_file() {
-            // no  need update if `p` pointed file dose not exist
-            return Ok(false);
-        }
-        self.cached_file
-            .get(path.as_ref())
-            .map(|value| value.1)
-            .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
-                    .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
-                Ok(duration >= self.duration)
-            })
-            .map_or(Ok(true), |val| val)
+    pub fn need_update<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+        last_modified: time::SystemTime,
+    ) -> RResult<bool> {
+        Ok(Self::get_last_modified_time_from_file(path)?
+            .duration_since(last_modified)
+            // it is older than the content in use, so it had been replaced.
+            .map_or(true, |duration| duration >= self.duration))
     }
 
     #[tracing::instrument]
-    pub fn read_to_string<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<Arc<String>> {
-        let str = Arc::new(
-            fs::read_to_string(path.as_ref())
-                .map_err(|_| format!("Open {} failed", path.as_ref().display()))?,
-        );
-        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
-        self.cached_file.insert(
-            path.as_ref().to_path_buf(),
-            (str.clone(), last_modified_time),
-        );
-        Ok(str)
+    pub fn read_to_string<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+    ) -> RResult<(String, time::SystemTime)> {
+        // The time goes first: a write in between makes the content look older than it is,
+        // which leads to another read, rather than newer.
+        let last_modified = Self::get_last_modified_time_from_file(path.as_ref())?;
+        let str = fs::read_to_string(path.as_ref())
+            .map_err(|_| format!("Open {} failed", path.as_ref().display()))?;
+        Ok((str, last_modified))
     }
 }
-- 
2.43.0


From 4ef17f8e06fd6ff8725b2c4c0f934e7fc396d495 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 31/42] fix: do not take the description from another
 description file out of a shared cache

---
 src/description.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 37124fc..b6b5622 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -23,6 +23,8 @@ pub struct PkgFileInfo {
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
     pub raw: serde_json::Value,
+    /// The description file, resolvers that share a cache may use different names.
+    pub(crate) file_path: PathBuf,
     /// The modified time of the description file when it was read.
     pub(crate) last_modified: SystemTime,
 }
@@ -134,6 +136,7 @@ impl Resolver {
             imports_field_tree,
             side_effects,
             raw: json,
+            file_path,
             last_modified,
         })
     }
@@ -182,7 +185,8 @@ impl Resolver {
             .cache
             .file_dir_to_pkg_info
             .get(path)
-            .and_then(|info| info.clone());
+            .and_then(|info| info.clone())
+            .filter(|info| info.file_path == description_file_path);
         if let Some(info) = cached {
             // if pkg_info_cache contain this key
             if !self
-- 
2.43.0


From 483070179840797ab4ca287a363ee929fdc3fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 32/42] fix: apply the browser and imports fields of the
 importing package to an installed package

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2839c47..885527b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -211,7 +211,7 @@ impl Resolver {
             .and_then(|info| PreferRelativePlugin::default().apply(self, info))
             .and_then(|info| {
                 let request = if info.request.kind.eq(&PathKind::Normal) {
-                    info.path.join(MODULE).join(&*info.request.target)
+                    info.path.to_path_buf()
                 } else {
                     info.get_path()
                 };
-- 
2.43.0


From ff82d70d5de298a9aae7fa99c5800a1f1d655c69 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 33/42] fix: list assert/strict as a built-in module

---
 src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kind.rs b/src/kind.rs
index 102dbe3..b165bc9 100644
--- a/src/kind.rs
+++ b/src/kind.rs
@@ -29,7 +29,7 @@ const BUILT_IN_MODULE_SET: Set<&'static str> = phf_set! {
    "_tls_common",
    "_tls_wrap",
    "assert",
-   "assert/,strict",
+   "assert/strict",
    "async_hooks",
    "buffer",
    "child_process",
-- 
2.43.0


From fcc5ceea50d2dcbdb779f326142f7d98d752830c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 34/42] fix: stop at a cycle in the imports field whose target
 grows

---
 src/plugin/imports_field.rs | 6 +++++-
 src/utils.rs                | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 821fb3e..293d83c 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -5,7 +5,7 @@ use crate::{description::PkgFileInfo, Resolver};
 use super::Plugin;
 use crate::{
     map::{Field, ImportsField},
-    utils::{MAX_DEPTH, RAISE_RECURSION_ERROR_TAG},
+    utils::{MAX_DEPTH, MAX_TARGET_LEN, RAISE_RECURSION_ERROR_TAG},
     PathKind, ResolveInfo, ResolverStats,
 };
 
@@ -61,6 +61,10 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                     // it is resolved as modules by the caller.
                     ResolverStats::Resolving(info)
                 } else if is_internal_kind {
+                    if info.request.target.len() > MAX_TARGET_LEN {
+                        // a pattern that repeats its match grows exponentially.
+                        return ResolverStats::Error((RAISE_RECURSION_ERROR_TAG.to_string(), info));
+                    }
                     self.apply(resolver, info)
                 } else {
                     ImportsFieldPlugin::check_target(info, target)
diff --git a/src/utils.rs b/src/utils.rs
index ba648ee..32f2124 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -7,6 +7,8 @@ pub static RAISE_RESOLVE_ERROR_TAG: &str = "T0";
 pub static RAISE_RECURSION_ERROR_TAG: &str = "T1";
 /// A request reached through more mappings than this is in a cycle.
 pub static MAX_DEPTH: usize = 32;
+/// No path is longer, so a longer target of a cycle leads nowhere.
+pub static MAX_TARGET_LEN: usize = 4096;
 
 impl Resolver {
     pub(super) fn raise_tag() -> String {
-- 
2.43.0


From 0abc0857af8872704c2f7afb648800aac8c11919 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:24:14 +0000
Subject: [PATCH 35/42] fix: the number of mappings tried by one call is
 bounded

---
 src/lib.rs               |  5 +++--
 src/plugin/main_field.rs |  4 ++--
 src/utils.rs             | 25 ++++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 885527b..5f2ed7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -65,7 +65,7 @@ use std::{
     sync::Arc,
 };
 
-use crate::utils::{MAX_DEPTH, RAISE_RECURSION_ERROR_TAG, RAISE_RESOLVE_ERROR_TAG};
+use crate::utils::{RAISE_RECURSION_ERROR_TAG, RAISE_RESOLVE_ERROR_TAG};
 
 #[derive(Default, Debug)]
 pub struct Resolver {
@@ -176,6 +176,7 @@ impl Resolver {
     pub fn resolve(&self, path: &Path, request: &str) -> RResult<ResolveResult> {
         // let start = std::time::Instant::now();
         let info = ResolveInfo::from(path.to_path_buf(), self.parse(request));
+        Self::restart_steps();
 
         let result = if let Some(tsconfig_location) = self.options.tsconfig.as_ref() {
             self._resolve_with_tsconfig(info, tsconfig_location)
@@ -202,7 +203,7 @@ impl Resolver {
     #[tracing::instrument]
     fn _resolve(&self, info: ResolveInfo) -> ResolverStats {
         let depth = info.request.depth;
-        if depth > MAX_DEPTH {
+        if Self::is_exhausted(depth) {
             return ResolverStats::Error((RAISE_RECURSION_ERROR_TAG.to_string(), info));
         }
         let resolve_err_msg = Self::raise_resolve_failed_message(&info);
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index f0bcf0c..27f6e43 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use crate::{
     description::PkgFileInfo,
-    utils::{MAX_DEPTH, RAISE_RECURSION_ERROR_TAG},
+    utils::RAISE_RECURSION_ERROR_TAG,
     Resolver,
 };
 
@@ -36,7 +36,7 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    if info.request.depth > MAX_DEPTH {
+                    if Resolver::is_exhausted(info.request.depth) {
                         return ResolverStats::Error((RAISE_RECURSION_ERROR_TAG.to_string(), info));
                     }
                     let mut main_field_info = if main_field.starts_with("./") {
diff --git a/src/utils.rs b/src/utils.rs
index 32f2124..a43bc46 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,4 +1,7 @@
-use std::path::{Path, PathBuf};
+use std::{
+    cell::Cell,
+    path::{Path, PathBuf},
+};
 
 use crate::{ResolveInfo, Resolver};
 
@@ -9,6 +12,13 @@ pub static RAISE_RECURSION_ERROR_TAG: &str = "T1";
 pub static MAX_DEPTH: usize = 32;
 /// No path is longer, so a longer target of a cycle leads nowhere.
 pub static MAX_TARGET_LEN: usize = 4096;
+/// Within `MAX_DEPTH`, mappings with several candidates each lead to exponentially many requests.
+pub static MAX_STEPS: usize = 10_000;
+
+thread_local! {
+    /// How many mappings were tried in the present call.
+    static STEPS: Cell<usize> = Cell::new(0);
+}
 
 impl Resolver {
     pub(super) fn raise_tag() -> String {
@@ -23,6 +33,19 @@ impl Resolver {
         )
     }
 
+    pub(super) fn restart_steps() {
+        STEPS.with(|steps| steps.set(0));
+    }
+
+    /// Whether one more mapping, reached through `depth` others, is too much.
+    pub(super) fn is_exhausted(depth: usize) -> bool {
+        let steps = STEPS.with(|steps| {
+            steps.set(steps.get() + 1);
+            steps.get()
+        });
+        depth > MAX_DEPTH || steps > MAX_STEPS
+    }
+
     pub(super) fn find_up(now_dir: &Path, file_name: &str) -> Option<PathBuf> {
         let path = now_dir.join(file_name);
         if path.is_file() {
-- 
2.43.0


From 28ad2bb1a2f63efce411a0b9bcefcbfe7c6d4017 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:46:07 +0000
Subject: [PATCH 36/42] fix: a star in the name of the base directory of a
 tsconfig stands for itself

---
 src/tsconfig_path.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 1e0e954..2804d34 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -102,6 +102,13 @@ impl Resolver {
         let absolute_path_mappings =
             Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths);
 
+        let absolute_base_url = location
+            .parent()
+            .unwrap()
+            .join(tsconfig.base_url.as_deref().unwrap_or_default())
+            .display()
+            .to_string();
+
         for entry in absolute_path_mappings {
             let star_match = if entry.pattern == info.request.target {
                 ""
@@ -113,12 +120,13 @@ impl Resolver {
             };
 
             for physical_path_pattern in &entry.paths {
-                let physical_path = &physical_path_pattern
-                    .display()
-                    .to_string()
-                    .replace('*', star_match);
-
-                let path = PathBuf::from(physical_path);
+                let physical_path = physical_path_pattern.display().to_string();
+                // a `*` in the name of the base directory stands for itself
+                let (base, rest) = match physical_path.strip_prefix(&absolute_base_url) {
+                    Some(rest) => (absolute_base_url.as_str(), rest),
+                    None => ("", physical_path.as_str()),
+                };
+                let path = PathBuf::from(format!("{base}{}", rest.replace('*', star_match)));
                 let request = Request {
                     query: info.request.query.clone(),
                     fragment: info.request.fragment.clone(),
-- 
2.43.0


From a841ca1798548fdfe319aee8e9ac8ae56b52dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:52:52 +0000
Subject: [PATCH 37/42] fix: paths that are not UTF-8 keep their bytes

---
 src/lib.rs           |  9 +++------
 src/normalize.rs     | 16 +++++++---------
 src/resolve.rs       |  4 +++-
 src/tsconfig_path.rs | 17 +++++++++--------
 4 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f2ed7b..96794ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,12 +105,9 @@ impl ResolveInfo {
     }
 
     pub fn join(&self) -> PathBuf {
-        let buf = format!(
-            "{}{}{}",
-            self.path.display(),
-            self.request.query,
-            self.request.fragment,
-        );
+        let mut buf = self.path.as_os_str().to_os_string();
+        buf.push(self.request.query.as_str());
+        buf.push(self.request.fragment.as_str());
         PathBuf::from(buf)
     }
 }
diff --git a/src/normalize.rs b/src/normalize.rs
index 018324b..cb20381 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -4,20 +4,18 @@ use crate::{RResult, ResolveResult, Resolver};
 
 impl Resolver {
     #[cfg(not(target_os = "windows"))]
-    fn adjust(p: PathBuf) -> String {
-        p.display().to_string()
+    fn adjust(p: PathBuf) -> PathBuf {
+        p
     }
 
     /// Eliminate `\\?\` prefix in windows.
     /// reference: https://stackoverflow.com/questions/41233684/why-does-my-canonicalized-path-get-prefixed-with
     #[cfg(target_os = "windows")]
-    fn adjust(p: PathBuf) -> String {
+    fn adjust(p: PathBuf) -> PathBuf {
         const VERBATIM_PREFIX: &str = r#"\\?\"#;
-        let p = p.display().to_string();
-        if p.starts_with(VERBATIM_PREFIX) {
-            p[VERBATIM_PREFIX.len()..].to_string()
-        } else {
-            p
+        match p.to_str().and_then(|p| p.strip_prefix(VERBATIM_PREFIX)) {
+            Some(stripped) => PathBuf::from(stripped),
+            None => p,
         }
     }
 
@@ -41,7 +39,7 @@ impl Resolver {
         if self.options.symlinks {
             Path::canonicalize(path)
                 .map_err(|_| "Path normalized failed".to_string())
-                .map(|result| PathBuf::from(Self::adjust(result)))
+                .map(Self::adjust)
         } else {
             Ok(Self::normalize_path_without_link(path))
         }
diff --git a/src/resolve.rs b/src/resolve.rs
index 95d7c2a..c32f1bd 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -11,7 +11,9 @@ use crate::{PathKind, ResolveInfo, ResolveResult, Resolver, ResolverStats, MODUL
 
 impl Resolver {
     pub(crate) fn append_ext_for_path(path: &Path, ext: &str) -> PathBuf {
-        PathBuf::from(&format!("{}{ext}", path.display()))
+        let mut path = path.as_os_str().to_os_string();
+        path.push(ext);
+        PathBuf::from(path)
     }
 
     #[tracing::instrument]
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 2804d34..d4708cc 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -4,6 +4,7 @@ use super::tsconfig::TsConfig;
 use crate::{parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
     collections::HashMap,
+    ffi::OsString,
     path::{Path, PathBuf},
 };
 
@@ -105,9 +106,7 @@ impl Resolver {
         let absolute_base_url = location
             .parent()
             .unwrap()
-            .join(tsconfig.base_url.as_deref().unwrap_or_default())
-            .display()
-            .to_string();
+            .join(tsconfig.base_url.as_deref().unwrap_or_default());
 
         for entry in absolute_path_mappings {
             let star_match = if entry.pattern == info.request.target {
@@ -122,11 +121,13 @@ impl Resolver {
             for physical_path_pattern in &entry.paths {
                 let physical_path = physical_path_pattern.display().to_string();
                 // a `*` in the name of the base directory stands for itself
-                let (base, rest) = match physical_path.strip_prefix(&absolute_base_url) {
-                    Some(rest) => (absolute_base_url.as_str(), rest),
-                    None => ("", physical_path.as_str()),
-                };
-                let path = PathBuf::from(format!("{base}{}", rest.replace('*', star_match)));
+                let (mut path, rest) =
+                    match physical_path.strip_prefix(&absolute_base_url.display().to_string()) {
+                        Some(rest) => (absolute_base_url.clone().into_os_string(), rest),
+                        None => (OsString::new(), physical_path.as_str()),
+                    };
+                path.push(rest.replace('*', star_match));
+                let path = PathBuf::from(path);
                 let request = Request {
                     query: info.request.query.clone(),
                     fragment: info.request.fragment.clone(),
-- 
2.43.0


From ce2f71b5f97d8a2f466a4caa11436a110ab3d709 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 38/42] fix: long paths do not overflow the stack

---
 src/description.rs | 10 ++++------
 src/resolve.rs     | 30 ++++++++++++++----------------
 src/utils.rs       | 12 ++++--------
 3 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index b6b5622..65d43a2 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -162,12 +162,10 @@ impl Resolver {
         }
         // Because the key in `self.cache.file_dir_to_pkg_info` represents directory.
         // So this step is ensure `path` pointed to directory.
-        if !path.is_dir() {
-            return match path.parent() {
-                Some(dir) => self.load_pkg_file(dir),
-                None => Err(Resolver::raise_tag()),
-            };
-        }
+        let path = match path.ancestors().find(|dir| dir.is_dir()) {
+            Some(dir) => dir,
+            None => return Err(Resolver::raise_tag()),
+        };
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
diff --git a/src/resolve.rs b/src/resolve.rs
index c32f1bd..4329961 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -45,10 +45,21 @@ impl Resolver {
     }
 
     #[tracing::instrument]
-    pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
+    pub(crate) fn resolve_as_modules(&self, mut info: ResolveInfo) -> ResolverStats {
         let original_dir = info.path.clone();
-        let module_root_path = original_dir.join(MODULE);
-        let stats = if module_root_path.is_dir() {
+        for dir in original_dir.ancestors() {
+            info = match self.resolve_in_modules(info.with_path(dir.to_path_buf())) {
+                ResolverStats::Resolving(info) => info,
+                stats => return stats,
+            };
+        }
+        ResolverStats::Error((Resolver::raise_tag(), info))
+    }
+
+    /// Search the `node_modules` directory of `info.path`.
+    fn resolve_in_modules(&self, info: ResolveInfo) -> ResolverStats {
+        let module_root_path = info.path.join(MODULE);
+        if module_root_path.is_dir() {
             let target = &info.request.target;
             // join request part
             let has_namespace_scope = target.starts_with('@');
@@ -117,18 +128,5 @@ impl Resolver {
         } else {
             ResolverStats::Resolving(info)
         }
-        .and_then(|info| {
-            if let Some(parent_dir) = original_dir.parent() {
-                self.resolve_as_modules(info.with_path(parent_dir.to_path_buf()))
-            } else {
-                ResolverStats::Resolving(info)
-            }
-        });
-
-        match stats {
-            ResolverStats::Success(success) => ResolverStats::Success(success),
-            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
-            ResolverStats::Error(err) => ResolverStats::Error(err),
-        }
     }
 }
diff --git a/src/utils.rs b/src/utils.rs
index a43bc46..801b138 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -47,13 +47,9 @@ impl Resolver {
     }
 
     pub(super) fn find_up(now_dir: &Path, file_name: &str) -> Option<PathBuf> {
-        let path = now_dir.join(file_name);
-        if path.is_file() {
-            Some(now_dir.to_path_buf())
-        } else {
-            now_dir
-                .parent()
-                .and_then(|parent| Self::find_up(parent, file_name))
-        }
+        now_dir
+            .ancestors()
+            .find(|dir| dir.join(file_name).is_file())
+            .map(|dir| dir.to_path_buf())
     }
 }
-- 
2.43.0


From 3420e5af309962121cddb634ca2388887c69e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 39/42] fix: a key of many segments does not overflow the stack

---
 src/map.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 65ea6a2..84106ff 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -77,6 +77,21 @@ pub struct PathTreeNode {
     pub files: IndexMap<String, MappingValue>,
 }
 
+impl Drop for PathTreeNode {
+    /// The tree is as deep as a key has segments, which may be too deep for a recursion.
+    fn drop(&mut self) {
+        let mut nodes: Vec<PathTreeNode> = vec![];
+        let mut children = self.children.take();
+        loop {
+            nodes.extend(children.into_iter().flat_map(|map| map.into_values()));
+            children = match nodes.pop() {
+                Some(mut node) => node.children.take(),
+                None => return,
+            };
+        }
+    }
+}
+
 /// TODO: should seal all functions except
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
-- 
2.43.0


From a062b74a18259590b8bb891fd71deaf35195e787 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:01:33 +0000
Subject: [PATCH 40/42] fix: a deeply nested tsconfig does not overflow the
 stack

---
 src/tsconfig.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index aa9d171..124026f 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -1,6 +1,7 @@
 // copy from https://github.com/drivasperez/tsconfig
 
 use crate::{utils::MAX_DEPTH, RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
+use jsonc_parser::{tokens::Token, Scanner};
 use std::collections::HashMap;
 use std::fs::read_to_string;
 use std::path::Path;
@@ -59,6 +60,23 @@ impl TsConfig {
     }
 }
 
+/// The parser recurs with the nesting, so it is limited as serde_json limits it.
+fn is_nested_too_deeply(text: &str) -> bool {
+    let mut scanner = Scanner::new(text);
+    let mut depth = 0;
+    while let Ok(Some(token)) = scanner.scan() {
+        match token {
+            Token::OpenBrace | Token::OpenBracket => depth += 1,
+            Token::CloseBrace | Token::CloseBracket => depth -= 1,
+            _ => (),
+        }
+        if depth > 128 {
+            return true;
+        }
+    }
+    false
+}
+
 fn parse_file_to_value(
     location: &Path,
     resolver: &Resolver,
@@ -69,6 +87,9 @@ fn parse_file_to_value(
     }
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
+    if is_nested_too_deeply(&json_str) {
+        return Err(format!("Parse {} failed. Error: recursion limit exceeded", location.display()));
+    }
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
         .ok_or_else(|| format!("Transfer {} to serde value failed", location.display()))?;
-- 
2.43.0


From 557fd6029c906cb50df1429b06de575cdf69ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:01:33 +0000
Subject: [PATCH 41/42] fix: a number out of range in a tsconfig is an error

---
 src/tsconfig.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 124026f..ff82172 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -60,21 +60,25 @@ impl TsConfig {
     }
 }
 
-/// The parser recurs with the nesting, so it is limited as serde_json limits it.
-fn is_nested_too_deeply(text: &str) -> bool {
+/// The parser recurs with the nesting, so it is limited as serde_json limits it,
+/// and panics at a number that serde_json refuses.
+fn check_limits(text: &str) -> Result<(), &'static str> {
     let mut scanner = Scanner::new(text);
     let mut depth = 0;
     while let Ok(Some(token)) = scanner.scan() {
         match token {
             Token::OpenBrace | Token::OpenBracket => depth += 1,
             Token::CloseBrace | Token::CloseBracket => depth -= 1,
+            Token::Number(number) if number.parse::<serde_json::Number>().is_err() => {
+                return Err("number out of range");
+            }
             _ => (),
         }
         if depth > 128 {
-            return true;
+            return Err("recursion limit exceeded");
         }
     }
-    false
+    Ok(())
 }
 
 fn parse_file_to_value(
@@ -87,9 +91,8 @@ fn parse_file_to_value(
     }
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
-    if is_nested_too_deeply(&json_str) {
-        return Err(format!("Parse {} failed. Error: recursion limit exceeded", location.display()));
-    }
+    check_limits(&json_str)
+        .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
         .ok_or_else(|| format!("Transfer {} to serde value failed", location.display()))?;
-- 
2.43.0


From e7493afc37a6d127db14a2f34c15683eb8447ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 06:01:33 +0000
Subject: [PATCH 42/42] fix: a long chain of browser entries does not overflow
 the stack

---
 src/plugin/alias_field.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 4c1564b..94d21ef 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,5 +1,6 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
 use indexmap::IndexMap;
+use std::collections::HashSet;
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -15,23 +16,20 @@ impl<'a> AliasFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    pub(super) fn deal_with_alias_fields_recursive<'b>(
+    pub(super) fn deal_with_alias_fields_chain<'b>(
         &self,
-        target: &'b AliasMap,
+        mut target: &'b AliasMap,
         alias_fields: &'b IndexMap<String, AliasMap>,
-        visited: &mut Vec<&'b str>,
     ) -> AliasMap {
-        match target {
-            AliasMap::Target(target) => match alias_fields.get(target) {
+        let mut visited = HashSet::new();
+        while let AliasMap::Target(key) = target {
+            match alias_fields.get(key) {
                 // `visited` stops at the first target that appears twice.
-                Some(next) if !visited.contains(&target.as_str()) => {
-                    visited.push(target);
-                    self.deal_with_alias_fields_recursive(next, alias_fields, visited)
-                }
-                _ => AliasMap::Target(target.clone()),
-            },
-            AliasMap::Ignored => AliasMap::Ignored,
+                Some(next) if visited.insert(key) => target = next,
+                _ => break,
+            }
         }
+        target.clone()
     }
 
     pub(super) fn request_target_is_module_and_equal_alias_key(
@@ -72,10 +70,9 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                     ),
                 };
                 if should_deal_alias {
-                    return match self.deal_with_alias_fields_recursive(
+                    return match self.deal_with_alias_fields_chain(
                         alias_target,
                         &pkg_info.alias_fields,
-                        &mut vec![],
                     ) {
                         AliasMap::Target(converted) => ResolverStats::Resolving(
                             info.with_path(pkg_info.abs_dir_path.to_path_buf())
-- 
2.43.0

