From 16d601f0db2f2d60ba9f30127cea935d21a7b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 001/116] fix: rolling-logger: do not overwrite a rotated file
 created within the same millisecond

---
 crates/rolling-logger/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/rolling-logger/src/lib.rs b/crates/rolling-logger/src/lib.rs
index f5e161c..27ccbbf 100644
--- a/crates/rolling-logger/src/lib.rs
+++ b/crates/rolling-logger/src/lib.rs
@@ -69,8 +69,19 @@ impl RollingLogger {
     fn flush_and_rotate(&mut self) -> io::Result<()> {
         self.flush()?;
 
-        let mut path = self.path.as_os_str().to_os_string();
-        path.push(format!(".{}", self.file.timestamp()));
+        // Two rotations can happen within the same millisecond, a rotated file must never replace an
+        // existing one.
+        let mut timestamp = self.file.timestamp();
+        let path = loop {
+            let mut path = self.path.as_os_str().to_os_string();
+            path.push(format!(".{timestamp}"));
+
+            if !Path::new(&path).try_exists()? {
+                break path;
+            }
+
+            timestamp += 1;
+        };
 
         std::fs::rename(&self.path, &path)?;
 
-- 
2.43.0


From 1487b069d3e2b28ed5b0bcb209c6c56953d21fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 002/116] fix: rolling-logger: only count the bytes actually
 written towards the size limit

---
 crates/rolling-logger/src/log_file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rolling-logger/src/log_file.rs b/crates/rolling-logger/src/log_file.rs
index 80097df..a275fd7 100644
--- a/crates/rolling-logger/src/log_file.rs
+++ b/crates/rolling-logger/src/log_file.rs
@@ -102,8 +102,10 @@ impl LogFile {
 
 impl Write for LogFile {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.size += buf.len() as u64;
-        self.file.write(buf)
+        let written = self.file.write(buf)?;
+        self.size += written as u64;
+
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 27ce39964ef3e8174c6a5cde5bd925679d9bb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 003/116] fix: extension: parse extension ids with pre-release
 versions and reject malformed ones without panicking

---
 crates/extension/src/id.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/extension/src/id.rs b/crates/extension/src/id.rs
index 1e9076c..89ae575 100644
--- a/crates/extension/src/id.rs
+++ b/crates/extension/src/id.rs
@@ -15,11 +15,20 @@ impl std::fmt::Display for Id {
 impl FromStr for Id {
     type Err = semver::Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let (name, version) = s.rsplit_once('-').unwrap();
-        Ok(Self {
-            name: name.to_string(),
-            version: semver::Version::parse(version)?,
-        })
+        let mut error = semver::Version::parse("").err();
+        // Both the name and a pre-release version can contain dashes.
+        for (ix, _) in s.match_indices('-') {
+            match semver::Version::parse(&s[ix + 1..]) {
+                Ok(version) => {
+                    return Ok(Self {
+                        name: s[..ix].to_string(),
+                        version,
+                    });
+                }
+                Err(err) => error = Some(err),
+            }
+        }
+        Err(error.expect("an empty version is invalid"))
     }
 }
 
-- 
2.43.0


From 8463a8acbbb418d68f2a926fc856c729d228b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 004/116] fix: render control characters and triple quotes in
 descriptions and strings as valid GraphQL

---
 .../src/federated_graph/render_sdl/display_utils.rs      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 951a624..662b24d 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -37,7 +37,7 @@ pub(crate) fn display_graphql_string_literal(string: &str, f: &mut fmt::Formatte
             '\t' => f.write_str("\\t"),
             '\\' => f.write_str("\\\\"),
             '"' => f.write_str("\\\""),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?
     }
@@ -68,6 +68,13 @@ impl fmt::Display for Description<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let Description(description, indentation) = self;
 
+        // A block string would end at the first `"""` of the description.
+        if description.contains(r#"""""#) {
+            f.write_str(indentation)?;
+            display_graphql_string_literal(description, f)?;
+            return f.write_char('\n');
+        }
+
         writeln!(f, r#"{indentation}""""#)?;
 
         let mut lines = description.lines().skip_while(|line| line.is_empty()).peekable();
-- 
2.43.0


From d64bf37ee5faed223bd1976ffa78dc8422d855c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 005/116] fix: reject fields and arguments whose list nesting
 differs between subgraphs

---
 .../src/subgraphs/field_types.rs                | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 5e33db1..283307c 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -33,9 +33,15 @@ impl FieldType {
             return None;
         }
 
-        let mut self_wrappers = self.wrapping.list_wrappings();
-        let mut other_wrappers = other.wrapping.list_wrappings();
-        let mut zipped_wrappers = (&mut self_wrappers).zip(&mut other_wrappers).peekable();
+        let self_wrappers = self.wrapping.list_wrappings();
+        let other_wrappers = other.wrapping.list_wrappings();
+
+        // The wrappers should have the same level of nesting.
+        if self_wrappers.len() != other_wrappers.len() {
+            return None;
+        }
+
+        let mut zipped_wrappers = self_wrappers.zip(other_wrappers).peekable();
 
         // Check that the inner requiredness matches if there are wrappers.
         if zipped_wrappers.peek().is_some() && (self.inner_is_required() != other.inner_is_required()) {
@@ -44,11 +50,6 @@ impl FieldType {
 
         while let Some((self_wrapper, other_wrapper)) = zipped_wrappers.next() {
             if zipped_wrappers.peek().is_none() {
-                // The wrappers should have the same level of nesting.
-                if self_wrappers.next().is_some() || other_wrappers.next().is_some() {
-                    return None;
-                }
-
                 // We reached the outermost list wrappers: return which is required.
                 return Some(matches!(other_wrapper, ListWrapping::ListNonNull));
             }
-- 
2.43.0


From 709ee97facda3277b1a19020fef7235aeb6182e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 006/116] fix: reject definitions of different kinds whatever
 the kind of the first one

---
 crates/graphql-composition/src/compose.rs | 41 ++++++++++++++---------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/crates/graphql-composition/src/compose.rs b/crates/graphql-composition/src/compose.rs
index c725251..02987f1 100644
--- a/crates/graphql-composition/src/compose.rs
+++ b/crates/graphql-composition/src/compose.rs
@@ -39,6 +39,10 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
         }
 
+        if !validate_consistent_kinds(ctx, first, definitions) {
+            return;
+        }
+
         match first.kind {
             DefinitionKind::Object => merge_object_definitions(ctx, first, definitions),
             DefinitionKind::Union => merge_union_definitions(ctx, first, definitions),
@@ -53,26 +57,33 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
     directive_definitions::compose_directive_definitions(ctx);
 }
 
+/// All the definitions with the same name must be of the same kind. Returns whether they are.
+fn validate_consistent_kinds<'a>(
+    ctx: &mut Context<'a>,
+    first: &DefinitionView<'a>,
+    definitions: &[DefinitionView<'a>],
+) -> bool {
+    let Some(incompatible) = definitions.iter().find(|definition| definition.kind != first.kind) else {
+        return true;
+    };
+
+    let first_kind = first.kind;
+    let second_kind = incompatible.kind;
+    let name = ctx.subgraphs[first.name].as_ref();
+    let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
+    let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
+    ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
+        "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
+    ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
+
+    false
+}
+
 fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a>, definitions: &[DefinitionView<'a>]) {
     let is_shareable = definitions
         .iter()
         .any(|definition| definition.directives.shareable(ctx.subgraphs));
 
-    if let Some(incompatible) = definitions
-        .iter()
-        .find(|definition| definition.kind != DefinitionKind::Object)
-    {
-        let first_kind = first.kind;
-        let second_kind = incompatible.kind;
-        let name = ctx.subgraphs[first.name].as_ref();
-        let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
-        let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
-        ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
-            "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
-        ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
-        return;
-    }
-
     let is_entity = validate_consistent_entityness(ctx, definitions);
 
     let description = definitions
-- 
2.43.0


From 3fd693bbaf4a2b2e267e6efc129bdd37478fc1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 007/116] fix: leave inaccessible members out of the unions of
 the API schema

---
 .../src/federated_graph/render_sdl/render_api_sdl.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index d4d8f65..b5f613e 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -189,6 +189,16 @@ impl fmt::Display for Renderer<'_> {
                 continue;
             }
 
+            let mut members = union
+                .members
+                .iter()
+                .filter(|member| !is_inaccessible(&graph.at(**member).directives))
+                .peekable();
+
+            if members.peek().is_none() {
+                continue;
+            }
+
             write_leading_whitespace(f)?;
 
             write_description(f, union.description, "", graph)?;
@@ -197,8 +207,6 @@ impl fmt::Display for Renderer<'_> {
             write_public_directives(f, &union.directives, graph)?;
             f.write_str(" =")?;
 
-            let mut members = union.members.iter().peekable();
-
             while let Some(member) = members.next() {
                 f.write_str(" ")?;
                 f.write_str(graph.at(*member).then(|obj| obj.name).as_str())?;
-- 
2.43.0


From ae586fd23d3e439ef709f0647952213085742b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 008/116] fix: reject visible fields, arguments and input
 fields whose type another subgraph makes inaccessible

---
 .../src/compose/input_object.rs               | 12 ++++++++++
 .../graphql-composition/src/compose/object.rs | 23 +++++++++++++++++--
 .../src/subgraphs/definitions.rs              |  7 ++++++
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/compose/input_object.rs b/crates/graphql-composition/src/compose/input_object.rs
index e08f276..97f8cba 100644
--- a/crates/graphql-composition/src/compose/input_object.rs
+++ b/crates/graphql-composition/src/compose/input_object.rs
@@ -66,6 +66,18 @@ pub(super) fn merge_input_object_definitions(
             continue;
         };
 
+        if ctx
+            .subgraphs
+            .is_inaccessible_in_any_subgraph(composed_field_type.definition_name_id)
+            && !definitions.iter().any(|def| def.directives.inaccessible(ctx.subgraphs))
+            && !fields.iter().any(|field| field.directives.inaccessible(ctx.subgraphs))
+        {
+            ctx.diagnostics.push_fatal(format!(
+                "The input field `{}.{}` is of an @inaccessible type, but is itself not marked as @inaccessible.",
+                ctx.subgraphs[first.name], ctx.subgraphs[field_name],
+            ));
+        }
+
         directives.extend(fields.iter().map(|field| {
             ir::Directive::JoinInputField(ir::JoinInputFieldDirective {
                 subgraph_id: ctx.subgraphs.at(field.parent_definition_id).subgraph_id.idx().into(),
diff --git a/crates/graphql-composition/src/compose/object.rs b/crates/graphql-composition/src/compose/object.rs
index 57d3bbe..8902d99 100644
--- a/crates/graphql-composition/src/compose/object.rs
+++ b/crates/graphql-composition/src/compose/object.rs
@@ -69,7 +69,15 @@ pub(super) fn merge_field_arguments<'a>(
                 .unwrap_or(false)
         });
 
-        if argument_type_is_inaccessible && !argument_is_inaccessible() {
+        // The type may also be made inaccessible by a subgraph that does not define the argument.
+        let is_visible_with_inaccessible_type = || {
+            ctx.subgraphs
+                .is_inaccessible_in_any_subgraph(argument_type.definition_name_id)
+                && !ctx.subgraphs.is_inaccessible_in_any_subgraph(parent_definition.name)
+                && !fields.iter().any(|field| field.directives.inaccessible(ctx.subgraphs))
+        };
+
+        if (argument_type_is_inaccessible || is_visible_with_inaccessible_type()) && !argument_is_inaccessible() {
             ctx.diagnostics.push_fatal(format!(
                 "The argument `{}.{}({}:)` is of an @inaccessible type, but is itself not marked as @inaccessible.",
                 ctx.subgraphs[parent_definition.name], ctx.subgraphs[field_name], ctx.subgraphs[argument_name],
@@ -204,6 +212,16 @@ pub(super) fn compose_field<'a>(
         crate::validate::composite_schemas::post_merge::invalid_field_sharing(ctx, fields);
     }
 
+    // The type may also be made inaccessible by a subgraph that does not define the field.
+    let is_visible_with_inaccessible_type = || {
+        ctx.subgraphs
+            .is_inaccessible_in_any_subgraph(first.r#type.definition_name_id)
+            && !ctx
+                .subgraphs
+                .is_inaccessible_in_any_subgraph(ctx.subgraphs.at(first.parent_definition_id).name)
+            && !fields.iter().any(|field| field.directives.inaccessible(ctx.subgraphs))
+    };
+
     if fields.iter().any(|field| {
         !field.directives.inaccessible(ctx.subgraphs)
             && ctx
@@ -214,7 +232,8 @@ pub(super) fn compose_field<'a>(
                 )
                 .filter(|parent| ctx.subgraphs.at(*parent).directives.inaccessible(ctx.subgraphs))
                 .is_some()
-    }) {
+    }) || is_visible_with_inaccessible_type()
+    {
         let name = format!(
             "{}.{}",
             ctx.subgraphs[ctx.subgraphs.at(first.parent_definition_id).name].as_ref(),
diff --git a/crates/graphql-composition/src/subgraphs/definitions.rs b/crates/graphql-composition/src/subgraphs/definitions.rs
index 4296d5a..06fd523 100644
--- a/crates/graphql-composition/src/subgraphs/definitions.rs
+++ b/crates/graphql-composition/src/subgraphs/definitions.rs
@@ -60,6 +60,13 @@ impl Subgraphs {
             .map(|((_, subgraph_id), definition_id)| (*subgraph_id, *definition_id))
     }
 
+    /// Whether the definition is marked `@inaccessible` in at least one subgraph: it is then inaccessible in the
+    /// composed schema.
+    pub(crate) fn is_inaccessible_in_any_subgraph(&self, name: StringId) -> bool {
+        self.iter_definitions_with_name(name)
+            .any(|(_, id)| self.at(id).directives.inaccessible(self))
+    }
+
     pub(crate) fn iter_interface_impls(&self) -> impl Iterator<Item = (StringId, StringId)> + '_ {
         self.definitions.interface_impls.iter().copied()
     }
-- 
2.43.0


From 743a8204520da0300ddd669f6368fa84b3aa0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 009/116] fix: keep the description of a type whose extension
 precedes its definition

---
 crates/graphql-composition/src/subgraphs/definitions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/definitions.rs b/crates/graphql-composition/src/subgraphs/definitions.rs
index 06fd523..60fd75a 100644
--- a/crates/graphql-composition/src/subgraphs/definitions.rs
+++ b/crates/graphql-composition/src/subgraphs/definitions.rs
@@ -102,8 +102,11 @@ impl Subgraphs {
     ) -> DefinitionId {
         let name = self.strings.intern(name);
 
-        if let Some(existing_definition) = self.definition_names.get(&(name, subgraph_id)) {
-            return *existing_definition;
+        if let Some(existing_definition) = self.definition_names.get(&(name, subgraph_id)).copied() {
+            // An extension can precede the definition, and only the definition has a description.
+            let existing_description = &mut self.definitions.definitions[usize::from(existing_definition)].description;
+            *existing_description = existing_description.or(description);
+            return existing_definition;
         }
 
         let directive_site_id = self.new_directive_site();
-- 
2.43.0


From d4822acfffa458a63baa7e6e2fb52f3296ae3555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 010/116] fix: reject types that do not implement an interface
 their interface implements in another subgraph

---
 .../src/compose/interface.rs                  | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/graphql-composition/src/compose/interface.rs b/crates/graphql-composition/src/compose/interface.rs
index 67939bb..ed44cf2 100644
--- a/crates/graphql-composition/src/compose/interface.rs
+++ b/crates/graphql-composition/src/compose/interface.rs
@@ -35,6 +35,25 @@ pub(super) fn merge_interface_definitions<'a>(
 
 fn check_implementers(interface_name: StringId, field_names: &[subgraphs::StringId], ctx: &mut Context<'_>) {
     for implementer_name in ctx.subgraphs.iter_implementers_for_interface(interface_name) {
+        // The interface may implement another one in a subgraph that does not know the implementer.
+        for (parent_name, _) in ctx
+            .subgraphs
+            .iter_interface_impls()
+            .filter(|(parent_name, child_name)| {
+                *child_name == interface_name
+                    && *parent_name != implementer_name
+                    && !ctx
+                        .subgraphs
+                        .iter_implementers_for_interface(*parent_name)
+                        .any(|name| name == implementer_name)
+            })
+        {
+            ctx.diagnostics.push_fatal(format!(
+                "The type `{}` must implement `{}` because it is implemented by `{}`.",
+                ctx.subgraphs[implementer_name], ctx.subgraphs[parent_name], ctx.subgraphs[interface_name],
+            ));
+        }
+
         for field_name in field_names {
             if !ctx
                 .subgraphs
-- 
2.43.0


From 34bf1761efe4076be5261480cea457035a918e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:22 +0000
Subject: [PATCH 011/116] fix: reject types with more than ten nested lists
 instead of panicking in composition

---
 .../ingest_subgraph/directive_definitions.rs  |  2 +-
 .../src/ingest_subgraph/fields.rs             |  6 ++---
 .../src/subgraphs/field_types.rs              | 22 ++++++++++++++++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directive_definitions.rs b/crates/graphql-composition/src/ingest_subgraph/directive_definitions.rs
index 34e5275..ed8c20a 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directive_definitions.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directive_definitions.rs
@@ -55,7 +55,7 @@ fn ingest_directive_definition(
 
     for argument in directive_definition.arguments() {
         let argument_name = subgraphs.strings.intern(argument.name());
-        let r#type = subgraphs.intern_field_type(argument.ty());
+        let r#type = subgraphs.intern_field_type(subgraph_id, argument.ty());
         let default_value = argument
             .default_value()
             .map(|default| crate::ast_value_to_subgraph_value(default, subgraphs));
diff --git a/crates/graphql-composition/src/ingest_subgraph/fields.rs b/crates/graphql-composition/src/ingest_subgraph/fields.rs
index 920168c..ad329fc 100644
--- a/crates/graphql-composition/src/ingest_subgraph/fields.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/fields.rs
@@ -8,7 +8,7 @@ pub(super) fn ingest_input_fields(
     fields: ast::Iter<'_, ast::InputValueDefinition<'_>>,
 ) {
     for field in fields {
-        let field_type = ctx.subgraphs.intern_field_type(field.ty());
+        let field_type = ctx.subgraphs.intern_field_type(ctx.subgraph_id, field.ty());
         let directives = ctx.subgraphs.new_directive_site();
         let field_name = field.name();
 
@@ -45,7 +45,7 @@ fn ingest_field_arguments(
     arguments: ast::iter::Iter<'_, InputValueDefinition<'_>>,
 ) {
     for argument in arguments {
-        let r#type = ctx.subgraphs.intern_field_type(argument.ty());
+        let r#type = ctx.subgraphs.intern_field_type(ctx.subgraph_id, argument.ty());
         let name = ctx.subgraphs.strings.intern(argument.name());
 
         let directives = ctx.subgraphs.new_directive_site();
@@ -95,7 +95,7 @@ pub(super) fn ingest_fields(
             .description()
             .map(|description| ctx.subgraphs.strings.intern(description.to_cow()));
 
-        let field_type = ctx.subgraphs.intern_field_type(field.ty());
+        let field_type = ctx.subgraphs.intern_field_type(ctx.subgraph_id, field.ty());
         let directives = ctx.subgraphs.new_directive_site();
         let field_name_id = ctx.subgraphs.strings.intern(field_name);
 
diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 283307c..1a3a24f 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -91,10 +91,30 @@ impl FieldType {
     }
 }
 
+/// The deepest list nesting a [Wrapping] can represent.
+const MAX_LIST_NESTING: usize = 10;
+
 impl Subgraphs {
-    pub(crate) fn intern_field_type(&mut self, field_type: ast::Type<'_>) -> FieldType {
+    pub(crate) fn intern_field_type(&mut self, subgraph_id: SubgraphId, field_type: ast::Type<'_>) -> FieldType {
         use cynic_parser::common::WrappingType;
 
+        let list_nesting = field_type
+            .wrappers()
+            .filter(|wrapper| matches!(wrapper, WrappingType::List))
+            .count();
+
+        if list_nesting > MAX_LIST_NESTING {
+            self.push_ingestion_diagnostic(
+                subgraph_id,
+                format!("The type `{field_type}` has more than {MAX_LIST_NESTING} levels of nested lists."),
+            );
+
+            return FieldType {
+                definition_name_id: self.strings.intern(field_type.name()),
+                wrapping: Wrapping::default(),
+            };
+        }
+
         let wrappers = field_type.wrappers().collect::<Vec<_>>();
         let mut wrappers = wrappers.into_iter().rev().peekable();
 
-- 
2.43.0


From 4ce220d023421e8a19f2d1bdca276b2d4f565612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:22 +0000
Subject: [PATCH 012/116] fix: report selections on builtin scalars in
 federation field sets instead of panicking

---
 crates/graphql-composition/src/validate/selection.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 793194f..9072ab8 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -225,10 +225,18 @@ fn validate_field_selection(
         return;
     }
 
-    let referenced_type = ctx
+    let Some(referenced_type) = ctx
         .subgraphs
         .definition_by_name_id(field.r#type.definition_name_id, on_definition.subgraph_id)
-        .expect("type is defined in subgraph");
+    else {
+        return ctx.diagnostics.push_fatal(format!(
+            "[{subgraph_name}] Error in @{directive_name} on {directive_path}: no selection is possible on {definition_name}.{field_in_selection}, of type {field_type}",
+            directive_path = directive_path(),
+            definition_name = ctx.subgraphs[on_definition.name],
+            field_in_selection = ctx.subgraphs[field.name],
+            field_type = ctx.subgraphs[field.r#type.definition_name_id],
+        ));
+    };
 
     for selection in &selection.subselection {
         validate_selection(
-- 
2.43.0


From 32b5a7957dd58d17f45d8c2d56f5a02632b7adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 013/116] fix: render descriptions with control characters as
 string literals

---
 .../src/federated_graph/render_sdl/display_utils.rs          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 662b24d..4ff6baa 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -68,8 +68,9 @@ impl fmt::Display for Description<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let Description(description, indentation) = self;
 
-        // A block string would end at the first `"""` of the description.
-        if description.contains(r#"""""#) {
+        // A block string would end at the first `"""` of the description, and cannot contain control characters.
+        let is_forbidden = |c: char| c.is_control() && !matches!(c, '\n' | '\r' | '\t');
+        if description.contains(r#"""""#) || description.contains(is_forbidden) {
             f.write_str(indentation)?;
             display_graphql_string_literal(description, f)?;
             return f.write_char('\n');
-- 
2.43.0


From b1e30ca1b41220860d9417be80800d296d79d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 014/116] fix: reject references to types that no subgraph
 defines instead of panicking

---
 crates/graphql-composition/src/validate.rs | 30 ++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index fa5678f..d9754aa 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -32,12 +32,42 @@ fn validate_root_nonempty(ctx: &mut ValidateContext<'_>) {
 fn validate_fields(ctx: &mut ValidateContext<'_>) {
     for field in ctx.subgraphs.iter_fields() {
         selection::validate_selections(ctx, field);
+        validate_types_are_defined(ctx, field);
         validate_override_labels(ctx, field);
         composite_schemas::source_schema::lookup_returns_non_nullable_type(ctx, field);
         composite_schemas::source_schema::override_from_self(ctx, field);
     }
 }
 
+fn validate_types_are_defined(ctx: &mut ValidateContext<'_>, field: subgraphs::FieldView<'_>) {
+    let argument_types = field.arguments(ctx.subgraphs).map(|argument| argument.r#type);
+
+    for r#type in std::iter::once(field.r#type).chain(argument_types) {
+        let type_name = &ctx.subgraphs[r#type.definition_name_id];
+
+        let is_defined = ctx
+            .subgraphs
+            .iter_builtin_scalars()
+            .any(|scalar| scalar == type_name.as_ref())
+            || ctx
+                .subgraphs
+                .iter_definitions_with_name(r#type.definition_name_id)
+                .next()
+                .is_some();
+
+        if !is_defined {
+            let parent_definition = ctx.subgraphs.at(field.parent_definition_id);
+
+            ctx.diagnostics.push_fatal(format!(
+                "[{subgraph}] The type `{type_name}` is used at `{parent}.{field}` but it is not defined in any subgraph.",
+                subgraph = ctx.subgraphs[ctx.subgraphs.at(parent_definition.subgraph_id).name],
+                parent = ctx.subgraphs[parent_definition.name],
+                field = ctx.subgraphs[field.name],
+            ));
+        }
+    }
+}
+
 fn validate_override_labels(ctx: &mut ValidateContext<'_>, field: subgraphs::FieldView<'_>) {
     let Some(label) = field
         .directives
-- 
2.43.0


From 35a11b4615c593d93be30f8bf8f51f12a6ce5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 015/116] fix: accept type extensions with composed, linked or
 composite schema directives anywhere in a subgraph

---
 crates/graphql-composition/src/subgraphs.rs            | 7 ++++++-
 crates/graphql-composition/src/subgraphs/directives.rs | 6 +-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs.rs b/crates/graphql-composition/src/subgraphs.rs
index 4f05e69..612391e 100644
--- a/crates/graphql-composition/src/subgraphs.rs
+++ b/crates/graphql-composition/src/subgraphs.rs
@@ -179,9 +179,14 @@ impl Subgraphs {
     pub(crate) fn sort_pre_composition(&mut self) {
         self.keys.keys.sort_unstable_by_key(|key| key.definition_id);
 
+        // Stable sorts: the order of the directives on the same site matters.
         self.directives
             .extra_directives
-            .sort_unstable_by_key(|directive| directive.directive_site_id);
+            .sort_by_key(|directive| directive.directive_site_id);
+
+        self.directives
+            .ir_directives
+            .sort_by_key(|(directive_site_id, _)| *directive_site_id);
 
         self.enums
             .values
diff --git a/crates/graphql-composition/src/subgraphs/directives.rs b/crates/graphql-composition/src/subgraphs/directives.rs
index 950e1d9..f7d9664 100644
--- a/crates/graphql-composition/src/subgraphs/directives.rs
+++ b/crates/graphql-composition/src/subgraphs/directives.rs
@@ -58,7 +58,7 @@ pub(super) struct Directives {
     composed_directives: HashSet<(SubgraphId, StringId)>,
 
     /// Directives that can go straight to composition IR.
-    ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
+    pub(super) ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
     pub(super) extra_directives: Vec<ExtraDirectiveRecord>,
     extra_directives_on_schema_definition: Vec<(SubgraphId, ExtraDirectiveRecord)>,
 }
@@ -142,10 +142,6 @@ impl Subgraphs {
     }
 
     pub(crate) fn push_directive(&mut self, directive: ExtraDirectiveRecord) {
-        if let Some(last) = self.directives.extra_directives.last() {
-            assert!(directive.directive_site_id >= last.directive_site_id);
-        }
-
         self.directives.extra_directives.push(directive);
     }
 
-- 
2.43.0


From 05bbf4befd85ea766e9fc13935c538951c75f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 016/116] fix: reject types defined as several kinds in one
 subgraph instead of panicking

---
 crates/graphql-composition/src/subgraphs/definitions.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/graphql-composition/src/subgraphs/definitions.rs b/crates/graphql-composition/src/subgraphs/definitions.rs
index 60fd75a..6f36271 100644
--- a/crates/graphql-composition/src/subgraphs/definitions.rs
+++ b/crates/graphql-composition/src/subgraphs/definitions.rs
@@ -106,6 +106,12 @@ impl Subgraphs {
             // An extension can precede the definition, and only the definition has a description.
             let existing_description = &mut self.definitions.definitions[usize::from(existing_definition)].description;
             *existing_description = existing_description.or(description);
+
+            if self.at(existing_definition).kind != kind {
+                let message = format!("`{}` is defined as several kinds of types.", self[name]);
+                self.push_ingestion_diagnostic(subgraph_id, message);
+            }
+
             return existing_definition;
         }
 
-- 
2.43.0


From 7794b67b78ad8ee51195285f6ae8ff13c8456db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 017/116] Revert "fix: reject references to types that no
 subgraph defines instead of panicking"

This reverts commit b1e30ca1b41220860d9417be80800d296d79d237.
---
 crates/graphql-composition/src/validate.rs | 30 ----------------------
 1 file changed, 30 deletions(-)

diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index d9754aa..fa5678f 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -32,42 +32,12 @@ fn validate_root_nonempty(ctx: &mut ValidateContext<'_>) {
 fn validate_fields(ctx: &mut ValidateContext<'_>) {
     for field in ctx.subgraphs.iter_fields() {
         selection::validate_selections(ctx, field);
-        validate_types_are_defined(ctx, field);
         validate_override_labels(ctx, field);
         composite_schemas::source_schema::lookup_returns_non_nullable_type(ctx, field);
         composite_schemas::source_schema::override_from_self(ctx, field);
     }
 }
 
-fn validate_types_are_defined(ctx: &mut ValidateContext<'_>, field: subgraphs::FieldView<'_>) {
-    let argument_types = field.arguments(ctx.subgraphs).map(|argument| argument.r#type);
-
-    for r#type in std::iter::once(field.r#type).chain(argument_types) {
-        let type_name = &ctx.subgraphs[r#type.definition_name_id];
-
-        let is_defined = ctx
-            .subgraphs
-            .iter_builtin_scalars()
-            .any(|scalar| scalar == type_name.as_ref())
-            || ctx
-                .subgraphs
-                .iter_definitions_with_name(r#type.definition_name_id)
-                .next()
-                .is_some();
-
-        if !is_defined {
-            let parent_definition = ctx.subgraphs.at(field.parent_definition_id);
-
-            ctx.diagnostics.push_fatal(format!(
-                "[{subgraph}] The type `{type_name}` is used at `{parent}.{field}` but it is not defined in any subgraph.",
-                subgraph = ctx.subgraphs[ctx.subgraphs.at(parent_definition.subgraph_id).name],
-                parent = ctx.subgraphs[parent_definition.name],
-                field = ctx.subgraphs[field.name],
-            ));
-        }
-    }
-}
-
 fn validate_override_labels(ctx: &mut ValidateContext<'_>, field: subgraphs::FieldView<'_>) {
     let Some(label) = field
         .directives
-- 
2.43.0


From 90dc4dd6418f2047518c122f19a30607c4c4a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 018/116] fix: render float values as GraphQL floats, whatever
 their magnitude

---
 .../src/federated_graph/render_sdl/display_utils.rs            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 4ff6baa..4dd1d42 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -104,7 +104,8 @@ impl fmt::Display for ValueDisplay<'_> {
             Value::Null => f.write_str("null"),
             Value::String(s) => display_graphql_string_literal(&graph[*s], f),
             Value::Int(i) => Display::fmt(i, f),
-            Value::Float(val) => Display::fmt(val, f),
+            // The debug format is always a GraphQL float: the display format has neither fraction nor exponent for integers.
+            Value::Float(val) => fmt::Debug::fmt(val, f),
             Value::UnboundEnumValue(val) => f.write_str(&graph[*val]),
             Value::EnumValue(val) => f.write_str(&graph[graph[*val].value]),
             Value::Boolean(true) => f.write_str("true"),
-- 
2.43.0


From 178f2a191e18045202ea660224affc84f05e2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 019/116] fix: reject references to types that are not in the
 composed schema instead of panicking

---
 .../src/compose/context.rs                    | 52 ++++++++++++++++++-
 crates/graphql-composition/src/lib.rs         |  4 ++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/context.rs b/crates/graphql-composition/src/compose/context.rs
index 1967a76..16b41ec 100644
--- a/crates/graphql-composition/src/compose/context.rs
+++ b/crates/graphql-composition/src/compose/context.rs
@@ -3,7 +3,7 @@ use crate::{
     composition_ir::{self as ir, CompositionIr},
     federated_graph as federated, subgraphs,
 };
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 /// Context for [`compose`](crate::compose::compose).
 pub(crate) struct Context<'a> {
@@ -53,6 +53,56 @@ impl<'a> Context<'a> {
         self.ir
     }
 
+    /// Every type that is referenced in the composed schema must be part of it.
+    pub(crate) fn validate_type_references(&mut self) {
+        let Context {
+            subgraphs,
+            diagnostics,
+            ir,
+        } = self;
+
+        let composed: HashSet<&str> = ir.definitions_by_name.keys().map(|name| &ir.strings[*name]).collect();
+
+        let field_types = ir.fields.iter().map(|field| {
+            let parent = &ir.strings[field.parent_definition_name];
+            let path = format!("{parent}.{}", subgraphs[field.field_name].as_ref());
+            (field.field_type.definition_name_id, path)
+        });
+
+        let input_types = ir
+            .input_value_definitions
+            .iter()
+            .map(|input| (input.r#type.definition_name_id, ir.strings[input.name].to_owned()));
+
+        let interfaces = subgraphs.iter_interface_impls().flat_map(|(interface, implementer)| {
+            let implementer_name = subgraphs[implementer].as_ref().to_owned();
+            [
+                (interface, implementer_name),
+                (implementer, subgraphs[interface].as_ref().to_owned()),
+            ]
+        });
+
+        for (type_name, referenced_by) in field_types.chain(input_types).chain(interfaces) {
+            let type_name = subgraphs[type_name].as_ref();
+
+            if !composed.contains(type_name) {
+                diagnostics.push_fatal(format!(
+                    "The type `{type_name}` is referenced by `{referenced_by}`, but it is not defined in the composed schema."
+                ));
+            }
+        }
+
+        for (union_name, member) in &ir.union_members {
+            let (union_name, member) = (&ir.strings[*union_name], &ir.strings[*member]);
+
+            if !composed.contains(member) {
+                diagnostics.push_fatal(format!(
+                    "The type `{member}` is referenced by `{union_name}`, but it is not defined in the composed schema."
+                ));
+            }
+        }
+    }
+
     pub(crate) fn insert_enum(
         &mut self,
         enum_name: &str,
diff --git a/crates/graphql-composition/src/lib.rs b/crates/graphql-composition/src/lib.rs
index d0d4101..ef2768b 100644
--- a/crates/graphql-composition/src/lib.rs
+++ b/crates/graphql-composition/src/lib.rs
@@ -56,6 +56,10 @@ pub fn compose(subgraphs: &mut Subgraphs) -> CompositionResult {
 
     compose_subgraphs(&mut context);
 
+    if !context.diagnostics.any_fatal() {
+        context.validate_type_references();
+    }
+
     if context.diagnostics.any_fatal() {
         CompositionResult {
             federated_graph: None,
-- 
2.43.0


From dbeaa4bc301d74a2bec672994384e1af959ee752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 020/116] fix: report malformed federated SDL as an error
 instead of panicking

---
 .../src/federated_graph/from_sdl.rs           | 58 ++++++++++++++-----
 .../src/federated_graph/from_sdl/directive.rs | 10 +++-
 .../src/federated_graph/from_sdl/value.rs     |  2 +-
 3 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl.rs b/crates/graphql-composition/src/federated_graph/from_sdl.rs
index c39e766..f5e84b3 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl.rs
@@ -18,6 +18,9 @@ use indexmap::IndexSet;
 use input_value_definition::ingest_input_value_definition;
 use std::{collections::HashMap, error::Error as StdError, fmt, ops::Range};
 
+/// The deepest list nesting a [Wrapping](wrapping::Wrapping) can represent.
+const MAX_LIST_NESTING: usize = 10;
+
 const JOIN_GRAPH_DIRECTIVE_NAME: &str = "join__graph";
 pub(crate) const JOIN_GRAPH_ENUM_NAME: &str = "join__Graph";
 
@@ -101,6 +104,18 @@ impl<'a> State<'a> {
         self.type_wrappers.extend(wrappers);
         self.type_wrappers.reverse();
 
+        let list_nesting = self
+            .type_wrappers
+            .iter()
+            .filter(|wrapper| matches!(wrapper, WrappingType::List))
+            .count();
+
+        if list_nesting > MAX_LIST_NESTING {
+            return Err(DomainError(format!(
+                "A type based on '{name}' has more than {MAX_LIST_NESTING} levels of nested lists."
+            )));
+        }
+
         let mut wrappers = self.type_wrappers.iter().peekable();
 
         let mut wrapping = match wrappers.peek() {
@@ -123,10 +138,7 @@ impl<'a> State<'a> {
             }
         }
 
-        let definition = *self
-            .definition_names
-            .get(name)
-            .ok_or_else(|| DomainError(format!("Unknown type '{name}'")))?;
+        let definition = self.definition(name)?;
 
         Ok(Type { definition, wrapping })
     }
@@ -171,6 +183,13 @@ impl<'a> State<'a> {
         }
     }
 
+    fn definition(&self, name: &str) -> Result<Definition, DomainError> {
+        self.definition_names
+            .get(name)
+            .copied()
+            .ok_or_else(|| DomainError(format!("Unknown type '{name}'")))
+    }
+
     fn get_definition_name(&self, definition: Definition) -> &str {
         let name = match definition {
             Definition::Object(object_id) => self.graph.at(object_id).name,
@@ -234,7 +253,7 @@ fn ingest_fields<'a>(parsed: &'a ast::TypeSystemDocument, state: &mut State<'a>)
             ast::Definition::Type(typedef) | ast::Definition::TypeExtension(typedef) => match &typedef {
                 ast::TypeDefinition::Scalar(_) => (),
                 ast::TypeDefinition::Object(object) => {
-                    let Definition::Object(object_id) = state.definition_names[typedef.name()] else {
+                    let Definition::Object(object_id) = state.definition(typedef.name())? else {
                         return Err(DomainError(
                             "Broken invariant: object id behind object name.".to_owned(),
                         ));
@@ -243,7 +262,7 @@ fn ingest_fields<'a>(parsed: &'a ast::TypeSystemDocument, state: &mut State<'a>)
                     ingest_object_fields(object_id, object.fields(), state)?;
                 }
                 ast::TypeDefinition::Interface(interface) => {
-                    let Definition::Interface(interface_id) = state.definition_names[typedef.name()] else {
+                    let Definition::Interface(interface_id) = state.definition(typedef.name())? else {
                         return Err(DomainError(
                             "Broken invariant: interface id behind interface name.".to_owned(),
                         ));
@@ -252,14 +271,14 @@ fn ingest_fields<'a>(parsed: &'a ast::TypeSystemDocument, state: &mut State<'a>)
                     ingest_interface_fields(interface_id, interface.fields(), state)?;
                 }
                 ast::TypeDefinition::Union(union) => {
-                    let Definition::Union(union_id) = state.definition_names[typedef.name()] else {
+                    let Definition::Union(union_id) = state.definition(typedef.name())? else {
                         return Err(DomainError("Broken invariant: UnionId behind union name.".to_owned()));
                     };
                     ingest_union_members(union_id, union, state)?;
                 }
                 ast::TypeDefinition::Enum(_) => {}
                 ast::TypeDefinition::InputObject(input_object) => {
-                    let Definition::InputObject(input_object_id) = state.definition_names[typedef.name()] else {
+                    let Definition::InputObject(input_object_id) = state.definition(typedef.name())? else {
                         return Err(DomainError(
                             "Broken invariant: InputObjectId behind input object name.".to_owned(),
                         ));
@@ -343,7 +362,7 @@ fn ingest_interface_interfaces(
 ) -> Result<(), DomainError> {
     state.graph.interfaces[usize::from(interface_id)].implements_interfaces = interface
         .implements_interfaces()
-        .map(|name| match state.definition_names[name] {
+        .map(|name| match state.definition(name)? {
             Definition::Interface(interface_id) => Ok(interface_id),
             _ => Err(DomainError(
                 "Broken invariant: object implements non-interface type".to_owned(),
@@ -361,7 +380,7 @@ fn ingest_object_interfaces(
 ) -> Result<(), DomainError> {
     state.graph.objects[usize::from(object_id)].implements_interfaces = object
         .implements_interfaces()
-        .map(|name| match state.definition_names[name] {
+        .map(|name| match state.definition(name)? {
             Definition::Interface(interface_id) => Ok(interface_id),
             _ => Err(DomainError(
                 "Broken invariant: object implements non-interface type".to_owned(),
@@ -403,7 +422,13 @@ fn ingest_directives_after_graph<'a>(
         };
         if let Some(fields) = fields {
             for field in fields {
-                let field_id = state.selection_map[&(definition_id, field.name())];
+                let Some(field_id) = state.selection_map.get(&(definition_id, field.name())).copied() else {
+                    return Err(DomainError(format!(
+                        "Broken invariant: field '{}.{}' was not ingested.",
+                        typedef.name(),
+                        field.name()
+                    )));
+                };
                 state.graph[field_id].directives =
                     collect_field_directives(definition_id, field_id, field.directives(), state)?;
             }
@@ -659,7 +684,7 @@ fn ingest_union_members<'a>(
     state: &mut State<'a>,
 ) -> Result<(), DomainError> {
     for member in union.members() {
-        let Definition::Object(object_id) = state.definition_names[member.name()] else {
+        let Definition::Object(object_id) = state.definition(member.name())? else {
             return Err(DomainError("Non-object type in union members".to_owned()));
         };
         state.graph.unions[usize::from(union_id)].members.push(object_id);
@@ -772,7 +797,14 @@ fn attach_selection_field(
                 .iter()
                 .position(|arg| arg.name == name)
                 .map(|idx| InputValueDefinitionId::from(usize::from(start) + idx))
-                .expect("unknown argument");
+                .ok_or_else(|| {
+                    DomainError(format!(
+                        "Argument '{}' of field '{}.{}' does not exist",
+                        argument.name(),
+                        state.get_definition_name(target),
+                        ast_field.name(),
+                    ))
+                })?;
 
             let argument_type = state.graph.input_value_definitions[usize::from(argument_id)]
                 .r#type
diff --git a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
index 21f27e7..fdcfefe 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
@@ -202,8 +202,14 @@ fn parse_join_type_directive<'a>(
     let subgraph_id = directive
         .get_argument("graph")
         .and_then(|arg| arg.as_enum_value())
-        .map(|name| state.graph_by_enum_str[name])
-        .expect("Missing graph argument in @join__type");
+        .ok_or_else(|| DomainError("Missing graph argument in join__type directive".to_owned()))
+        .and_then(|name| {
+            state
+                .graph_by_enum_str
+                .get(name)
+                .copied()
+                .ok_or_else(|| DomainError("Unknown graph in join__type directive".to_owned()))
+        })?;
     let key = directive
         .get_argument("key")
         .and_then(|arg| arg.as_str())
diff --git a/crates/graphql-composition/src/federated_graph/from_sdl/value.rs b/crates/graphql-composition/src/federated_graph/from_sdl/value.rs
index 28fbc59..f8339a8 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl/value.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl/value.rs
@@ -10,7 +10,7 @@ impl IntoJson for cynic_parser::values::ConstValue<'_> {
 
         Some(match self {
             ParserValue::Int(i) => Value::Number(i.as_i64().into()),
-            ParserValue::Float(i) => Value::Number(serde_json::Number::from_f64(i.value()).unwrap()),
+            ParserValue::Float(i) => Value::Number(serde_json::Number::from_f64(i.value())?),
             ParserValue::String(s) => Value::String(s.value().to_owned()),
             ParserValue::Boolean(b) => Value::Bool(b.value()),
             ParserValue::Null(_) => Value::Null,
-- 
2.43.0


From 4d618f9372e35f2a8e9615f2821834520260f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 021/116] fix: do not repeat the arguments of a directive that
 several subgraphs define

---
 .../src/compose/directive_definitions.rs                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directive_definitions.rs b/crates/graphql-composition/src/compose/directive_definitions.rs
index 5c1af1e..830e3bf 100644
--- a/crates/graphql-composition/src/compose/directive_definitions.rs
+++ b/crates/graphql-composition/src/compose/directive_definitions.rs
@@ -59,9 +59,9 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
         let mut arguments = Vec::<ir::InputValueDefinitionIr>::with_capacity(first_definition.arguments.len());
         for (ix, definition) in chunk.iter().copied().enumerate() {
             for argument in &definition.arguments {
-                if arguments
-                    .iter()
-                    .find(|arg| ctx[arg.name] == ctx[argument.name])
+                let already_composed = arguments.iter().find(|arg| ctx[arg.name] == ctx[argument.name]);
+
+                if already_composed
                     .map(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
                     .unwrap_or(argument.r#type.wrapping.is_non_null() && ix != 0)
                 {
@@ -86,7 +86,7 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
 
                     ctx.diagnostics.push_fatal(diagnostic);
                     continue 'directives;
-                } else {
+                } else if already_composed.is_none() {
                     let input_value_definition = ir::InputValueDefinitionIr {
                         name: ctx.insert_string(argument.name),
                         r#type: argument.r#type,
-- 
2.43.0


From 448d4d02d8e453b0a27fb6492f3100939c43e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 022/116] fix: reject directive arguments of types that are not
 in the composed schema instead of panicking

---
 crates/graphql-composition/src/compose/context.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/context.rs b/crates/graphql-composition/src/compose/context.rs
index 16b41ec..1116d24 100644
--- a/crates/graphql-composition/src/compose/context.rs
+++ b/crates/graphql-composition/src/compose/context.rs
@@ -74,6 +74,13 @@ impl<'a> Context<'a> {
             .iter()
             .map(|input| (input.r#type.definition_name_id, ir.strings[input.name].to_owned()));
 
+        let directive_arguments = ir.directive_definitions.iter().flat_map(|definition| {
+            definition.arguments.iter().map(|argument| {
+                let path = format!("@{}({})", &ir.strings[definition.name], &ir.strings[argument.name]);
+                (argument.r#type.definition_name_id, path)
+            })
+        });
+
         let interfaces = subgraphs.iter_interface_impls().flat_map(|(interface, implementer)| {
             let implementer_name = subgraphs[implementer].as_ref().to_owned();
             [
@@ -82,7 +89,11 @@ impl<'a> Context<'a> {
             ]
         });
 
-        for (type_name, referenced_by) in field_types.chain(input_types).chain(interfaces) {
+        for (type_name, referenced_by) in field_types
+            .chain(input_types)
+            .chain(directive_arguments)
+            .chain(interfaces)
+        {
             let type_name = subgraphs[type_name].as_ref();
 
             if !composed.contains(type_name) {
-- 
2.43.0


From 8a5df936a7b93efaec8b06865004f3fa798e0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 023/116] fix: keep the whole name of types with a double
 underscore when loading a federated SDL

---
 .../graphql-composition/src/federated_graph/from_sdl.rs   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl.rs b/crates/graphql-composition/src/federated_graph/from_sdl.rs
index f5e84b3..0a188e4 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl.rs
@@ -445,7 +445,13 @@ fn ingest_definitions<'a>(document: &'a ast::TypeSystemDocument, state: &mut Sta
             ast::Definition::TypeExtension(typedef) | ast::Definition::Type(typedef) => {
                 let type_name = typedef.name();
 
-                let (namespace, type_name_id) = split_namespace_name(type_name, state);
+                // Only scalars and enums have a namespace, the others keep their whole name.
+                let (namespace, type_name_id) = match typedef {
+                    ast::TypeDefinition::Scalar(_) | ast::TypeDefinition::Enum(_) => {
+                        split_namespace_name(type_name, state)
+                    }
+                    _ => (None, state.insert_string(type_name)),
+                };
 
                 let description = typedef
                     .description()
-- 
2.43.0


From fdd53c70f98c446e9ca4d8cdf70926262e347863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 024/116] fix: do not hide the user's enums and scalars with a
 double underscore from the API after loading a federated SDL

---
 .../graphql-composition/src/federated_graph/from_sdl.rs   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl.rs b/crates/graphql-composition/src/federated_graph/from_sdl.rs
index 0a188e4..0b29409 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl.rs
@@ -1238,8 +1238,14 @@ fn test_from_sdl_with_missing_query_root() {
     ).unwrap();
 }
 
+/// The namespaces of the specifications a federated SDL is made of. Any other prefix is part of the user's names.
+const SPECIFICATION_NAMESPACES: [&str; 6] = ["composite", "core", "extension", "federation", "join", "link"];
+
 pub(crate) fn split_namespace_name(original_name: &str, state: &mut State<'_>) -> (Option<StringId>, StringId) {
-    match original_name.split_once("__") {
+    match original_name
+        .split_once("__")
+        .filter(|(namespace, _)| SPECIFICATION_NAMESPACES.contains(namespace))
+    {
         Some((namespace, name)) => {
             let namespace = state.insert_string(namespace);
             let name = state.insert_string(name);
-- 
2.43.0


From 884d950657fdde2aadc127f805480500b556eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 025/116] fix: do not repeat the composed directives that
 several subgraphs apply to the same place

---
 .../src/compose/directives.rs                 | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index bc193ad..0616dc2 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -185,11 +185,44 @@ pub(super) fn collect_composed_directives(
         out.push(directive);
     }
 
-    extra_directives.dedup();
+    let extra_directives_start = out.len();
 
     for directive in extra_directives {
-        out.push(directive);
+        let is_duplicate = out[extra_directives_start..]
+            .iter_mut()
+            .any(|existing| merge_duplicate(existing, &directive));
+
+        if !is_duplicate {
+            out.push(directive);
+        }
     }
 
     out
 }
+
+/// Returns whether `directive` is the same as `existing`. The same directive can be composed from several subgraphs, with
+/// or without a link to the schema it comes from.
+fn merge_duplicate(existing: &mut ir::Directive, directive: &ir::Directive) -> bool {
+    use ir::DirectiveProvenance::ComposeDirective;
+
+    match (existing, directive) {
+        (
+            ir::Directive::Other {
+                name: existing_name,
+                arguments: existing_arguments,
+                provenance: ComposeDirective {
+                    linked_schema_id: existing_link,
+                },
+            },
+            ir::Directive::Other {
+                name,
+                arguments,
+                provenance: ComposeDirective { linked_schema_id },
+            },
+        ) if existing_name == name && existing_arguments == arguments => {
+            *existing_link = existing_link.or(*linked_schema_id);
+            true
+        }
+        (existing, directive) => existing == directive,
+    }
+}
-- 
2.43.0


From 1b570bd38cd54beedaa4304cab5f563158455bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 026/116] fix: reject directive definitions that lack an
 argument another subgraph requires, whatever their order

---
 .../src/compose/directive_definitions.rs      | 62 +++++++++++++------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directive_definitions.rs b/crates/graphql-composition/src/compose/directive_definitions.rs
index 830e3bf..cc2a4f7 100644
--- a/crates/graphql-composition/src/compose/directive_definitions.rs
+++ b/crates/graphql-composition/src/compose/directive_definitions.rs
@@ -58,6 +58,20 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
         let repeatable = first_definition.repeatable;
         let mut arguments = Vec::<ir::InputValueDefinitionIr>::with_capacity(first_definition.arguments.len());
         for (ix, definition) in chunk.iter().copied().enumerate() {
+            // The applications in this subgraph cannot provide the arguments that only other subgraphs require.
+            if ix != 0
+                && arguments.iter().any(|arg| {
+                    arg.r#type.wrapping.is_non_null()
+                        && !definition
+                            .arguments
+                            .iter()
+                            .any(|other| ctx[other.name] == ctx[arg.name])
+                })
+            {
+                push_incompatible_arguments(ctx, first_definition, definition);
+                continue 'directives;
+            }
+
             for argument in &definition.arguments {
                 let already_composed = arguments.iter().find(|arg| ctx[arg.name] == ctx[argument.name]);
 
@@ -65,26 +79,7 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
                     .map(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
                     .unwrap_or(argument.r#type.wrapping.is_non_null() && ix != 0)
                 {
-                    let mut diagnostic = format!(
-                        "Directive `{}` is defined with incompatible arguments:\n",
-                        ctx.subgraphs[first_definition.name].as_ref(),
-                    );
-
-                    for def in [first_definition, definition] {
-                        writeln!(
-                            diagnostic,
-                            "- ({}) in {}",
-                            def.arguments
-                                .iter()
-                                .cloned()
-                                .map(|arg| arg.display(ctx.subgraphs).to_string())
-                                .join(", "),
-                            ctx.subgraphs[ctx.subgraphs.at(def.subgraph_id).name].as_ref(),
-                        )
-                        .unwrap();
-                    }
-
-                    ctx.diagnostics.push_fatal(diagnostic);
+                    push_incompatible_arguments(ctx, first_definition, definition);
                     continue 'directives;
                 } else if already_composed.is_none() {
                     let input_value_definition = ir::InputValueDefinitionIr {
@@ -152,3 +147,30 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
         });
     }
 }
+
+fn push_incompatible_arguments(
+    ctx: &mut Context<'_>,
+    first_definition: &subgraphs::DirectiveDefinition,
+    definition: &subgraphs::DirectiveDefinition,
+) {
+    let mut diagnostic = format!(
+        "Directive `{}` is defined with incompatible arguments:\n",
+        ctx.subgraphs[first_definition.name].as_ref(),
+    );
+
+    for def in [first_definition, definition] {
+        writeln!(
+            diagnostic,
+            "- ({}) in {}",
+            def.arguments
+                .iter()
+                .cloned()
+                .map(|arg| arg.display(ctx.subgraphs).to_string())
+                .join(", "),
+            ctx.subgraphs[ctx.subgraphs.at(def.subgraph_id).name].as_ref(),
+        )
+        .unwrap();
+    }
+
+    ctx.diagnostics.push_fatal(diagnostic);
+}
-- 
2.43.0


From 82a57ee46ece23dd2aebeb0b08d52fc4649853a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 027/116] fix: accept every valid argument value in field sets:
 nulls, custom scalars, ids, integers for floats

---
 .../src/validate/selection.rs                 | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 9072ab8..7d73f80 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -258,9 +258,28 @@ fn argument_type_matches(
 ) -> bool {
     let arg_type_name = ctx.subgraphs[arg_type.definition_name_id].as_ref();
 
+    let is_custom_scalar = || {
+        ctx.subgraphs
+            .definition_by_name_id(arg_type.definition_name_id, subgraph)
+            .is_some_and(|definition| ctx.subgraphs.at(definition).kind == subgraphs::DefinitionKind::Scalar)
+    };
+
     match value {
-        subgraphs::Value::String(_) if arg_type_name == "String" => true,
-        subgraphs::Value::Int(_) if arg_type_name == "Int" => true,
+        subgraphs::Value::Null => !arg_type.is_required(),
+        subgraphs::Value::List(inner) if arg_type.is_list() => {
+            let inner_type = subgraphs::FieldType {
+                wrapping: arg_type.wrapping.without_list().unwrap_or_default(),
+                ..*arg_type
+            };
+
+            inner
+                .iter()
+                .all(|inner| argument_type_matches(ctx, subgraph, &inner_type, inner))
+        }
+        // Any value is up to the scalar.
+        _ if is_custom_scalar() => true,
+        subgraphs::Value::String(_) if matches!(arg_type_name, "String" | "ID") => true,
+        subgraphs::Value::Int(_) if matches!(arg_type_name, "Int" | "Float" | "ID") => true,
         subgraphs::Value::Float(_) if arg_type_name == "Float" => true,
         subgraphs::Value::Boolean(_) if arg_type_name == "Boolean" => true,
         subgraphs::Value::Enum(value) => {
@@ -289,9 +308,6 @@ fn argument_type_matches(
                 argument_type_matches(ctx, subgraph, &inner_field.r#type, field_value)
             })
         }
-        subgraphs::Value::List(inner) if arg_type.is_list() => inner
-            .iter()
-            .all(|inner| argument_type_matches(ctx, subgraph, arg_type, inner)),
         _ => false,
     }
 }
-- 
2.43.0


From e0e5f9eb6279b50961ab78c334e5bdf50bb5f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 028/116] fix: diff directives and types of the same name
 separately

---
 crates/graphql-schema-diff/src/state.rs            | 4 ++++
 crates/graphql-schema-diff/src/traverse_schemas.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index 3d28a26..fb3b305 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -10,6 +10,8 @@ pub(crate) struct DiffState<'a> {
     pub(crate) schema_definition_map: [Option<ast::SchemaDefinition<'a>>; 2],
     pub(crate) schema_extensions: Vec<[Option<ast::SchemaDefinition<'a>>; 2]>,
     pub(crate) types_map: DiffMap<&'a str, ast::Definition<'a>>,
+    // Not in `types_map`, because a directive and a type can have the same name.
+    pub(crate) directives_map: DiffMap<&'a str, ast::Definition<'a>>,
     pub(crate) fields_map: DiffMap<[&'a str; 2], (Option<ast::Type<'a>>, Span)>,
     pub(crate) interface_impls: DiffMap<&'a str, Vec<&'a str>>,
     pub(crate) arguments_map: DiffMap<[&'a str; 3], ast::InputValueDefinition<'a>>,
@@ -50,6 +52,7 @@ impl DiffState<'_> {
             schema_definition_map,
             schema_extensions,
             types_map,
+            directives_map,
             fields_map,
             arguments_map,
             interface_impls,
@@ -69,6 +72,7 @@ impl DiffState<'_> {
         push_interface_implementer_changes(interface_impls, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
+        push_definition_changes(&directives_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
         push_argument_changes(&fields_map, &arguments_map, &mut push_change);
 
diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index eebf66b..5226114 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -31,7 +31,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[0] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                insert_source(&mut state.types_map, directive_def.name(), definition);
+                insert_source(&mut state.directives_map, directive_def.name(), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
@@ -138,7 +138,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[1] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                merge_target(state.types_map.entry(directive_def.name()), definition);
+                merge_target(state.directives_map.entry(directive_def.name()), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
-- 
2.43.0


From 172db5100a35b85d661979da12c84123e4035135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 029/116] fix: diff the interfaces of a type with those of its
 extensions

---
 .../src/traverse_schemas.rs                   | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index 5226114..9bb289b 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -42,11 +42,8 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Object(obj) => {
                         state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            obj.implements_interfaces().collect(),
-                        );
+                        let (src_impls, _) = state.interface_impls.entry(type_name).or_default();
+                        src_impls.get_or_insert_default().extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             let field_name = field.name();
@@ -63,11 +60,8 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Interface(iface) => {
                         state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            iface.implements_interfaces().collect(),
-                        );
+                        let (src_impls, _) = state.interface_impls.entry(type_name).or_default();
+                        src_impls.get_or_insert_default().extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
@@ -149,10 +143,8 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Object(obj) => {
                         state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            obj.implements_interfaces().collect(),
-                        );
+                        let (_, target_impls) = state.interface_impls.entry(type_name).or_default();
+                        target_impls.get_or_insert_default().extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             merge_target(
@@ -165,10 +157,10 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                     }
                     ast::TypeDefinition::Interface(iface) => {
                         state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            iface.implements_interfaces().collect(),
-                        );
+                        let (_, target_impls) = state.interface_impls.entry(type_name).or_default();
+                        target_impls
+                            .get_or_insert_default()
+                            .extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
-- 
2.43.0


From 576ea2bba776090f78fc1efb8fb2637b3f9a4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 030/116] fix: do not report changes inside types that become
 another kind of type

---
 crates/graphql-schema-diff/src/state.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index fb3b305..b2433e5 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -69,12 +69,12 @@ impl DiffState<'_> {
 
         push_schema_definition_changes(schema_definition_map, &mut push_change);
         push_schema_extension_changes(schema_extensions, &mut push_change);
-        push_interface_implementer_changes(interface_impls, &mut push_change);
+        push_interface_implementer_changes(interface_impls, &types_map, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
         push_definition_changes(&directives_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
-        push_argument_changes(&fields_map, &arguments_map, &mut push_change);
+        push_argument_changes(&fields_map, &arguments_map, &types_map, &mut push_change);
 
         changes.sort();
 
@@ -106,9 +106,22 @@ fn push_schema_extension_changes(
     }
 }
 
-fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>, push_change: PushChangeFn<'_>) {
+/// The type is in both schemas, but not as the same kind of type. We report that it is removed and added.
+fn kind_changed(types_map: &DiffMap<&str, ast::Definition<'_>>, type_name: &str) -> bool {
+    matches!(&types_map[type_name], (Some(a), Some(b)) if DefinitionKind::new(a) != DefinitionKind::new(b))
+}
+
+fn push_interface_implementer_changes(
+    interface_impls: DiffMap<&str, Vec<&str>>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
+    push_change: PushChangeFn<'_>,
+) {
     // O(n²) but n should always be small enough to not matter
     for (implementer, (src, target)) in &interface_impls {
+        if kind_changed(types_map, implementer) {
+            continue;
+        }
+
         let Some((src, target)) = src.as_deref().zip(target.as_deref()) else {
             continue;
         };
@@ -138,9 +151,14 @@ fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>,
 fn push_argument_changes(
     fields_map: &DiffMap<[&str; 2], (Option<ast::Type<'_>>, Span)>,
     arguments_map: &DiffMap<[&str; 3], ast::InputValueDefinition<'_>>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
     push_change: PushChangeFn<'_>,
 ) {
     for ([type_name, field_name, arg_name], (src, target)) in arguments_map {
+        if kind_changed(types_map, type_name) {
+            continue;
+        }
+
         let parent_is_gone = match fields_map[&[*type_name, *field_name]] {
             (Some(_), None) => true,
             (None, Some(_)) => continue,
-- 
2.43.0


From 360c32221dc7b628beff5364042c4fdb09e87f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 031/116] fix: patch removed interface implementations when
 other parts of the type change too

---
 crates/graphql-schema-diff/src/patch/paths.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/paths.rs b/crates/graphql-schema-diff/src/patch/paths.rs
index 7b7edd5..ba0021d 100644
--- a/crates/graphql-schema-diff/src/patch/paths.rs
+++ b/crates/graphql-schema-diff/src/patch/paths.rs
@@ -71,13 +71,13 @@ where
     }
 
     pub(crate) fn is_interface_impl_removed(&self, prefix: &str, interface: &str) -> bool {
-        self.paths
-            .binary_search_by(|(path, idx)| {
-                [path[0], path[1].trim_start_matches('&')]
-                    .cmp(&[prefix, interface])
-                    .then(self.diff[*idx].kind.cmp(&ChangeKind::RemoveInterfaceImplementation))
-            })
-            .is_ok()
+        let start = self.paths.partition_point(|([found, _, _], _)| *found < prefix);
+
+        self.paths[start..]
+            .iter()
+            .take_while(|([name, _, _], _)| *name == prefix)
+            .filter(|(_, idx)| matches!(self.diff[*idx].kind, ChangeKind::RemoveInterfaceImplementation))
+            .any(|([_, removed, _], _)| removed.trim_start_matches('&') == interface)
     }
 }
 
-- 
2.43.0


From 2669afa0b0a331d9869001dd91fee7ec5a2f022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 032/116] fix: keep the descriptions of enum values and input
 fields, and input field defaults, in patched schemas

---
 .../src/patch/type_definitions.rs             | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 5fc90b3..a34a20e 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -120,6 +120,13 @@ fn patch_input_object<'a, T: AsRef<str>>(
             continue;
         }
 
+        if let Some(description) = field.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(field.name());
 
@@ -131,6 +138,12 @@ fn patch_input_object<'a, T: AsRef<str>>(
             schema.push_str(&field.ty().to_string());
         }
 
+        if field.default_value().is_some() {
+            schema.push(' ');
+            let span = field.default_value_span();
+            schema.push_str(&paths.source()[span.start..span.end]);
+        }
+
         patch_directives(field.directives(), schema, paths);
 
         schema.push('\n');
@@ -302,6 +315,13 @@ fn patch_enum_values<'a, T>(
             continue;
         }
 
+        if let Some(description) = value.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(value.value());
 
-- 
2.43.0


From 6e36c6ead8a8dabca5bbea283fb00ac800cdd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 033/116] fix: separate the arguments added to a field in
 patched schemas

---
 crates/graphql-schema-diff/src/patch/type_definitions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index a34a20e..34052ec 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -232,8 +232,15 @@ fn patch_fields<'a, T>(
         if arguments.peek().is_some() || !added_arguments_for_field.is_empty() {
             schema.push('(');
 
-            for (_, full_argument) in &added_arguments_for_field {
+            for (idx, (_, full_argument)) in added_arguments_for_field.iter().enumerate() {
                 schema.push_str(full_argument);
+
+                let is_last = idx + 1 == added_arguments_for_field.len() && arguments.peek().is_none();
+
+                // The span of an argument can extend to the next one.
+                if !is_last && !full_argument.ends_with([' ', '\t', '\r', '\n', ',']) {
+                    schema.push_str(", ");
+                }
             }
 
             while let Some(argument) = arguments.next() {
-- 
2.43.0


From 9fb7a67febe5301f83a94da2e43b59888125411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 034/116] fix: patch the types and defaults of arguments

---
 .../src/patch/type_definitions.rs             | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 34052ec..0ada6ec 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -166,6 +166,8 @@ fn patch_fields<'a, T>(
     let mut removed_fields = Vec::new();
     let mut removed_arguments = Vec::new();
     let mut added_arguments = Vec::new();
+    let mut changed_argument_types = Vec::new();
+    let mut changed_argument_defaults = Vec::new();
 
     for change in paths.iter_second_level(parent) {
         match change.kind() {
@@ -192,6 +194,15 @@ fn patch_fields<'a, T>(
             ChangeKind::RemoveFieldArgument => {
                 removed_arguments.push(change.second_and_third_level());
             }
+            ChangeKind::ChangeFieldArgumentType => {
+                changed_argument_types.push((change.second_and_third_level(), change.resolved_str()));
+            }
+            ChangeKind::AddFieldArgumentDefault | ChangeKind::ChangeFieldArgumentDefault => {
+                changed_argument_defaults.push((change.second_and_third_level(), Some(change.resolved_str())));
+            }
+            ChangeKind::RemoveFieldArgumentDefault => {
+                changed_argument_defaults.push((change.second_and_third_level(), None));
+            }
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
@@ -250,14 +261,28 @@ fn patch_fields<'a, T>(
                     schema.push(' ');
                 }
 
+                let path = [field.name(), argument.name()];
+
                 schema.push_str(argument.name());
                 schema.push_str(": ");
-                schema.push_str(&argument.ty().to_string());
 
-                if argument.default_value().is_some() {
+                if let Some((_, new_type)) = changed_argument_types.iter().find(|(changed, _)| *changed == path) {
+                    schema.push_str(new_type);
+                } else {
+                    schema.push_str(&argument.ty().to_string());
+                }
+
+                let default = match changed_argument_defaults.iter().find(|(changed, _)| *changed == path) {
+                    Some((_, new_default)) => *new_default,
+                    None => argument.default_value().map(|_| {
+                        let span = argument.default_value_span();
+                        &paths.source()[span.start..span.end]
+                    }),
+                };
+
+                if let Some(default) = default {
                     schema.push(' ');
-                    let span = argument.default_value_span();
-                    schema.push_str(&paths.source()[span.start..span.end]);
+                    schema.push_str(default);
                 }
 
                 patch_directives(argument.directives(), schema, paths);
-- 
2.43.0


From 02276cc661c4acc514a2d81187b05da7817a2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 035/116] fix: patch types that become another kind of type

---
 crates/graphql-schema-diff/src/patch/type_definitions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 0ada6ec..6d25e0a 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -20,6 +20,15 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
             | ChangeKind::RemoveScalar
             | ChangeKind::RemoveInterface
             | ChangeKind::RemoveInputObject => return,
+            // The type becomes another kind of type.
+            ChangeKind::AddObjectType
+            | ChangeKind::AddUnion
+            | ChangeKind::AddEnum
+            | ChangeKind::AddScalar
+            | ChangeKind::AddInterface
+            | ChangeKind::AddInputObject => (),
+            // A directive with the name of the type.
+            ChangeKind::AddDirectiveDefinition | ChangeKind::RemoveDirectiveDefinition => (),
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
-- 
2.43.0


From e01121d81437e03a8083295ca226a412ef99a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 036/116] fix: do not render empty blocks in patched schemas

---
 .../src/patch/type_definitions.rs             | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 6d25e0a..74e456b 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -90,13 +90,30 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
     schema.push_str("\n\n");
 }
 
+const BLOCK_START: &str = " {\n";
+
+fn open_block(schema: &mut String) -> usize {
+    let block_start = schema.len();
+    schema.push_str(BLOCK_START);
+    block_start
+}
+
+/// Empty blocks are not valid GraphQL, they are left out.
+fn close_block(block_start: usize, schema: &mut String) {
+    if schema.len() == block_start + BLOCK_START.len() {
+        schema.truncate(block_start);
+    } else {
+        schema.push('}');
+    }
+}
+
 fn patch_input_object<'a, T: AsRef<str>>(
     fields: impl Iterator<Item = InputValueDefinition<'a>>,
     parent: &str,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) {
-    schema.push_str(" {\n");
+    let block_start = open_block(schema);
 
     let mut removed_fields = Vec::new();
     let mut changed_field_types = Vec::new();
@@ -158,7 +175,7 @@ fn patch_input_object<'a, T: AsRef<str>>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    close_block(block_start, schema);
 }
 
 fn patch_fields<'a, T>(
@@ -169,7 +186,7 @@ fn patch_fields<'a, T>(
 ) where
     T: AsRef<str>,
 {
-    schema.push_str(" {\n");
+    let block_start = open_block(schema);
 
     let mut changed_field_types = Vec::new();
     let mut removed_fields = Vec::new();
@@ -317,7 +334,7 @@ fn patch_fields<'a, T>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    close_block(block_start, schema);
 }
 
 fn patch_enum_values<'a, T>(
@@ -330,7 +347,7 @@ fn patch_enum_values<'a, T>(
 {
     let mut removed_enum_values = Vec::new();
 
-    schema.push_str(" {\n");
+    let block_start = open_block(schema);
 
     for change in paths.iter_second_level(enum_name) {
         match change.kind() {
@@ -371,7 +388,7 @@ fn patch_enum_values<'a, T>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    close_block(block_start, schema);
 }
 
 fn patch_union<'a, T>(
-- 
2.43.0


From a5f45d695f1bdac92df1720b24d2695bd23c2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 037/116] fix: do not repeat additions in the extensions of a
 type in patched schemas

---
 crates/graphql-schema-diff/src/patch.rs       | 27 ++++++++++++-
 .../src/patch/type_definitions.rs             | 38 ++++++++++++++++---
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch.rs b/crates/graphql-schema-diff/src/patch.rs
index a81a822..23bcd99 100644
--- a/crates/graphql-schema-diff/src/patch.rs
+++ b/crates/graphql-schema-diff/src/patch.rs
@@ -5,6 +5,7 @@ mod type_definitions;
 
 use self::paths::Paths;
 use crate::{Change, ChangeKind};
+use std::collections::HashSet;
 
 const INDENTATION: &str = "  ";
 
@@ -44,6 +45,16 @@ where
         }
     }
 
+    // What is added to a type is added to its definition or, if it only has extensions, to the first one.
+    let mut additions_rendered = HashSet::new();
+    let defined_types: HashSet<&str> = parsed
+        .definitions()
+        .filter_map(|definition| match definition {
+            cynic_parser::type_system::Definition::Type(ty) => Some(ty.name()),
+            _ => None,
+        })
+        .collect();
+
     for definition in parsed.definitions() {
         match definition {
             cynic_parser::type_system::Definition::Schema(def) => {
@@ -58,10 +69,22 @@ where
                 schema_definitions::patch_schema_definition(def, DefinitionOrExtension::Extension, &mut schema, &paths);
             }
             cynic_parser::type_system::Definition::Type(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Definition, &mut schema, &paths);
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Definition,
+                    additions_rendered.insert(ty.name()),
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::TypeExtension(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Extension, &mut schema, &paths);
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Extension,
+                    !defined_types.contains(ty.name()) && additions_rendered.insert(ty.name()),
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::Directive(directive_definition) => {
                 directives::patch_directive_definition(directive_definition, &mut schema, &paths);
diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 74e456b..376f856 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -9,6 +9,7 @@ use super::{DefinitionOrExtension, INDENTATION, directives::patch_directives, pa
 pub(super) fn patch_type_definition<T: AsRef<str>>(
     ty: TypeDefinition<'_>,
     definition_or_extension: super::DefinitionOrExtension,
+    receives_additions: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
@@ -35,6 +36,8 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
         }
     }
 
+    let definition_start = schema.len();
+
     if let Some(description) = ty.description() {
         let span = description.span();
         schema.push_str(&paths.source()[span.start..span.end]);
@@ -58,13 +61,18 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
     schema.push(' ');
     schema.push_str(ty.name());
 
+    let contents_start = schema.len();
+
     let mut implements: Vec<&str> = match ty {
         TypeDefinition::Object(obj) => obj.implements_interfaces().collect(),
         TypeDefinition::Interface(interface) => interface.implements_interfaces().collect(),
         _ => Vec::new(),
     };
 
-    implements.extend(paths.added_interface_impls(ty.name()));
+    if receives_additions {
+        implements.extend(paths.added_interface_impls(ty.name()));
+    }
+
     implements.retain(|interface| !paths.is_interface_impl_removed(ty.name(), interface));
     implements.sort_unstable();
     implements.dedup();
@@ -78,15 +86,25 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
 
     match ty {
         TypeDefinition::Scalar(_) => (),
-        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), schema, paths),
-        TypeDefinition::Interface(interface) => patch_fields(interface.fields(), ty.name(), schema, paths),
-        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), schema, paths),
-        TypeDefinition::Enum(r#enum) => patch_enum_values(r#enum.values(), ty.name(), schema, paths),
+        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), receives_additions, schema, paths),
+        TypeDefinition::Interface(interface) => {
+            patch_fields(interface.fields(), ty.name(), receives_additions, schema, paths)
+        }
+        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), receives_additions, schema, paths),
+        TypeDefinition::Enum(r#enum) => {
+            patch_enum_values(r#enum.values(), ty.name(), receives_additions, schema, paths)
+        }
         TypeDefinition::InputObject(input_object) => {
-            patch_input_object(input_object.fields(), ty.name(), schema, paths)
+            patch_input_object(input_object.fields(), ty.name(), receives_additions, schema, paths)
         }
     }
 
+    if definition_or_extension.is_extension() && schema.len() == contents_start {
+        // Nothing is left of the extension.
+        schema.truncate(definition_start);
+        return;
+    }
+
     schema.push_str("\n\n");
 }
 
@@ -110,6 +128,7 @@ fn close_block(block_start: usize, schema: &mut String) {
 fn patch_input_object<'a, T: AsRef<str>>(
     fields: impl Iterator<Item = InputValueDefinition<'a>>,
     parent: &str,
+    receives_additions: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) {
@@ -128,6 +147,7 @@ fn patch_input_object<'a, T: AsRef<str>>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
+            ChangeKind::AddField if !receives_additions => (),
             ChangeKind::AddField => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -181,6 +201,7 @@ fn patch_input_object<'a, T: AsRef<str>>(
 fn patch_fields<'a, T>(
     fields: impl Iterator<Item = FieldDefinition<'a>>,
     parent: &str,
+    receives_additions: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) where
@@ -205,6 +226,7 @@ fn patch_fields<'a, T>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
+            ChangeKind::AddField if !receives_additions => (),
             ChangeKind::AddField => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -340,6 +362,7 @@ fn patch_fields<'a, T>(
 fn patch_enum_values<'a, T>(
     values: impl Iterator<Item = EnumValueDefinition<'a>>,
     enum_name: &str,
+    receives_additions: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -351,6 +374,7 @@ fn patch_enum_values<'a, T>(
 
     for change in paths.iter_second_level(enum_name) {
         match change.kind() {
+            ChangeKind::AddEnumValue if !receives_additions => (),
             ChangeKind::AddEnumValue => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -394,6 +418,7 @@ fn patch_enum_values<'a, T>(
 fn patch_union<'a, T>(
     members: impl Iterator<Item = UnionMember<'a>>,
     union_name: &str,
+    receives_additions: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -404,6 +429,7 @@ fn patch_union<'a, T>(
 
     for change in paths.iter_second_level(union_name) {
         match change.kind() {
+            ChangeKind::AddUnionMember if !receives_additions => (),
             ChangeKind::AddUnionMember => {
                 added_members.push(change.second_level().expect("AddUnionMember without member name"))
             }
-- 
2.43.0


From caab68b6652673c5a9cb78b5082226febb2ad290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 038/116] fix: tell the extensions of the schema apart in diffs

---
 crates/graphql-schema-diff/src/patch.rs          | 16 ++++++++++++++--
 .../src/patch/schema_definitions.rs              |  8 ++------
 crates/graphql-schema-diff/src/state.rs          |  6 +++---
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch.rs b/crates/graphql-schema-diff/src/patch.rs
index 23bcd99..552a773 100644
--- a/crates/graphql-schema-diff/src/patch.rs
+++ b/crates/graphql-schema-diff/src/patch.rs
@@ -4,7 +4,7 @@ mod schema_definitions;
 mod type_definitions;
 
 use self::paths::Paths;
-use crate::{Change, ChangeKind};
+use crate::{Change, ChangeKind, path::Path};
 use std::collections::HashSet;
 
 const INDENTATION: &str = "  ";
@@ -45,6 +45,8 @@ where
         }
     }
 
+    let mut schema_extensions_count = 0;
+
     // What is added to a type is added to its definition or, if it only has extensions, to the first one.
     let mut additions_rendered = HashSet::new();
     let defined_types: HashSet<&str> = parsed
@@ -61,12 +63,22 @@ where
                 schema_definitions::patch_schema_definition(
                     def,
                     DefinitionOrExtension::Definition,
+                    &Path::SchemaDefinition.to_string(),
                     &mut schema,
                     &paths,
                 );
             }
             cynic_parser::type_system::Definition::SchemaExtension(def) => {
-                schema_definitions::patch_schema_definition(def, DefinitionOrExtension::Extension, &mut schema, &paths);
+                let path = Path::SchemaExtension(schema_extensions_count).to_string();
+                schema_extensions_count += 1;
+
+                schema_definitions::patch_schema_definition(
+                    def,
+                    DefinitionOrExtension::Extension,
+                    &path,
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::Type(ty) => {
                 type_definitions::patch_type_definition(
diff --git a/crates/graphql-schema-diff/src/patch/schema_definitions.rs b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
index 711d6c5..6acfaa1 100644
--- a/crates/graphql-schema-diff/src/patch/schema_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
@@ -7,6 +7,7 @@ use super::{DefinitionOrExtension, INDENTATION, directives::patch_directives, pa
 pub(super) fn patch_schema_definition<T: AsRef<str>>(
     definition: SchemaDefinition<'_>,
     definition_or_extension: super::DefinitionOrExtension,
+    path: &str,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
@@ -14,12 +15,7 @@ pub(super) fn patch_schema_definition<T: AsRef<str>>(
     let mut new_mutation_type = None;
     let mut new_subscription_type = None;
 
-    let prefix = match definition_or_extension {
-        DefinitionOrExtension::Extension => ":schema[0]",
-        DefinitionOrExtension::Definition => ":schema",
-    };
-
-    for change in paths.iter_exact([prefix, "", ""]) {
+    for change in paths.iter_exact([path, "", ""]) {
         match change.kind() {
             ChangeKind::ChangeQueryType => {
                 new_query_type = Some(change.resolved_str());
diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index b2433e5..7e95423 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -88,16 +88,16 @@ fn push_schema_extension_changes(
     schema_extensions: Vec<[Option<ast::SchemaDefinition<'_>>; 2]>,
     push_change: PushChangeFn<'_>,
 ) {
-    for extension in schema_extensions {
+    for (idx, extension) in schema_extensions.into_iter().enumerate() {
         match extension {
             // TODO(GB-7390): we only react to additions and removals for now. We should do full diffing.
             [None, Some(def)] => push_change(
-                path::Path::SchemaExtension(0),
+                path::Path::SchemaExtension(idx),
                 ChangeKind::AddSchemaExtension,
                 def.span().into(),
             ),
             [Some(def), None] => push_change(
-                path::Path::SchemaExtension(0),
+                path::Path::SchemaExtension(idx),
                 ChangeKind::RemoveSchemaExtension,
                 def.span().into(),
             ),
-- 
2.43.0


From 7ed0977cff7d501ec9084d7754c7d9680cd45f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 039/116] fix: refuse schema paths with non-ASCII names before
 an index instead of panicking

---
 crates/graphql-schema-diff/src/path/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-diff/src/path/parse.rs b/crates/graphql-schema-diff/src/path/parse.rs
index 57a65e6..d1ae661 100644
--- a/crates/graphql-schema-diff/src/path/parse.rs
+++ b/crates/graphql-schema-diff/src/path/parse.rs
@@ -121,7 +121,7 @@ impl<'a> Path<'a> {
 }
 
 fn parse_name_and_optional_index(s: &str) -> ParseResult<(&str, Option<usize>)> {
-    let bracket_idx = s.chars().position(|c| c == '[');
+    let bracket_idx = s.find('[');
 
     let name = bracket_idx.map(|idx| &s[..idx]).unwrap_or(s);
 
-- 
2.43.0


From 87ac5d85bc3ed22d9386655f4a879d3bbd603501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 040/116] fix: refuse schema paths with a sign in an index

---
 crates/graphql-schema-diff/src/path/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-diff/src/path/parse.rs b/crates/graphql-schema-diff/src/path/parse.rs
index d1ae661..4259d8d 100644
--- a/crates/graphql-schema-diff/src/path/parse.rs
+++ b/crates/graphql-schema-diff/src/path/parse.rs
@@ -145,7 +145,7 @@ fn parse_index(s: &str) -> ParseResult<usize> {
 
     let idx = &s[1..s.len() - 1];
 
-    if !idx.chars().any(|char| char.is_ascii_digit()) {
+    if !idx.chars().all(|char| char.is_ascii_digit()) {
         return Err(ParseError);
     }
 
-- 
2.43.0


From 9d2c5322d7f0e2ae9d49f8a1f5854067bf9afc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 041/116] fix: ingest the arguments of interface fields in
 operation checks

---
 .../src/schema/async_graphql.rs               | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index d16cadf..29e4a27 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -53,17 +53,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     wrappers,
                                 });
 
-                                for argument in &field.node.arguments {
-                                    let (base_type, wrappers) = extract_type(&argument.node.ty.node);
-                                    field_arguments.push(schema::FieldArgument {
-                                        type_name: type_name.to_string(),
-                                        field_name: field_name.to_string(),
-                                        argument_name: argument.node.name.node.to_string(),
-                                        base_type,
-                                        wrappers,
-                                        has_default: argument.node.default_value.is_some(),
-                                    });
-                                }
+                                ingest_arguments(type_name, &field.node, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::Interface(iface) => {
@@ -80,6 +70,8 @@ impl From<ServiceDocument> for schema::Schema {
                                     base_type,
                                     wrappers,
                                 });
+
+                                ingest_arguments(type_name, &field.node, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::InputObject(input_obj) => {
@@ -116,6 +108,24 @@ impl From<ServiceDocument> for schema::Schema {
     }
 }
 
+fn ingest_arguments(
+    type_name: &str,
+    field: &async_graphql_parser::types::FieldDefinition,
+    field_arguments: &mut Vec<schema::FieldArgument>,
+) {
+    for argument in &field.arguments {
+        let (base_type, wrappers) = extract_type(&argument.node.ty.node);
+        field_arguments.push(schema::FieldArgument {
+            type_name: type_name.to_string(),
+            field_name: field.name.node.to_string(),
+            argument_name: argument.node.name.node.to_string(),
+            base_type,
+            wrappers,
+            has_default: argument.node.default_value.is_some(),
+        });
+    }
+}
+
 pub(crate) fn extract_type(top_level_ty: &async_graphql_parser::types::Type) -> (String, WrappingTypes) {
     let mut ty = top_level_ty;
     let mut wrapper_types = WrappingTypes::default();
-- 
2.43.0


From 0f410627356a9a9c0f73159e842269eacd868f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 042/116] fix: find all the arguments that operations leave out
 in operation checks

---
 crates/operation-checks/src/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 4b48b08..2e89d10 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -73,7 +73,7 @@ impl Schema {
         let start = self.field_arguments.partition_point(
             |FieldArgument {
                  type_name, field_name, ..
-             }| { type_name < &field.type_name && field_name < &field.field_name },
+             }| { (type_name, field_name) < (&field.type_name, &field.field_name) },
         );
 
         self.field_arguments[start..]
-- 
2.43.0


From b003f543d3aa60cb1ef2e74bd6af2e64ecbcedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 043/116] fix: look up changed arguments in the target schema
 in operation checks

---
 crates/operation-checks/src/check/rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 783a3a8..023ad5c 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -156,7 +156,7 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
     let (field_name, arg_name) = field_name_and_arg_name.split_once('.').unwrap();
 
     let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
-    let arg_in_target = check_params.source.find_argument((type_name, field_name, arg_name));
+    let arg_in_target = check_params.target.find_argument((type_name, field_name, arg_name));
 
     'refine: {
         if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
-- 
2.43.0


From 2dd1f456b75bd5381b59ef269240f2e5338514cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 044/116] fix: count type conditions of named fragments, and
 all of them with the weight of the operation, in operation checks

---
 .../operation-checks/src/aggregate_field_usage.rs  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 5d2252b..1fa969b 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -165,6 +165,13 @@ impl FieldUsage {
             .entry(argument_id)
             .or_insert(0) += self.increment;
     }
+
+    fn register_type_condition_usage(&mut self, parent_type_name: &str, type_condition: &str) {
+        *self
+            .type_condition_counts
+            .entry([parent_type_name, type_condition].join("."))
+            .or_insert(0) += self.increment;
+    }
 }
 
 /// Given a GraphQL query and the corresponding schema, count the number of times each schema field is used.
@@ -247,14 +254,13 @@ fn aggregate_field_usage_inner(
                     continue;
                 };
 
+                usage.register_type_condition_usage(parent_type_name, type_condition);
+
                 aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);
             }
             Selection::InlineFragment { on, selection } => {
                 let subselection_parent_type = if let Some(on) = on {
-                    *usage
-                        .type_condition_counts
-                        .entry([parent_type_name, on].join("."))
-                        .or_insert(0) += 1;
+                    usage.register_type_condition_usage(parent_type_name, on);
 
                     on
                 } else {
-- 
2.43.0


From 61d5e3a4075a92aa2722038aaab4502a762b3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 045/116] fix: report removed implementations and members when
 there is a fragment on the abstract type inside of the object in operation
 checks

---
 crates/operation-checks/src/check.rs       |  6 ++++++
 crates/operation-checks/src/check/rules.rs | 17 ++++++++---------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 5e24295..2584a25 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -69,6 +69,12 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
         self.field_usage.argument_is_left_out(argument_id)
     }
 
+    /// Whether there is a fragment on one of these types in a selection on the other.
+    fn type_condition_is_used_between(&self, left: &str, right: &str) -> bool {
+        self.field_usage.type_condition_is_used(&format!("{left}.{right}"))
+            || self.field_usage.type_condition_is_used(&format!("{right}.{left}"))
+    }
+
     fn find_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
         let mut path = path.split('.');
         let type_name = path.next().unwrap();
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 023ad5c..8a88d79 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -297,8 +297,8 @@ pub(super) fn change_field_type<T: UsageProvider>(
     }
 }
 
-/// Removing an `implements` is safe iff there is no inline fragment making use of the
-/// implementer on selections on the interface.
+/// Removing an `implements` is safe iff there is no fragment making use of the implementer on
+/// selections on the interface, nor of the interface on selections on the implementer.
 pub(super) fn remove_interface_implementation<T: UsageProvider>(
     CheckArgs {
         change, check_params, ..
@@ -307,10 +307,7 @@ pub(super) fn remove_interface_implementation<T: UsageProvider>(
     let (type_name, interface_name) = change.path.split_once('.')?;
     let interface_name = interface_name.trim_start_matches('&');
 
-    if !check_params
-        .field_usage
-        .type_condition_is_used(&format!("{interface_name}.{type_name}"))
-    {
+    if !check_params.type_condition_is_used_between(interface_name, type_name) {
         return None;
     }
 
@@ -324,14 +321,16 @@ pub(super) fn remove_interface_implementation<T: UsageProvider>(
     })
 }
 
-/// Removing an union member is safe iff there is no inline fragment making use of the member on
-/// selections on the union.
+/// Removing an union member is safe iff there is no fragment making use of the member on
+/// selections on the union, nor of the union on selections on the member.
 pub(super) fn remove_union_member<T: UsageProvider>(
     CheckArgs {
         change, check_params, ..
     }: CheckArgs<'_, '_, T>,
 ) -> Option<CheckDiagnostic> {
-    if !check_params.field_usage.type_condition_is_used(&change.path) {
+    let (union_name, member_name) = change.path.split_once('.')?;
+
+    if !check_params.type_condition_is_used_between(union_name, member_name) {
         return None;
     }
 
-- 
2.43.0


From b5171466671ef24317916193f116e77eca52a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 046/116] fix: count enum values in lists and input objects in
 operation checks

---
 .../src/aggregate_field_usage.rs              | 31 +++++++-----
 crates/operation-checks/src/operation.rs      | 14 ++++--
 .../src/operation/async_graphql.rs            | 47 +++++++++++++------
 3 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 1fa969b..0f1f97d 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -155,8 +155,20 @@ impl FieldUsage {
         }
     }
 
-    fn register_enum_value_usage(&mut self, enum_and_value: String) {
-        *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
+    fn register_enum_literal_usage(&mut self, base_type: &str, literal: &EnumLiteral, schema: &schema::Schema) {
+        let mut enum_type = base_type;
+
+        for input_field in &literal.path {
+            let Some(field_id) = schema.find_field(enum_type, input_field) else {
+                return;
+            };
+            enum_type = &schema[field_id].base_type;
+        }
+
+        *self
+            .count_per_enum_value
+            .entry([enum_type, literal.value.as_str()].join("."))
+            .or_insert(0) += self.increment;
     }
 
     fn register_argument_with_default_left_out(&mut self, argument_id: schema::ArgumentId) {
@@ -176,8 +188,8 @@ impl FieldUsage {
 
 /// Given a GraphQL query and the corresponding schema, count the number of times each schema field is used.
 pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage: &mut FieldUsage) {
-    for used_enum_value in &query.enum_values_in_variable_defaults {
-        usage.register_enum_value_usage(used_enum_value.clone());
+    for (variable_type, literal) in &query.enum_literals_in_variable_defaults {
+        usage.register_enum_literal_usage(variable_type, literal, schema);
     }
 
     let ty = match query.operation_type {
@@ -214,20 +226,15 @@ fn aggregate_field_usage_inner(
 
                 usage.register_field_usage(field_id);
 
-                for super::operation::Argument {
-                    name,
-                    enum_literal_value,
-                } in arguments
-                {
+                for super::operation::Argument { name, enum_literals } in arguments {
                     let Some(argument_id) = schema.find_argument((parent_type_name, field_name, name)) else {
                         continue;
                     };
 
                     usage.register_argument_usage(argument_id);
 
-                    if let Some(enum_value) = enum_literal_value {
-                        let enum_type_name = schema[argument_id].base_type.as_str();
-                        usage.register_enum_value_usage([enum_type_name, enum_value.as_str()].join("."));
+                    for literal in enum_literals {
+                        usage.register_enum_literal_usage(&schema[argument_id].base_type, literal, schema);
                     }
                 }
 
diff --git a/crates/operation-checks/src/operation.rs b/crates/operation-checks/src/operation.rs
index abc37b1..77866bf 100644
--- a/crates/operation-checks/src/operation.rs
+++ b/crates/operation-checks/src/operation.rs
@@ -17,7 +17,8 @@ pub struct Operation {
     /// (parent selection, selection)
     pub(crate) selections: Vec<(SelectionId, Selection)>,
 
-    pub(crate) enum_values_in_variable_defaults: Vec<String>,
+    /// (type of the variable, enum literal in its default)
+    pub(crate) enum_literals_in_variable_defaults: Vec<(String, EnumLiteral)>,
 }
 
 #[derive(Debug)]
@@ -36,8 +37,15 @@ pub enum OperationType {
 #[derive(Debug)]
 pub(crate) struct Argument {
     pub(crate) name: String,
-    /// Some(_) if the argument value is an enum literal.
-    pub(crate) enum_literal_value: Option<String>,
+    /// The enum literals anywhere in the argument value.
+    pub(crate) enum_literals: Vec<EnumLiteral>,
+}
+
+#[derive(Debug)]
+pub(crate) struct EnumLiteral {
+    /// The input fields that lead to the literal, outermost first. Empty if it is not in an object.
+    pub(crate) path: Vec<String>,
+    pub(crate) value: String,
 }
 
 #[derive(Debug)]
diff --git a/crates/operation-checks/src/operation/async_graphql.rs b/crates/operation-checks/src/operation/async_graphql.rs
index 2ed31b0..206e499 100644
--- a/crates/operation-checks/src/operation/async_graphql.rs
+++ b/crates/operation-checks/src/operation/async_graphql.rs
@@ -1,13 +1,13 @@
 use super::*;
 use async_graphql_parser::{Positioned, types::ExecutableDocument};
-use async_graphql_value::ConstValue;
+use async_graphql_value::Value;
 
 impl From<ExecutableDocument> for super::Operation {
     fn from(value: ExecutableDocument) -> Self {
         let mut selection_id_counter = 0usize;
         let mut fragments = HashMap::with_capacity(value.fragments.len());
         let mut selections = Vec::new();
-        let mut enum_values_in_variable_defaults = Vec::new();
+        let mut enum_literals_in_variable_defaults = Vec::new();
 
         for (name, fragment) in &value.fragments {
             let selection_id = SelectionId(selection_id_counter);
@@ -39,13 +39,12 @@ impl From<ExecutableDocument> for super::Operation {
         selection_id_counter += 1;
 
         for variable in &operation.node.variable_definitions {
-            if let Some(Positioned {
-                node: ConstValue::Enum(enum_value),
-                ..
-            }) = &variable.node.default_value
-            {
+            if let Some(Positioned { node: default, .. }) = &variable.node.default_value {
                 let (base, _) = crate::schema::extract_type(&variable.node.var_type.node);
-                enum_values_in_variable_defaults.push([base.as_str(), enum_value.as_str()].join("."));
+                let mut enum_literals = Vec::new();
+                collect_enum_literals(&default.clone().into_value(), &mut Vec::new(), &mut enum_literals);
+                enum_literals_in_variable_defaults
+                    .extend(enum_literals.into_iter().map(|literal| (base.clone(), literal)));
             }
         }
 
@@ -61,7 +60,7 @@ impl From<ExecutableDocument> for super::Operation {
             operation_type,
             root_selection,
             selections,
-            enum_values_in_variable_defaults,
+            enum_literals_in_variable_defaults,
         }
     }
 }
@@ -94,14 +93,12 @@ fn ingest_selection(
                     .arguments
                     .iter()
                     .map(|(name, value)| {
-                        let enum_literal_value = match &value.node {
-                            async_graphql_value::Value::Enum(val) => Some(val.to_string()),
-                            _ => None,
-                        };
+                        let mut enum_literals = Vec::new();
+                        collect_enum_literals(&value.node, &mut Vec::new(), &mut enum_literals);
 
                         Argument {
                             name: name.node.to_string(),
-                            enum_literal_value,
+                            enum_literals,
                         }
                     })
                     .collect(),
@@ -131,3 +128,25 @@ fn ingest_selection(
         }
     }
 }
+
+fn collect_enum_literals(value: &Value, path: &mut Vec<String>, out: &mut Vec<EnumLiteral>) {
+    match value {
+        Value::Enum(value) => out.push(EnumLiteral {
+            path: path.clone(),
+            value: value.to_string(),
+        }),
+        Value::List(values) => {
+            for value in values {
+                collect_enum_literals(value, path, out);
+            }
+        }
+        Value::Object(fields) => {
+            for (name, value) in fields {
+                path.push(name.to_string());
+                collect_enum_literals(value, path, out);
+                path.pop();
+            }
+        }
+        _ => (),
+    }
+}
-- 
2.43.0


From 5f7b9b003c2052251b2b7d6357fda1d7594782dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 047/116] fix: do not report new required input fields that
 have a default in operation checks

---
 crates/operation-checks/src/check/rules.rs          | 6 +++---
 crates/operation-checks/src/schema.rs               | 6 ++++++
 crates/operation-checks/src/schema/async_graphql.rs | 3 +++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 8a88d79..62cbeea 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -104,8 +104,8 @@ pub(super) fn add_field_argument<T: UsageProvider>(
     })
 }
 
-/// Adding a field is breaking iff it is a required input object field. The input object has
-/// to be used, too.
+/// Adding a field is breaking iff it is a required input object field without default. The
+/// input object has to be used, too.
 pub(super) fn add_field<T: UsageProvider>(
     CheckArgs {
         change,
@@ -118,7 +118,7 @@ pub(super) fn add_field<T: UsageProvider>(
 
     let field_id = check_params.target.find_field(type_name, field_name)?;
 
-    if !check_params.target[field_id].is_required() {
+    if !check_params.target[field_id].is_required_without_default_value() {
         return None;
     }
 
diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 2e89d10..5733899 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -109,6 +109,8 @@ pub struct SchemaField {
     /// The type of the field without any wrapping type (! and []).
     pub(crate) base_type: String,
     pub(crate) wrappers: WrappingTypes,
+    /// Only input fields can have a default.
+    pub(crate) has_default: bool,
 }
 
 impl SchemaField {
@@ -119,6 +121,10 @@ impl SchemaField {
     pub(crate) fn is_required(&self) -> bool {
         self.wrappers.is_nonnull()
     }
+
+    pub(crate) fn is_required_without_default_value(&self) -> bool {
+        self.is_required() && !self.has_default
+    }
 }
 
 impl PartialOrd for SchemaField {
diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index 29e4a27..ae68eb1 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -51,6 +51,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 ingest_arguments(type_name, &field.node, &mut field_arguments);
@@ -69,6 +70,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 ingest_arguments(type_name, &field.node, &mut field_arguments);
@@ -84,6 +86,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: field.node.default_value.is_some(),
                                 });
                             }
                         }
-- 
2.43.0


From 50284f1dfcd7d47ab74f4d17ef5725484b63cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 048/116] fix: do not report removed defaults of arguments that
 are not required in operation checks

---
 crates/operation-checks/src/check/rules.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 62cbeea..b9185e7 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -415,7 +415,7 @@ pub(crate) fn remove_enum_value<T: UsageProvider>(args: CheckArgs<'_, '_, T>) ->
     })
 }
 
-/// Only breaking if the argument is required and at least one query leaves it out.
+/// Only breaking if the argument is still required and at least one query leaves it out.
 pub(crate) fn remove_field_argument_default<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
     let path = &args.change.path;
 
@@ -423,6 +423,14 @@ pub(crate) fn remove_field_argument_default<T: UsageProvider>(args: CheckArgs<'_
         return None;
     }
 
+    let mut segments = path.split('.');
+    let target_path = (segments.next()?, segments.next()?, segments.next()?);
+    let target_id = args.check_params.target.find_argument(target_path)?;
+
+    if !args.check_params.target[target_id].is_required() {
+        return None;
+    }
+
     Some(CheckDiagnostic {
         message: format!("The default value for required argument `{path}` was removed but some queries leave it out.",),
         severity: Severity::Error,
-- 
2.43.0


From bf6c584c62ac3c29a29cf9cdae5cff7659563069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 049/116] fix: tell arguments that become required from others
 that change type in operation checks

---
 crates/operation-checks/src/check/rules.rs | 24 ++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index b9185e7..0d72044 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -142,7 +142,8 @@ pub(super) fn add_field<T: UsageProvider>(
 }
 
 /// Changing the type of an argument or removing an argument is safe iff the argument is not in
-/// use or if it was required and became optional (keeping the same inner type).
+/// use or if it was required and became optional (keeping the same inner type). Even if it is not
+/// in use, it must not become required.
 pub(super) fn change_field_argument_type<T: UsageProvider>(
     CheckArgs {
         change, check_params, ..
@@ -158,11 +159,16 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
     let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
     let arg_in_target = check_params.target.find_argument((type_name, field_name, arg_name));
 
+    let argument_is_used = check_params.argument_is_used(&change.path);
+    let mut became_required = false;
+
     'refine: {
         if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
             let src_arg = &check_params.source[src_id];
             let target_arg = &check_params.target[target_id];
 
+            became_required = !src_arg.is_required() && target_arg.is_required_without_default_value();
+
             if src_arg.base_type != target_arg.base_type {
                 break 'refine; // type change overrides arity change
             }
@@ -172,6 +178,9 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
                 crate::schema::WrapperTypesComparison::AddedNonNull if target_arg.has_default => {
                     return None;
                 }
+                crate::schema::WrapperTypesComparison::AddedNonNull if !argument_is_used && !became_required => {
+                    return None;
+                }
                 crate::schema::WrapperTypesComparison::AddedNonNull => {
                     return Some(CheckDiagnostic {
                         message: format!(
@@ -189,12 +198,19 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
         }
     }
 
-    if !check_params.argument_is_used(&change.path) {
+    let message = if argument_is_used {
+        format!("The argument `{}` changed type but it is used by clients.", change.path)
+    } else if became_required {
+        format!(
+            "The argument `{}` became required, but clients are not providing it.",
+            change.path
+        )
+    } else {
         return None;
-    }
+    };
 
     Some(CheckDiagnostic {
-        message: format!("The argument `{}` changed type but it is used by clients.", change.path),
+        message,
         severity: Severity::Error,
         path: change.path.clone(),
         change_kind: change.kind,
-- 
2.43.0


From 06b205e9e09d6fad9d33e71716c52af774fb243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 050/116] fix: report list arguments whose items become
 required, even with a default, in operation checks

---
 crates/operation-checks/src/check/rules.rs           |  4 +++-
 crates/operation-checks/src/schema/wrapping_types.rs | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 0d72044..f12140c 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -175,7 +175,9 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
 
             match src_arg.wrappers.compare(&target_arg.wrappers) {
                 crate::schema::WrapperTypesComparison::RemovedNonNull => return None,
-                crate::schema::WrapperTypesComparison::AddedNonNull if target_arg.has_default => {
+                crate::schema::WrapperTypesComparison::AddedNonNull
+                    if target_arg.has_default && src_arg.wrappers.has_same_items(&target_arg.wrappers) =>
+                {
                     return None;
                 }
                 crate::schema::WrapperTypesComparison::AddedNonNull if !argument_is_used && !became_required => {
diff --git a/crates/operation-checks/src/schema/wrapping_types.rs b/crates/operation-checks/src/schema/wrapping_types.rs
index f939885..2178df2 100644
--- a/crates/operation-checks/src/schema/wrapping_types.rs
+++ b/crates/operation-checks/src/schema/wrapping_types.rs
@@ -91,6 +91,18 @@ impl WrappingTypes {
             .unwrap_or_else(|| self.inner_is_nonnull())
     }
 
+    /// Whether the types are the same, except for the outermost nullability.
+    pub(crate) fn has_same_items(&self, target: &WrappingTypes) -> bool {
+        if self.lists_count() != target.lists_count() {
+            return false;
+        }
+
+        // Without lists, the inner nullability is the outermost.
+        self.lists_count() == 0
+            || self.inner_is_nonnull() == target.inner_is_nonnull()
+                && self.iter_list_types().skip(1).eq(target.iter_list_types().skip(1))
+    }
+
     pub(crate) fn compare(&self, target: &WrappingTypes) -> WrapperTypesComparison {
         use ListType::*;
         use WrapperTypesComparison::*;
-- 
2.43.0


From 4ce98471f574ee3a14cffe22f28b74f125eb923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 051/116] fix: do not overwrite the nullability of types in
 more than 57 lists in operation checks

---
 crates/operation-checks/src/schema/wrapping_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema/wrapping_types.rs b/crates/operation-checks/src/schema/wrapping_types.rs
index 2178df2..2651ec7 100644
--- a/crates/operation-checks/src/schema/wrapping_types.rs
+++ b/crates/operation-checks/src/schema/wrapping_types.rs
@@ -154,7 +154,7 @@ impl WrappingTypes {
     pub(crate) fn push_list(&mut self, nonnull: bool) {
         let lists_count = u64::from(self.lists_count());
 
-        if lists_count > Self::LIST_BITS_COUNT {
+        if lists_count >= Self::LIST_BITS_COUNT {
             // Too many list wrappers
             return;
         }
-- 
2.43.0


From 8d32c7ff3673a74054fa0e00f4ae90d501bb3aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 052/116] fix: report removed interfaces and unions that are
 used in type conditions in operation checks

---
 .../src/aggregate_field_usage.rs              | 13 +++++++++++
 crates/operation-checks/src/check.rs          |  7 +++---
 crates/operation-checks/src/check/rules.rs    | 22 +++++++++++++++++++
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 0f1f97d..b19540f 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -18,6 +18,9 @@ pub trait UsageProvider {
     /// Check if a type condition is used.
     fn type_condition_is_used(&self, type_condition: &str) -> bool;
 
+    /// Check if there are type conditions on a type, wherever they are.
+    fn type_is_used_in_type_conditions(&self, type_name: &str) -> bool;
+
     /// Get all used argument IDs for finding used input types.
     fn used_argument_ids(&self) -> Box<dyn Iterator<Item = schema::ArgumentId> + '_>;
 
@@ -66,6 +69,12 @@ impl UsageProvider for FieldUsage {
         self.type_condition_counts.contains_key(type_condition)
     }
 
+    fn type_is_used_in_type_conditions(&self, type_name: &str) -> bool {
+        self.type_condition_counts
+            .keys()
+            .any(|condition| condition.rsplit('.').next() == Some(type_name))
+    }
+
     fn used_argument_ids(&self) -> Box<dyn Iterator<Item = schema::ArgumentId> + '_> {
         Box::new(self.count_per_field_argument.keys().copied())
     }
@@ -98,6 +107,10 @@ impl UsageProvider for AssumeAllUsed {
         true
     }
 
+    fn type_is_used_in_type_conditions(&self, _type_name: &str) -> bool {
+        true
+    }
+
     fn used_argument_ids(&self) -> Box<dyn Iterator<Item = schema::ArgumentId> + '_> {
         Box::new(std::iter::empty())
     }
diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 2584a25..3844971 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -167,9 +167,10 @@ fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDia
         // which are the actual breaking changes.
         | ChangeKind::RemoveEnum
         | ChangeKind::RemoveScalar
-        | ChangeKind::RemoveInterface
-        | ChangeKind::RemoveInputObject
-        | ChangeKind::RemoveUnion => None,
+        | ChangeKind::RemoveInputObject => None,
+
+        // The same, but they can also be used in type conditions.
+        ChangeKind::RemoveInterface | ChangeKind::RemoveUnion => rules::remove_abstract_type(args),
 
         ChangeKind::RemoveObjectType => rules::remove_object_type(args),
 
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index f12140c..e9c3170 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -363,6 +363,28 @@ pub(super) fn remove_union_member<T: UsageProvider>(
     })
 }
 
+/// If you remove an interface or a union, it registers as a field type change for the fields that
+/// return it. But there can be fragments on it in selections on other types.
+pub(super) fn remove_abstract_type<T: UsageProvider>(
+    CheckArgs {
+        change, check_params, ..
+    }: CheckArgs<'_, '_, T>,
+) -> Option<CheckDiagnostic> {
+    if !check_params.field_usage.type_is_used_in_type_conditions(&change.path) {
+        return None;
+    }
+
+    Some(CheckDiagnostic {
+        message: format!(
+            "The type `{}` was removed but it is still used in fragments by clients.",
+            change.path
+        ),
+        severity: Severity::Error,
+        path: change.path.clone(),
+        change_kind: change.kind,
+    })
+}
+
 /// If you remove a regular object type, it registers as a field type change
 /// for the fields that return it. But that isn't the case for the root
 /// query, mutation and subscription types, so we need to check for that
-- 
2.43.0


From 55f761d926725bc617e11b58b7be520a02c8511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 053/116] fix: do not recurse forever in operations with cyclic
 fragments in operation checks

---
 .../src/aggregate_field_usage.rs              | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index b19540f..000024e 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -211,15 +211,17 @@ pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage:
         OperationType::Subscription => &schema.subscription_type_name,
     };
 
-    aggregate_field_usage_inner(query.root_selection, ty, query, schema, usage);
+    aggregate_field_usage_inner(query.root_selection, ty, query, schema, usage, &mut Vec::new());
 }
 
-fn aggregate_field_usage_inner(
+fn aggregate_field_usage_inner<'a>(
     selection_id: SelectionId,
     parent_type_name: &str,
-    query: &Operation,
+    query: &'a Operation,
     schema: &schema::Schema,
     usage: &mut FieldUsage,
+    // The fragments we are in, because invalid operations can have cycles.
+    open_fragments: &mut Vec<&'a str>,
 ) {
     let start = query.selections.partition_point(|(id, _)| *id < selection_id);
     let selection_set = query.selections[start..]
@@ -253,7 +255,7 @@ fn aggregate_field_usage_inner(
 
                 if let Some(subselection_id) = subselection {
                     let field_type = &schema[field_id].base_type;
-                    aggregate_field_usage_inner(*subselection_id, field_type, query, schema, usage);
+                    aggregate_field_usage_inner(*subselection_id, field_type, query, schema, usage, open_fragments);
                 }
 
                 for (argument_id, schema_argument) in schema
@@ -274,9 +276,15 @@ fn aggregate_field_usage_inner(
                     continue;
                 };
 
+                if open_fragments.contains(&fragment_name.as_str()) {
+                    continue;
+                }
+
                 usage.register_type_condition_usage(parent_type_name, type_condition);
 
-                aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);
+                open_fragments.push(fragment_name);
+                aggregate_field_usage_inner(*selection, type_condition, query, schema, usage, open_fragments);
+                open_fragments.pop();
             }
             Selection::InlineFragment { on, selection } => {
                 let subselection_parent_type = if let Some(on) = on {
@@ -287,7 +295,14 @@ fn aggregate_field_usage_inner(
                     parent_type_name
                 };
 
-                aggregate_field_usage_inner(*selection, subselection_parent_type, query, schema, usage);
+                aggregate_field_usage_inner(
+                    *selection,
+                    subselection_parent_type,
+                    query,
+                    schema,
+                    usage,
+                    open_fragments,
+                );
             }
         }
     }
-- 
2.43.0


From b47fe0e7293bd3990b8b1a8fec4945c8a8301e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 054/116] fix: report types in use that become another kind of
 type in operation checks

---
 crates/operation-checks/src/check.rs       | 28 +++++++++++++++++
 crates/operation-checks/src/check/rules.rs | 35 ++++++++++++++++++++++
 2 files changed, 63 insertions(+)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 3844971..2ac3937 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -75,6 +75,30 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
             || self.field_usage.type_condition_is_used(&format!("{right}.{left}"))
     }
 
+    /// Whether the change removes a type, but the target has another kind of type with its name.
+    fn is_change_to_another_kind(&self, change: &Change) -> bool {
+        matches!(
+            change.kind,
+            ChangeKind::RemoveObjectType
+                | ChangeKind::RemoveInterface
+                | ChangeKind::RemoveUnion
+                | ChangeKind::RemoveEnum
+                | ChangeKind::RemoveScalar
+                | ChangeKind::RemoveInputObject
+        ) && self.diff.iter().any(|other| {
+            other.path == change.path
+                && matches!(
+                    other.kind,
+                    ChangeKind::AddObjectType
+                        | ChangeKind::AddInterface
+                        | ChangeKind::AddUnion
+                        | ChangeKind::AddEnum
+                        | ChangeKind::AddScalar
+                        | ChangeKind::AddInputObject
+                )
+        })
+    }
+
     fn find_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
         let mut path = path.split('.');
         let type_name = path.next().unwrap();
@@ -126,6 +150,10 @@ struct CheckArgs<'a, 'b, T: UsageProvider> {
 }
 
 fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
+    if args.check_params.is_change_to_another_kind(args.change) {
+        return rules::change_kind_of_type(args);
+    }
+
     match args.change.kind {
         // Not relevant for federated graphs.
         ChangeKind::ChangeMutationType
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index e9c3170..2893d95 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -363,6 +363,41 @@ pub(super) fn remove_union_member<T: UsageProvider>(
     })
 }
 
+/// A type that becomes another kind of type does not change the types of the fields and arguments
+/// that refer to it. It is breaking iff one of them is in use.
+pub(super) fn change_kind_of_type<T: UsageProvider>(
+    CheckArgs {
+        change,
+        check_params,
+        used_input_types,
+    }: CheckArgs<'_, '_, T>,
+) -> Option<CheckDiagnostic> {
+    let source = check_params.source;
+    let usage = check_params.field_usage;
+    let type_name = &change.path;
+    let used_input_types = used_input_types.get_or_insert_with(|| find_used_input_types(check_params));
+
+    // The types of fields that return it, and the root types, which no field needs to return.
+    let is_used = source.fields.iter().enumerate().any(|(id, field)| {
+        (&field.base_type == type_name || &field.type_name == type_name)
+            && (usage.field_is_used(crate::schema::FieldId(id)) && !source.input_objects.contains(&field.type_name)
+                || used_input_types.contains(field.type_name.as_str()))
+    }) || source.field_arguments.iter().enumerate().any(|(id, argument)| {
+        &argument.base_type == type_name && usage.argument_is_used(crate::schema::ArgumentId(id))
+    }) || usage.type_is_used_in_type_conditions(type_name);
+
+    if !is_used {
+        return None;
+    }
+
+    Some(CheckDiagnostic {
+        message: format!("The type `{type_name}` became another kind of type but it is still used by clients."),
+        severity: Severity::Error,
+        path: change.path.clone(),
+        change_kind: change.kind,
+    })
+}
+
 /// If you remove an interface or a union, it registers as a field type change for the fields that
 /// return it. But there can be fragments on it in selections on other types.
 pub(super) fn remove_abstract_type<T: UsageProvider>(
-- 
2.43.0


From 1cf5b8b3695f417df129103245c5714db3fad6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 055/116] fix: report removed objects when there is a fragment
 on their interface inside of them in operation checks

---
 crates/operation-checks/src/check/rules.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 2893d95..d0ddf71 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -432,8 +432,7 @@ pub(crate) fn remove_object_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -
     for interface_name in src.iter_interface_implementations(type_name) {
         if args
             .check_params
-            .field_usage
-            .type_condition_is_used(&format!("{interface_name}.{type_name}"))
+            .type_condition_is_used_between(interface_name, type_name)
         {
             return Some(CheckDiagnostic {
                 message: format!(
-- 
2.43.0


From f9dd7f67bfe519a8753902f869541b6020d7dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 056/116] fix: reject field set arguments that are not in the
 composed schema instead of panicking

---
 .../src/compose/context.rs                    | 72 +++++++++++++++++++
 crates/graphql-composition/src/lib.rs         |  1 +
 2 files changed, 73 insertions(+)

diff --git a/crates/graphql-composition/src/compose/context.rs b/crates/graphql-composition/src/compose/context.rs
index 1116d24..3ac9601 100644
--- a/crates/graphql-composition/src/compose/context.rs
+++ b/crates/graphql-composition/src/compose/context.rs
@@ -114,6 +114,78 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// Every argument in a field set must still be there in the composed schema. Arguments that some subgraphs do not
+    /// have are not.
+    pub(crate) fn validate_field_set_arguments(&mut self) {
+        let Context {
+            subgraphs,
+            diagnostics,
+            ir,
+        } = self;
+
+        let composed_fields: HashMap<(&str, &str), &ir::FieldIr> = ir
+            .fields
+            .iter()
+            .map(|field| {
+                let parent = &ir.strings[field.parent_definition_name];
+                ((parent, subgraphs[field.field_name].as_ref()), field)
+            })
+            .collect();
+
+        // The selections left to visit, with the name of the type they are on.
+        let mut stack: Vec<(&str, &[subgraphs::Selection])> = Vec::new();
+
+        for key in subgraphs.iter_keys() {
+            let parent = subgraphs.at(key.definition_id).name;
+            stack.push((subgraphs[parent].as_ref(), key.fields()));
+        }
+
+        for field in subgraphs.iter_fields() {
+            if let Some(requires) = field.directives.requires(subgraphs) {
+                let parent = subgraphs.at(field.parent_definition_id).name;
+                stack.push((subgraphs[parent].as_ref(), requires));
+            }
+
+            if let Some(provides) = field.directives.provides(subgraphs) {
+                stack.push((subgraphs[field.r#type.definition_name_id].as_ref(), provides));
+            }
+        }
+
+        while let Some((parent, selections)) = stack.pop() {
+            for selection in selections {
+                let selection = match selection {
+                    subgraphs::Selection::Field(selection) => selection,
+                    subgraphs::Selection::InlineFragment { on, subselection, .. } => {
+                        stack.push((subgraphs[*on].as_ref(), subselection));
+                        continue;
+                    }
+                };
+                let field_name = subgraphs[selection.field].as_ref();
+
+                let Some(field) = composed_fields.get(&(parent, field_name)) else {
+                    continue;
+                };
+
+                let (start, len) = field.arguments;
+                let start = usize::from(start);
+                let composed_arguments = &ir.input_value_definitions[start..start + len];
+
+                for (argument, _) in &selection.arguments {
+                    let argument = subgraphs[*argument].as_ref();
+
+                    if !composed_arguments.iter().any(|arg| ir.strings[arg.name] == *argument) {
+                        diagnostics.push_fatal(format!(
+                            "The argument `{argument}` of `{parent}.{field_name}` is used in a field set, but it is not part of the composed schema because it is not defined in all subgraphs that define the field.",
+                        ));
+                    }
+                }
+
+                let field_type = subgraphs[field.field_type.definition_name_id].as_ref();
+                stack.push((field_type, &selection.subselection));
+            }
+        }
+    }
+
     pub(crate) fn insert_enum(
         &mut self,
         enum_name: &str,
diff --git a/crates/graphql-composition/src/lib.rs b/crates/graphql-composition/src/lib.rs
index ef2768b..e5eb95a 100644
--- a/crates/graphql-composition/src/lib.rs
+++ b/crates/graphql-composition/src/lib.rs
@@ -58,6 +58,7 @@ pub fn compose(subgraphs: &mut Subgraphs) -> CompositionResult {
 
     if !context.diagnostics.any_fatal() {
         context.validate_type_references();
+        context.validate_field_set_arguments();
     }
 
     if context.diagnostics.any_fatal() {
-- 
2.43.0


From 9894e16e15d942f14f9cd9c5bded512355894c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 057/116] fix: validate the fields of input object extensions,
 and their names, in schema validation

---
 .../graphql-schema-validation/src/context.rs  | 19 ++++++++++++++
 .../src/validate/input_object_cycles.rs       | 11 ++++----
 .../src/validate/input_objects.rs             | 25 ++++++++++++++++---
 .../src/validate/type_definition.rs           |  8 +++++-
 4 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 27e3cd9..9a8b73f 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -4,6 +4,7 @@ use async_graphql_value::Name;
 use std::collections::HashMap;
 
 type AstField = Positioned<ast::FieldDefinition>;
+type AstInputField = Positioned<ast::InputValueDefinition>;
 
 pub(crate) struct Context<'a> {
     /// The source document.
@@ -24,6 +25,9 @@ pub(crate) struct Context<'a> {
     // Definition name, extended fields. Only populated in the presence of extensions.
     pub(crate) extended_fields: HashMap<&'a str, Vec<&'a [AstField]>>,
 
+    // Input object name, extended fields. Only populated in the presence of extensions.
+    pub(crate) extended_input_fields: HashMap<&'a str, Vec<&'a [AstInputField]>>,
+
     // Union name, extended members. Only populated in the presence of extensions.
     pub(crate) extended_unions: HashMap<&'a str, Vec<&'a [Positioned<Name>]>>,
 
@@ -55,6 +59,7 @@ impl<'a> Context<'a> {
             directive_names: HashMap::default(),
             extended_interface_implementations: HashMap::default(),
             extended_fields: HashMap::default(),
+            extended_input_fields: HashMap::default(),
             extended_unions: HashMap::default(),
             extended_enums: HashMap::default(),
         }
@@ -125,6 +130,20 @@ impl<'a> Context<'a> {
         handler(self, &all_fields);
     }
 
+    /// All the fields of an input object: those of its declaration and those of its extensions.
+    pub(crate) fn input_fields(&self, name: &str, base_fields: &'a [AstInputField]) -> Vec<&'a AstInputField> {
+        base_fields
+            .iter()
+            .chain(
+                self.extended_input_fields
+                    .get(name)
+                    .into_iter()
+                    .flat_map(|fields| fields.iter())
+                    .flat_map(|f| f.iter()),
+            )
+            .collect()
+    }
+
     /// With an object/interface name and the object/interface `implements` list, iterate all these
     /// implemented interfaces _and the `implements` defined in any extensions for this
     /// object/interface_ together.
diff --git a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
index 1720577..e98b42f 100644
--- a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
+++ b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
@@ -5,12 +5,10 @@ use std::collections::HashSet;
 /// http://spec.graphql.org/draft/#sec-Input-Objects.Type-Validation
 pub(crate) fn input_object_cycles<'a>(
     input_object_name: &'a str,
-    input_object: &'a ast::InputObjectType,
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     ctx: &mut Context<'a>,
 ) {
-    if let Some(mut chain) =
-        references_input_object_rec(input_object_name, &input_object.fields, &mut HashSet::new(), ctx)
-    {
+    if let Some(mut chain) = references_input_object_rec(input_object_name, fields, &mut HashSet::new(), ctx) {
         chain.reverse();
         ctx.push_error(miette::miette!(r#"Cannot reference Input Object {input_object_name} within itself through a series of non-null fields: "{}""#, chain.join(".")));
     }
@@ -18,7 +16,7 @@ pub(crate) fn input_object_cycles<'a>(
 
 fn references_input_object_rec<'a>(
     name: &'a str,
-    fields: &'a [Positioned<ast::InputValueDefinition>],
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     visited: &mut HashSet<&'a str>,
     ctx: &mut Context<'a>,
 ) -> Option<Vec<&'a str>> {
@@ -43,7 +41,8 @@ fn references_input_object_rec<'a>(
             ctx.definition_names.get(field_type_name).map(|ty| &ty.node.kind)
         {
             visited.insert(field_type_name);
-            if let Some(mut chain) = references_input_object_rec(name, &input_object.fields, visited, ctx) {
+            let fields = ctx.input_fields(field_type_name, &input_object.fields);
+            if let Some(mut chain) = references_input_object_rec(name, &fields, visited, ctx) {
                 chain.push(field.name.node.as_str());
                 return Some(chain);
             }
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 6dd7778..b7974a0 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -12,11 +12,13 @@ pub(crate) fn validate_input_object<'a>(
         ctx,
     );
 
-    if input_object.fields.is_empty() {
+    let fields = ctx.input_fields(parent_type_name, &input_object.fields);
+
+    if fields.is_empty() {
         diagnostics::empty_input_object(parent_type_name, ctx);
     }
 
-    for field in &input_object.fields {
+    for field in &fields {
         validate_directives(
             &field.node.directives,
             ast::DirectiveLocation::InputFieldDefinition,
@@ -25,6 +27,15 @@ pub(crate) fn validate_input_object<'a>(
         let field_name = &field.node.name.node;
         let type_name = extract_type_name(&field.node.ty.node.base);
         let location = || format!("{parent_type_name}.{field_name}");
+
+        if field_name.starts_with("__") {
+            let label = vec![miette::LabeledSpan::new_with_span(
+                Some("here".to_owned()),
+                miette::SourceSpan::new(ctx.miette_pos(field.node.name.pos), field.node.name.node.len()),
+            )];
+            ctx.push_error(miette::miette!(labels = label, r#"Input field name "{parent_type_name}.{field_name}" must not begin with "__", which is reserved by GraphQL introspection."#));
+        }
+
         match input_types::validate_input_type(type_name, field.node.ty.pos, ctx) {
             ValidateInputTypeResult::Ok => (),
             ValidateInputTypeResult::UnknownType => diagnostics::unknown_type(type_name, &location(), ctx),
@@ -34,7 +45,15 @@ pub(crate) fn validate_input_object<'a>(
         }
     }
 
-    input_object_cycles::input_object_cycles(parent_type_name, input_object, ctx);
+    let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
+    });
+
+    input_object_cycles::input_object_cycles(parent_type_name, &fields, ctx);
 }
 
 pub(crate) fn validate_input_object_extension<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index eba2023..789df0e 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -42,7 +42,13 @@ pub(crate) fn validate_type_definition<'a>(typedef: &'a Positioned<ast::TypeDefi
             ast::TypeKind::Union(union) => {
                 ctx.extended_unions.entry(type_name).or_default().push(&union.members);
             }
-            _ => (),
+            ast::TypeKind::InputObject(input_object) => {
+                ctx.extended_input_fields
+                    .entry(type_name)
+                    .or_default()
+                    .push(&input_object.fields);
+            }
+            ast::TypeKind::Scalar => (),
         }
 
         ctx.extension_names.entry(type_name).or_default().push(typedef);
-- 
2.43.0


From 75234774158a5aa17f2ee7940c3315e33c127b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 058/116] fix: do not panic on duplicate enum values in
 extensions in schema validation

---
 crates/graphql-schema-validation/src/validate/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 9810086..52f99e7 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -11,7 +11,7 @@ pub(crate) fn validate_enum_members<'a>(
     ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
         let value_names = values.iter().map(|v| v.node.value.node.as_str());
         ctx.find_duplicates(value_names, |ctx, idx, _| {
-            let value_name = enm.values[idx].node.value.node.as_str();
+            let value_name = values[idx].node.value.node.as_str();
             ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
         });
 
-- 
2.43.0


From 31e5b8f2247d61ecf9869be5861201bcd86c949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 059/116] fix: report empty enums and unions, and reserved
 names of enum values, in schema validation

---
 .../graphql-schema-validation/src/validate/enums.rs  | 12 ++++++++++++
 .../graphql-schema-validation/src/validate/unions.rs |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 52f99e7..ad28cb6 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -15,7 +15,19 @@ pub(crate) fn validate_enum_members<'a>(
             ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
         });
 
+        if values.is_empty() {
+            ctx.push_error(miette::miette!(
+                "The enum {type_name} has no values. An enum must define one or more values."
+            ));
+        }
+
         for value in values {
+            let value_name = value.node.value.node.as_str();
+
+            if value_name.starts_with("__") {
+                diagnostics::double_underscore_name(value_name, value.node.value.pos, ctx);
+            }
+
             validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
         }
     });
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 2298843..4902d82 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -26,6 +26,12 @@ pub(crate) fn validate_union_members<'a>(
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
     ctx.with_union_members(type_name, &union.members, |ctx, members| {
+        if members.is_empty() {
+            ctx.push_error(miette::miette!(
+                "The union {type_name} has no members. A union must include one or more member types."
+            ));
+        }
+
         for member in members {
             let member_name = member.node.as_str();
             match ctx.definition_names.get(member_name) {
-- 
2.43.0


From 0b21993afdfa77a47865c2bf69dd71ff926d2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 060/116] fix: validate the fields of interface extensions, and
 duplicate fields of interfaces, in schema validation

---
 .../src/validate/interfaces.rs                | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index 494b9d4..0ea902f 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -11,25 +11,35 @@ pub(crate) fn validate_interface<'a>(
         interface_implementers::validate_implements_list(parent_type_name, implements, &iface.fields, ctx);
     });
 
-    if iface.fields.is_empty() {
-        diagnostics::empty_interface(parent_type_name, ctx)
-    }
+    ctx.with_fields(parent_type_name, &iface.fields, |ctx, fields| {
+        if fields.is_empty() {
+            diagnostics::empty_interface(parent_type_name, ctx)
+        }
 
-    for field in &iface.fields {
-        object_field::validate_object_field(parent_type_name, field, ctx);
-        let field_name = &field.node.name.node;
-        let type_name = extract_type_name(&field.node.ty.node.base);
-        let location = || format!("{parent_type_name}.{field_name}");
-        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-            output_types::ValidateOutputTypeResult::Ok => (),
-            output_types::ValidateOutputTypeResult::UnknownType => {
-                diagnostics::unknown_type(type_name, &location(), ctx);
-            }
-            output_types::ValidateOutputTypeResult::InputObject => {
-                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
+        for field in fields {
+            object_field::validate_object_field(parent_type_name, field, ctx);
+            let field_name = &field.node.name.node;
+            let type_name = extract_type_name(&field.node.ty.node.base);
+            let location = || format!("{parent_type_name}.{field_name}");
+            match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
+                output_types::ValidateOutputTypeResult::Ok => (),
+                output_types::ValidateOutputTypeResult::UnknownType => {
+                    diagnostics::unknown_type(type_name, &location(), ctx);
+                }
+                output_types::ValidateOutputTypeResult::InputObject => {
+                    diagnostics::input_object_in_output_position(type_name, &location(), ctx);
+                }
             }
         }
-    }
+
+        let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+        ctx.find_duplicates(field_names, |ctx, _, idx| {
+            let field_name = fields[idx].node.name.node.as_str();
+            ctx.push_error(miette::miette!(
+                "Duplicate field {field_name} already exists on {parent_type_name}"
+            ));
+        });
+    });
 }
 
 pub(crate) fn validate_interface_extension<'a>(
-- 
2.43.0


From d7074645bdadb65d9f2910d3e79e71fc3a0273a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 061/116] fix: require what extensions add to an interface from
 its implementers in schema validation

---
 .../src/validate/interface_implementers.rs    | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 74a0e29..a2746ed 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -42,15 +42,26 @@ pub(crate) fn validate_implements_list<'a>(
 
         match &ty.node.kind {
             ast::TypeKind::Interface(iface) => {
-                validate_implements_interface_transitively(
-                    parent_name,
-                    parent_implements,
-                    &ty.node.name.node,
-                    iface,
-                    ctx,
-                );
+                // The contents of extensions come from the context.
+                let (iface_implements, iface_fields): (&[_], &[_]) = if ty.node.extend {
+                    (&[], &[])
+                } else {
+                    (&iface.implements, &iface.fields)
+                };
+
+                ctx.with_implements(iface_name, iface_implements, |ctx, iface_implements| {
+                    validate_implements_interface_transitively(
+                        parent_name,
+                        parent_implements,
+                        iface_name,
+                        iface_implements,
+                        ctx,
+                    );
+                });
 
-                validate_fields_implement_interface(parent_name, parent_fields, &ty.node.name.node, iface, ctx);
+                ctx.with_fields(iface_name, iface_fields, |ctx, iface_fields| {
+                    validate_fields_implement_interface(parent_name, parent_fields, iface_name, iface_fields, ctx);
+                });
             }
             _ => ctx.push_error(miette::miette!(
                 r#""{parent_name}" cannot implement non-interface type "{}"."#,
@@ -64,13 +75,13 @@ fn validate_fields_implement_interface<'a>(
     implementer_name: &str,
     implementer_fields: &'a [Positioned<ast::FieldDefinition>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
+    iface_fields: &[&'a Positioned<ast::FieldDefinition>],
     ctx: &mut Context<'a>,
 ) {
     let mut errs = Vec::new();
 
     ctx.with_fields(implementer_name, implementer_fields, |ctx, candidate_superset| {
-        for field in &iface.fields {
+        for field in iface_fields {
             let candidate_field = candidate_superset
                 .iter()
                 .find(|candidate| candidate.node.name.node == field.node.name.node);
@@ -251,10 +262,10 @@ fn validate_implements_interface_transitively<'a>(
     parent_name: &'a str,
     parent_implements: &[&'a Positioned<Name>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
+    iface_implements: &[&'a Positioned<Name>],
     ctx: &mut Context<'a>,
 ) {
-    for iface_implements in &iface.implements {
+    for iface_implements in iface_implements {
         if !parent_implements
             .iter()
             .any(|obj_implements| obj_implements.node == iface_implements.node)
-- 
2.43.0


From f8c56b7de278e0ba5a40174ddb3bd3f0c9b8cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 062/116] fix: see union members and implemented interfaces
 from extensions when comparing field types in schema validation

---
 .../src/validate/interface_implementers.rs    | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index a2746ed..c24688a 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -211,31 +211,41 @@ fn validate_implementer_inner_type(
         .map(|def| &def.node.kind)
     {
         Some(ast::TypeKind::Union(union)) => {
-            if union.members.iter().any(|member| member.node == candidate_type_name) {
+            let extended_members = ctx
+                .extended_unions
+                .get(iface_field_type_name)
+                .into_iter()
+                .flatten()
+                .copied();
+            if union
+                .members
+                .iter()
+                .chain(extended_members.flatten())
+                .any(|member| member.node == candidate_type_name)
+            {
                 return true;
             }
         }
         Some(ast::TypeKind::Interface(_)) => {
-            match ctx.definition_names.get(candidate_type_name).map(|def| &def.node.kind) {
-                Some(ast::TypeKind::Object(obj)) => {
-                    if obj
-                        .implements
-                        .iter()
-                        .any(|implemented| implemented.node == iface_field_type_name)
-                    {
-                        return true;
-                    }
-                }
-                Some(ast::TypeKind::Interface(field_iface)) => {
-                    if field_iface
-                        .implements
-                        .iter()
-                        .any(|implemented| implemented.node == iface_field_type_name)
-                    {
-                        return true;
-                    }
-                }
-                _ => (),
+            let implements: &[Positioned<Name>] =
+                match ctx.definition_names.get(candidate_type_name).map(|def| &def.node.kind) {
+                    Some(ast::TypeKind::Object(obj)) => &obj.implements,
+                    Some(ast::TypeKind::Interface(field_iface)) => &field_iface.implements,
+                    _ => &[],
+                };
+            let extended_implements = ctx
+                .extended_interface_implementations
+                .get(candidate_type_name)
+                .into_iter()
+                .flatten()
+                .copied();
+
+            if implements
+                .iter()
+                .chain(extended_implements)
+                .any(|implemented| implemented.node == iface_field_type_name)
+            {
+                return true;
             }
         }
         _ => (),
-- 
2.43.0


From e0025c5c2b977fd63a5bb5f6da7232b6a450ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 063/116] fix: accept additional non-null arguments with a
 default in implementers in schema validation

---
 .../src/validate/interface_implementers.rs                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index c24688a..191ec91 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -152,7 +152,7 @@ fn validate_field_arguments_implement_interface_field(
                     ctx.push_error(miette::miette!("Interface field argument {iface_arg_location} expects type {expected_type} but {candidate_arg_location} is type {found_type}"));
                 }
             }
-            (Some(candidate), None) if candidate.node.ty.node.nullable => (), // ok
+            (Some(candidate), None) if candidate.node.ty.node.nullable || candidate.node.default_value.is_some() => (), // ok
             (Some(candidate), None) => {
                 let arg_name = candidate.node.name.node.as_str();
                 let iface_field = format!("{iface_name}.{field_name}");
-- 
2.43.0


From f598a74df6cec7c0d1c3140ac7ce17561d1932fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 064/116] fix: report interfaces that implement themselves in
 schema validation

---
 .../src/validate/interface_implementers.rs                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 191ec91..e800659 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -20,6 +20,14 @@ pub(crate) fn validate_implements_list<'a>(
 
     for iface in parent_implements {
         let iface_name = iface.node.as_str();
+
+        if iface_name == parent_name {
+            ctx.push_error(miette::miette!(
+                r#"Type "{parent_name}" cannot implement itself because it would create a circular reference."#
+            ));
+            continue;
+        }
+
         let ty = match ctx.definition_names.get(iface_name).copied() {
             Some(ty) => ty,
             None if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) => {
-- 
2.43.0


From 870a2dc2464f4e58aed27ff34ef5de8b12850e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 065/116] fix: validate the directives on scalar definitions in
 schema validation

---
 .../graphql-schema-validation/src/validate/type_definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index 789df0e..ee13a0a 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -121,7 +121,9 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
                     }
 
                     ast::TypeKind::Scalar if is_extension => validate_scalar_extension(type_name, typedef, ctx),
-                    ast::TypeKind::Scalar => (),
+                    ast::TypeKind::Scalar => {
+                        validate_directives(&typedef.node.directives, ast::DirectiveLocation::Scalar, ctx)
+                    }
                 }
             }
         }
-- 
2.43.0


From 186fe9ac1130bb7a543bb297e937ae753f6c5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 066/116] fix: report duplicate directive definitions in schema
 validation

---
 .../src/validate/directive_definitions.rs                | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/directive_definitions.rs b/crates/graphql-schema-validation/src/validate/directive_definitions.rs
index ebf3f91..c67ad3f 100644
--- a/crates/graphql-schema-validation/src/validate/directive_definitions.rs
+++ b/crates/graphql-schema-validation/src/validate/directive_definitions.rs
@@ -10,8 +10,13 @@ pub(crate) fn validate_directive_definition<'a>(
         });
     }
 
-    ctx.directive_names
-        .insert(definition.node.name.node.as_str(), definition);
+    let directive_name = definition.node.name.node.as_str();
+
+    if ctx.directive_names.insert(directive_name, definition).is_some() {
+        ctx.push_error(miette::miette!(
+            r#"Duplicate definition. There can only be one directive named "@{directive_name}""#
+        ));
+    }
 }
 
 pub(crate) fn validate_directives<'a>(
-- 
2.43.0


From 54aed787b2fc85d81bc8b657e49f3b6cd4d86b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 067/116] fix: validate the names and directives of directive
 arguments in schema validation

---
 .../src/validate/type_definition.rs           | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index ee13a0a..d531573 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -130,12 +130,33 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
     }
 }
 
-fn validate_directiv_definition_arguments(
-    directive_definition: &Positioned<ast::DirectiveDefinition>,
-    ctx: &mut Context<'_>,
+fn validate_directiv_definition_arguments<'a>(
+    directive_definition: &'a Positioned<ast::DirectiveDefinition>,
+    ctx: &mut Context<'a>,
 ) {
     let directive_name = directive_definition.node.name.node.as_str();
-    for arg in &directive_definition.node.arguments {
+    let arguments = &directive_definition.node.arguments;
+
+    let arg_names = arguments.iter().map(|arg| arg.node.name.node.as_str());
+    ctx.find_duplicates(arg_names, |ctx, _, duplicate| {
+        let name = arguments[duplicate].node.name.node.as_str();
+        ctx.push_error(miette::miette!("Duplicate argument {name} in @{directive_name}"));
+    });
+
+    for arg in arguments {
+        let arg_name = arg.node.name.node.as_str();
+
+        if arg_name.starts_with("__") {
+            let label = vec![miette::LabeledSpan::new_with_span(
+                Some("here".to_owned()),
+                miette::SourceSpan::new(ctx.miette_pos(arg.node.name.pos), arg.node.name.node.len()),
+            )];
+            ctx.push_error(miette::miette!(
+                labels = label,
+                "Argument names of @{directive_name} can't start with __"
+            ));
+        }
+
         let type_name = extract_type_name(&arg.node.ty.node.base);
         let location = || format!("@{directive_name}({}:)", arg.node.name.node);
         match validate_input_type(type_name, arg.node.ty.pos, ctx) {
@@ -145,5 +166,7 @@ fn validate_directiv_definition_arguments(
                 diagnostics::output_type_in_input_position(type_name, &location(), ctx);
             }
         }
+
+        validate_directives(&arg.node.directives, ast::DirectiveLocation::ArgumentDefinition, ctx);
     }
 }
-- 
2.43.0


From 513ba0a0855a8ca050a1721a3a3d927fa04b610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 068/116] fix: report required and deprecated input fields and
 directive arguments with the draft validations

---
 .../src/validate/arguments.rs                        | 10 ++++++++--
 .../src/validate/input_objects.rs                    | 12 ++++++++++++
 .../src/validate/type_definition.rs                  |  7 +++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/arguments.rs b/crates/graphql-schema-validation/src/validate/arguments.rs
index ba4f7a8..9d4b85c 100644
--- a/crates/graphql-schema-validation/src/validate/arguments.rs
+++ b/crates/graphql-schema-validation/src/validate/arguments.rs
@@ -39,8 +39,7 @@ pub(crate) fn validate_arguments<'a>(
         }
 
         if ctx.options.contains(crate::Options::DRAFT_VALIDATIONS) {
-            let is_non_null_without_default = !arg.node.ty.node.nullable && arg.node.default_value.is_none();
-            if is_non_null_without_default && arg.node.directives.iter().any(|dir| dir.node.name.node == "deprecated") {
+            if is_required_and_deprecated(&arg.node) {
                 ctx.push_error(miette::miette!(
                     "Required argument {}.{}({}:) cannot be deprecated.",
                     parent_field.0,
@@ -53,3 +52,10 @@ pub(crate) fn validate_arguments<'a>(
         validate_directives(&arg.node.directives, ast::DirectiveLocation::ArgumentDefinition, ctx);
     }
 }
+
+/// http://spec.graphql.org/draft/#sec--deprecated
+pub(crate) fn is_required_and_deprecated(value: &ast::InputValueDefinition) -> bool {
+    !value.ty.node.nullable
+        && value.default_value.is_none()
+        && value.directives.iter().any(|dir| dir.node.name.node == "deprecated")
+}
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index b7974a0..ae90b95 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -45,6 +45,18 @@ pub(crate) fn validate_input_object<'a>(
         }
     }
 
+    if ctx.options.contains(Options::DRAFT_VALIDATIONS) {
+        for field in fields
+            .iter()
+            .filter(|field| arguments::is_required_and_deprecated(&field.node))
+        {
+            let field_name = &field.node.name.node;
+            ctx.push_error(miette::miette!(
+                "Required input field {parent_type_name}.{field_name} cannot be deprecated."
+            ));
+        }
+    }
+
     let field_names = fields.iter().map(|f| f.node.name.node.as_str());
     ctx.find_duplicates(field_names, |ctx, _, idx| {
         let field_name = fields[idx].node.name.node.as_str();
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index d531573..0cf4d85 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -167,6 +167,13 @@ fn validate_directiv_definition_arguments<'a>(
             }
         }
 
+        if ctx.options.contains(Options::DRAFT_VALIDATIONS) && arguments::is_required_and_deprecated(&arg.node) {
+            ctx.push_error(miette::miette!(
+                "Required argument {} cannot be deprecated.",
+                location()
+            ));
+        }
+
         validate_directives(&arg.node.directives, ast::DirectiveLocation::ArgumentDefinition, ctx);
     }
 }
-- 
2.43.0


From 4e1dde0d90928d0ad282e0e63d5a68be0b5eb4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 069/116] fix: compare the root types of the schema definition
 and its extensions, and only those, in schema validation

---
 .../src/validate/schema_definition.rs         | 53 +++++++++++++++----
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index ef82d0f..96f0215 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -2,6 +2,8 @@ use super::*;
 use crate::context::SchemaDefinition;
 
 pub(crate) fn validate_schema_definitions<'a>(schema_definitions: &[SchemaDefinition<'a>], ctx: &mut Context<'a>) {
+    validate_distinct_root_types(schema_definitions, ctx);
+
     let mut first_definition_pos = None;
 
     for schema_definition in schema_definitions {
@@ -40,17 +42,6 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
         (def.subscription, "Subscription"),
     ];
 
-    for idx in 0..(names.len()) {
-        let name = &names[idx];
-        let name = name.0.unwrap_or(name.1);
-        for other_name in names[idx..].iter().skip(1) {
-            let other_name = other_name.0.unwrap_or(other_name.1);
-            if name == other_name {
-                ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
-            }
-        }
-    }
-
     for (actual, default) in &names {
         let Some(actual) = actual else { continue };
 
@@ -80,6 +71,46 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     }
 }
 
+/// The schema definition and its extensions together.
+fn validate_distinct_root_types<'a>(schema_definitions: &[SchemaDefinition<'a>], ctx: &mut Context<'a>) {
+    let definition = schema_definitions.iter().find(|def| !def.is_extension);
+    let extensions = schema_definitions.iter().filter(|def| def.is_extension);
+    let schema_definitions: Vec<_> = definition.into_iter().chain(extensions).collect();
+
+    let of_each_operation = [
+        (
+            "query",
+            schema_definitions
+                .iter()
+                .filter_map(|def| def.query)
+                .collect::<Vec<_>>(),
+        ),
+        (
+            "mutation",
+            schema_definitions.iter().filter_map(|def| def.mutation).collect(),
+        ),
+        (
+            "subscription",
+            schema_definitions.iter().filter_map(|def| def.subscription).collect(),
+        ),
+    ];
+
+    for (operation, names) in &of_each_operation {
+        if names.len() > 1 {
+            ctx.push_error(miette::miette!(
+                "There can be only one {operation} root type in the schema"
+            ));
+        }
+    }
+
+    let names = of_each_operation.iter().flat_map(|(_, names)| names.iter().copied());
+    ctx.find_duplicates(names.clone(), |ctx, _, duplicate| {
+        if let Some(name) = names.clone().nth(duplicate) {
+            ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
+        }
+    });
+}
+
 pub(crate) fn validate_root_types(ctx: &mut Context<'_>) {
     for name in ["Query", "Mutation", "Subscription"] {
         if let Some(def) = ctx.definition_names.get(name)
-- 
2.43.0


From 7b74ce3cf3bd54acca016e2fd7340783b5643291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 070/116] fix: validate the default root types also when there
 are schema extensions in schema validation

---
 crates/graphql-schema-validation/src/validate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate.rs b/crates/graphql-schema-validation/src/validate.rs
index 0fb456c..b97e17e 100644
--- a/crates/graphql-schema-validation/src/validate.rs
+++ b/crates/graphql-schema-validation/src/validate.rs
@@ -43,7 +43,11 @@ pub(crate) fn validate<'a>(parsed_ast: &'a ast::ServiceDocument, ctx: &mut Conte
 
     validate_schema_definitions(&schema_definitions, ctx);
 
-    if schema_definitions.is_empty() {
+    // Extensions without root types leave the default ones in place.
+    if schema_definitions
+        .iter()
+        .all(|def| def.is_extension && def.query.is_none() && def.mutation.is_none() && def.subscription.is_none())
+    {
         validate_root_types(ctx);
     }
 
-- 
2.43.0


From 1cbb7476e27cf05ed4c8d9c6e05d8ec62aee8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 071/116] fix: report extensions of another kind than their
 type without the option against unknown types in schema validation

---
 crates/graphql-schema-validation/src/context.rs | 17 +++++++++++++++++
 .../src/validate/enums.rs                       | 10 ++++------
 .../src/validate/input_objects.rs               | 10 ++++------
 .../src/validate/interfaces.rs                  | 10 ++++------
 .../src/validate/objects.rs                     | 10 ++++------
 .../src/validate/scalars.rs                     |  5 ++---
 .../src/validate/unions.rs                      | 10 ++++------
 7 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 9a8b73f..cc0b04e 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -163,6 +163,23 @@ impl<'a> Context<'a> {
         handler(self, &implements);
     }
 
+    /// The definition of a type, or an extension if extensions of unknown types are allowed and there is no definition.
+    pub(crate) fn type_definition(&self, name: &str) -> Option<&'a Positioned<ast::TypeDefinition>> {
+        let definition = self.definition_names.get(name).copied();
+
+        if self.options.contains(crate::Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
+            return definition;
+        }
+
+        definition.or_else(|| self.extension_names.get(name)?.first().copied())
+    }
+
+    /// Whether this extension stands for the definition of its type, because extensions of unknown types are allowed.
+    pub(crate) fn is_first_of_unknown_type(&self, extension: &Positioned<ast::TypeDefinition>) -> bool {
+        self.type_definition(extension.node.name.node.as_str())
+            .is_some_and(|definition| std::ptr::eq(definition, extension))
+    }
+
     pub(crate) fn miette_pos(&self, pos: async_graphql_parser::Pos) -> miette::SourceOffset {
         miette::SourceOffset::from_location(self.sdl, pos.line, pos.column)
     }
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index ad28cb6..bf4c9f7 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -40,12 +40,10 @@ pub(crate) fn validate_enum_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Enum(_))
-        )
-    {
+    if !matches!(
+        ctx.type_definition(type_name).map(|t| &t.node.kind),
+        Some(ast::TypeKind::Enum(_))
+    ) {
         ctx.push_error(miette::miette!("Cannot extend unknown enum {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index ae90b95..7ccf82d 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -80,12 +80,10 @@ pub(crate) fn validate_input_object_extension<'a>(
         ctx,
     );
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::InputObject(_))
-        )
-    {
+    if !matches!(
+        ctx.type_definition(type_name).map(|t| &t.node.kind),
+        Some(ast::TypeKind::InputObject(_))
+    ) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index 0ea902f..54f6545 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -50,12 +50,10 @@ pub(crate) fn validate_interface_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Interface, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Interface(_))
-        )
-    {
+    if !matches!(
+        ctx.type_definition(type_name).map(|t| &t.node.kind),
+        Some(ast::TypeKind::Interface(_))
+    ) {
         ctx.push_error(miette::miette!("Cannot extend unknown interface {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index 60f13ec..2a61105 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -51,12 +51,10 @@ pub(crate) fn validate_object_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Object, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Object(_))
-        )
-    {
+    if !matches!(
+        ctx.type_definition(type_name).map(|t| &t.node.kind),
+        Some(ast::TypeKind::Object(_))
+    ) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/scalars.rs b/crates/graphql-schema-validation/src/validate/scalars.rs
index 3ee372a..fe117f4 100644
--- a/crates/graphql-schema-validation/src/validate/scalars.rs
+++ b/crates/graphql-schema-validation/src/validate/scalars.rs
@@ -7,10 +7,9 @@ pub(crate) fn validate_scalar_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Scalar, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !is_builtin_scalar(type_name)
+    if !is_builtin_scalar(type_name)
         && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
+            ctx.type_definition(type_name).map(|t| &t.node.kind),
             Some(ast::TypeKind::Scalar)
         )
     {
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 4902d82..73ec89c 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -7,12 +7,10 @@ pub(crate) fn validate_union_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Union(_))
-        )
-    {
+    if !matches!(
+        ctx.type_definition(type_name).map(|t| &t.node.kind),
+        Some(ast::TypeKind::Union(_))
+    ) {
         ctx.push_error(miette::miette!("Cannot extend unknown union {type_name}"));
     }
 }
-- 
2.43.0


From 1213fd22041efc6b13bccc68922f39c86e98c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 072/116] fix: accept types that have only extensions
 everywhere when those are allowed in schema validation

---
 .../src/validate/input_types.rs               |  2 +-
 .../src/validate/interface_implementers.rs    | 33 +++++--------------
 .../src/validate/output_types.rs              | 10 ++----
 .../src/validate/schema_definition.rs         |  4 +--
 .../src/validate/unions.rs                    |  2 +-
 5 files changed, 14 insertions(+), 37 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/input_types.rs b/crates/graphql-schema-validation/src/validate/input_types.rs
index 626d474..f6cb712 100644
--- a/crates/graphql-schema-validation/src/validate/input_types.rs
+++ b/crates/graphql-schema-validation/src/validate/input_types.rs
@@ -13,7 +13,7 @@ pub(crate) fn validate_input_type(type_name: &str, _pos: Pos, ctx: &mut Context<
         return ValidateInputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(type_name) else {
+    let Some(definition) = ctx.type_definition(type_name) else {
         return ValidateInputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index e800659..584a64f 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::{Options, context::Context};
+use crate::context::Context;
 use async_graphql_parser::{Positioned, types as ast};
 use async_graphql_value::Name;
 
@@ -28,24 +28,11 @@ pub(crate) fn validate_implements_list<'a>(
             continue;
         }
 
-        let ty = match ctx.definition_names.get(iface_name).copied() {
-            Some(ty) => ty,
-            None if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) => {
-                ctx.push_error(miette::miette!(
-                    r#""{parent_name} cannot implement unknown type "{iface_name}"."#
-                ));
-                continue;
-            }
-            None => {
-                if let Some([ty, ..]) = ctx.extension_names.get(iface_name).map(|v| v.as_slice()) {
-                    ty
-                } else {
-                    ctx.push_error(miette::miette!(
-                        r#""{parent_name} cannot implement unknown type "{iface_name}"."#
-                    ));
-                    continue;
-                }
-            }
+        let Some(ty) = ctx.type_definition(iface_name) else {
+            ctx.push_error(miette::miette!(
+                r#""{parent_name} cannot implement unknown type "{iface_name}"."#
+            ));
+            continue;
         };
 
         match &ty.node.kind {
@@ -213,11 +200,7 @@ fn validate_implementer_inner_type(
     }
 
     // Check if the candidate is a refinement of the interface.
-    match ctx
-        .definition_names
-        .get(iface_field_type_name)
-        .map(|def| &def.node.kind)
-    {
+    match ctx.type_definition(iface_field_type_name).map(|def| &def.node.kind) {
         Some(ast::TypeKind::Union(union)) => {
             let extended_members = ctx
                 .extended_unions
@@ -236,7 +219,7 @@ fn validate_implementer_inner_type(
         }
         Some(ast::TypeKind::Interface(_)) => {
             let implements: &[Positioned<Name>] =
-                match ctx.definition_names.get(candidate_type_name).map(|def| &def.node.kind) {
+                match ctx.type_definition(candidate_type_name).map(|def| &def.node.kind) {
                     Some(ast::TypeKind::Object(obj)) => &obj.implements,
                     Some(ast::TypeKind::Interface(field_iface)) => &field_iface.implements,
                     _ => &[],
diff --git a/crates/graphql-schema-validation/src/validate/output_types.rs b/crates/graphql-schema-validation/src/validate/output_types.rs
index 524013d..77abced 100644
--- a/crates/graphql-schema-validation/src/validate/output_types.rs
+++ b/crates/graphql-schema-validation/src/validate/output_types.rs
@@ -1,4 +1,4 @@
-use crate::{Options, context::Context};
+use crate::context::Context;
 use async_graphql_parser::{Pos, types::TypeKind};
 
 #[must_use]
@@ -13,13 +13,7 @@ pub(crate) fn validate_output_type(name: &str, _pos: Pos, ctx: &mut Context<'_>)
         return ValidateOutputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(name).or_else(|| {
-        if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
-            return None;
-        }
-
-        ctx.extension_names.get(name).and_then(|extension| extension.first())
-    }) else {
+    let Some(definition) = ctx.type_definition(name) else {
         return ValidateOutputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index 96f0215..3cae1ca 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -45,7 +45,7 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     for (actual, default) in &names {
         let Some(actual) = actual else { continue };
 
-        match ctx.definition_names.get(actual) {
+        match ctx.type_definition(actual) {
             None => {
                 let labels = vec![miette::LabeledSpan::new_with_span(
                     None,
@@ -113,7 +113,7 @@ fn validate_distinct_root_types<'a>(schema_definitions: &[SchemaDefinition<'a>],
 
 pub(crate) fn validate_root_types(ctx: &mut Context<'_>) {
     for name in ["Query", "Mutation", "Subscription"] {
-        if let Some(def) = ctx.definition_names.get(name)
+        if let Some(def) = ctx.type_definition(name)
             && !matches!(def.node.kind, ast::TypeKind::Object(_))
         {
             ctx.push_error(miette::miette!("{name} should be an object"));
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 73ec89c..5620801 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -32,7 +32,7 @@ pub(crate) fn validate_union_members<'a>(
 
         for member in members {
             let member_name = member.node.as_str();
-            match ctx.definition_names.get(member_name) {
+            match ctx.type_definition(member_name) {
                 Some(definition) => match definition.node.kind {
                     ast::TypeKind::Object(_) => (), // ok
                     _ => ctx.push_error(miette::miette!(
-- 
2.43.0


From 94ef6b6f97469126e49112e196c5ece575505646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 073/116] fix: validate the contents of types that have only
 extensions in schema validation

---
 .../src/validate/enums.rs                     | 40 +++++++++-----
 .../src/validate/input_object_cycles.rs       | 12 +++-
 .../src/validate/input_objects.rs             | 17 +++++-
 .../src/validate/interfaces.rs                | 30 +++-------
 .../src/validate/objects.rs                   | 55 ++++++++++++-------
 .../src/validate/unions.rs                    | 49 ++++++++++-------
 6 files changed, 122 insertions(+), 81 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index bf4c9f7..8f020d2 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -9,28 +9,36 @@ pub(crate) fn validate_enum_members<'a>(
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
     ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
-        let value_names = values.iter().map(|v| v.node.value.node.as_str());
-        ctx.find_duplicates(value_names, |ctx, idx, _| {
-            let value_name = values[idx].node.value.node.as_str();
-            ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
-        });
-
         if values.is_empty() {
             ctx.push_error(miette::miette!(
                 "The enum {type_name} has no values. An enum must define one or more values."
             ));
         }
 
-        for value in values {
-            let value_name = value.node.value.node.as_str();
+        validate_enum_values(type_name, values, ctx);
+    });
+}
 
-            if value_name.starts_with("__") {
-                diagnostics::double_underscore_name(value_name, value.node.value.pos, ctx);
-            }
+fn validate_enum_values<'a>(
+    type_name: &str,
+    values: &[&'a Positioned<ast::EnumValueDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    let value_names = values.iter().map(|v| v.node.value.node.as_str());
+    ctx.find_duplicates(value_names, |ctx, idx, _| {
+        let value_name = values[idx].node.value.node.as_str();
+        ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
+    });
 
-            validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
+    for value in values {
+        let value_name = value.node.value.node.as_str();
+
+        if value_name.starts_with("__") {
+            diagnostics::double_underscore_name(value_name, value.node.value.pos, ctx);
         }
-    });
+
+        validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
+    }
 }
 
 pub(crate) fn validate_enum_extension<'a>(
@@ -46,4 +54,10 @@ pub(crate) fn validate_enum_extension<'a>(
     ) {
         ctx.push_error(miette::miette!("Cannot extend unknown enum {type_name}"));
     }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        ctx.with_enum_values(type_name, &[], |ctx, values| {
+            validate_enum_values(type_name, values, ctx)
+        });
+    }
 }
diff --git a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
index e98b42f..abcbdd1 100644
--- a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
+++ b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
@@ -37,11 +37,17 @@ fn references_input_object_rec<'a>(
             continue;
         }
 
-        if let Some(ast::TypeKind::InputObject(input_object)) =
-            ctx.definition_names.get(field_type_name).map(|ty| &ty.node.kind)
+        if let Some(definition) = ctx.type_definition(field_type_name)
+            && let ast::TypeKind::InputObject(input_object) = &definition.node.kind
         {
             visited.insert(field_type_name);
-            let fields = ctx.input_fields(field_type_name, &input_object.fields);
+            // The fields of extensions come from the context.
+            let base_fields: &[_] = if definition.node.extend {
+                &[]
+            } else {
+                &input_object.fields
+            };
+            let fields = ctx.input_fields(field_type_name, base_fields);
             if let Some(mut chain) = references_input_object_rec(name, &fields, visited, ctx) {
                 chain.push(field.name.node.as_str());
                 return Some(chain);
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 7ccf82d..7363f92 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -18,7 +18,15 @@ pub(crate) fn validate_input_object<'a>(
         diagnostics::empty_input_object(parent_type_name, ctx);
     }
 
-    for field in &fields {
+    validate_input_fields(parent_type_name, &fields, ctx);
+}
+
+fn validate_input_fields<'a>(
+    parent_type_name: &'a str,
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    for field in fields {
         validate_directives(
             &field.node.directives,
             ast::DirectiveLocation::InputFieldDefinition,
@@ -65,7 +73,7 @@ pub(crate) fn validate_input_object<'a>(
         ));
     });
 
-    input_object_cycles::input_object_cycles(parent_type_name, &fields, ctx);
+    input_object_cycles::input_object_cycles(parent_type_name, fields, ctx);
 }
 
 pub(crate) fn validate_input_object_extension<'a>(
@@ -86,4 +94,9 @@ pub(crate) fn validate_input_object_extension<'a>(
     ) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
     }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        let fields = ctx.input_fields(type_name, &[]);
+        validate_input_fields(type_name, &fields, ctx);
+    }
 }
diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index 54f6545..99e584a 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -16,29 +16,7 @@ pub(crate) fn validate_interface<'a>(
             diagnostics::empty_interface(parent_type_name, ctx)
         }
 
-        for field in fields {
-            object_field::validate_object_field(parent_type_name, field, ctx);
-            let field_name = &field.node.name.node;
-            let type_name = extract_type_name(&field.node.ty.node.base);
-            let location = || format!("{parent_type_name}.{field_name}");
-            match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-                output_types::ValidateOutputTypeResult::Ok => (),
-                output_types::ValidateOutputTypeResult::UnknownType => {
-                    diagnostics::unknown_type(type_name, &location(), ctx);
-                }
-                output_types::ValidateOutputTypeResult::InputObject => {
-                    diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-                }
-            }
-        }
-
-        let field_names = fields.iter().map(|f| f.node.name.node.as_str());
-        ctx.find_duplicates(field_names, |ctx, _, idx| {
-            let field_name = fields[idx].node.name.node.as_str();
-            ctx.push_error(miette::miette!(
-                "Duplicate field {field_name} already exists on {parent_type_name}"
-            ));
-        });
+        validate_output_fields(parent_type_name, fields, ctx);
     });
 }
 
@@ -56,4 +34,10 @@ pub(crate) fn validate_interface_extension<'a>(
     ) {
         ctx.push_error(miette::miette!("Cannot extend unknown interface {type_name}"));
     }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        ctx.with_fields(type_name, &[], |ctx, fields| {
+            validate_output_fields(type_name, fields, ctx)
+        });
+    }
 }
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index 2a61105..d001e99 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -17,29 +17,38 @@ pub(crate) fn validate_object<'a>(
             diagnostics::empty_object(parent_type_name, ctx)
         }
 
-        for field in fields {
-            object_field::validate_object_field(parent_type_name, field, ctx);
-            let type_name = extract_type_name(&field.node.ty.node.base);
-            let field_name = &field.node.name.node;
-            let location = || format!("{parent_type_name}.{field_name}");
-            match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-                output_types::ValidateOutputTypeResult::Ok => (),
-                output_types::ValidateOutputTypeResult::UnknownType => {
-                    diagnostics::unknown_type(type_name, &location(), ctx);
-                }
-                output_types::ValidateOutputTypeResult::InputObject => {
-                    diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-                }
+        validate_output_fields(parent_type_name, fields, ctx);
+    });
+}
+
+/// The fields of an object or interface.
+pub(crate) fn validate_output_fields<'a>(
+    parent_type_name: &'a str,
+    fields: &[&'a Positioned<ast::FieldDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    for field in fields {
+        object_field::validate_object_field(parent_type_name, field, ctx);
+        let type_name = extract_type_name(&field.node.ty.node.base);
+        let field_name = &field.node.name.node;
+        let location = || format!("{parent_type_name}.{field_name}");
+        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
+            output_types::ValidateOutputTypeResult::Ok => (),
+            output_types::ValidateOutputTypeResult::UnknownType => {
+                diagnostics::unknown_type(type_name, &location(), ctx);
+            }
+            output_types::ValidateOutputTypeResult::InputObject => {
+                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
             }
         }
+    }
 
-        let field_names = fields.iter().map(|f| f.node.name.node.as_str());
-        ctx.find_duplicates(field_names, |ctx, _, idx| {
-            let field_name = fields[idx].node.name.node.as_str();
-            ctx.push_error(miette::miette!(
-                "Duplicate field {field_name} already exists on {parent_type_name}"
-            ));
-        });
+    let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
     });
 }
 
@@ -57,4 +66,10 @@ pub(crate) fn validate_object_extension<'a>(
     ) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
     }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        ctx.with_fields(type_name, &[], |ctx, fields| {
+            validate_output_fields(type_name, fields, ctx)
+        });
+    }
 }
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 5620801..e06cc7b 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -1,4 +1,5 @@
 use super::*;
+use async_graphql_value::Name;
 
 pub(crate) fn validate_union_extension<'a>(
     type_name: &str,
@@ -13,6 +14,10 @@ pub(crate) fn validate_union_extension<'a>(
     ) {
         ctx.push_error(miette::miette!("Cannot extend unknown union {type_name}"));
     }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        ctx.with_union_members(type_name, &[], |ctx, members| validate_members(type_name, members, ctx));
+    }
 }
 
 pub(crate) fn validate_union_members<'a>(
@@ -30,28 +35,32 @@ pub(crate) fn validate_union_members<'a>(
             ));
         }
 
-        for member in members {
-            let member_name = member.node.as_str();
-            match ctx.type_definition(member_name) {
-                Some(definition) => match definition.node.kind {
-                    ast::TypeKind::Object(_) => (), // ok
-                    _ => ctx.push_error(miette::miette!(
-                        "Cannot add non-object type {member_name} as member of union type {type_name}"
-                    )),
-                },
-                None => {
-                    ctx.push_error(miette::miette!(
-                        "Cannot add unknown type {member_name} as member of union type {type_name}"
-                    ));
-                }
+        validate_members(type_name, members, ctx);
+    });
+}
+
+fn validate_members<'a>(type_name: &str, members: &[&'a Positioned<Name>], ctx: &mut Context<'a>) {
+    for member in members {
+        let member_name = member.node.as_str();
+        match ctx.type_definition(member_name) {
+            Some(definition) => match definition.node.kind {
+                ast::TypeKind::Object(_) => (), // ok
+                _ => ctx.push_error(miette::miette!(
+                    "Cannot add non-object type {member_name} as member of union type {type_name}"
+                )),
+            },
+            None => {
+                ctx.push_error(miette::miette!(
+                    "Cannot add unknown type {member_name} as member of union type {type_name}"
+                ));
             }
         }
+    }
 
-        ctx.find_duplicates(members.iter().map(|name| name.node.as_str()), |ctx, first, _| {
-            let name = &members[first].node;
-            ctx.push_error(miette::miette!(
-                r#"Union type "{type_name}" can only include type "{name}" once."#
-            ));
-        });
+    ctx.find_duplicates(members.iter().map(|name| name.node.as_str()), |ctx, first, _| {
+        let name = &members[first].node;
+        ctx.push_error(miette::miette!(
+            r#"Union type "{type_name}" can only include type "{name}" once."#
+        ));
     });
 }
-- 
2.43.0


From 350a45e59a45f251aa49f72d97ca7a1750ef83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 074/116] fix: report extensions of builtin scalars as other
 kinds of types in schema validation

---
 .../graphql-schema-validation/src/validate/type_definition.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index 0cf4d85..9ef0ab6 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -4,7 +4,7 @@ use super::*;
 pub(crate) fn validate_type_definition<'a>(typedef: &'a Positioned<ast::TypeDefinition>, ctx: &mut Context<'a>) {
     let type_name = typedef.node.name.node.as_str();
 
-    if !typedef.node.extend && is_builtin_scalar(type_name) && !matches!(typedef.node.kind, ast::TypeKind::Scalar) {
+    if is_builtin_scalar(type_name) && !matches!(typedef.node.kind, ast::TypeKind::Scalar) {
         let labels = vec![miette::LabeledSpan::new_with_span(
             None,
             (ctx.miette_pos(typedef.node.name.pos), typedef.node.name.node.len()),
-- 
2.43.0


From e1d2ab29e64753104795ccd3e02349e695d24916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 075/116] fix: query solver no longer loops forever on
 requirements that are already part of the tree

---
 .../query-solver/src/solve/steiner_tree/greedy_flac.rs      | 6 ++++++
 crates/engine/query-solver/src/solve/updater.rs             | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs b/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs
index b44e5a2..afa12ac 100644
--- a/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs
+++ b/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs
@@ -384,6 +384,12 @@ where
         // last run (due to requirements becoming mandatory).
         let n_terminals = self.steiner_tree.terminals.len();
         self.state.flow.root_feeding_terminals.grow(n_terminals);
+        // Terminals that are already part of the tree are connected, no water will ever flow from them.
+        for (ix, terminal) in self.steiner_tree.terminals.iter().enumerate() {
+            if self.steiner_tree.nodes[terminal.index()] {
+                self.state.flow.root_feeding_terminals.insert(ix);
+            }
+        }
         let mut has_one_terminal = false;
         for ix in self.state.flow.root_feeding_terminals.zeroes() {
             let terminal = self.steiner_tree.terminals[ix];
diff --git a/crates/engine/query-solver/src/solve/updater.rs b/crates/engine/query-solver/src/solve/updater.rs
index ddaf1bb..d68d5cd 100644
--- a/crates/engine/query-solver/src/solve/updater.rs
+++ b/crates/engine/query-solver/src/solve/updater.rs
@@ -190,7 +190,7 @@ impl<'state> FixedPointWeightAlgorithm<'state, '_, '_, '_, '_> {
         {
             if self.steiner_tree[edge_id] {
                 self.extend_terminals(required_node_ids, required_space_node_ids);
-                self.input.requirements.free_requirements_by_node.swap_remove(i);
+                self.input.requirements.free_requirements_by_edge.swap_remove(i);
             } else {
                 i += 1;
             }
-- 
2.43.0


From 6483a2a2095beaf59105177eba629bb1551ab638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 076/116] fix: accept integers for input values of type ID

---
 crates/engine/operation/src/bind/coercion/query.rs    | 4 ++++
 crates/engine/operation/src/bind/coercion/variable.rs | 4 ++++
 crates/engine/schema/src/builder/coerce/schema.rs     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/crates/engine/operation/src/bind/coercion/query.rs b/crates/engine/operation/src/bind/coercion/query.rs
index 009e67e..e975eaf 100644
--- a/crates/engine/operation/src/bind/coercion/query.rs
+++ b/crates/engine/operation/src/bind/coercion/query.rs
@@ -409,6 +409,10 @@ impl<'schema> QueryValueCoercionContext<'_, 'schema, '_> {
                 Ok(QueryInputValueRecord::Int(number.as_f64() as i32))
             }
             (Value::String(value), ScalarType::String) => Ok(QueryInputValueRecord::String(value.as_str().into())),
+            // Any integer is a valid ID.
+            (Value::Int(number), ScalarType::String) if scalar.name() == "ID" => {
+                Ok(QueryInputValueRecord::String(number.as_i64().to_string()))
+            }
             (Value::Boolean(value), ScalarType::Boolean) => Ok(QueryInputValueRecord::Boolean(value.value())),
             (Value::Variable(variable), _) => self.variable_ref(
                 variable.name(),
diff --git a/crates/engine/operation/src/bind/coercion/variable.rs b/crates/engine/operation/src/bind/coercion/variable.rs
index 9a3a7bd..6caa850 100644
--- a/crates/engine/operation/src/bind/coercion/variable.rs
+++ b/crates/engine/operation/src/bind/coercion/variable.rs
@@ -309,6 +309,10 @@ impl<'a> VariableCoercionContext<'a> {
                 Ok(VariableInputValueRecord::Float(value))
             }
             (Value::String(value), ScalarType::String) => Ok(VariableInputValueRecord::String(value)),
+            // Any integer is a valid ID.
+            (Value::Number(number), ScalarType::String) if scalar.name() == "ID" && !number.is_f64() => {
+                Ok(VariableInputValueRecord::String(number.to_string()))
+            }
             (Value::Bool(value), ScalarType::Boolean) => Ok(VariableInputValueRecord::Boolean(value)),
             (actual, _) => Err(InputValueError::IncorrectScalarType {
                 actual: actual.into(),
diff --git a/crates/engine/schema/src/builder/coerce/schema.rs b/crates/engine/schema/src/builder/coerce/schema.rs
index b96d7c5..d179d20 100644
--- a/crates/engine/schema/src/builder/coerce/schema.rs
+++ b/crates/engine/schema/src/builder/coerce/schema.rs
@@ -237,6 +237,10 @@ fn coerce_scalar_value(
     match builder.graph[scalar_id].ty {
         ScalarType::String => match value {
             ConstValue::String(s) => Some(builder.ingest_str(s.value())),
+            // Any integer is a valid ID.
+            ConstValue::Int(n) if builder[builder.graph[scalar_id].name_id] == "ID" => {
+                Some(builder.ingest_str(n.value().to_string()))
+            }
             _ => None,
         }
         .map(SchemaInputValueRecord::String),
-- 
2.43.0


From 0ca485c8e504579eaf4375499718f392775acd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 077/116] fix: integers given for a custom scalar in variables
 stay integers

---
 crates/engine/operation/src/bind/coercion/variable.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/engine/operation/src/bind/coercion/variable.rs b/crates/engine/operation/src/bind/coercion/variable.rs
index 6caa850..dec7544 100644
--- a/crates/engine/operation/src/bind/coercion/variable.rs
+++ b/crates/engine/operation/src/bind/coercion/variable.rs
@@ -255,12 +255,12 @@ impl<'a> VariableCoercionContext<'a> {
             (value, ScalarType::Unknown) => Ok(match value {
                 Value::Null => VariableInputValueRecord::Null,
                 Value::Number(n) => {
-                    if let Some(n) = n.as_f64() {
-                        VariableInputValueRecord::Float(n)
-                    } else if let Some(n) = n.as_i64() {
+                    if let Some(n) = n.as_i64() {
                         VariableInputValueRecord::I64(n)
+                    } else if let Some(n) = n.as_u64() {
+                        VariableInputValueRecord::U64(n)
                     } else {
-                        VariableInputValueRecord::U64(n.as_u64().unwrap())
+                        VariableInputValueRecord::Float(n.as_f64().unwrap())
                     }
                 }
                 Value::String(s) => VariableInputValueRecord::String(s),
-- 
2.43.0


From d93259a5f774e09bf6f695661c51b58e4681f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 078/116] fix: floats below the range of Int are no longer
 accepted as integers

---
 crates/engine/operation/src/bind/coercion/query.rs    | 2 +-
 crates/engine/operation/src/bind/coercion/variable.rs | 2 +-
 crates/engine/schema/src/builder/coerce/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/engine/operation/src/bind/coercion/query.rs b/crates/engine/operation/src/bind/coercion/query.rs
index e975eaf..894d36c 100644
--- a/crates/engine/operation/src/bind/coercion/query.rs
+++ b/crates/engine/operation/src/bind/coercion/query.rs
@@ -453,5 +453,5 @@ fn are_type_compatibles(ty: Type<'_>, used_as: Type<'_>) -> bool {
 }
 
 fn can_coerce_to_int(float: f64) -> bool {
-    float.floor() == float && float < (i32::MAX as f64)
+    float.floor() == float && float >= (i32::MIN as f64) && float <= (i32::MAX as f64)
 }
diff --git a/crates/engine/operation/src/bind/coercion/variable.rs b/crates/engine/operation/src/bind/coercion/variable.rs
index dec7544..dc6ee44 100644
--- a/crates/engine/operation/src/bind/coercion/variable.rs
+++ b/crates/engine/operation/src/bind/coercion/variable.rs
@@ -329,5 +329,5 @@ impl<'a> VariableCoercionContext<'a> {
 }
 
 fn can_coerce_to_int(float: f64) -> bool {
-    float.floor() == float && float < (i32::MAX as f64)
+    float.floor() == float && float >= (i32::MIN as f64) && float <= (i32::MAX as f64)
 }
diff --git a/crates/engine/schema/src/builder/coerce/mod.rs b/crates/engine/schema/src/builder/coerce/mod.rs
index 16e34d3..0195404 100644
--- a/crates/engine/schema/src/builder/coerce/mod.rs
+++ b/crates/engine/schema/src/builder/coerce/mod.rs
@@ -12,5 +12,5 @@ pub(crate) use field_selection_map::*;
 pub(crate) use path::*;
 
 fn can_coerce_to_int(float: f64) -> bool {
-    float.floor() == float && float < (i32::MAX as f64)
+    float.floor() == float && float >= (i32::MIN as f64) && float <= (i32::MAX as f64)
 }
-- 
2.43.0


From 1c80df75ef7ba7b2b43399b5682e09de6f7dcecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 079/116] fix: query solver no longer panics when it estimates
 fewer requirements than before

---
 .../engine/query-solver/src/solve/steiner_tree/greedy_flac.rs  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs b/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs
index afa12ac..f44d8a0 100644
--- a/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs
+++ b/crates/engine/query-solver/src/solve/steiner_tree/greedy_flac.rs
@@ -391,7 +391,8 @@ where
             }
         }
         let mut has_one_terminal = false;
-        for ix in self.state.flow.root_feeding_terminals.zeroes() {
+        // The set may be larger than the current number of terminals, if it was used for more of them before.
+        for ix in (0..n_terminals).filter(|&ix| !self.state.flow.root_feeding_terminals.contains(ix)) {
             let terminal = self.steiner_tree.terminals[ix];
             has_one_terminal = true;
             if let Some(edge) = self.find_next_edge_in_T_minus(terminal) {
-- 
2.43.0


From 2d6f9e7d6baf074e9cebb2e74dc51ef2798789e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 080/116] fix: query solver no longer loops forever on
 interface fields of objects that do not implement the interface in the
 subgraph

---
 .../query-solver/src/solution_space/builder/alternative.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/alternative.rs b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
index c594579..1d408a3 100644
--- a/crates/engine/query-solver/src/solution_space/builder/alternative.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
@@ -205,7 +205,10 @@ where
                         std::cmp::Ordering::Greater => r += 1,
                         std::cmp::Ordering::Equal => {
                             let object = right[r].walk(self.schema);
-                            if !object.implements_interface_in_subgraph(&subgraph_id, &interface.id) {
+                            // The subgraph will never return this object.
+                            if !parent_output.possible_types_include_in_subgraph(subgraph_id, object.id) {
+                                l += 1;
+                                r += 1;
                                 continue;
                             }
                             let object_field_definition = object
-- 
2.43.0


From 7d6339cfb7a37296f2911509bb2140f9dbc5da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 081/116] fix: @skip and @include of a field also apply to its
 sub-selections when it is merged with another one

---
 .../builder/operation_fields.rs               | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs b/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs
index 883578e..ce19ad8 100644
--- a/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs
@@ -21,6 +21,10 @@ struct IngestSelectionSet<'op> {
     parent_query_field_node_ix: NodeIndex,
     parent_output_type: CompositeTypeId,
     depth: usize,
+    /// @skip/@include of the parent fields and their fragments. If the parent field isn't part of the
+    /// response neither are its sub-selections, but another field with the same response key and
+    /// other directives may still be present.
+    parent_directive_ids: Vec<ExecutableDirectiveId>,
     selection_set: operation::SelectionSet<'op>,
 }
 
@@ -37,6 +41,7 @@ where
             parent_query_field_node_ix: self.query.root_node_id,
             parent_output_type: CompositeTypeId::Object(self.operation.root_object_id),
             depth: 0,
+            parent_directive_ids: Vec::new(),
             selection_set: OperationContext {
                 schema: self.schema,
                 operation: self.operation,
@@ -86,6 +91,7 @@ where
             depth,
             parent_query_field_node_ix,
             parent_output_type,
+            parent_directive_ids,
             selection_set,
         }) = self.queue.pop_front()
         {
@@ -98,7 +104,7 @@ where
                 self.current_depth = depth;
             }
             self.parent_type_conditions.clear();
-            self.parent_directive_ids.clear();
+            self.parent_directive_ids = parent_directive_ids;
             let bloom_filter = selection_set_to_response_key_bloom_filter
                 .entry(parent_query_field_node_ix)
                 .or_default();
@@ -404,6 +410,7 @@ where
                 depth: self.current_depth + 1,
                 parent_query_field_node_ix: query_field_node_ix,
                 parent_output_type: ty,
+                parent_directive_ids: self.flat_directives(field.directive_ids()),
                 selection_set: field.selection_set(),
             })
         }
@@ -418,10 +425,7 @@ where
         if self.parent_directive_ids.is_empty() && field_directive_ids.is_empty() {
             return None;
         }
-        let mut directives = Vec::with_capacity(self.parent_directive_ids.len() + field_directive_ids.len());
-        directives.extend_from_slice(&self.parent_directive_ids);
-        directives.extend_from_slice(field_directive_ids);
-        directives.sort_unstable();
+        let directives = self.flat_directives(field_directive_ids);
 
         let next_id = self
             .builder
@@ -438,4 +442,13 @@ where
                 .or_insert(next_id),
         )
     }
+
+    fn flat_directives(&self, field_directive_ids: &[ExecutableDirectiveId]) -> Vec<ExecutableDirectiveId> {
+        let mut directives = Vec::with_capacity(self.parent_directive_ids.len() + field_directive_ids.len());
+        directives.extend_from_slice(&self.parent_directive_ids);
+        directives.extend_from_slice(field_directive_ids);
+        directives.sort_unstable();
+        directives.dedup();
+        directives
+    }
 }
-- 
2.43.0


From c6b7b698e77058387fdb41991fadf2affb5049fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 082/116] fix: variables of list types may have default values

---
 crates/engine/operation/src/bind/operation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/engine/operation/src/bind/operation.rs b/crates/engine/operation/src/bind/operation.rs
index dda4950..d4558e6 100644
--- a/crates/engine/operation/src/bind/operation.rs
+++ b/crates/engine/operation/src/bind/operation.rs
@@ -4,7 +4,7 @@ use cynic_parser::{
     executable::{Argument, Directive, FieldSelection, Iter, Selection},
 };
 use id_newtypes::IdRange;
-use schema::{CompositeType, FieldDefinition, ObjectDefinitionId, TypeDefinition, TypeRecord, Wrapping};
+use schema::{CompositeType, FieldDefinition, ObjectDefinitionId, TypeDefinition, TypeRecord};
 use std::collections::HashSet;
 use walker::Walk;
 
@@ -416,11 +416,7 @@ impl<'schema, 'p> OperationBinder<'schema, 'p> {
 
             match variable.default_value() {
                 Some(value) if !value.is_null() => {
-                    if ty.wrapping.is_list() {
-                        ty.wrapping = ty.wrapping.list_non_null();
-                    } else {
-                        ty.wrapping = Wrapping::default().non_null()
-                    }
+                    ty.wrapping = ty.wrapping.non_null();
                 }
                 _ => (),
             }
-- 
2.43.0


From 59fb16bb403cbe1f3cd25a1faa0e763e38cdfae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 083/116] fix: split query partitions which need fields of each
 other through keys or other fields

---
 .../src/post_process/partition_cycles.rs      | 105 ++++++++++++------
 1 file changed, 69 insertions(+), 36 deletions(-)

diff --git a/crates/engine/query-solver/src/post_process/partition_cycles.rs b/crates/engine/query-solver/src/post_process/partition_cycles.rs
index 9859484..fcfeaa4 100644
--- a/crates/engine/query-solver/src/post_process/partition_cycles.rs
+++ b/crates/engine/query-solver/src/post_process/partition_cycles.rs
@@ -1,6 +1,8 @@
+use std::collections::{HashMap, HashSet};
+
 use operation::QueryPosition;
+use petgraph::Direction;
 use petgraph::graph::NodeIndex;
-use petgraph::visit::EdgeFiltered;
 use petgraph::visit::EdgeRef;
 use schema::ResolverDefinitionId;
 
@@ -66,15 +68,10 @@ pub(super) fn split_query_partition_dependency_cycles(
 
         nested_patitions_fields.sort_unstable_by(|a, b| a.position.cmp(&b.position));
 
-        // Removing edges to the parent partitions
-        for field in &nested_patitions_fields {
-            if let Some(id) = query
-                .graph
-                .find_edge(field.original_partition_node_ix, field.query_field_node_ix)
-            {
-                query.graph.remove_edge(id);
-            }
-        }
+        // Fields assigned to every partition, the other ones count as being alone in a partition.
+        let mut assigned_partition = HashMap::<NodeIndex, NodeIndex>::new();
+        let mut assigned_fields = HashMap::<NodeIndex, Vec<NodeIndex>>::new();
+        let mut assignments = Vec::with_capacity(nested_patitions_fields.len());
 
         for Field {
             original_partition_node_ix,
@@ -83,36 +80,22 @@ pub(super) fn split_query_partition_dependency_cycles(
             ..
         } in nested_patitions_fields.drain(..)
         {
+            let field_dependencies = find_dependencies(
+                query,
+                root_node_ix,
+                &assigned_partition,
+                &assigned_fields,
+                &[query_field_node_ix],
+            );
             let partition_node_ix = nested_partitions
                 .iter()
                 .filter(|(_, id)| *id == resolver_definition_id)
                 .filter_map(|(partition_node_ix, _)| {
-                    let is_connected = query
-                        .graph
-                        .edges(*partition_node_ix)
-                        .filter_map(|edge| {
-                            if matches!(edge.weight(), Edge::Field) {
-                                Some(edge.target())
-                            } else {
-                                None
-                            }
-                        })
-                        .any(|partition_query_field_node_ix| {
-                            let graph = EdgeFiltered::from_fn(&query.graph, |edge| {
-                                matches!(edge.weight(), Edge::RequiredBySubgraph)
-                            });
-                            petgraph::algo::has_path_connecting(
-                                &graph,
-                                partition_query_field_node_ix,
-                                query_field_node_ix,
-                                None,
-                            ) || petgraph::algo::has_path_connecting(
-                                &graph,
-                                query_field_node_ix,
-                                partition_query_field_node_ix,
-                                None,
-                            )
-                        });
+                    let is_connected = assigned_fields.get(partition_node_ix).is_some_and(|fields| {
+                        fields.iter().any(|id| field_dependencies.contains(id))
+                            || find_dependencies(query, root_node_ix, &assigned_partition, &assigned_fields, fields)
+                                .contains(&query_field_node_ix)
+                    });
                     if is_connected { None } else { Some(*partition_node_ix) }
                 })
                 .next()
@@ -135,6 +118,21 @@ pub(super) fn split_query_partition_dependency_cycles(
                     new_partition_ix
                 });
 
+            assigned_partition.insert(query_field_node_ix, partition_node_ix);
+            assigned_fields
+                .entry(partition_node_ix)
+                .or_default()
+                .push(query_field_node_ix);
+            assignments.push((original_partition_node_ix, partition_node_ix, query_field_node_ix));
+        }
+
+        // Removing edges to the parent partitions
+        for (original_partition_node_ix, _, query_field_node_ix) in &assignments {
+            if let Some(id) = query.graph.find_edge(*original_partition_node_ix, *query_field_node_ix) {
+                query.graph.remove_edge(id);
+            }
+        }
+        for (_, partition_node_ix, query_field_node_ix) in assignments {
             query
                 .graph
                 .add_edge(partition_node_ix, query_field_node_ix, Edge::Field);
@@ -143,3 +141,38 @@ pub(super) fn split_query_partition_dependency_cycles(
         nested_partitions.clear();
     }
 }
+
+/// Finds all the nodes that must be resolved before the given fields of a same partition, including themselves. A field
+/// needs what it requires, but also everything its partition, its parent and the other fields of its partition need.
+fn find_dependencies(
+    query: &QuerySteinerSolution,
+    root_node_ix: NodeIndex,
+    assigned_partition: &HashMap<NodeIndex, NodeIndex>,
+    assigned_fields: &HashMap<NodeIndex, Vec<NodeIndex>>,
+    fields: &[NodeIndex],
+) -> HashSet<NodeIndex> {
+    let mut dependencies = HashSet::new();
+    let mut stack = fields.to_vec();
+    while let Some(node_ix) = stack.pop() {
+        if node_ix == root_node_ix || !dependencies.insert(node_ix) {
+            continue;
+        }
+        for edge in query.graph.edges(node_ix) {
+            if matches!(edge.weight(), Edge::RequiredBySubgraph) {
+                stack.push(edge.target());
+            }
+        }
+        for edge in query.graph.edges_directed(node_ix, Direction::Incoming) {
+            if matches!(edge.weight(), Edge::Field | Edge::QueryPartition) {
+                stack.push(edge.source());
+            }
+        }
+        if let Some(fields) = assigned_partition
+            .get(&node_ix)
+            .and_then(|partition_ix| assigned_fields.get(partition_ix))
+        {
+            stack.extend(fields);
+        }
+    }
+    dependencies
+}
-- 
2.43.0


From b6ee8b2f45ff680bdcc0ccc1a315cdaa8236872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 084/116] fix: fields selected only for their __typename are
 planned even if their type has fields that might be needed as keys

---
 .../query-solver/src/solution_space/builder/prune.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/prune.rs b/crates/engine/query-solver/src/solution_space/builder/prune.rs
index 4303e78..9e5df55 100644
--- a/crates/engine/query-solver/src/solution_space/builder/prune.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/prune.rs
@@ -30,15 +30,19 @@ impl QuerySolutionSpaceBuilder<'_, '_> {
                 else {
                     continue;
                 };
-                // If the parent node only provides __typenames
+                // If the parent node only provides __typenames, besides fields that may not be needed at all.
                 let parent_node_ix = parent_edge.source();
-                if self
+                if !self
                     .query
                     .graph
                     .edges(parent_node_ix)
                     .filter(|edge| matches!(edge.weight(), SpaceEdge::Field))
-                    .count()
-                    == 0
+                    .any(|edge| {
+                        matches!(
+                            self.query.graph[edge.target()],
+                            SpaceNode::Field(field) if field.flags.contains(FieldFlags::INDISPENSABLE)
+                        )
+                    })
                 {
                     extra_leafs.push(parent_node_ix);
                     stack.push(parent_node_ix);
-- 
2.43.0


From 9e81bf8261b847a2ca98c34c9417b17271f2c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 085/116] fix: plans without input or after a failed plan do
 not keep the plans that depend on them from being executed

---
 .../src/execution/operation/coordinator.rs    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/engine/src/execution/operation/coordinator.rs b/crates/engine/src/execution/operation/coordinator.rs
index ca1a108..1188f7d 100644
--- a/crates/engine/src/execution/operation/coordinator.rs
+++ b/crates/engine/src/execution/operation/coordinator.rs
@@ -347,15 +347,19 @@ impl<'ctx, R: Runtime> OperationExecution<'ctx, R> {
     where
         'ctx: 'exec,
     {
-        let PartIngestionResult::Data { response_object_sets } = self.response.ingest(response_part) else {
-            tracing::trace!(%plan_id, "Failed");
-            return (self, Vec::new());
-        };
-
-        tracing::trace!(%plan_id, "Succeeded");
+        match self.response.ingest(response_part) {
+            PartIngestionResult::Data { response_object_sets } => {
+                tracing::trace!(%plan_id, "Succeeded");
 
-        for (set_id, response_object_refs) in response_object_sets {
-            self.state.push_response_objects(set_id, response_object_refs);
+                for (set_id, response_object_refs) in response_object_sets {
+                    self.state.push_response_objects(set_id, response_object_refs);
+                }
+            }
+            // Other plans depending on this one may still have response objects, coming from
+            // another plan, to execute on.
+            PartIngestionResult::SubgraphFailure => {
+                tracing::trace!(%plan_id, "Failed");
+            }
         }
 
         let plan = plan_id.walk(&self.ctx);
@@ -369,6 +373,9 @@ impl<'ctx, R: Runtime> OperationExecution<'ctx, R> {
                 Executable::Plan(plan) => {
                     if let Some(fut) = self.create_plan_execution_future(plan) {
                         next_futures.push(fut);
+                    } else {
+                        // There is nothing to do for this plan, but others may be waiting for it.
+                        stack.append(&mut self.state.get_next_executables(plan));
                     }
                 }
                 Executable::ResponseModifier(response_modifier) => {
-- 
2.43.0


From 96e49af6ef0496bbc3daa618e8bc58cedbefdd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 086/116] fix: query solver looks up free requirements with the
 edges of the right graph

---
 .../query-solver/src/solve/input/builder/requirements.rs     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/engine/query-solver/src/solve/input/builder/requirements.rs b/crates/engine/query-solver/src/solve/input/builder/requirements.rs
index d27d151..236d735 100644
--- a/crates/engine/query-solver/src/solve/input/builder/requirements.rs
+++ b/crates/engine/query-solver/src/solve/input/builder/requirements.rs
@@ -22,7 +22,7 @@ use crate::{
 #[derive(id_derives::IndexedFields)]
 pub(crate) struct DispensableRequirementsBuilder {
     free_requirements_by_node: Vec<(SteinerNodeId, IdRange<RequiredSpaceNodeId>)>,
-    free_requirements_by_edge: Vec<(SteinerEdgeId, IdRange<RequiredSpaceNodeId>)>,
+    free_requirements_by_edge: Vec<(SpaceEdgeId, IdRange<RequiredSpaceNodeId>)>,
     requirements_by_edge: Vec<DependentEdgeWithDispensableRequirements>,
     hasher: FxBuildHasher,
     interner: hashbrown::HashTable<IdRange<RequiredSpaceNodeId>>,
@@ -232,7 +232,8 @@ impl DispensableRequirementsBuilder {
                 required_space_node_ids,
             })
         }
-        for (edge_id, required_space_node_ids) in std::mem::take(&mut self.free_requirements_by_edge) {
+        for (space_edge_id, required_space_node_ids) in std::mem::take(&mut self.free_requirements_by_edge) {
+            let edge_id = builder.map.space_edge_id_to_edge_id[&space_edge_id];
             let required_node_ids =
                 out.extend_extra_required_nodes(&builder.map, steiner_tree, required_space_node_ids, &mut buffer);
 
-- 
2.43.0


From e05d8c24b82cf5d250052d52e6352d4e0e5863bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:25 +0000
Subject: [PATCH 087/116] fix: required fields split across subgraphs are sent
 together

---
 .../src/prepare/cached/builder/requires.rs    |  2 +
 .../cached/query_plan/required_field_set.rs   | 47 +++++++++++++++----
 .../src/prepare/operation_plan/builder.rs     |  2 +-
 .../operation_plan/query_modifications.rs     | 28 ++++++-----
 4 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/crates/engine/src/prepare/cached/builder/requires.rs b/crates/engine/src/prepare/cached/builder/requires.rs
index b4fc15a..0507e55 100644
--- a/crates/engine/src/prepare/cached/builder/requires.rs
+++ b/crates/engine/src/prepare/cached/builder/requires.rs
@@ -84,6 +84,7 @@ impl Solver<'_> {
             }
             required_fields.push(RequredFieldRecord {
                 data_field_id,
+                split_data_field_ids: Vec::new(),
                 matching_field_id,
                 subselection_record,
             });
@@ -120,6 +121,7 @@ impl Solver<'_> {
 
                         subselection.push(RequredFieldRecord {
                             data_field_id,
+                            split_data_field_ids: Vec::new(),
                             matching_field_id,
                             subselection_record: self.create_subselection(map, edge.target(), dependencies),
                         });
diff --git a/crates/engine/src/prepare/cached/query_plan/required_field_set.rs b/crates/engine/src/prepare/cached/query_plan/required_field_set.rs
index 6980f5a..9f3ffaa 100644
--- a/crates/engine/src/prepare/cached/query_plan/required_field_set.rs
+++ b/crates/engine/src/prepare/cached/query_plan/required_field_set.rs
@@ -19,7 +19,15 @@ impl std::ops::Deref for RequiredFieldSetRecord {
 
 impl From<Vec<RequredFieldRecord>> for RequiredFieldSetRecord {
     fn from(mut items: Vec<RequredFieldRecord>) -> Self {
-        items.sort_unstable_by(|a, b| a.matching_field_id.cmp(&b.matching_field_id));
+        items.sort_by(|a, b| a.matching_field_id.cmp(&b.matching_field_id));
+        // A field may be split across multiple query partitions, each providing a part of the subselection.
+        items.dedup_by(|item, kept| {
+            let is_same = item.matching_field_id == kept.matching_field_id;
+            if is_same {
+                *kept = kept.merge(item);
+            }
+            is_same
+        });
         Self(items)
     }
 }
@@ -76,10 +84,33 @@ impl<'a> Walk<CachedOperationContext<'a>> for &RequiredFieldSetRecord {
 #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
 pub(crate) struct RequredFieldRecord {
     pub data_field_id: DataFieldId,
+    /// Same field in other query partitions, each providing a part of the subselection.
+    pub split_data_field_ids: Vec<DataFieldId>,
     pub matching_field_id: SchemaFieldId,
     pub subselection_record: RequiredFieldSetRecord,
 }
 
+impl RequredFieldRecord {
+    pub fn data_field_ids(&self) -> impl Iterator<Item = DataFieldId> + '_ {
+        std::iter::once(self.data_field_id).chain(self.split_data_field_ids.iter().copied())
+    }
+
+    fn merge(&self, other: &Self) -> Self {
+        let mut split_data_field_ids = self.split_data_field_ids.clone();
+        for id in other.data_field_ids() {
+            if id != self.data_field_id && !split_data_field_ids.contains(&id) {
+                split_data_field_ids.push(id);
+            }
+        }
+        RequredFieldRecord {
+            data_field_id: self.data_field_id,
+            split_data_field_ids,
+            matching_field_id: self.matching_field_id,
+            subselection_record: self.subselection_record.union(&other.subselection_record),
+        }
+    }
+}
+
 #[derive(Clone, Copy)]
 pub(crate) struct RequiredQueryField<'a> {
     ctx: CachedOperationContext<'a>,
@@ -102,6 +133,10 @@ impl<'a> RequiredQueryField<'a> {
     pub fn data_field(&self) -> DataField<'a> {
         self.ref_.data_field_id.walk(self.ctx)
     }
+    pub fn data_fields(&self) -> impl Iterator<Item = DataField<'a>> + 'a {
+        let ctx = self.ctx;
+        self.ref_.data_field_ids().map(move |id| id.walk(ctx))
+    }
     pub fn subselection(&self) -> RequiredFieldSet<'a> {
         self.ref_.subselection_record.walk(self.ctx)
     }
@@ -166,15 +201,7 @@ impl RequiredFieldSetRecord {
                     r += 1;
                 }
                 Ordering::Equal => {
-                    fields.push(RequredFieldRecord {
-                        data_field_id: left.data_field_id,
-                        matching_field_id: left.matching_field_id,
-                        subselection_record: if left.subselection_record.is_empty() {
-                            right.subselection_record.clone()
-                        } else {
-                            left.subselection_record.union(&right.subselection_record)
-                        },
-                    });
+                    fields.push(left.merge(right));
                     l += 1;
                     r += 1;
                 }
diff --git a/crates/engine/src/prepare/operation_plan/builder.rs b/crates/engine/src/prepare/operation_plan/builder.rs
index 95e752d..09ce9a8 100644
--- a/crates/engine/src/prepare/operation_plan/builder.rs
+++ b/crates/engine/src/prepare/operation_plan/builder.rs
@@ -241,7 +241,7 @@ impl<'op, R: Runtime> Builder<'op, '_, R> {
         stack.push(required_fields);
         while let Some(required_fields) = stack.pop() {
             for required_field in required_fields.iter() {
-                partition_ids.push(required_field.data_field().query_partition_id);
+                partition_ids.extend(required_field.data_fields().map(|field| field.query_partition_id));
                 let subselection = required_field.subselection();
                 if !subselection.is_empty() {
                     stack.push(subselection);
diff --git a/crates/engine/src/prepare/operation_plan/query_modifications.rs b/crates/engine/src/prepare/operation_plan/query_modifications.rs
index 6a3d55c..4acd853 100644
--- a/crates/engine/src/prepare/operation_plan/query_modifications.rs
+++ b/crates/engine/src/prepare/operation_plan/query_modifications.rs
@@ -323,20 +323,22 @@ where
             }
             while let Some(required_fields) = requires_stack.pop() {
                 for item in required_fields.deref() {
-                    modifications
-                        .included_subgraph_request_data_fields
-                        .set(item.data_field_id, true);
                     requires_stack.push(&item.subselection_record);
-                    let field = item.data_field_id.walk(operation_ctx);
-                    if !field.required_fields_record.is_empty() {
-                        requires_stack.push(&field.as_ref().required_fields_record);
-                    }
-                    if let Some(Derive::From(id))
-                    | Some(Derive::Root {
-                        batch_field_id: Some(id),
-                    }) = field.derive
-                    {
-                        derive_stack.push(id);
+                    for data_field_id in item.data_field_ids() {
+                        modifications
+                            .included_subgraph_request_data_fields
+                            .set(data_field_id, true);
+                        let field = data_field_id.walk(operation_ctx);
+                        if !field.required_fields_record.is_empty() {
+                            requires_stack.push(&field.as_ref().required_fields_record);
+                        }
+                        if let Some(Derive::From(id))
+                        | Some(Derive::Root {
+                            batch_field_id: Some(id),
+                        }) = field.derive
+                        {
+                            derive_stack.push(id);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 7cf202431650b6b7231f2a14fb49119dca2cbd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 088/116] fix: query plans no longer require a field from a
 resolver depending on the one that needs it if the parent provides it

---
 .../engine/query-solver/src/solve/solution.rs | 158 +++++++++++++++---
 1 file changed, 136 insertions(+), 22 deletions(-)

diff --git a/crates/engine/query-solver/src/solve/solution.rs b/crates/engine/query-solver/src/solve/solution.rs
index 288ed5f..15a3e38 100644
--- a/crates/engine/query-solver/src/solve/solution.rs
+++ b/crates/engine/query-solver/src/solve/solution.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use fixedbitset::FixedBitSet;
 use id_newtypes::{IdRange, IdToMany};
 use operation::{Operation, OperationContext};
@@ -11,7 +13,7 @@ use walker::Walk;
 
 use crate::{
     Derive, FieldNode, QueryField, QueryFieldId, QueryOrSchemaSortedFieldArgumentIds, QuerySolutionSpace,
-    SolutionGraph, SpaceNodeId, TypeConditionSharedVecId,
+    SolutionGraph, SpaceEdgeId, SpaceNodeId, TypeConditionSharedVecId,
     query::{Edge, Node},
     solution_space::{SpaceEdge, SpaceNode},
     solve::{
@@ -69,29 +71,20 @@ impl<'schema, 'op> Builder<'schema, 'op> {
             .collect::<Vec<_>>();
 
         let included_space_edges = {
-            let mut stack = space_node_is_terminal
-                .into_ones()
-                .map(SpaceNodeId::new)
-                .collect::<Vec<_>>();
-            let mut included = FixedBitSet::with_capacity(space.graph.edge_bound());
-            while let Some(space_node_id) = stack.pop() {
-                for space_edge in space.graph.edges_directed(space_node_id, Direction::Incoming) {
-                    if matches!(
-                        space_edge.weight(),
-                        SpaceEdge::CreateChildResolver | SpaceEdge::CanProvide | SpaceEdge::Provides
-                    ) && steiner_input_map
-                        .space_edge_id_to_edge_id
-                        .get(&space_edge.id())
-                        .map(|id| steiner_tree.edges[id.index()])
-                        .unwrap_or(true)
-                    {
-                        included.insert(space_edge.id().index());
-                        stack.push(space_edge.source());
-                    }
+            // Edges from a resolver to a field it must provide, overriding the Steiner tree.
+            let mut providers = HashMap::<SpaceNodeId, Vec<SpaceEdgeId>>::new();
+            loop {
+                let included = collect_included_space_edges(
+                    &space,
+                    &space_node_is_terminal,
+                    &steiner_input_map,
+                    &steiner_tree,
+                    &providers,
+                );
+                if !provide_requirements_with_parent(&space, &included, &mut providers) {
+                    break included;
                 }
             }
-
-            included
         };
 
         let n = operation.data_fields.len() + operation.typename_fields.len();
@@ -410,3 +403,124 @@ impl<'schema, 'op> Builder<'schema, 'op> {
             })
     }
 }
+
+fn collect_included_space_edges(
+    space: &QuerySolutionSpace<'_>,
+    space_node_is_terminal: &FixedBitSet,
+    steiner_input_map: &SteinerInputMap,
+    steiner_tree: &SteinerTree,
+    providers: &HashMap<SpaceNodeId, Vec<SpaceEdgeId>>,
+) -> FixedBitSet {
+    let mut stack = space_node_is_terminal.ones().map(SpaceNodeId::new).collect::<Vec<_>>();
+    let mut included = FixedBitSet::with_capacity(space.graph.edge_bound());
+    while let Some(space_node_id) = stack.pop() {
+        if let Some(path) = providers.get(&space_node_id) {
+            included.extend(path.iter().map(|edge_id| edge_id.index()));
+            stack.extend(
+                path.first()
+                    .and_then(|edge_id| space.graph.edge_endpoints(*edge_id))
+                    .map(|(source, _)| source),
+            );
+            continue;
+        }
+        for space_edge in space.graph.edges_directed(space_node_id, Direction::Incoming) {
+            if matches!(
+                space_edge.weight(),
+                SpaceEdge::CreateChildResolver | SpaceEdge::CanProvide | SpaceEdge::Provides
+            ) && steiner_input_map
+                .space_edge_id_to_edge_id
+                .get(&space_edge.id())
+                .map(|id| steiner_tree.edges[id.index()])
+                .unwrap_or(true)
+            {
+                included.insert(space_edge.id().index());
+                stack.push(space_edge.source());
+            }
+        }
+    }
+    included
+}
+
+/// If a resolver or field requires something its parent could provide without any further requirements, the parent
+/// should provide it. The Steiner tree may have found another resolver that doesn't cost more, but which may in turn
+/// depend on the former.
+fn provide_requirements_with_parent(
+    space: &QuerySolutionSpace<'_>,
+    included: &FixedBitSet,
+    providers: &mut HashMap<SpaceNodeId, Vec<SpaceEdgeId>>,
+) -> bool {
+    let n = providers.len();
+    for edge_ix in included.ones() {
+        let edge_id = SpaceEdgeId::new(edge_ix);
+        if !matches!(
+            space.graph[edge_id],
+            SpaceEdge::CreateChildResolver | SpaceEdge::CanProvide
+        ) {
+            continue;
+        }
+        let Some((parent_id, dependent_id)) = space.graph.edge_endpoints(edge_id) else {
+            continue;
+        };
+        let required = space
+            .graph
+            .edges(dependent_id)
+            .filter(|edge| matches!(edge.weight(), SpaceEdge::Requires))
+            .map(|edge| edge.target())
+            .collect::<Vec<_>>();
+        for &field_id in &required {
+            let mut provided_by = space
+                .graph
+                .edges_directed(field_id, Direction::Incoming)
+                .filter(|edge| matches!(edge.weight(), SpaceEdge::Provides) && included[edge.id().index()]);
+            // Composite fields are provided through their sub-selections.
+            if provided_by.next().is_none() || provided_by.next().is_some() || providers.contains_key(&field_id) {
+                continue;
+            }
+            let mut paths = Vec::new();
+            find_paths_to_provide(space, parent_id, field_id, &required, &mut Vec::new(), &mut paths);
+            if !paths
+                .iter()
+                .any(|path| path.iter().all(|edge_id| included[edge_id.index()]))
+                && let Some(path) = paths.into_iter().next()
+            {
+                providers.insert(field_id, path);
+            }
+        }
+    }
+    providers.len() != n
+}
+
+fn find_paths_to_provide(
+    space: &QuerySolutionSpace<'_>,
+    parent_id: SpaceNodeId,
+    field_id: SpaceNodeId,
+    required: &[SpaceNodeId],
+    path: &mut Vec<SpaceEdgeId>,
+    out: &mut Vec<Vec<SpaceEdgeId>>,
+) {
+    for can_provide in space
+        .graph
+        .edges(parent_id)
+        .filter(|edge| matches!(edge.weight(), SpaceEdge::CanProvide))
+    {
+        let mut provides = None;
+        let mut has_requirements = false;
+        for edge in space.graph.edges(can_provide.target()) {
+            match edge.weight() {
+                SpaceEdge::Requires => has_requirements = true,
+                SpaceEdge::Provides => provides = Some(edge),
+                _ => (),
+            }
+        }
+        let Some(provides) = provides.filter(|edge| !has_requirements && required.contains(&edge.target())) else {
+            continue;
+        };
+        path.push(can_provide.id());
+        if provides.target() == field_id {
+            out.push(path.iter().copied().chain([provides.id()]).collect());
+        } else {
+            find_paths_to_provide(space, can_provide.target(), field_id, required, path, out);
+        }
+        path.pop();
+    }
+}
-- 
2.43.0


From f65ae022145d804f4fddad9bc6310a29d3c32155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 089/116] fix: plans depending on the second of several merged
 fields get their parent objects

---
 .../src/prepare/cached/builder/shapes/mod.rs  | 65 ++++++++++---------
 .../src/prepare/cached/shape/concrete.rs      |  2 +-
 .../engine/src/prepare/cached/shape/derive.rs |  2 +-
 .../write/deserialize/object/concrete.rs      |  4 +-
 .../write/deserialize/object/derive.rs        |  4 +-
 5 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/crates/engine/src/prepare/cached/builder/shapes/mod.rs b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
index e262776..7cde569 100644
--- a/crates/engine/src/prepare/cached/builder/shapes/mod.rs
+++ b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
@@ -267,7 +267,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
 
         let shape_id = self.create_concrete_shape(
             ObjectIdentifier::Anonymous,
-            None,
+            Vec::new(),
             &typename_fields_sorted_by_response_key_str_then_position_extra_last,
             &data_fields_sorted_by_response_key_str_then_position_extra_last,
             included_typename_then_data_fields,
@@ -303,7 +303,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
         };
 
         let shape = ConcreteShapeRecord {
-            set_id: None,
+            set_ids: Vec::new(),
             identifier: ObjectIdentifier::Anonymous,
             typename_shape_ids: Default::default(),
             field_shape_ids,
@@ -330,7 +330,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
     fn create_concrete_shape(
         &mut self,
         identifier: ObjectIdentifier,
-        set_id: Option<ResponseObjectSetId>,
+        set_ids: Vec<ResponseObjectSetId>,
         typename_fields_sorted_by_response_key_str_then_position_extra_last: &[TypenameFieldId],
         data_fields_sorted_by_response_key_str_then_position_extra_last: &[DataFieldId],
         included_typename_then_data_fields: FixedBitSet,
@@ -415,7 +415,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
         };
 
         let shape = ConcreteShapeRecord {
-            set_id,
+            set_ids,
             identifier,
             typename_shape_ids: {
                 let start = self.shapes.typename_fields.len();
@@ -472,17 +472,19 @@ impl<'ctx> ShapesBuilder<'ctx> {
         let keys = &self.ctx.cached.operation.response_keys;
         let query_plan = &self.ctx.cached.query_plan;
         let (
-            set_id,
+            set_ids,
             data_fields_sorted_by_response_key_str_then_position_extra_last,
             typename_fields_sorted_by_response_key_str_then_position_extra_last,
         ) = {
-            let mut set_id = None;
+            let mut set_ids = Vec::new();
             let mut data_fields = self.data_fields_buffer_pool.pop();
             let mut typename_fields = self.typename_fields_buffer_pool.pop();
             for &parent_field_id in parent_field_ids {
                 let parent_field = parent_field_id.walk(self.ctx);
-                if set_id.is_none() {
-                    set_id = parent_field.output_id;
+                if let Some(id) = parent_field.output_id
+                    && !set_ids.contains(&id)
+                {
+                    set_ids.push(id);
                 }
                 data_fields.extend(
                     parent_field
@@ -505,7 +507,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
                     .cmp(&keys[right.response_key])
                     .then_with(|| QueryPosition::cmp_with_none_last(left.query_position, right.query_position))
             });
-            (set_id, data_fields, typename_fields)
+            (set_ids, data_fields, typename_fields)
         };
 
         let mut field_shapes_buffer = self.field_shapes_buffer_pool.pop();
@@ -574,7 +576,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
         }
 
         let shape = DerivedEntityShapeRecord {
-            set_id,
+            set_ids,
             object_definition_id,
             batch_field_shape: batch_field_id.walk(self.ctx).map(|field| BatchFieldShape {
                 key: field.key(),
@@ -618,18 +620,20 @@ impl<'ctx> ShapesBuilder<'ctx> {
 
         let (
             requires_typename,
-            set_id,
+            set_ids,
             data_fields_sorted_by_response_key_str_then_position_extra_last,
             typename_fields_sorted_by_response_key_str_then_position_extra_last,
         ) = {
             let mut requires_typename = false;
-            let mut set_id = None;
+            let mut set_ids = Vec::new();
             let mut data_fields = self.data_fields_buffer_pool.pop();
             let mut typename_fields = self.typename_fields_buffer_pool.pop();
             for &parent_field_id in parent_field_ids {
                 let parent_field = parent_field_id.walk(self.ctx);
-                if set_id.is_none() {
-                    set_id = parent_field.output_id;
+                if let Some(id) = parent_field.output_id
+                    && !set_ids.contains(&id)
+                {
+                    set_ids.push(id);
                 }
                 requires_typename |= parent_field.selection_set_requires_typename;
                 data_fields.extend(
@@ -653,7 +657,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
                     .cmp(&keys[right.response_key])
                     .then_with(|| QueryPosition::cmp_with_none_last(left.query_position, right.query_position))
             });
-            (requires_typename, set_id, data_fields, typename_fields)
+            (requires_typename, set_ids, data_fields, typename_fields)
         };
 
         //
@@ -685,7 +689,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
             // We may still need to know the type of the object if there is any __typename field.
             let identifier = if let [id] = output.possible_type_ids() {
                 ObjectIdentifier::Known(*id)
-            } else if set_id.is_some()
+            } else if !set_ids.is_empty()
                 || !typename_fields_sorted_by_response_key_str_then_position_extra_last.is_empty()
                 || requires_typename
             {
@@ -706,7 +710,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
 
             Shape::Concrete(self.create_concrete_shape(
                 identifier,
-                set_id,
+                set_ids,
                 &typename_fields_sorted_by_response_key_str_then_position_extra_last,
                 &data_fields_sorted_by_response_key_str_then_position_extra_last,
                 included_typename_then_data_fields,
@@ -725,7 +729,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
                     partition::Partition::One { id, fields } => {
                         let shape_id = self.create_concrete_shape(
                             ObjectIdentifier::Anonymous,
-                            set_id,
+                            set_ids.clone(),
                             &typename_fields_sorted_by_response_key_str_then_position_extra_last,
                             &data_fields_sorted_by_response_key_str_then_position_extra_last,
                             fields,
@@ -735,7 +739,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
                     partition::Partition::Many { ids, fields } => {
                         let shape_id = self.create_concrete_shape(
                             ObjectIdentifier::Anonymous,
-                            set_id,
+                            set_ids.clone(),
                             &typename_fields_sorted_by_response_key_str_then_position_extra_last,
                             &data_fields_sorted_by_response_key_str_then_position_extra_last,
                             fields,
@@ -744,20 +748,21 @@ impl<'ctx> ShapesBuilder<'ctx> {
                     }
                     partition::Partition::Remaining { fields } => {
                         let n = typename_fields_sorted_by_response_key_str_then_position_extra_last.len();
-                        let identifier = if set_id.is_some() || fields.contains_any_in_range(..n) || requires_typename {
-                            match output {
-                                CompositeType::Interface(interface) => {
-                                    ObjectIdentifier::InterfaceTypename(interface.id)
+                        let identifier =
+                            if !set_ids.is_empty() || fields.contains_any_in_range(..n) || requires_typename {
+                                match output {
+                                    CompositeType::Interface(interface) => {
+                                        ObjectIdentifier::InterfaceTypename(interface.id)
+                                    }
+                                    CompositeType::Union(union) => ObjectIdentifier::UnionTypename(union.id),
+                                    CompositeType::Object(object) => ObjectIdentifier::Known(object.id),
                                 }
-                                CompositeType::Union(union) => ObjectIdentifier::UnionTypename(union.id),
-                                CompositeType::Object(object) => ObjectIdentifier::Known(object.id),
-                            }
-                        } else {
-                            ObjectIdentifier::Anonymous
-                        };
+                            } else {
+                                ObjectIdentifier::Anonymous
+                            };
                         fallback = Some(self.create_concrete_shape(
                             identifier,
-                            set_id,
+                            set_ids.clone(),
                             &typename_fields_sorted_by_response_key_str_then_position_extra_last,
                             &data_fields_sorted_by_response_key_str_then_position_extra_last,
                             fields,
diff --git a/crates/engine/src/prepare/cached/shape/concrete.rs b/crates/engine/src/prepare/cached/shape/concrete.rs
index 9f46418..fe0aa1c 100644
--- a/crates/engine/src/prepare/cached/shape/concrete.rs
+++ b/crates/engine/src/prepare/cached/shape/concrete.rs
@@ -10,7 +10,7 @@ use super::{FieldShape, FieldShapeId, TypenameShapeId};
 /// only that we know exactly which fields must be present.
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
 pub(crate) struct ConcreteShapeRecord {
-    pub set_id: Option<ResponseObjectSetId>,
+    pub set_ids: Vec<ResponseObjectSetId>,
     pub identifier: ObjectIdentifier,
     pub typename_shape_ids: IdRange<TypenameShapeId>,
     // Ordered by (non-derived first / derived last).then(PartitionDataFieldId) which should more or less match the ordering of fields
diff --git a/crates/engine/src/prepare/cached/shape/derive.rs b/crates/engine/src/prepare/cached/shape/derive.rs
index 1c71516..a09393d 100644
--- a/crates/engine/src/prepare/cached/shape/derive.rs
+++ b/crates/engine/src/prepare/cached/shape/derive.rs
@@ -11,7 +11,7 @@ use super::{FieldShape, FieldShapeId, TypenameShape, TypenameShapeId};
 /// only that we know exactly which fields must be present.
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
 pub(crate) struct DerivedEntityShapeRecord {
-    pub set_id: Option<ResponseObjectSetId>,
+    pub set_ids: Vec<ResponseObjectSetId>,
     pub object_definition_id: Option<ObjectDefinitionId>,
     pub batch_field_shape: Option<BatchFieldShape>,
     pub typename_shape_ids: IdRange<TypenameShapeId>,
diff --git a/crates/engine/src/response/write/deserialize/object/concrete.rs b/crates/engine/src/response/write/deserialize/object/concrete.rs
index 29beed3..2ac1e54 100644
--- a/crates/engine/src/response/write/deserialize/object/concrete.rs
+++ b/crates/engine/src/response/write/deserialize/object/concrete.rs
@@ -105,8 +105,8 @@ impl<'ctx> ConcreteShapeSeed<'ctx, '_, '_> {
                     {
                         resp.propagate_null(&path);
                     }
-                    if let Some(set_id) = shape.set_id {
-                        let (parent_path, local_path) = path;
+                    for &set_id in &shape.set_ids {
+                        let (parent_path, local_path) = &path;
                         let mut path = Vec::with_capacity(parent_path.len() + local_path.len());
                         path.extend_from_slice(parent_path);
                         path.extend_from_slice(local_path.as_ref());
diff --git a/crates/engine/src/response/write/deserialize/object/derive.rs b/crates/engine/src/response/write/deserialize/object/derive.rs
index 039bfe4..9fca89e 100644
--- a/crates/engine/src/response/write/deserialize/object/derive.rs
+++ b/crates/engine/src/response/write/deserialize/object/derive.rs
@@ -183,7 +183,7 @@ fn handle_derive_scalar_list(
                     definition_id: root_definition_id,
                     fields_sorted_by_key,
                 });
-                if let Some(set_id) = ctx.shape.set_id {
+                for &set_id in &ctx.shape.as_ref().set_ids {
                     let mut path = Vec::with_capacity(ctx.parent_path.len() + ctx.local_path.len());
                     path.extend_from_slice(ctx.parent_path);
                     path.extend_from_slice(ctx.local_path.as_ref());
@@ -373,7 +373,7 @@ fn handle_object_derive(
             ctx.shape.object_definition_id,
             derived_response_fields,
         ));
-        if let Some(set_id) = ctx.shape.set_id {
+        for &set_id in &ctx.shape.as_ref().set_ids {
             let mut path = Vec::with_capacity(ctx.parent_path.len() + ctx.local_path.len());
             path.extend_from_slice(ctx.parent_path);
             path.extend_from_slice(ctx.local_path.as_ref());
-- 
2.43.0


From 56ff87d56bad9f623b358a6bed9a26c9e924a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 090/116] fix: fields retrieved from several subgraphs are
 merged by response key with everything that references them

---
 crates/engine/src/response/data.rs        |  21 ++-
 crates/engine/src/response/write/merge.rs | 208 +++++++++++-----------
 crates/engine/src/response/write/mod.rs   |  18 +-
 3 files changed, 136 insertions(+), 111 deletions(-)

diff --git a/crates/engine/src/response/data.rs b/crates/engine/src/response/data.rs
index 21e2303..1ad1a8a 100644
--- a/crates/engine/src/response/data.rs
+++ b/crates/engine/src/response/data.rs
@@ -143,7 +143,7 @@ impl std::ops::Index<PartString> for DataParts {
 }
 
 // Not an id_derives as no one beside this file should need to create this ID.
-#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
 pub(crate) struct DataPartId(u16);
 
 impl std::fmt::Display for DataPartId {
@@ -249,11 +249,13 @@ impl DataPart {
                 nullable,
             } => {
                 debug_assert!(part_id == self.id && nullable, "{part_id} == {} && {nullable}", self.id);
+                // The query position may have changed if the field was merged with another one.
                 match self[object_id]
                     .fields_sorted_by_key
-                    .binary_search_by(|probe| probe.key.cmp(&key))
+                    .iter()
+                    .position(|field| field.key.response_key == key.response_key)
                 {
-                    Ok(index) => {
+                    Some(index) => {
                         let mut inaccessible_value = ResponseValue::Inaccessible {
                             id: ResponseInaccessibleValueId {
                                 part_id: self.id,
@@ -268,7 +270,10 @@ impl DataPart {
                     }
                     // May not be present for extension field resolver as they add fields directly,
                     // rather than entities.
-                    Err(index) => {
+                    None => {
+                        let index = self[object_id]
+                            .fields_sorted_by_key
+                            .partition_point(|field| field.key < key);
                         self[object_id].fields_sorted_by_key.insert(
                             index,
                             ResponseObjectField {
@@ -441,10 +446,10 @@ pub(crate) struct ResponseInaccessibleValueId {
     pub value_id: PartInaccesibleValueId,
 }
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, id_derives::Id)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy, id_derives::Id)]
 pub(crate) struct PartObjectId(u32);
 
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
 pub(crate) struct ResponseObjectId {
     pub part_id: DataPartId,
     pub object_id: PartObjectId,
@@ -456,10 +461,10 @@ impl std::fmt::Display for ResponseObjectId {
     }
 }
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, id_derives::Id)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy, id_derives::Id)]
 pub(crate) struct PartListId(u32);
 
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
 pub(crate) struct ResponseListId {
     pub part_id: DataPartId,
     pub list_id: PartListId,
diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index 42f8641..6cd64de 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -1,71 +1,84 @@
-use std::{cmp::Ordering, collections::VecDeque};
+use std::collections::HashMap;
+
+use operation::QueryPosition;
 
 use crate::{
     prepare::DefaultFieldShape,
-    response::{ResponseListId, ResponseObjectField, ResponseObjectId, ResponseValue},
+    response::{
+        ResponseListId, ResponseObjectField, ResponseObjectId, ResponseObjectRef, ResponseValue, ResponseValueId,
+    },
 };
 
 use super::ResponseBuilder;
 
+/// Objects and lists of a new part which were merged into existing ones.
+#[derive(Default)]
+pub(super) struct Merged {
+    objects: HashMap<ResponseObjectId, ResponseObjectId>,
+    lists: HashMap<ResponseListId, ResponseListId>,
+}
+
+impl Merged {
+    pub(super) fn is_empty(&self) -> bool {
+        self.objects.is_empty() && self.lists.is_empty()
+    }
+
+    pub(super) fn update_object_ref(&self, object_ref: &mut ResponseObjectRef) {
+        if let Some(id) = self.objects.get(&object_ref.id) {
+            object_ref.id = *id;
+        }
+        for value_id in &mut object_ref.path {
+            self.update_value_id(value_id);
+        }
+    }
+
+    pub(super) fn update_value_id(&self, value_id: &mut ResponseValueId) {
+        match value_id {
+            ResponseValueId::Field { part_id, object_id, .. } => {
+                if let Some(existing_id) = self.objects.get(&ResponseObjectId {
+                    part_id: *part_id,
+                    object_id: *object_id,
+                }) {
+                    *part_id = existing_id.part_id;
+                    *object_id = existing_id.object_id;
+                }
+            }
+            ResponseValueId::Index { part_id, list_id, .. } => {
+                if let Some(existing_id) = self.lists.get(&ResponseListId {
+                    part_id: *part_id,
+                    list_id: *list_id,
+                }) {
+                    *part_id = existing_id.part_id;
+                    *list_id = existing_id.list_id;
+                }
+            }
+            ResponseValueId::IntListIndex { .. } | ResponseValueId::FloatListIndex { .. } => {}
+        }
+    }
+}
+
 impl<'ctx> ResponseBuilder<'ctx> {
     pub(super) fn merge_with_default_object(
         &mut self,
         object_id: ResponseObjectId,
-        mut default_fields_sorted_by_key: impl Iterator<Item = DefaultFieldShape<'ctx>>,
+        default_fields_sorted_by_key: impl Iterator<Item = DefaultFieldShape<'ctx>>,
     ) {
-        let Some(mut default_field) = default_fields_sorted_by_key.next() else {
-            return;
-        };
-        let mut key = default_field.key();
-
         let mut existing_fields = std::mem::take(&mut self.data_parts[object_id].fields_sorted_by_key);
         let n = existing_fields.len();
-        let mut i = 0;
-        loop {
-            if i >= n {
+        for default_field in default_fields_sorted_by_key {
+            let key = default_field.key();
+            // When ingesting default fields, which we set to Null, we may encounter an actual
+            // value in the case of shared roots. In this case we keep the old value.
+            if !existing_fields[..n]
+                .iter()
+                .any(|field| field.key.response_key == key.response_key)
+            {
                 existing_fields.push(ResponseObjectField {
                     key,
                     value: default_field.value.into(),
                 });
-                break;
-            }
-            let existing_field = &existing_fields[i];
-            match existing_field.key.cmp(&key) {
-                Ordering::Less => {
-                    i += 1;
-                }
-                Ordering::Greater => {
-                    // Adding at the end and will be sorted later.
-                    existing_fields.push(ResponseObjectField {
-                        key,
-                        value: default_field.value.into(),
-                    });
-                    if let Some(next) = default_fields_sorted_by_key.next() {
-                        default_field = next;
-                        key = default_field.key();
-                    } else {
-                        break;
-                    }
-                }
-                // When ingesting default fields, which we set to Null, we may encounter an actual
-                // value in the case of shared roots. In this case we keep the old value.
-                Ordering::Equal => {
-                    i += 1;
-                    if let Some(next) = default_fields_sorted_by_key.next() {
-                        default_field = next;
-                        key = default_field.key();
-                    } else {
-                        break;
-                    }
-                }
             }
         }
-        for field in default_fields_sorted_by_key {
-            existing_fields.push(ResponseObjectField {
-                key,
-                value: field.value.into(),
-            });
-        }
         existing_fields.sort_unstable_by(|a, b| a.key.cmp(&b.key));
 
         self.data_parts[object_id].fields_sorted_by_key = existing_fields;
@@ -75,85 +88,78 @@ impl<'ctx> ResponseBuilder<'ctx> {
         &mut self,
         object_id: ResponseObjectId,
         new_fields_sorted_by_key: Vec<ResponseObjectField>,
+        merged: &mut Merged,
     ) {
-        let mut new_fields_sorted_by_key = VecDeque::from(new_fields_sorted_by_key);
-        let Some(mut new_field) = new_fields_sorted_by_key.pop_front() else {
-            return;
-        };
-
         let mut existing_fields = std::mem::take(&mut self.data_parts[object_id].fields_sorted_by_key);
         let n = existing_fields.len();
-        let mut i = 0;
-        loop {
-            if i >= n {
-                existing_fields.push(new_field);
-                break;
-            }
-            let existing_field = &existing_fields[i];
-            match existing_field.key.cmp(&new_field.key) {
-                Ordering::Less => {
-                    i += 1;
-                }
-                Ordering::Greater => {
-                    // Adding at the end and will be sorted later.
-                    existing_fields.push(new_field);
-                    if let Some(next) = new_fields_sorted_by_key.pop_front() {
-                        new_field = next;
-                    } else {
-                        break;
-                    }
-                }
-                Ordering::Equal => {
-                    self.recursive_merge_value(existing_field.value.clone(), new_field.value);
-                    i += 1;
-                    if let Some(next) = new_fields_sorted_by_key.pop_front() {
-                        new_field = next;
-                    } else {
-                        break;
-                    }
+        for new_field in new_fields_sorted_by_key {
+            // In the case of shared roots, different parts of the same field may come from different
+            // positions in the query.
+            if let Some(existing_field) = existing_fields[..n]
+                .iter_mut()
+                .find(|field| field.key.response_key == new_field.key.response_key)
+            {
+                if QueryPosition::cmp_with_none_last(new_field.key.query_position, existing_field.key.query_position)
+                    .is_lt()
+                {
+                    existing_field.key = new_field.key;
                 }
+                self.recursive_merge_value(&mut existing_field.value, new_field.value, merged);
+            } else {
+                existing_fields.push(new_field);
             }
         }
-        existing_fields.append(&mut Vec::from(new_fields_sorted_by_key));
         existing_fields.sort_unstable_by(|a, b| a.key.cmp(&b.key));
 
         self.data_parts[object_id].fields_sorted_by_key = existing_fields;
     }
 
-    fn recursive_merge_value(&mut self, existing: ResponseValue, new: ResponseValue) {
-        match (existing, new) {
+    fn recursive_merge_value(&mut self, existing: &mut ResponseValue, new: ResponseValue, merged: &mut Merged) {
+        match (&mut *existing, new) {
             (ResponseValue::Object { id: existing_id, .. }, ResponseValue::Object { id: new_id, .. }) => {
                 let new_fields_sorted_by_key = std::mem::take(&mut self.data_parts[new_id].fields_sorted_by_key);
-                self.recursive_merge_object(existing_id, new_fields_sorted_by_key);
+                merged.objects.insert(new_id, *existing_id);
+                self.recursive_merge_object(*existing_id, new_fields_sorted_by_key, merged);
             }
             (ResponseValue::List { id: existing_id, .. }, ResponseValue::List { id: new_id, .. }) => {
-                self.recursive_merge_list(existing_id, new_id)
+                merged.lists.insert(new_id, *existing_id);
+                self.recursive_merge_list(*existing_id, new_id, merged)
             }
-            (ResponseValue::Inaccessible { id: existing_id }, ResponseValue::Inaccessible { id: new_id }) => {
-                self.recursive_merge_value(self.data_parts[existing_id].clone(), self.data_parts[new_id].clone());
+            (ResponseValue::Inaccessible { id: existing_id }, new) => {
+                let existing_id = *existing_id;
+                let new = match new {
+                    ResponseValue::Inaccessible { id } => self.data_parts[id].clone(),
+                    new => new,
+                };
+                let mut value = self.data_parts[existing_id].clone();
+                self.recursive_merge_value(&mut value, new, merged);
+                self.data_parts[existing_id] = value;
             }
-            (ResponseValue::Inaccessible { id }, new) => {
-                self.recursive_merge_value(self.data_parts[id].clone(), new);
-            }
-            (existing, ResponseValue::Inaccessible { id }) => {
-                self.recursive_merge_value(existing, self.data_parts[id].clone());
-            }
-            (ResponseValue::Null, ResponseValue::Null) => {}
-            (l, r) => {
-                unreachable!(
-                    "Trying to merge something values that aren't a couple of objects/list/couple of nulls {l:?} | {r:?}"
-                );
+            (_, ResponseValue::Inaccessible { id }) => {
+                self.recursive_merge_value(existing, self.data_parts[id].clone(), merged);
+                *existing = ResponseValue::Null;
             }
+            // Null is an indicator that something went wrong, fields of the other object may be missing.
+            (_, ResponseValue::Null) => *existing = ResponseValue::Null,
+            // Leaf values that were retrieved more than once.
+            _ => {}
         }
     }
 
-    fn recursive_merge_list(&mut self, existing_list_id: ResponseListId, new_list_id: ResponseListId) {
+    fn recursive_merge_list(
+        &mut self,
+        existing_list_id: ResponseListId,
+        new_list_id: ResponseListId,
+        merged: &mut Merged,
+    ) {
         let mut i = 0;
         while let Some((existing, new)) = self.data_parts[existing_list_id]
             .get(i)
             .zip(self.data_parts[new_list_id].get(i))
         {
-            self.recursive_merge_value(existing.clone(), new.clone());
+            let (mut existing, new) = (existing.clone(), new.clone());
+            self.recursive_merge_value(&mut existing, new, merged);
+            self.data_parts[existing_list_id][i] = existing;
             i += 1;
         }
         // FIXME: Unlikely but should generate an error here.
diff --git a/crates/engine/src/response/write/mod.rs b/crates/engine/src/response/write/mod.rs
index d3d2fe3..d673459 100644
--- a/crates/engine/src/response/write/mod.rs
+++ b/crates/engine/src/response/write/mod.rs
@@ -14,6 +14,7 @@ use super::{
 };
 use crate::prepare::{OperationPlanContext, PreparedOperation, ResponseObjectSetId};
 pub(crate) use deserialize::*;
+use merge::Merged;
 pub(crate) use part::*;
 
 pub(crate) struct ResponseBuilder<'ctx> {
@@ -80,7 +81,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
         })
     }
 
-    pub fn ingest(&mut self, part: ResponsePartBuilder<'ctx>) -> PartIngestionResult {
+    pub fn ingest(&mut self, mut part: ResponsePartBuilder<'ctx>) -> PartIngestionResult {
         self.data_parts.insert(part.data);
         self.error_parts.push(part.errors);
 
@@ -90,13 +91,14 @@ impl<'ctx> ResponseBuilder<'ctx> {
         }
 
         let mut has_ingested_data = false;
+        let mut merged = Merged::default();
         let ctx = OperationPlanContext::from((self.schema.as_ref(), self.operation.as_ref()));
         for update in part.object_updates {
             match update {
                 ObjectUpdate::Fields(id, mut fields) => {
                     has_ingested_data = true;
                     fields.sort_unstable_by(|a, b| a.key.cmp(&b.key));
-                    self.recursive_merge_object(id, fields);
+                    self.recursive_merge_object(id, fields, &mut merged);
                 }
                 ObjectUpdate::Default(id, default_field_ids) => {
                     self.merge_with_default_object(id, default_field_ids.walk(ctx));
@@ -104,6 +106,18 @@ impl<'ctx> ResponseBuilder<'ctx> {
             }
         }
 
+        // In the case of shared roots, the new objects may not be part of the response themselves.
+        if !merged.is_empty() {
+            for (_, object_refs) in &mut part.object_sets {
+                for object_ref in object_refs {
+                    merged.update_object_ref(object_ref);
+                }
+            }
+            for value_id in &mut part.propagated_null_at {
+                merged.update_value_id(value_id);
+            }
+        }
+
         // Must be done after object updates, as it'll add nulls if the field doesn't exist yet.
         // And we don't merge null with something else than null, as we treat it as an indicator
         // that something went wrong.
-- 
2.43.0


From cc98d36a929cd483697c03634297ef16a9591a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 091/116] fix: removed query fields no longer wait for an
 alternative in the query solver

---
 .../src/solution_space/builder/alternative.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/alternative.rs b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
index 1d408a3..ac22bfa 100644
--- a/crates/engine/query-solver/src/solution_space/builder/alternative.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
@@ -38,11 +38,7 @@ where
                 flags.remove(FieldFlags::UNREACHABLE);
                 return Ok(());
             }
-            let mut stack = vec![query_field_node_ix];
-            while let Some(id) = stack.pop() {
-                stack.extend(self.query.graph.neighbors_directed(id, Direction::Outgoing));
-                self.query.graph.remove_node(id);
-            }
+            self.remove_query_field_nodes(query_field_node_ix);
             return Ok(());
         }
         // FIXME: Should only check for indispensable fields. And then if we add new indispensable
@@ -260,11 +256,7 @@ where
         if found_alternative {
             // Removing original fields. We have no choice but to keep them intact until the
             // end to only copy the original edges to new object field.
-            let mut stack = vec![existing_query_field_node_ix];
-            while let Some(id) = stack.pop() {
-                stack.extend(self.query.graph.neighbors_directed(id, Direction::Outgoing));
-                self.query.graph.remove_node(id);
-            }
+            self.remove_query_field_nodes(existing_query_field_node_ix);
         }
 
         // If there is no intersection between the parent output type and the interface, we
@@ -311,6 +303,19 @@ where
         false
     }
 
+    fn remove_query_field_nodes(&mut self, query_field_node_ix: NodeIndex) {
+        let mut stack = vec![query_field_node_ix];
+        while let Some(id) = stack.pop() {
+            stack.extend(self.query.graph.neighbors_directed(id, Direction::Outgoing));
+            self.query.graph.remove_node(id);
+        }
+        // Nested fields may be waiting for an alternative.
+        let graph = &self.query.graph;
+        self.maybe_unplannable_query_fields_stack.retain(|field| {
+            graph.contains_node(field.query_field_node_ix) && graph.contains_node(field.parent_query_field_node_ix)
+        });
+    }
+
     fn deep_copy_query_field_nodes(
         &mut self,
         existing_query_field_node_ix: NodeIndex,
-- 
2.43.0


From db1775a6633e156e66c4457822d1947a22d57e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:02 +0000
Subject: [PATCH 092/116] fix: interface fields retrieved through the objects
 are only expected for the right object

---
 .../src/solution_space/builder/alternative.rs          | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/engine/query-solver/src/solution_space/builder/alternative.rs b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
index ac22bfa..eeda4b1 100644
--- a/crates/engine/query-solver/src/solution_space/builder/alternative.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
@@ -219,7 +219,17 @@ where
                             }
 
                             let could_provide_new_field = self.with_new_split(|this| {
+                                // Other objects must not be expected to have this field.
+                                let type_conditions = {
+                                    let existing = this.query[existing_query_field_id].type_conditions;
+                                    let existing = this.query[existing].to_vec();
+                                    let start = this.query.shared_type_conditions.len();
+                                    this.query.shared_type_conditions.extend(existing);
+                                    this.query.shared_type_conditions.push(object.id.into());
+                                    (start..this.query.shared_type_conditions.len()).into()
+                                };
                                 this.query.fields.push(QueryField {
+                                    type_conditions,
                                     definition_id: Some(object_field_definition.id),
                                     ..this.query[existing_query_field_id].clone()
                                 });
-- 
2.43.0


From 7bf6b3008af653803d95ad0bb89c78902b9275fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 093/116] fix: interface fields can be retrieved through the
 objects if their parent comes from several subgraphs

---
 .../src/solution_space/builder/alternative.rs          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/alternative.rs b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
index eeda4b1..b03ba28 100644
--- a/crates/engine/query-solver/src/solution_space/builder/alternative.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
@@ -187,8 +187,7 @@ where
 
             tracing::debug!("{subgraph_ids:#?}");
 
-            if subgraph_ids.len() == 1 {
-                let subgraph_id = subgraph_ids[0];
+            if !subgraph_ids.is_empty() {
                 let left = parent_output.possible_type_ids();
                 let right = &interface.possible_type_ids;
                 tracing::debug!("{left:#?}\n{right:#?}");
@@ -201,8 +200,11 @@ where
                         std::cmp::Ordering::Greater => r += 1,
                         std::cmp::Ordering::Equal => {
                             let object = right[r].walk(self.schema);
-                            // The subgraph will never return this object.
-                            if !parent_output.possible_types_include_in_subgraph(subgraph_id, object.id) {
+                            // The subgraphs will never return this object.
+                            if !subgraph_ids
+                                .iter()
+                                .any(|id| parent_output.possible_types_include_in_subgraph(*id, object.id))
+                            {
                                 l += 1;
                                 r += 1;
                                 continue;
-- 
2.43.0


From 2e7b67984cc0ac57d2eddc3e28488ff6ab24c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 094/116] fix: fields whose type conditions no object can
 satisfy are not part of the answer, but their parent is

---
 .../src/solution_space/builder/operation_fields.rs  | 11 +++++++----
 .../src/solution_space/builder/prune.rs             | 13 +++++++++++++
 .../engine/src/prepare/cached/builder/shapes/mod.rs |  1 -
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs b/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs
index ce19ad8..f404fae 100644
--- a/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/operation_fields.rs
@@ -223,13 +223,16 @@ where
     }
 
     fn can_be_present(&self, parent_output_type: CompositeTypeId, ty: CompositeTypeId) -> bool {
-        if parent_output_type == ty {
+        if parent_output_type == ty && self.parent_type_conditions.is_empty() {
             return true;
         }
         let ctx = self.builder.ctx();
-        parent_output_type
-            .walk(ctx)
-            .has_non_empty_intersection_with(ty.walk(ctx))
+        // There must be an object satisfying all the type conditions at once.
+        ty.walk(ctx).possible_type_ids().iter().any(|id| {
+            std::iter::once(&parent_output_type)
+                .chain(&self.parent_type_conditions)
+                .all(|ty| ty.walk(ctx).possible_type_ids().binary_search(id).is_ok())
+        })
     }
 
     fn add_operation_field(
diff --git a/crates/engine/query-solver/src/solution_space/builder/prune.rs b/crates/engine/query-solver/src/solution_space/builder/prune.rs
index 9e5df55..fbbd246 100644
--- a/crates/engine/query-solver/src/solution_space/builder/prune.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/prune.rs
@@ -49,6 +49,19 @@ impl QuerySolutionSpaceBuilder<'_, '_> {
                 }
             } else if node.is_leaf() {
                 stack.push(node_ix);
+            } else if node.flags.contains(FieldFlags::INDISPENSABLE)
+                && !self.query.graph.edges(node_ix).any(|edge| match edge.weight() {
+                    SpaceEdge::TypenameField => true,
+                    SpaceEdge::Field => matches!(
+                        self.query.graph[edge.target()],
+                        SpaceNode::Field(field) if field.flags.contains(FieldFlags::INDISPENSABLE)
+                    ),
+                    _ => false,
+                })
+            {
+                // None of its fields can ever be present, but the object itself must be.
+                extra_leafs.push(node_ix);
+                stack.push(node_ix);
             }
         }
 
diff --git a/crates/engine/src/prepare/cached/builder/shapes/mod.rs b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
index 7cde569..e9545d1 100644
--- a/crates/engine/src/prepare/cached/builder/shapes/mod.rs
+++ b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
@@ -392,7 +392,6 @@ impl<'ctx> ShapesBuilder<'ctx> {
             }
         }
 
-        debug_assert!(!field_shapes_buffer.is_empty() || !distinct_typename_shapes.is_empty());
         let field_shape_ids = {
             let start = self.shapes.fields.len();
             field_shapes_buffer.sort_unstable_by(|a, b| {
-- 
2.43.0


From 7a7ae0cb22c29864b54994f175438f7335bf9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 095/116] fix: interface fields are only retrieved through the
 objects they are selected for

---
 .../src/solution_space/builder/alternative.rs            | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/alternative.rs b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
index b03ba28..40e8ed0 100644
--- a/crates/engine/query-solver/src/solution_space/builder/alternative.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
@@ -200,10 +200,13 @@ where
                         std::cmp::Ordering::Greater => r += 1,
                         std::cmp::Ordering::Equal => {
                             let object = right[r].walk(self.schema);
-                            // The subgraphs will never return this object.
-                            if !subgraph_ids
+                            // The field is not requested for this object or the subgraphs will never return it.
+                            if !self.query[self.query[existing_query_field_id].type_conditions]
                                 .iter()
-                                .any(|id| parent_output.possible_types_include_in_subgraph(*id, object.id))
+                                .all(|ty| ty.walk(self.schema).possible_type_ids().contains(&object.id))
+                                || !subgraph_ids
+                                    .iter()
+                                    .any(|id| parent_output.possible_types_include_in_subgraph(*id, object.id))
                             {
                                 l += 1;
                                 r += 1;
-- 
2.43.0


From 6454244089fb3daa49eda53c7453e101b6fca34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 096/116] fix: fields of objects replacing an interface field
 are aliased in subgraph queries if their types differ

---
 .../src/post_process/response_key.rs          | 61 +++++++++++++++----
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/crates/engine/query-solver/src/post_process/response_key.rs b/crates/engine/query-solver/src/post_process/response_key.rs
index 1be09ec..654c04c 100644
--- a/crates/engine/query-solver/src/post_process/response_key.rs
+++ b/crates/engine/query-solver/src/post_process/response_key.rs
@@ -1,8 +1,8 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use operation::{Operation, ResponseKey};
 use petgraph::visit::EdgeRef;
-use schema::{CompositeTypeId, FieldDefinitionId, Schema, StringId, SubgraphId, TypeDefinitionId};
+use schema::{CompositeTypeId, EntityDefinitionId, FieldDefinitionId, Schema, StringId, SubgraphId, TypeDefinitionId};
 use walker::Walk;
 
 use crate::{
@@ -22,6 +22,7 @@ pub(super) fn adjust_response_keys_to_avoid_collisions(
         operation,
         query,
         field_renames: HashMap::new(),
+        incompatible_object_fields: HashSet::new(),
         field_to_subgraph_key: &mut field_to_subgraph_key,
     }
     .adjust_response_keys_to_avoid_collision();
@@ -33,6 +34,8 @@ struct KeyGenerationContext<'a> {
     operation: &'a mut Operation,
     query: &'a mut QuerySteinerSolution,
     field_renames: HashMap<FieldRenameConsistencyKey, ResponseKey>,
+    /// Fields of objects for which another field with the same response key, but a different type exists.
+    incompatible_object_fields: HashSet<(ResponseKey, FieldDefinitionId)>,
     field_to_subgraph_key: &'a mut [Option<ResponseKey>],
 }
 
@@ -54,11 +57,6 @@ struct SelectionSetContext {
 }
 
 impl SelectionSetContext {
-    fn clear(&mut self) {
-        self.response_keys.clear();
-        self.fields.clear();
-    }
-
     fn push_field(&mut self, subgraph_id: SubgraphId, id: QueryFieldId, key: Option<ResponseKey>) {
         self.fields.push((subgraph_id, id));
         if let Some(key) = key {
@@ -69,14 +67,14 @@ impl SelectionSetContext {
 
 impl KeyGenerationContext<'_> {
     fn adjust_response_keys_to_avoid_collision(&mut self) {
-        let mut selection_set = SelectionSetContext::default();
+        let mut selection_sets = Vec::new();
         let mut stack = vec![(
             CompositeTypeId::from(self.operation.root_object_id),
             SubgraphId::Introspection,
             self.query.root_node_id,
         )];
         while let Some((parent_type, subgraph_id, node)) = stack.pop() {
-            selection_set.clear();
+            let mut selection_set = SelectionSetContext::default();
             for edge in self.query.graph.edges(node) {
                 if !matches!(edge.weight(), Edge::Field | Edge::QueryPartition) {
                     continue;
@@ -115,7 +113,47 @@ impl KeyGenerationContext<'_> {
                     Node::Root => (),
                 }
             }
-            self.adjust_response_keys_to_avoid_collision_in_selection_set(parent_type, &mut selection_set);
+            selection_sets.push((parent_type, selection_set));
+        }
+
+        for (parent_type, selection_set) in &selection_sets {
+            if !parent_type.is_object() {
+                self.find_incompatible_object_fields(selection_set);
+            }
+        }
+
+        for (parent_type, selection_set) in &mut selection_sets {
+            self.adjust_response_keys_to_avoid_collision_in_selection_set(*parent_type, selection_set);
+        }
+    }
+
+    /// An interface field might be replaced by those of the objects implementing it, which may not have exactly the
+    /// same type: `name: String` and `name: String!` for example.
+    fn find_incompatible_object_fields(&mut self, selection_set: &SelectionSetContext) {
+        for (i, (subgraph_id, id)) in selection_set.fields.iter().copied().enumerate() {
+            let Some((key, definition_id)) = self.query[id].response_key.zip(self.query[id].definition_id) else {
+                continue;
+            };
+            let definition = definition_id.walk(self.schema);
+            for (other_subgraph_id, other_id) in selection_set.fields[..i].iter().copied() {
+                let Some(other_definition_id) = self.query[other_id].definition_id else {
+                    continue;
+                };
+                if subgraph_id != other_subgraph_id
+                    || self.query[other_id].response_key != Some(key)
+                    || other_definition_id == definition_id
+                {
+                    continue;
+                }
+                let other_definition = other_definition_id.walk(self.schema);
+                if other_definition.ty_record != definition.ty_record {
+                    for definition in [definition, other_definition] {
+                        if matches!(definition.parent_entity_id, EntityDefinitionId::Object(_)) {
+                            self.incompatible_object_fields.insert((key, definition.id));
+                        }
+                    }
+                }
+            }
         }
     }
 
@@ -135,10 +173,11 @@ impl KeyGenerationContext<'_> {
             // If the parent type is an object we don't need to deal with distinct types as we'll only
             // query a single object from the subgraph.
             let new_response_key = if !parent_type.is_object()
-                && definition
+                && (definition
                     .subgraph_type_records
                     .iter()
                     .any(|record| record.subgraph_id == subgraph_id)
+                    || self.incompatible_object_fields.contains(&(key, definition_id)))
             {
                 self.generate_new_key(
                     selection_set,
-- 
2.43.0


From 34785564b9c89cd7659379c8e680480827f73044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 097/116] fix: __typename does not prevent root fields from
 being null if the subgraph fails

---
 .../src/prepare/cached/builder/shapes/mod.rs  | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/engine/src/prepare/cached/builder/shapes/mod.rs b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
index e9545d1..cc00c1f 100644
--- a/crates/engine/src/prepare/cached/builder/shapes/mod.rs
+++ b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
@@ -8,7 +8,8 @@ use im::HashSet;
 use itertools::Itertools;
 use operation::{QueryPosition, ResponseKey};
 use schema::{
-    CompositeType, CompositeTypeId, ObjectDefinitionId, Schema, SubgraphId, TypeDefinition, TypeDefinitionId,
+    CompositeType, CompositeTypeId, EntityDefinitionId, ObjectDefinitionId, Schema, SubgraphId, TypeDefinition,
+    TypeDefinitionId,
 };
 use walker::Walk;
 
@@ -50,7 +51,12 @@ impl Solver<'_> {
         // Create all shapes for the given QueryPartition
         for query_partition in &mut query_partitions {
             builder.current_subgraph_id = query_partition.resolver_definition_id.walk(self.schema).subgraph_id();
-            let mut shape_id = builder.create_root_shape_for(query_partition.selection_set_record.walk(ctx));
+            let identifier = match query_partition.entity_definition_id {
+                EntityDefinitionId::Object(id) => ObjectIdentifier::Known(id),
+                EntityDefinitionId::Interface(_) => ObjectIdentifier::Anonymous,
+            };
+            let mut shape_id =
+                builder.create_root_shape_for(query_partition.selection_set_record.walk(ctx), identifier);
             let shape_id = loop {
                 let field_shape_ids = builder.shapes[shape_id].field_shape_ids;
                 if builder.shapes[field_shape_ids].iter().all(|fs| fs.id.is_data()) {
@@ -217,7 +223,11 @@ impl<'ctx> ShapesBuilder<'ctx> {
         id
     }
 
-    fn create_root_shape_for(&mut self, selection_set: PartitionSelectionSet<'ctx>) -> ConcreteShapeId {
+    fn create_root_shape_for(
+        &mut self,
+        selection_set: PartitionSelectionSet<'ctx>,
+        identifier: ObjectIdentifier,
+    ) -> ConcreteShapeId {
         if !selection_set.lookup_field_ids.is_empty() {
             debug_assert!(
                 selection_set
@@ -225,7 +235,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
                     .is_empty()
                     && selection_set.typename_field_ids.is_empty()
             );
-            return self.create_lookup_fields_set_shape(selection_set.lookup_field_ids);
+            return self.create_lookup_fields_set_shape(selection_set.lookup_field_ids, identifier);
         }
 
         let keys = &self.ctx.cached.operation.response_keys;
@@ -266,7 +276,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
         };
 
         let shape_id = self.create_concrete_shape(
-            ObjectIdentifier::Anonymous,
+            identifier,
             Vec::new(),
             &typename_fields_sorted_by_response_key_str_then_position_extra_last,
             &data_fields_sorted_by_response_key_str_then_position_extra_last,
@@ -280,10 +290,14 @@ impl<'ctx> ShapesBuilder<'ctx> {
         shape_id
     }
 
-    fn create_lookup_fields_set_shape(&mut self, field_ids: IdRange<LookupFieldId>) -> ConcreteShapeId {
+    fn create_lookup_fields_set_shape(
+        &mut self,
+        field_ids: IdRange<LookupFieldId>,
+        identifier: ObjectIdentifier,
+    ) -> ConcreteShapeId {
         let mut buffer = self.field_shapes_buffer_pool.pop();
         for field_id in field_ids {
-            buffer.push(self.create_lookup_field_shape(field_id));
+            buffer.push(self.create_lookup_field_shape(field_id, identifier));
         }
 
         let field_shape_ids = {
@@ -313,14 +327,14 @@ impl<'ctx> ShapesBuilder<'ctx> {
         self.push_concrete_shape(shape)
     }
 
-    fn create_lookup_field_shape(&mut self, field_id: LookupFieldId) -> FieldShapeRecord {
+    fn create_lookup_field_shape(&mut self, field_id: LookupFieldId, identifier: ObjectIdentifier) -> FieldShapeRecord {
         let field = field_id.walk(self.ctx);
         FieldShapeRecord {
             expected_key: field.subgraph_key,
             query_position_before_modifications: None,
             response_key: field.subgraph_key,
             id: field.id.into(),
-            shape: Shape::Concrete(self.create_root_shape_for(field.selection_set())),
+            shape: Shape::Concrete(self.create_root_shape_for(field.selection_set(), identifier)),
             wrapping: field.definition().ty().wrapping,
         }
     }
-- 
2.43.0


From bd50cfc1bb3514ae70ea77de4c6c40385c3c9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 098/116] fix: a subgraph response without data nor errors is
 an error

---
 crates/engine/src/resolver/graphql/deserialize/response.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/engine/src/resolver/graphql/deserialize/response.rs b/crates/engine/src/resolver/graphql/deserialize/response.rs
index 574dab7..b7e5285 100644
--- a/crates/engine/src/resolver/graphql/deserialize/response.rs
+++ b/crates/engine/src/resolver/graphql/deserialize/response.rs
@@ -85,6 +85,10 @@ where
         }
 
         if let Some(seed) = data_seed {
+            // There must be a reason for the missing data.
+            if errors_count == 0 {
+                return Err(serde::de::Error::missing_field("data"));
+            }
             seed.deserialize(serde_json::Value::Null)
                 .expect("Deserializer never fails");
         }
-- 
2.43.0


From 5dc79442faca7699a305ae9dc9068eb34af3df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 099/116] fix: no subgraph request is made if all fields are
 skipped

---
 crates/engine/src/resolver/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/engine/src/resolver/mod.rs b/crates/engine/src/resolver/mod.rs
index 766426c..96e5caa 100644
--- a/crates/engine/src/resolver/mod.rs
+++ b/crates/engine/src/resolver/mod.rs
@@ -11,6 +11,7 @@ use introspection::IntrospectionResolver;
 pub(crate) use lookup::{LookupProxiedResolver, LookupResolver};
 use operation::{Operation, OperationContext};
 use schema::ResolverDefinitionVariant;
+use serde::de::DeserializeSeed as _;
 
 use crate::{
     Runtime,
@@ -105,6 +106,21 @@ impl Resolver {
     where
         'ctx: 'fut,
     {
+        if matches!(self, Resolver::Graphql(_) | Resolver::FederationEntity(_))
+            && plan.selection_set().fields().next().is_none()
+        {
+            // All fields were skipped, there is nothing to ask the subgraph for.
+            let parent_objects = parent_objects_view.into_object_set();
+            let state = response_part.into_seed_state(plan.shape().id);
+            for parent_object in parent_objects.iter() {
+                let empty = serde_json::Value::Object(Default::default());
+                let result = state.parent_seed(parent_object).deserialize(empty);
+                result.expect("Deserializer never fails");
+            }
+            let response_part = state.into_response_part();
+            return std::future::ready(ResolverResult { response_part }).boxed();
+        }
+
         match self {
             Resolver::Graphql(prepared) => {
                 let parent_objects = parent_objects_view.into_object_set();
-- 
2.43.0


From ee1d1209818341ac9970101807ac95ae5ba2cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 100/116] fix: a failed request for requirements only is
 reported

---
 crates/engine/src/response/write/part.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/engine/src/response/write/part.rs b/crates/engine/src/response/write/part.rs
index d16ba06..8ab5db1 100644
--- a/crates/engine/src/response/write/part.rs
+++ b/crates/engine/src/response/write/part.rs
@@ -161,7 +161,12 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                 self.object_updates
                     .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
             }
-            OnRootFieldsError::Skip => {}
+            // None of the fields were requested by the client, but other plans rely on those.
+            OnRootFieldsError::Skip => {
+                for err in errors {
+                    self.errors.push(err);
+                }
+            }
         }
     }
 
@@ -207,7 +212,12 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                             .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
                     }
                 }
-                OnRootFieldsError::Skip => {}
+                // None of the fields were requested by the client, but other plans rely on those.
+                OnRootFieldsError::Skip => {
+                    for err in errors {
+                        self.errors.push(err);
+                    }
+                }
             }
         }
     }
@@ -237,7 +247,12 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                         .push(err.with_location(location).with_path((&parent_object.path, key)));
                 }
             }
-            OnRootFieldsError::Skip => {}
+            // None of the fields were requested by the client, but other plans rely on those.
+            OnRootFieldsError::Skip => {
+                for err in errors {
+                    self.errors.push(err);
+                }
+            }
         }
     }
 
-- 
2.43.0


From a03425f87c167a3b76c8efa403bcdb38f267ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 101/116] fix: skipped fields do not propagate null nor errors
 if the subgraph fails

---
 .../src/prepare/cached/builder/shapes/mod.rs  | 92 +++++++------------
 .../engine/src/prepare/cached/shape/root.rs   | 40 +++++++-
 crates/engine/src/response/write/part.rs      | 12 +--
 3 files changed, 75 insertions(+), 69 deletions(-)

diff --git a/crates/engine/src/prepare/cached/builder/shapes/mod.rs b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
index cc00c1f..305cad7 100644
--- a/crates/engine/src/prepare/cached/builder/shapes/mod.rs
+++ b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
@@ -16,8 +16,8 @@ use walker::Walk;
 use crate::{
     prepare::{
         BatchFieldShape, DataOrLookupFieldId, DefaultFieldShapeRecord, Derive, DerivedEntityShapeId,
-        DerivedEntityShapeRecord, LookupFieldId, OnRootFieldsError, RootFieldsShapeId, RootFieldsShapeRecord,
-        TypenameFieldId, TypenameShapeRecord,
+        DerivedEntityShapeRecord, LookupFieldId, RootFieldsShapeId, RootFieldsShapeRecord, TypenameFieldId,
+        TypenameShapeRecord,
         cached::{
             CachedOperationContext, ConcreteShapeId, ConcreteShapeRecord, DataFieldId, FieldShapeId, FieldShapeRecord,
             FieldShapeRefId, ObjectIdentifier, PartitionSelectionSet, PolymorphicShapeId, PolymorphicShapeRecord,
@@ -137,24 +137,20 @@ pub(super) struct ShapesBuilder<'ctx> {
 impl<'ctx> ShapesBuilder<'ctx> {
     fn build_root_fields_shape(&mut self, shape_id: ConcreteShapeId) -> RootFieldsShapeId {
         let shape = &self.shapes[shape_id];
-        let mut propagate_null = false;
         let mut default_fields = Vec::new();
-        let mut location_and_key = None;
 
         for field_shape in &self.shapes[shape.field_shape_ids] {
             let Some(query_position) = field_shape.query_position_before_modifications else {
                 continue;
             };
+            if field_shape.wrapping.is_non_null() {
+                continue;
+            }
             let field = field_shape
                 .id
                 .as_data()
                 .walk(self.ctx)
                 .expect("We shouldn't generate errors for lookup fields");
-            location_and_key.get_or_insert_with(|| (field.location, field.response_key));
-            if propagate_null | field_shape.wrapping.is_non_null() {
-                propagate_null = true;
-                continue;
-            }
             default_fields.push(DefaultFieldShapeRecord {
                 query_position_before_modifications: query_position,
                 response_key: field_shape.response_key,
@@ -163,59 +159,35 @@ impl<'ctx> ShapesBuilder<'ctx> {
             })
         }
 
-        let typename_field_shapes = &self.shapes[shape.typename_shape_ids];
-        if let Some(first_typename_shape) = typename_field_shapes.first() {
-            if let ObjectIdentifier::Known(object_id) = shape.identifier {
-                let name_id = object_id.walk(self.ctx).name_id;
-                default_fields.extend(typename_field_shapes.iter().filter_map(|shape| {
-                    shape
-                        .query_position_before_modifications
-                        .map(|qp| DefaultFieldShapeRecord {
-                            query_position_before_modifications: qp,
-                            response_key: shape.response_key,
-                            id: shape.id.into(),
-                            value: Some(name_id),
-                        })
-                }));
-            } else {
-                propagate_null = true;
-                if location_and_key.is_none() {
-                    location_and_key = Some((first_typename_shape.location, first_typename_shape.response_key));
-                }
-            }
+        if let ObjectIdentifier::Known(object_id) = shape.identifier {
+            let name_id = object_id.walk(self.ctx).name_id;
+            let typename_field_shapes = &self.shapes[shape.typename_shape_ids];
+            default_fields.extend(typename_field_shapes.iter().filter_map(|shape| {
+                shape
+                    .query_position_before_modifications
+                    .map(|qp| DefaultFieldShapeRecord {
+                        query_position_before_modifications: qp,
+                        response_key: shape.response_key,
+                        id: shape.id.into(),
+                        value: Some(name_id),
+                    })
+            }));
         }
 
-        let shape = if let Some(error_location_and_key) = location_and_key {
-            if propagate_null {
-                RootFieldsShapeRecord {
-                    concrete_shape_id: shape_id,
-                    on_error: OnRootFieldsError::PropagateNull { error_location_and_key },
-                }
-            } else {
-                default_fields.sort_unstable_by(|a, b| {
-                    let a = a
-                        .response_key
-                        .with_position(Some(a.query_position_before_modifications));
-                    let b = b
-                        .response_key
-                        .with_position(Some(b.query_position_before_modifications));
-                    a.cmp(&b)
-                });
-                let start = self.shapes.default_fields.len();
-                self.shapes.default_fields.append(&mut default_fields);
-                RootFieldsShapeRecord {
-                    concrete_shape_id: shape_id,
-                    on_error: OnRootFieldsError::Default {
-                        fields_sorted_by_key: (start..self.shapes.default_fields.len()).into(),
-                        error_location_and_key,
-                    },
-                }
-            }
-        } else {
-            RootFieldsShapeRecord {
-                concrete_shape_id: shape_id,
-                on_error: OnRootFieldsError::Skip,
-            }
+        default_fields.sort_unstable_by(|a, b| {
+            let a = a
+                .response_key
+                .with_position(Some(a.query_position_before_modifications));
+            let b = b
+                .response_key
+                .with_position(Some(b.query_position_before_modifications));
+            a.cmp(&b)
+        });
+        let start = self.shapes.default_fields.len();
+        self.shapes.default_fields.append(&mut default_fields);
+        let shape = RootFieldsShapeRecord {
+            concrete_shape_id: shape_id,
+            default_fields_sorted_by_key: (start..self.shapes.default_fields.len()).into(),
         };
 
         let id = self.shapes.root_fields.len().into();
diff --git a/crates/engine/src/prepare/cached/shape/root.rs b/crates/engine/src/prepare/cached/shape/root.rs
index e8c89b4..33b53f3 100644
--- a/crates/engine/src/prepare/cached/shape/root.rs
+++ b/crates/engine/src/prepare/cached/shape/root.rs
@@ -3,17 +3,18 @@ use operation::{Location, PositionedResponseKey, QueryPosition, ResponseKey};
 use schema::StringId;
 use walker::Walk;
 
-use crate::prepare::{ConcreteShapeId, OperationPlanContext, PartitionFieldId};
+use crate::prepare::{ConcreteShapeId, ObjectIdentifier, OperationPlanContext, PartitionFieldId};
 
 use super::ConcreteShape;
 
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
 pub(crate) struct RootFieldsShapeRecord {
     pub concrete_shape_id: ConcreteShapeId,
-    pub on_error: OnRootFieldsError,
+    /// What to use instead of the response if there is an error and all requested fields are
+    /// nullable.
+    pub default_fields_sorted_by_key: IdRange<DefaultFieldShapeId>,
 }
 
-#[derive(Debug, serde::Serialize, serde::Deserialize)]
 pub(crate) enum OnRootFieldsError {
     PropagateNull {
         error_location_and_key: (Location, ResponseKey),
@@ -67,6 +68,39 @@ impl<'a> RootFieldsShape<'a> {
     pub(crate) fn concrete_shape(&self) -> ConcreteShape<'a> {
         self.as_ref().concrete_shape_id.walk(self.ctx)
     }
+
+    /// Depends on which fields are part of the response after query modifications.
+    pub(crate) fn on_error(&self) -> OnRootFieldsError {
+        let shape = self.concrete_shape();
+        let mut error_location_and_key = None;
+        let mut propagate_null = false;
+
+        for field in shape.fields().filter(|field| field.is_included()) {
+            error_location_and_key.get_or_insert_with(|| (field.partition_field().location(), field.response_key));
+            propagate_null |= field.wrapping.is_non_null();
+        }
+
+        for typename in shape
+            .typename_shape_ids
+            .walk(self.ctx)
+            .filter(|typename| typename.key().query_position.is_some())
+        {
+            let typename = typename.as_ref();
+            error_location_and_key.get_or_insert((typename.location, typename.response_key));
+            propagate_null |= !matches!(shape.identifier, ObjectIdentifier::Known(_));
+        }
+
+        match error_location_and_key {
+            Some(error_location_and_key) if propagate_null => {
+                OnRootFieldsError::PropagateNull { error_location_and_key }
+            }
+            Some(error_location_and_key) => OnRootFieldsError::Default {
+                fields_sorted_by_key: self.default_fields_sorted_by_key,
+                error_location_and_key,
+            },
+            None => OnRootFieldsError::Skip,
+        }
+    }
 }
 
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Hash, serde::Serialize, serde::Deserialize, id_derives::Id)]
diff --git a/crates/engine/src/response/write/part.rs b/crates/engine/src/response/write/part.rs
index 8ab5db1..a180241 100644
--- a/crates/engine/src/response/write/part.rs
+++ b/crates/engine/src/response/write/part.rs
@@ -76,7 +76,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
 
     pub fn insert_empty_update(&mut self, parent_object: &ResponseObjectRef, shape_id: RootFieldsShapeId) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull { .. } => {
                 self.propagate_null_parent_path(&parent_object.path);
             }
@@ -100,7 +100,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
     ) {
         let parent_objects = parent_objects.into_iter();
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull { .. } => {
                 self.propagated_null_at.reserve(parent_objects.len());
                 for parent_object in parent_objects {
@@ -122,7 +122,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
 
     pub fn insert_propagated_empty_update(&mut self, parent_object: &ResponseObjectRef, shape_id: RootFieldsShapeId) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::Default {
                 fields_sorted_by_key, ..
             } => {
@@ -140,7 +140,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
         errors: impl IntoIterator<Item = GraphqlError>,
     ) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull {
                 error_location_and_key: (location, key),
             } => {
@@ -182,7 +182,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
         let mut parent_objects = parent_objects.into_iter();
         let shape = shape_id.walk((self.schema, self.operation));
         if let Some(first_parent_object) = parent_objects.next() {
-            match shape.on_error {
+            match shape.on_error() {
                 OnRootFieldsError::PropagateNull {
                     error_location_and_key: (location, key),
                 } => {
@@ -229,7 +229,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
         errors: impl IntoIterator<Item = GraphqlError>,
     ) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull {
                 error_location_and_key: (location, key),
             } => {
-- 
2.43.0


From 6c3fa9fd2db0134d12f6d344acebc871fd26becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:27 +0000
Subject: [PATCH 102/116] fix: fields of several subgraphs are null if one of
 them fails instead of lacking fields

---
 crates/engine/src/prepare/cached/shape/root.rs | 12 +++++++++++-
 crates/engine/src/response/write/merge.rs      | 13 +++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/engine/src/prepare/cached/shape/root.rs b/crates/engine/src/prepare/cached/shape/root.rs
index 33b53f3..293e69f 100644
--- a/crates/engine/src/prepare/cached/shape/root.rs
+++ b/crates/engine/src/prepare/cached/shape/root.rs
@@ -1,6 +1,6 @@
 use id_newtypes::IdRange;
 use operation::{Location, PositionedResponseKey, QueryPosition, ResponseKey};
-use schema::StringId;
+use schema::{CompositeTypeId, StringId};
 use walker::Walk;
 
 use crate::prepare::{ConcreteShapeId, ObjectIdentifier, OperationPlanContext, PartitionFieldId};
@@ -152,6 +152,16 @@ impl<'a> DefaultFieldShape<'a> {
         &self.ctx.cached.shapes[self.id]
     }
 
+    pub fn is_composite(&self) -> bool {
+        match self.as_ref().id {
+            PartitionFieldId::Data(id) => {
+                let definition_id = id.walk(self.ctx).definition().ty().definition_id;
+                CompositeTypeId::maybe_from(definition_id).is_some()
+            }
+            PartitionFieldId::Lookup(_) | PartitionFieldId::Typename(_) => false,
+        }
+    }
+
     pub fn key(&self) -> PositionedResponseKey {
         let shape = self.as_ref();
         PositionedResponseKey {
diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index 6cd64de..218ff85 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -68,11 +68,16 @@ impl<'ctx> ResponseBuilder<'ctx> {
         for default_field in default_fields_sorted_by_key {
             let key = default_field.key();
             // When ingesting default fields, which we set to Null, we may encounter an actual
-            // value in the case of shared roots. In this case we keep the old value.
-            if !existing_fields[..n]
-                .iter()
-                .any(|field| field.key.response_key == key.response_key)
+            // value in the case of shared roots. In this case we keep the old value, unless it's
+            // an object or a list of them which lacks fields now.
+            if let Some(field) = existing_fields[..n]
+                .iter_mut()
+                .find(|field| field.key.response_key == key.response_key)
             {
+                if default_field.is_composite() {
+                    field.value = ResponseValue::Null;
+                }
+            } else {
                 existing_fields.push(ResponseObjectField {
                     key,
                     value: default_field.value.into(),
-- 
2.43.0


From 82fcf93433d7a31e7cc8c3d5ced774e2f8c0e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 103/116] fix: a null to propagate in a list which is not part
 of the response is ignored

---
 crates/engine/src/response/data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/engine/src/response/data.rs b/crates/engine/src/response/data.rs
index 1ad1a8a..64000fa 100644
--- a/crates/engine/src/response/data.rs
+++ b/crates/engine/src/response/data.rs
@@ -291,6 +291,11 @@ impl DataPart {
                 nullable,
             } => {
                 debug_assert!(part_id == self.id && nullable, "{part_id} == {} && {nullable}", self.id);
+                // The list isn't part of the response if it could not be deserialized entirely. And
+                // with shared roots, the list it was merged with may have less elements.
+                if self[list_id].len() <= index as usize {
+                    return;
+                }
                 let mut inaccessible_value = ResponseValue::Inaccessible {
                     id: ResponseInaccessibleValueId {
                         part_id: self.id,
-- 
2.43.0


From ae89cc7ef46edc5bed10a2e354d39e0e76a30fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 104/116] fix: a __typename after other fields of an object in
 an abstract type is read

---
 crates/engine/src/response/write/deserialize/object/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/engine/src/response/write/deserialize/object/fields.rs b/crates/engine/src/response/write/deserialize/object/fields.rs
index 083301b..92c1992 100644
--- a/crates/engine/src/response/write/deserialize/object/fields.rs
+++ b/crates/engine/src/response/write/deserialize/object/fields.rs
@@ -329,7 +329,8 @@ impl<'ctx> ConcreteShapeFieldsSeed<'ctx, '_, '_> {
                 offset += (pos == 0) as usize;
             // This supposes that the discriminant is never part of the schema.
             } else if maybe_object_definition_id.is_none() && key == "__typename" {
-                let typename = map.next_value::<&str>()?;
+                let typename = map.next_value::<Key<'_>>()?;
+                let typename = typename.as_ref();
                 maybe_object_definition_id = possible_types_ordered_by_typename
                     .binary_search_by(|probe| schema[schema[*probe].name_id].as_str().cmp(typename))
                     .map(|i| possible_types_ordered_by_typename[i])
-- 
2.43.0


From 341777d5a9342e18048a11cbe490cc4c69bb5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 105/116] fix: an incomplete subgraph response makes root
 fields null instead of leaving them out

---
 crates/engine/src/response/write/deserialize/field.rs    | 2 +-
 crates/engine/src/response/write/deserialize/list/mod.rs | 2 +-
 crates/engine/src/response/write/part.rs                 | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/engine/src/response/write/deserialize/field.rs b/crates/engine/src/response/write/deserialize/field.rs
index c83f26d..90cbf9b 100644
--- a/crates/engine/src/response/write/deserialize/field.rs
+++ b/crates/engine/src/response/write/deserialize/field.rs
@@ -93,7 +93,7 @@ impl<'de> DeserializeSeed<'de> for FieldSeed<'_, '_, '_> {
         };
 
         result.inspect_err(|err| {
-            if !self.state.bubbling_up_deser_error.replace(true) && self.state.should_report_error_for(self.field) {
+            if self.state.should_report_error_for(self.field) && !self.state.bubbling_up_deser_error.replace(true) {
                 tracing::error!(
                     "Deserialization failure of subgraph response at path '{}': {err}",
                     self.state.display_path()
diff --git a/crates/engine/src/response/write/deserialize/list/mod.rs b/crates/engine/src/response/write/deserialize/list/mod.rs
index 8f7103a..c044bb8 100644
--- a/crates/engine/src/response/write/deserialize/list/mod.rs
+++ b/crates/engine/src/response/write/deserialize/list/mod.rs
@@ -106,7 +106,7 @@ where
                     break;
                 }
                 Err(err) => {
-                    if !state.bubbling_up_deser_error.replace(true) && state.should_report_error_for(field) {
+                    if state.should_report_error_for(field) && !state.bubbling_up_deser_error.replace(true) {
                         tracing::error!(
                             "Deserialization failure of subgraph response at path '{}': {err}",
                             self.state.display_path()
diff --git a/crates/engine/src/response/write/part.rs b/crates/engine/src/response/write/part.rs
index a180241..88d523c 100644
--- a/crates/engine/src/response/write/part.rs
+++ b/crates/engine/src/response/write/part.rs
@@ -129,7 +129,12 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                 self.object_updates
                     .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
             }
-            OnRootFieldsError::Skip | OnRootFieldsError::PropagateNull { .. } => {}
+            // The error may have been propagated up to a nullable field inside of the parent object,
+            // but none of its fields were inserted.
+            OnRootFieldsError::PropagateNull { .. } => {
+                self.propagate_null_parent_path(&parent_object.path);
+            }
+            OnRootFieldsError::Skip => {}
         }
     }
 
-- 
2.43.0


From c7d3ba64356a6136122f36f5c0b4a16b4cafc3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 106/116] fix: an unexpected value for an object of several
 subgraphs makes it null instead of lacking fields

---
 crates/engine/src/response/write/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index 218ff85..f77d3a0 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -145,7 +145,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
                 *existing = ResponseValue::Null;
             }
             // Null is an indicator that something went wrong, fields of the other object may be missing.
-            (_, ResponseValue::Null) => *existing = ResponseValue::Null,
+            (_, ResponseValue::Null | ResponseValue::Unexpected) => *existing = ResponseValue::Null,
             // Leaf values that were retrieved more than once.
             _ => {}
         }
-- 
2.43.0


From 1cdcb3f6ac9a6ec7f34c7ba97f605c9b76042bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 107/116] fix: entities received from several subgraphs are all
 completed

---
 .../engine/src/execution/operation/state.rs   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/engine/src/execution/operation/state.rs b/crates/engine/src/execution/operation/state.rs
index b22277b..bb27d6a 100644
--- a/crates/engine/src/execution/operation/state.rs
+++ b/crates/engine/src/execution/operation/state.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::{collections::HashSet, sync::Arc};
 
 use id_derives::IndexedFields;
 use walker::Walk;
@@ -83,9 +83,20 @@ impl<'ctx, R: Runtime> OperationExecutionState<'ctx, R> {
 
     pub fn push_response_objects(&mut self, set_id: ResponseObjectSetId, response_object_refs: ResponseObjectSet) {
         tracing::trace!("Pushing response objects for {set_id}: {}", response_object_refs.len());
-        let current = &mut self[set_id];
-        if current.is_none() {
-            *current = Some(Arc::new(response_object_refs));
+        match &mut self[set_id] {
+            Some(current) => {
+                // In the case of shared roots, several plans retrieve the same objects, but not
+                // necessarily all of them.
+                let known: HashSet<_> = current.iter().map(|object_ref| object_ref.id).collect();
+                let mut missing = response_object_refs
+                    .into_iter()
+                    .filter(|object_ref| !known.contains(&object_ref.id))
+                    .peekable();
+                if missing.peek().is_some() {
+                    Arc::make_mut(current).extend(missing);
+                }
+            }
+            current => *current = Some(Arc::new(response_object_refs)),
         }
     }
 
-- 
2.43.0


From 65f9b69af8d189b5c9cc6edaa7774346a8c0106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 108/116] fix: mutation fields of a subgraph which was called
 before are executed once

---
 .../query-solver/src/post_process/mutation_order.rs      | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/engine/query-solver/src/post_process/mutation_order.rs b/crates/engine/query-solver/src/post_process/mutation_order.rs
index 6bcf10e..efa4193 100644
--- a/crates/engine/query-solver/src/post_process/mutation_order.rs
+++ b/crates/engine/query-solver/src/post_process/mutation_order.rs
@@ -50,13 +50,13 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
         ..
     } in selection_set
     {
+        root_fields.push(field_node_ix);
+
         if let Some((last_partition_node_ix, _)) = partitions
             .last()
             .filter(|(_, last_resolver_definition_id)| *last_resolver_definition_id == resolver_definition_id)
         {
-            if original_partition_node_ix == *last_partition_node_ix {
-                continue;
-            } else {
+            if original_partition_node_ix != *last_partition_node_ix {
                 if let Some(id) = query.graph.find_edge(original_partition_node_ix, field_node_ix) {
                     query.graph.remove_edge(id);
                 }
@@ -64,6 +64,7 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
                     .graph
                     .add_edge(*last_partition_node_ix, field_node_ix, Edge::Field);
             }
+            continue;
         }
 
         // If original partition is already used, create a new one.
@@ -82,8 +83,6 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
         } else {
             partitions.push((original_partition_node_ix, resolver_definition_id));
         }
-
-        root_fields.push(field_node_ix);
     }
 
     for ((partition1_ix, _), (partition2_ix, _)) in partitions.into_iter().tuple_windows() {
-- 
2.43.0


From c306f0d5d248d6feffe2ec922552a98d40d1ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:44 +0000
Subject: [PATCH 109/116] fix: a mutation field that is selected several times
 is executed once

---
 .../src/post_process/mutation_order.rs        | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/crates/engine/query-solver/src/post_process/mutation_order.rs b/crates/engine/query-solver/src/post_process/mutation_order.rs
index efa4193..fc22936 100644
--- a/crates/engine/query-solver/src/post_process/mutation_order.rs
+++ b/crates/engine/query-solver/src/post_process/mutation_order.rs
@@ -1,7 +1,7 @@
-use std::collections::VecDeque;
+use std::collections::{HashMap, VecDeque};
 
 use itertools::Itertools;
-use operation::QueryPosition;
+use operation::{QueryPosition, ResponseKey};
 use petgraph::graph::NodeIndex;
 use schema::ResolverDefinitionId;
 
@@ -13,6 +13,7 @@ use crate::{
 pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution) -> Vec<NodeIndex> {
     struct Field {
         position: Option<QueryPosition>,
+        response_key: Option<ResponseKey>,
         original_partition_node_ix: NodeIndex,
         resolver_definition_id: ResolverDefinitionId,
         field_node_ix: NodeIndex,
@@ -28,6 +29,7 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
                 if let Node::Field(node) = query.graph[field_node_ix] {
                     selection_set.push(Field {
                         position: query[node.id].query_position,
+                        response_key: query[node.id].response_key,
                         original_partition_node_ix: partition_node_ix,
                         resolver_definition_id,
                         field_node_ix,
@@ -41,9 +43,11 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
     let selection_set = VecDeque::from(selection_set);
 
     let mut partitions = Vec::new();
+    let mut response_key_to_partition = HashMap::new();
     let mut root_fields = Vec::with_capacity(selection_set.len());
 
     for Field {
+        response_key,
         original_partition_node_ix,
         resolver_definition_id,
         field_node_ix,
@@ -52,36 +56,48 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
     {
         root_fields.push(field_node_ix);
 
-        if let Some((last_partition_node_ix, _)) = partitions
-            .last()
-            .filter(|(_, last_resolver_definition_id)| *last_resolver_definition_id == resolver_definition_id)
-        {
-            if original_partition_node_ix != *last_partition_node_ix {
+        // The same field might be present several times, with different directives for example. It must still be
+        // executed only once.
+        let existing_partition_node_ix = response_key
+            .and_then(|key| response_key_to_partition.get(&(key, resolver_definition_id)))
+            .copied()
+            .or_else(|| {
+                partitions
+                    .last()
+                    .filter(|(_, last_resolver_definition_id)| *last_resolver_definition_id == resolver_definition_id)
+                    .map(|(last_partition_node_ix, _)| *last_partition_node_ix)
+            });
+        if let Some(partition_node_ix) = existing_partition_node_ix {
+            if original_partition_node_ix != partition_node_ix {
                 if let Some(id) = query.graph.find_edge(original_partition_node_ix, field_node_ix) {
                     query.graph.remove_edge(id);
                 }
-                query
-                    .graph
-                    .add_edge(*last_partition_node_ix, field_node_ix, Edge::Field);
+                query.graph.add_edge(partition_node_ix, field_node_ix, Edge::Field);
+            }
+            if let Some(key) = response_key {
+                response_key_to_partition.insert((key, resolver_definition_id), partition_node_ix);
             }
             continue;
         }
 
         // If original partition is already used, create a new one.
-        if partitions.iter().any(|(id, _)| *id == original_partition_node_ix) {
+        let partition_node_ix = if partitions.iter().any(|(id, _)| *id == original_partition_node_ix) {
             let weight = query.graph[original_partition_node_ix];
             let new_partition_ix = query.graph.add_node(weight);
             query
                 .graph
                 .add_edge(query.root_node_id, new_partition_ix, Edge::QueryPartition);
-            partitions.push((new_partition_ix, resolver_definition_id));
-
             if let Some(id) = query.graph.find_edge(original_partition_node_ix, field_node_ix) {
                 query.graph.remove_edge(id);
             }
             query.graph.add_edge(new_partition_ix, field_node_ix, Edge::Field);
+            new_partition_ix
         } else {
-            partitions.push((original_partition_node_ix, resolver_definition_id));
+            original_partition_node_ix
+        };
+        partitions.push((partition_node_ix, resolver_definition_id));
+        if let Some(key) = response_key {
+            response_key_to_partition.insert((key, resolver_definition_id), partition_node_ix);
         }
     }
 
-- 
2.43.0


From e4f662be579933992083920369ee6e9272217f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 110/116] fix: the location of an error at the end of a line is
 in this line

---
 crates/engine/operation/src/parse/offsets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/engine/operation/src/parse/offsets.rs b/crates/engine/operation/src/parse/offsets.rs
index 6b586e7..2db90bb 100644
--- a/crates/engine/operation/src/parse/offsets.rs
+++ b/crates/engine/operation/src/parse/offsets.rs
@@ -22,7 +22,7 @@ impl LineOffsets {
         let offsets = &self.0;
 
         let target_offset = span.start;
-        let index = offsets.partition_point(|line_offset| (*line_offset as usize) <= target_offset);
+        let index = offsets.partition_point(|line_offset| (*line_offset as usize) < target_offset);
 
         // We here + 1 to account for one-indexing
         let line = index + 1;
-- 
2.43.0


From 7f37f0cded57677630684f855ece80fdda19e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 111/116] fix: variables inside of values for custom scalars do
 not panic

---
 .../operation/src/bind/coercion/query.rs      | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/crates/engine/operation/src/bind/coercion/query.rs b/crates/engine/operation/src/bind/coercion/query.rs
index 894d36c..825becc 100644
--- a/crates/engine/operation/src/bind/coercion/query.rs
+++ b/crates/engine/operation/src/bind/coercion/query.rs
@@ -94,18 +94,7 @@ impl<'schema> QueryValueCoercionContext<'_, 'schema, '_> {
             });
         };
 
-        let Some(id) = self
-            .variable_definitions
-            .iter()
-            .position(|variable| variable.name == name)
-        else {
-            return Err(InputValueError::UnknownVariable {
-                name: name.to_string(),
-                location: self.location,
-                path: self.path(),
-            });
-        };
-
+        let id = self.find_variable(name)?;
         let variable_ty = self.variable_definitions[id].ty_record;
         if !are_type_compatibles(variable_ty.walk(self.schema), ty) {
             return Err(InputValueError::IncorrectVariableType {
@@ -122,6 +111,32 @@ impl<'schema> QueryValueCoercionContext<'_, 'schema, '_> {
         Ok(QueryInputValueRecord::Variable(id.into()))
     }
 
+    fn variable_ref_of_any_type(&mut self, name: &str) -> Result<QueryInputValueRecord, InputValueError> {
+        if self.is_variable_default_value {
+            return Err(InputValueError::VariableDefaultValueReliesOnAnotherVariable {
+                name: name.to_string(),
+                location: self.location,
+                path: self.path(),
+            });
+        };
+
+        let id = self.find_variable(name)?;
+        self.variable_definition_in_use[id] = true;
+
+        Ok(QueryInputValueRecord::Variable(id.into()))
+    }
+
+    fn find_variable(&self, name: &str) -> Result<usize, InputValueError> {
+        self.variable_definitions
+            .iter()
+            .position(|variable| variable.name == name)
+            .ok_or_else(|| InputValueError::UnknownVariable {
+                name: name.to_string(),
+                location: self.location,
+                path: self.path(),
+            })
+    }
+
     fn coerce_input_value(
         &mut self,
         ty: Type<'schema>,
@@ -383,6 +398,8 @@ impl<'schema> QueryValueCoercionContext<'_, 'schema, '_> {
                     }
                     QueryInputValueRecord::Map(ids)
                 }
+                // Any variable can be used inside a custom scalar.
+                Value::Variable(variable) => self.variable_ref_of_any_type(variable.name())?,
                 other => {
                     return Err(InputValueError::IncorrectScalarType {
                         actual: other.into(),
-- 
2.43.0


From be94a0777b32933064f0a07c72a9000851884d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 112/116] fix: the operation name of GET requests is read

---
 crates/engine/operation/src/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/engine/operation/src/request/mod.rs b/crates/engine/operation/src/request/mod.rs
index 5f87aaf..f7b76a9 100644
--- a/crates/engine/operation/src/request/mod.rs
+++ b/crates/engine/operation/src/request/mod.rs
@@ -373,7 +373,7 @@ struct QueryParams {
     doc_id: Option<String>,
     #[serde(default)]
     variables: Option<String>,
-    #[serde(default)]
+    #[serde(default, rename = "operationName", alias = "operation_name")]
     operation_name: Option<String>,
     #[serde(default)]
     extensions: Option<String>,
-- 
2.43.0


From 89b150cf8a3dcde2c5fae9d7306c2b950374bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 113/116] fix: header rules that rename do not let hop-by-hop
 headers through

---
 crates/engine/src/execution/request/header_rule.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/engine/src/execution/request/header_rule.rs b/crates/engine/src/execution/request/header_rule.rs
index 7dffa01..8230c23 100644
--- a/crates/engine/src/execution/request/header_rule.rs
+++ b/crates/engine/src/execution/request/header_rule.rs
@@ -51,7 +51,9 @@ fn handle_rename_duplicate(
     });
 
     if let Some(value) = value {
-        subgraph_headers.append(name, value.clone().into_owned());
+        if !is_header_denied(&name) {
+            subgraph_headers.append(name, value.clone().into_owned());
+        }
         subgraph_headers.append(rename, value.into_owned());
     }
 }
@@ -103,6 +105,7 @@ fn handle_forward(
 
             for (name, value) in filtered {
                 match rule.rename().and_then(|s| http::HeaderName::from_str(s).ok()) {
+                    Some(rename) if is_header_denied(&rename) => {}
                     Some(rename) => {
                         subgraph_headers.append(rename, value.clone());
                     }
-- 
2.43.0


From 6f480044c439ba047f204f2b257673a36830bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 114/116] fix: the retry settings of a subgraph replace the
 global ones

---
 crates/engine/schema/src/builder/subgraphs.rs | 6 +++++-
 crates/engine/src/engine/retry_budget.rs      | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/engine/schema/src/builder/subgraphs.rs b/crates/engine/schema/src/builder/subgraphs.rs
index 326401e..81099c3 100644
--- a/crates/engine/schema/src/builder/subgraphs.rs
+++ b/crates/engine/schema/src/builder/subgraphs.rs
@@ -81,7 +81,11 @@ impl<'sdl> SubgraphsBuilder<'sdl> {
                     header_rule_ids,
                     config: super::SubgraphConfig {
                         timeout,
-                        retry: retry.map(Into::into),
+                        // The settings of the subgraph, if any, replace the global ones.
+                        retry: match retry {
+                            Some(retry) => retry.enabled.then(|| retry.into()),
+                            None => config.gateway.retry.enabled.then(|| config.gateway.retry.into()),
+                        },
                         cache_ttl: entity_caching
                             .as_ref()
                             .and_then(|cfg| {
diff --git a/crates/engine/src/engine/retry_budget.rs b/crates/engine/src/engine/retry_budget.rs
index e38a257..de12ec4 100644
--- a/crates/engine/src/engine/retry_budget.rs
+++ b/crates/engine/src/engine/retry_budget.rs
@@ -15,7 +15,7 @@ impl RetryBudgets {
             by_graphql_endpoints: schema
                 .graphql_subgraphs()
                 .map(|subgraph| {
-                    let retry_config = subgraph.config.retry.as_ref().or(schema.config.retry.as_ref())?;
+                    let retry_config = subgraph.config.retry.as_ref()?;
 
                     // Defaults: https://docs.rs/tower/0.4.13/src/tower/retry/budget.rs.html#137-139
                     let ttl = retry_config.ttl.unwrap_or(std::time::Duration::from_secs(10));
-- 
2.43.0


From 19c551adda9f718ade1be2922347984d89b6641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:34 +0000
Subject: [PATCH 115/116] fix: introspection does not show inaccessible fields
 in default values

---
 crates/engine/schema/src/input_value/walker/display.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/engine/schema/src/input_value/walker/display.rs b/crates/engine/schema/src/input_value/walker/display.rs
index fc58bfe..1baa03f 100644
--- a/crates/engine/schema/src/input_value/walker/display.rs
+++ b/crates/engine/schema/src/input_value/walker/display.rs
@@ -23,7 +23,9 @@ impl Display for SchemaInputValue<'_> {
                 }
             }
             SchemaInputValueRecord::InputObject(ids) => write_object(
+                // Clients must not see inaccessible fields, which may be here with their default value.
                 ids.walk(self.schema)
+                    .filter(|(input_value_definition, _)| !input_value_definition.is_inaccessible())
                     .map(|(input_value_definition, value)| (input_value_definition.name(), value)),
                 f,
             ),
-- 
2.43.0


From 0ae1b83892956c7e492f5dac24e8b4bc96a417d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 116/116] fix: control characters are escaped in hexadecimal

---
 crates/engine/schema/src/input_value/walker/display.rs | 2 +-
 crates/engine/schema/src/sdl.rs                        | 2 +-
 crates/mcp/src/tools/sdl/buffer.rs                     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/engine/schema/src/input_value/walker/display.rs b/crates/engine/schema/src/input_value/walker/display.rs
index 1baa03f..f8fcbdb 100644
--- a/crates/engine/schema/src/input_value/walker/display.rs
+++ b/crates/engine/schema/src/input_value/walker/display.rs
@@ -46,7 +46,7 @@ fn write_quoted(s: &str, f: &mut Formatter<'_>) -> Result {
             '\t' => f.write_str("\\t"),
             '"' => f.write_str("\\\""),
             '\\' => f.write_str("\\\\"),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?;
     }
diff --git a/crates/engine/schema/src/sdl.rs b/crates/engine/schema/src/sdl.rs
index 499e210..8cc0e64 100644
--- a/crates/engine/schema/src/sdl.rs
+++ b/crates/engine/schema/src/sdl.rs
@@ -83,7 +83,7 @@ pub(crate) fn write_quoted_string(writer: &mut impl Write, value: &str) -> fmt::
             '\t' => writer.write_str("\\t")?,
             '"' => writer.write_str("\\\"")?,
             '\\' => writer.write_str("\\\\")?,
-            c if c.is_control() => write!(writer, "\\u{:04}", c as u32)?,
+            c if c.is_control() => write!(writer, "\\u{:04x}", c as u32)?,
             c => writer.write_char(c)?,
         }
     }
diff --git a/crates/mcp/src/tools/sdl/buffer.rs b/crates/mcp/src/tools/sdl/buffer.rs
index 653e298..8fb354a 100644
--- a/crates/mcp/src/tools/sdl/buffer.rs
+++ b/crates/mcp/src/tools/sdl/buffer.rs
@@ -44,7 +44,7 @@ impl<'a> Buffer<'a> {
                 '\t' => self.buf.push_str("\\t"),
                 '"' => self.buf.push_str("\\\""),
                 '\\' => self.buf.push_str("\\\\"),
-                c if c.is_control() => write!(self.buf, "\\u{:04}", c as u32).unwrap(),
+                c if c.is_control() => write!(self.buf, "\\u{:04x}", c as u32).unwrap(),
                 c => self.buf.push(c),
             };
         }
-- 
2.43.0

