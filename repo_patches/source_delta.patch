From 6ab136c53213b46b00048d065fc352cb6e3e9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 01/12] fix: no stray space for a suppressed __restrict after
 const/volatile

With NO_MS_KEYWORDS, the separator before __restrict was written even though
the keyword itself was suppressed ('char *const ').
---
 src/nodes/enums.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nodes/enums.rs b/src/nodes/enums.rs
index 70abf2f..18deec0 100644
--- a/src/nodes/enums.rs
+++ b/src/nodes/enums.rs
@@ -51,14 +51,16 @@ enum SingleQualifier {
 }
 
 impl SingleQualifier {
+    #[must_use]
+    fn is_suppressed(self, flags: OutputFlags) -> bool {
+        matches!(self, Self::Restrict) && flags.no_ms_keywords()
+    }
+
     fn output_single_qualifier(self, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
         let qualifier = match self {
             Self::Const => "const",
             Self::Volatile => "volatile",
             Self::Restrict => {
-                if flags.no_ms_keywords() {
-                    return Ok(());
-                }
                 if flags.no_leading_underscores() {
                     "restrict"
                 } else {
@@ -122,7 +124,7 @@ impl Qualifiers {
         mask: SingleQualifier,
         needs_space: bool,
     ) -> Result<bool> {
-        if !self.contains(mask.into()) {
+        if !self.contains(mask.into()) || mask.is_suppressed(flags) {
             return Ok(needs_space);
         }
 
-- 
2.43.0


From 32b9f423f44b154f7cc696300acf064ea78620e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 02/12] fix: NAME_ONLY no longer prints the declaration's
 noexcept specifier

NAME_ONLY dropped the parameter list and the this-qualifiers of the primary
declaration but kept ' noexcept' ('f noexcept').
---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6b1dcd1..79c0481 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -246,7 +246,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept {
+        if self.is_noexcept && (is_function_ptr || !flags.name_only()) {
             write!(ob, " noexcept")?;
         }
 
-- 
2.43.0


From 09fa6c6ec79bf069f549bbf694d2d00f2e45ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 03/12] fix: balance the return type of function pointers under
 NAME_ONLY

The return type of a function pointer is opened by do_output_pre even with
NAME_ONLY, so do_output_post has to close it as well: a function pointer
returning a function pointer lost its closing parenthesis and parameters.
---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 79c0481..5d88de8 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -258,7 +258,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && !flags.name_only() {
+        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
-- 
2.43.0


From 481cc282af9f7705b824a2658e090549f7f0c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 04/12] fix: keep rendering linear in the length of the output

Writer::last_char validated the whole output as UTF-8 each time the last
character was needed, so a 2 KB symbol that expands to just under the 1 MiB
output limit took more than 20 s to demangle.
---
 src/demangler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..be1fc01 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -119,7 +119,11 @@ mod writing {
         }
 
         fn last_char(&self) -> Option<char> {
-            match std::str::from_utf8(self.as_bytes()) {
+            // only look at the final code point: validating the whole buffer here
+            // makes rendering quadratic in the length of the output
+            let bytes = self.as_bytes();
+            let start = bytes.iter().rposition(|&x| x & 0xC0 != 0x80)?;
+            match std::str::from_utf8(&bytes[start..]) {
                 Ok(string) => string.chars().next_back(),
                 Err(_) => None,
             }
-- 
2.43.0


From 52f5a9c4a0dabb93b7d04a5d14090481431efbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 05/12] fix: refuse input that nests too deeply instead of
 overflowing the stack

The node budget is only consulted once a node is complete, so '?x@@3PAPAPA...'
or '??$f@$1??$f@$1...' recursed until the thread's stack was exhausted and
the process was aborted. Count the open symbols, types and templates and return
MaliciousInput beyond a fixed depth.
---
 src/demangler.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index be1fc01..ae19412 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -242,12 +242,16 @@ enum FunctionIdentifierCodeGroup {
     DoubleUnder,
 }
 
+// The parser is recursive, so input that nests too deeply would overflow the stack.
+const MAX_NESTING: usize = 384;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext,
     flags: OutputFlags,
+    nesting: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -262,6 +266,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
             flags,
+            nesting: 0,
         }
     }
 
@@ -295,11 +300,23 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }
     }
 
+    // Every cycle in the grammar goes through a symbol, a type, or a template, which
+    // enter a level here and leave it again once they've been parsed.
+    fn enter_nesting_level(&mut self) -> Result<()> {
+        if self.nesting < MAX_NESTING {
+            self.nesting += 1;
+            Ok(())
+        } else {
+            Err(Error::MaliciousInput)
+        }
+    }
+
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.enter_nesting_level()?;
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
-        if self.mangled_name.starts_with(".") {
+        let symbol = if self.mangled_name.starts_with(".") {
             self.demangle_typeinfo_name().map(Into::into)
         } else if self.mangled_name.starts_with("??@") {
             self.demangle_md5_name().map(Into::into)
@@ -314,7 +331,9 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             } else {
                 self.demangle_declarator()
             }
-        }
+        }?;
+        self.nesting -= 1;
+        Ok(symbol)
     }
 
     fn demangle_encoded_symbol(
@@ -548,6 +567,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.enter_nesting_level()?;
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -589,6 +609,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }?;
 
         ty.resolve_mut(&mut self.cache).append_quals(quals);
+        self.nesting -= 1;
         Ok(ty)
     }
 
@@ -1260,6 +1281,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         self.mangled_name
             .try_consume_str("?$")
             .ok_or(Error::InvalidTemplateInstantiationName)?;
+        self.enter_nesting_level()?;
 
         let outer_context = mem::take(&mut self.backrefs);
         let identifier = self.demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple)?;
@@ -1285,6 +1307,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             self.memorize_identifier(identifier)?;
         }
 
+        self.nesting -= 1;
         Ok(identifier)
     }
 
-- 
2.43.0


From dcd932eb59a632207ae34182fe41a33574bc2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 06/12] fix: output flags no longer change which name a
 back-reference denotes

Names were told apart by their text as rendered with the active flags, so
under e.g. NO_TAG_SPECIFIER the distinct names a<struct b> and a<class b> shared
one entry, and every later back-reference was off by one or rejected. Tell names
apart by their flagless spelling.
---
 src/demangler.rs     | 63 ++++++++++++++++++++++++++++----------------
 src/nodes/derived.rs | 17 +++++++++++-
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index ae19412..132664b 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -96,7 +96,6 @@ use bumpalo::Bump;
 use smallvec::SmallVec;
 use std::{
     io,
-    io::Write as _,
     mem,
 };
 
@@ -1117,17 +1116,21 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
+        self.memorize_name(NamedIdentifierNode {
+            name: s,
+            ..Default::default()
+        })
+    }
+
+    fn memorize_name(&mut self, name: NamedIdentifierNode<'alloc>) -> Result<()> {
         if !self.backrefs.names.is_full()
             && self
                 .backrefs
                 .names
                 .iter()
-                .all(|x| x.resolve(&self.cache).name != s)
+                .all(|x| x.resolve(&self.cache).flagless_name() != name.flagless_name())
         {
-            let name = self.cache.intern(NamedIdentifierNode {
-                name: s,
-                ..Default::default()
-            })?;
+            let name = self.cache.intern(name)?;
             // SAFETY: we just verified the array is not full
             unsafe { self.backrefs.names.push_unchecked(name) };
         }
@@ -1137,14 +1140,34 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
         // Render this class template name into a string buffer so that we can
         // memorize it for the purpose of back-referencing.
-        let mut ob = {
+        let identifier = identifier.resolve(&self.cache);
+        let name = self.render_name(|ob, flags| identifier.output(&self.cache, ob, flags))?;
+        self.memorize_name(name)
+    }
+
+    // The flags must not influence which names are considered to be equal, so next to the
+    // text that's eventually printed, also render the text that identifies the name.
+    fn render_name<F>(&self, render: F) -> Result<NamedIdentifierNode<'alloc>>
+    where
+        F: Fn(&mut dyn Writer, OutputFlags) -> Result<()>,
+    {
+        let render = |flags| -> Result<&'alloc str> {
             let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
+            let mut ob = BufWriter::new(ob);
+            render(&mut ob, flags)?;
+            Ok(ob.try_into()?)
         };
-        identifier
-            .resolve(&self.cache)
-            .output(&self.cache, &mut ob, self.flags)?;
-        self.memorize_string(ob.try_into()?)
+        let name = render(self.flags)?;
+        let flagless_name = if self.flags.is_empty() {
+            None
+        } else {
+            Some(render(OutputFlags::empty())?)
+        };
+        Ok(NamedIdentifierNode {
+            name,
+            flagless_name,
+            ..Default::default()
+        })
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1792,7 +1815,6 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn demangle_locally_scoped_name_piece(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
-        let mut identifier = NamedIdentifierNode::default();
         self.mangled_name
             .try_consume_char('?')
             .ok_or(Error::InvalidLocallyScopedNamePiece)?;
@@ -1808,15 +1830,12 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         let scope = self.do_parse()?.resolve(&self.cache);
 
         // Render the parent symbol's name into a buffer.
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
-        };
-        write!(ob, "`")?;
-        scope.output(&self.cache, &mut ob, self.flags)?;
-        write!(ob, "'::`{number}'")?;
-
-        identifier.name = ob.try_into()?;
+        let identifier = self.render_name(|ob, flags| {
+            write!(ob, "`")?;
+            scope.output(&self.cache, ob, flags)?;
+            write!(ob, "'::`{number}'")?;
+            Ok(())
+        })?;
         self.cache.intern(identifier)
     }
 
diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 5d88de8..71a60cc 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -739,11 +739,26 @@ impl WriteableNode for DynamicStructorIdentifierNode {
 pub(crate) struct NamedIdentifierNode<'alloc> {
     pub(crate) template_params: TemplateParameters,
     pub(crate) name: &'alloc str,
+
+    // The name as spelled without any output flags, if that may differ from the name.
+    pub(crate) flagless_name: Option<&'alloc str>,
+}
+
+impl<'alloc> NamedIdentifierNode<'alloc> {
+    #[must_use]
+    pub(crate) fn flagless_name(&self) -> &'alloc str {
+        self.flagless_name.unwrap_or(self.name)
+    }
 }
 
 impl WriteableNode for NamedIdentifierNode<'_> {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        write!(ob, "{}", self.name)?;
+        let name = if flags.is_empty() {
+            self.flagless_name()
+        } else {
+            self.name
+        };
+        write!(ob, "{name}")?;
         self.template_params.output(cache, ob, flags)
     }
 }
-- 
2.43.0


From 80649cf413d068f8dcd1a151b3f27cfc4e3e0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 07/12] fix: back-references to an anonymous namespace print
 the namespace

They printed the compiler's internal key ('class 0x1::B' instead of
'class `anonymous namespace'::B').
---
 src/demangler.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 132664b..ee966ef 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -198,12 +198,15 @@ mod writing {
 use writing::BufWriter;
 
 #[derive(Default)]
-struct BackrefContext {
+struct BackrefContext<'alloc> {
     function_params: ArrayVec<NodeHandle<ITypeNode>, 10>,
 
     // The first 10 BackReferences in a mangled name can be back-referenced by
     // special name @[0-9]. This is a storage for the first 10 BackReferences.
     names: ArrayVec<NodeHandle<NamedIdentifier>, 10>,
+
+    // What tells the names apart.
+    name_keys: ArrayVec<&'alloc str, 10>,
 }
 
 #[derive(Clone, Copy)]
@@ -248,7 +251,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
-    backrefs: BackrefContext,
+    backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
     nesting: usize,
 }
@@ -1116,23 +1119,19 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
-        self.memorize_name(NamedIdentifierNode {
+        let name = NamedIdentifierNode {
             name: s,
             ..Default::default()
-        })
+        };
+        self.memorize_name(s, name)
     }
 
-    fn memorize_name(&mut self, name: NamedIdentifierNode<'alloc>) -> Result<()> {
-        if !self.backrefs.names.is_full()
-            && self
-                .backrefs
-                .names
-                .iter()
-                .all(|x| x.resolve(&self.cache).flagless_name() != name.flagless_name())
-        {
+    fn memorize_name(&mut self, key: &'alloc str, name: NamedIdentifierNode<'alloc>) -> Result<()> {
+        if !self.backrefs.names.is_full() && !self.backrefs.name_keys.contains(&key) {
             let name = self.cache.intern(name)?;
             // SAFETY: we just verified the array is not full
             unsafe { self.backrefs.names.push_unchecked(name) };
+            self.backrefs.name_keys.push(key);
         }
         Ok(())
     }
@@ -1142,7 +1141,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         // memorize it for the purpose of back-referencing.
         let identifier = identifier.resolve(&self.cache);
         let name = self.render_name(|ob, flags| identifier.output(&self.cache, ob, flags))?;
-        self.memorize_name(name)
+        self.memorize_name(name.flagless_name(), name)
     }
 
     // The flags must not influence which names are considered to be equal, so next to the
@@ -1793,9 +1792,9 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn demangle_anonymous_namespace_name(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
-        self.mangled_name
-            .try_consume_str("?A")
-            .ok_or(Error::InvalidAnonymousNamespaceName)?;
+        if !self.mangled_name.starts_with("?A") {
+            return Err(Error::InvalidAnonymousNamespaceName);
+        }
         let pos = self
             .mangled_name
             .find_char('@')
@@ -1804,14 +1803,15 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .mangled_name
             .try_consume_n_bytes(pos)
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.memorize_string(namespace_key)?;
+        let name = NamedIdentifierNode {
+            name: "`anonymous namespace'",
+            ..Default::default()
+        };
+        self.memorize_name(namespace_key, name.clone())?;
         self.mangled_name
             .try_consume_char('@')
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.cache.intern(NamedIdentifierNode {
-            name: "`anonymous namespace'",
-            ..Default::default()
-        })
+        self.cache.intern(name)
     }
 
     fn demangle_locally_scoped_name_piece(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
-- 
2.43.0


From c0b27a0c597362c8651f41a9038b205d0c2397df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 08/12] fix: print the qualifiers of custom types

const/volatile were parsed but dropped for types mangled as '?name@'.
---
 src/nodes/derived.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 71a60cc..6c25e7d 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -632,7 +632,8 @@ impl WriteableNode for CustomTypeNode {
 
 impl WriteableTypeNode for CustomTypeNode {
     fn output_pre(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.identifier.resolve(cache).output(cache, ob, flags)
+        self.identifier.resolve(cache).output(cache, ob, flags)?;
+        self.quals.output(ob, flags, true, false)
     }
 
     fn output_post(&self, _: &NodeCache, _: &mut dyn Writer, _: OutputFlags) -> Result<()> {
-- 
2.43.0


From 11f7b1384a8fc727b3fc0a386155a22b5862e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 09/12] fix: NAME_ONLY prints function types in full

Only the primary declaration is reduced to its name. Function types that are
template arguments vanished ('std::function<>') and pointers to member functions
lost their qualifiers.
---
 src/nodes/derived.rs      | 88 +++++++++++++++++++++++++--------------
 src/nodes/intermediate.rs | 29 +++++++++++++
 2 files changed, 86 insertions(+), 31 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6c25e7d..419a665 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -115,6 +115,27 @@ impl WriteableTypeNode for PrimitiveTypeNode {
     }
 }
 
+// Where a function signature is printed.
+#[derive(Clone, Copy)]
+pub(super) enum SignatureContext {
+    // The signature of a function symbol.
+    Declaration,
+
+    // A function type, e.g. a template argument.
+    Type,
+
+    // A function type that's pointed to: the pointer prints the calling convention.
+    Pointee,
+}
+
+impl SignatureContext {
+    // Only declarations are reduced to their name. Types are printed in full.
+    #[must_use]
+    fn is_name_only(self, flags: OutputFlags) -> bool {
+        matches!(self, Self::Declaration) && flags.name_only()
+    }
+}
+
 #[derive(Clone, Copy)]
 pub(crate) struct FunctionSignatureNode {
     pub(crate) quals: Qualifiers,
@@ -146,14 +167,16 @@ pub(crate) struct FunctionSignatureNode {
 }
 
 impl FunctionSignatureNode {
-    fn do_output_pre(
+    pub(super) fn do_output_pre(
         &self,
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
+        context: SignatureContext,
     ) -> Result<()> {
-        if !flags.no_access_specifier() && !flags.name_only() {
+        let name_only = context.is_name_only(flags);
+
+        if !flags.no_access_specifier() && !name_only {
             if self.function_class.is_public() {
                 write!(ob, "public: ")?;
             }
@@ -165,7 +188,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_member_type() && !flags.name_only() {
+        if !flags.no_member_type() && !name_only {
             if !self.function_class.is_global() && self.function_class.is_static() {
                 write!(ob, "static ")?;
             }
@@ -177,17 +200,17 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() && !name_only {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_pre(cache, ob, flags)?;
                 write!(ob, " ")?;
             }
         }
 
-        if !is_function_ptr
+        if !matches!(context, SignatureContext::Pointee)
             && !flags.no_calling_convention()
             && !flags.no_ms_keywords()
-            && !flags.name_only()
+            && !name_only
         {
             if let Some(call_convention) = self.call_convention {
                 call_convention.output(ob, flags)?;
@@ -197,14 +220,16 @@ impl FunctionSignatureNode {
         Ok(())
     }
 
-    fn do_output_post(
+    pub(super) fn do_output_post(
         &self,
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
+        context: SignatureContext,
     ) -> Result<()> {
-        if (is_function_ptr || !flags.name_only()) && !self.function_class.no_parameter_list() {
+        let name_only = context.is_name_only(flags);
+
+        if !name_only && !self.function_class.no_parameter_list() {
             write!(ob, "(")?;
             if let Some(params) = self.params.map(|x| x.resolve(cache)) {
                 params.output(cache, ob, flags)?;
@@ -221,7 +246,7 @@ impl FunctionSignatureNode {
             write!(ob, ")")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() && !name_only {
             if self.quals.is_const() {
                 write!(ob, " const")?;
             }
@@ -246,11 +271,11 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept && (is_function_ptr || !flags.name_only()) {
+        if self.is_noexcept && !name_only {
             write!(ob, " noexcept")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() && !name_only {
             match self.ref_qualifier {
                 Some(FunctionRefQualifier::Reference) => write!(ob, " &")?,
                 Some(FunctionRefQualifier::RValueReference) => write!(ob, " &&")?,
@@ -258,7 +283,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() && !name_only {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
@@ -292,7 +317,7 @@ impl WriteableNode for FunctionSignatureNode {
 
 impl WriteableTypeNode for FunctionSignatureNode {
     fn output_pre(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.do_output_pre(cache, ob, flags, false)
+        self.do_output_pre(cache, ob, flags, SignatureContext::Type)
     }
 
     fn output_post(
@@ -301,7 +326,7 @@ impl WriteableTypeNode for FunctionSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags, SignatureContext::Type)
     }
 }
 
@@ -320,26 +345,26 @@ pub(crate) struct ThunkSignatureNode {
 }
 
 impl ThunkSignatureNode {
-    fn do_output_pre(
+    pub(super) fn do_output_pre(
         &self,
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
+        context: SignatureContext,
     ) -> Result<()> {
-        if !flags.name_only() {
+        if !context.is_name_only(flags) {
             write!(ob, "[thunk]: ")?;
         }
         self.function_node
-            .do_output_pre(cache, ob, flags, is_function_ptr)
+            .do_output_pre(cache, ob, flags, context)
     }
 
-    fn do_output_post(
+    pub(super) fn do_output_post(
         &self,
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
+        context: SignatureContext,
     ) -> Result<()> {
         let ThisAdjustor {
             static_offset,
@@ -359,7 +384,7 @@ impl ThunkSignatureNode {
         }
 
         self.function_node
-            .do_output_post(cache, ob, flags, is_function_ptr)
+            .do_output_post(cache, ob, flags, context)
     }
 }
 
@@ -385,7 +410,7 @@ impl WriteableNode for ThunkSignatureNode {
 
 impl WriteableTypeNode for ThunkSignatureNode {
     fn output_pre(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.do_output_pre(cache, ob, flags, false)
+        self.do_output_pre(cache, ob, flags, SignatureContext::Type)
     }
 
     fn output_post(
@@ -394,7 +419,7 @@ impl WriteableTypeNode for ThunkSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags, SignatureContext::Type)
     }
 }
 
@@ -427,10 +452,10 @@ impl WriteableTypeNode for PointerTypeNode {
             // It needs to go inside the parentheses.
             match sig {
                 SignatureNode::FunctionSignature(func) => {
-                    func.do_output_pre(cache, ob, flags, true)?;
+                    func.do_output_pre(cache, ob, flags, SignatureContext::Pointee)?;
                 }
                 SignatureNode::ThunkSignature(thunk) => {
-                    thunk.do_output_pre(cache, ob, flags, true)?;
+                    thunk.do_output_pre(cache, ob, flags, SignatureContext::Pointee)?;
                 }
             }
         } else {
@@ -491,10 +516,10 @@ impl WriteableTypeNode for PointerTypeNode {
         if let TypeNode::Signature(sig) = pointee {
             match sig {
                 SignatureNode::FunctionSignature(func) => {
-                    func.do_output_post(cache, ob, flags, true)
+                    func.do_output_post(cache, ob, flags, SignatureContext::Pointee)
                 }
                 SignatureNode::ThunkSignature(thunk) => {
-                    thunk.do_output_post(cache, ob, flags, true)
+                    thunk.do_output_post(cache, ob, flags, SignatureContext::Pointee)
                 }
             }
         } else {
@@ -1252,11 +1277,12 @@ pub(crate) struct FunctionSymbolNode {
 
 impl WriteableNode for FunctionSymbolNode {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.signature.resolve(cache).output_pre(cache, ob, flags)?;
+        let signature = self.signature.resolve(cache);
+        signature.output_declaration_pre(cache, ob, flags)?;
         super::output_space_if_necessary(ob)?;
         if let Some(name) = self.name {
             name.resolve(cache).output(cache, ob, flags)?;
         }
-        self.signature.resolve(cache).output_post(cache, ob, flags)
+        signature.output_declaration_post(cache, ob, flags)
     }
 }
diff --git a/src/nodes/intermediate.rs b/src/nodes/intermediate.rs
index 14fc448..6346166 100644
--- a/src/nodes/intermediate.rs
+++ b/src/nodes/intermediate.rs
@@ -20,6 +20,7 @@ use crate::{
         QualifiedName,
     },
     nodes::{
+        derived::SignatureContext,
         ArrayTypeNode,
         ConversionOperatorIdentifierNode,
         CustomTypeNode,
@@ -587,6 +588,34 @@ impl_upcast!(&'storage ThunkSignatureNode => SignatureNodeConst::ThunkSignature)
 impl_downcast!(SignatureNodeConst::FunctionSignature => &'storage FunctionSignatureNode);
 impl_downcast!(SignatureNodeConst::ThunkSignature => &'storage ThunkSignatureNode);
 
+impl<'storage, 'alloc: 'storage> SignatureNodeConst<'storage, 'alloc> {
+    pub(super) fn output_declaration_pre(
+        &self,
+        cache: &NodeCache,
+        ob: &mut dyn Writer,
+        flags: OutputFlags,
+    ) -> Result<()> {
+        let context = SignatureContext::Declaration;
+        match self {
+            Self::FunctionSignature(x) => x.do_output_pre(cache, ob, flags, context),
+            Self::ThunkSignature(x) => x.do_output_pre(cache, ob, flags, context),
+        }
+    }
+
+    pub(super) fn output_declaration_post(
+        &self,
+        cache: &NodeCache,
+        ob: &mut dyn Writer,
+        flags: OutputFlags,
+    ) -> Result<()> {
+        let context = SignatureContext::Declaration;
+        match self {
+            Self::FunctionSignature(x) => x.do_output_post(cache, ob, flags, context),
+            Self::ThunkSignature(x) => x.do_output_post(cache, ob, flags, context),
+        }
+    }
+}
+
 pub(super) type SignatureNodeMut<'storage, 'alloc> =
     SignatureNode<&'storage mut FunctionSignatureNode, &'storage mut ThunkSignatureNode>;
 
-- 
2.43.0


From 8802a385125891a544c36810cea2156b20a99c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 10/12] fix: separate types whose name does not end in a letter
 or digit

'class a_' was glued to what follows ('class a_x', 'class a_*x').
---
 src/nodes/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 647d303..5efd0e0 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -114,7 +114,8 @@ use std::mem;
 
 fn output_space_if_necessary(ob: &mut dyn Writer) -> Result<()> {
     if let Some(c) = ob.last_char() {
-        if c.is_alphanumeric() || c == '>' {
+        // identifiers may end in any of these
+        if c.is_alphanumeric() || matches!(c, '>' | '_' | '$') || !c.is_ascii() {
             write!(ob, " ")?;
         }
     }
-- 
2.43.0


From fa095784a3f1887d6bc6268e0da7eb3bb2755470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:20 +0000
Subject: [PATCH 11/12] fix: bound the text that is rendered for
 back-references

Every level of templates and local scopes renders the names below it again, so that a name of about a
thousand characters took half a gigabyte and several seconds.
---
 src/demangler.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/demangler.rs b/src/demangler.rs
index ee966ef..0e87e20 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -247,6 +247,10 @@ enum FunctionIdentifierCodeGroup {
 // The parser is recursive, so input that nests too deeply would overflow the stack.
 const MAX_NESTING: usize = 384;
 
+// Names are rendered again at every level that encloses them, so a handful of levels
+// around a large name would take up an inordinate amount of memory and time.
+const MAX_RENDERED_BYTES: usize = 1 << 24;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
@@ -254,6 +258,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
     nesting: usize,
+    rendered_bytes: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -269,6 +274,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             backrefs: BackrefContext::default(),
             flags,
             nesting: 0,
+            rendered_bytes: 0,
         }
     }
 
@@ -1141,9 +1147,21 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         // memorize it for the purpose of back-referencing.
         let identifier = identifier.resolve(&self.cache);
         let name = self.render_name(|ob, flags| identifier.output(&self.cache, ob, flags))?;
+        self.account_for_rendered_name(&name)?;
         self.memorize_name(name.flagless_name(), name)
     }
 
+    // Only counts the text that doesn't depend on the flags, so that they have no influence
+    // on which names are accepted.
+    fn account_for_rendered_name(&mut self, name: &NamedIdentifierNode<'alloc>) -> Result<()> {
+        self.rendered_bytes += name.flagless_name().len();
+        if self.rendered_bytes <= MAX_RENDERED_BYTES {
+            Ok(())
+        } else {
+            Err(Error::MaliciousInput)
+        }
+    }
+
     // The flags must not influence which names are considered to be equal, so next to the
     // text that's eventually printed, also render the text that identifies the name.
     fn render_name<F>(&self, render: F) -> Result<NamedIdentifierNode<'alloc>>
@@ -1836,6 +1854,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             write!(ob, "'::`{number}'")?;
             Ok(())
         })?;
+        self.account_for_rendered_name(&identifier)?;
         self.cache.intern(identifier)
     }
 
-- 
2.43.0


From 48dc0fb0303efd952aafa425cb99ed92e8f130ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:27 +0000
Subject: [PATCH 12/12] fix: lower the bound on the text that is rendered for
 back-references

Sixteen MiB of rendered text still took more than a second in slower builds.
---
 src/demangler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 0e87e20..2ea2a73 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -249,7 +249,7 @@ const MAX_NESTING: usize = 384;
 
 // Names are rendered again at every level that encloses them, so a handful of levels
 // around a large name would take up an inordinate amount of memory and time.
-const MAX_RENDERED_BYTES: usize = 1 << 24;
+const MAX_RENDERED_BYTES: usize = 1 << 22;
 
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
-- 
2.43.0

