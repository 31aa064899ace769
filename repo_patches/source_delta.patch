From e9bca5a68e8699023a44b698aefe9045ed9b9096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 1/8] fix: don't overflow when scalar keys span the entire
 usize range

---
 .../src/analyzers/scalar_key_analyzer.rs                    | 6 +++++-
 frozen-collections-core/src/maps/dense_scalar_lookup_map.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
index db83611..207da84 100644
--- a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
@@ -32,7 +32,11 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
         return ScalarKeyAnalysisResult::General;
     }
 
-    let needed_count = max - min + 1;
+    let Some(needed_count) = (max - min).checked_add(1) else {
+        // the keys span the entire usize range, which can't be represented as a lookup table
+        return ScalarKeyAnalysisResult::General;
+    };
+
     if needed_count == count {
         ScalarKeyAnalysisResult::DenseRange
     } else if needed_count <= ALWAYS_SPARSE_THRESHOLD || needed_count < count.saturating_mul(MAX_SPARSE_MULTIPLIER) {
diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index a3ced24..6c8628b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -51,7 +51,7 @@ impl<K, V> DenseScalarLookupMap<K, V> {
         let min = entries[0].0.index();
         let max = entries[entries.len() - 1].0.index();
 
-        if entries.len() == max - min + 1 {
+        if entries.len() - 1 == max - min {
             Ok(Self::from_sorted_and_dedupped(entries))
         } else {
             Err("keys must be in a contiguous range <= usize::MAX in size".to_string())
-- 
2.43.0


From 11c37e7698932e5d14065813d4ec58d0bd47d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 2/8] fix: report a valid lower bound from Union::size_hint
 once iteration has started

---
 frozen-collections-core/src/sets/iterators.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/sets/iterators.rs b/frozen-collections-core/src/sets/iterators.rs
index 8e09c62..f5a438d 100644
--- a/frozen-collections-core/src/sets/iterators.rs
+++ b/frozen-collections-core/src/sets/iterators.rs
@@ -1,5 +1,5 @@
 use crate::traits::{Set, SetIteration, SetOps};
-use core::cmp::{max, min};
+use core::cmp::min;
 use core::fmt::{Debug, Formatter};
 use core::iter::{Chain, FusedIterator};
 
@@ -178,7 +178,10 @@ where
             }
         }
 
-        (max(h1.0, h2.0), max_bound)
+        // only the values from the larger set are all guaranteed to be produced
+        let min_bound = if self.s1.len() > self.s2.len() { h1.0 } else { h2.0 };
+
+        (min_bound, max_bound)
     }
 }
 
-- 
2.43.0


From f38a96b80d503dd03961e836ef6887690617cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:33 +0000
Subject: [PATCH 3/8] fix: deserialize string collections from formats that
 can't lend borrowed strings

---
 frozen-collections-core/src/fz_maps/fz_string_map.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index c33cdf7..a91dd2f 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(&'de str, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index 6acc3e8..a842ecb 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(&str, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From a7e72a8eb00c30e694bebfc0f08ea1410d2800b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:46 +0000
Subject: [PATCH 4/8] fix: don't trust untrusted size hints when preallocating
 during deserialization

---
 frozen-collections-core/src/fz_maps/fz_hash_map.rs    | 2 +-
 frozen-collections-core/src/fz_maps/fz_ordered_map.rs | 2 +-
 frozen-collections-core/src/fz_maps/fz_scalar_map.rs  | 2 +-
 frozen-collections-core/src/fz_maps/fz_string_map.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_hash_set.rs    | 2 +-
 frozen-collections-core/src/fz_sets/fz_ordered_set.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_scalar_set.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_hash_map.rs b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
index 847e9a6..52c08d7 100644
--- a/frozen-collections-core/src/fz_maps/fz_hash_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
@@ -401,7 +401,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
index 0574d2a..4ce3c20 100644
--- a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
@@ -338,7 +338,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
index 7ab287f..de5e791 100644
--- a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
@@ -423,7 +423,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index a91dd2f..96cd7e8 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_hash_set.rs b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
index 16a7f87..2eb3bc6 100644
--- a/frozen-collections-core/src/fz_sets/fz_hash_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
@@ -315,7 +315,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
index 54081ef..5e271e4 100644
--- a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
@@ -261,7 +261,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
index f03e289..40bf215 100644
--- a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
@@ -255,7 +255,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index a842ecb..46ff3da 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From 0351796a27ad8ad53fdc4773c2f093c98256295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 5/8] fix: never return aliased references from
 get_disjoint_mut when distinct keys match one entry

---
 .../src/maps/decl_macros.rs                   | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index cfdaac1..8de0e07 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -258,11 +258,21 @@ macro_rules! get_disjoint_mut_funcs {
             panic!("duplicate keys found");
         }
 
-        // SAFETY: We've validated that the caller isn't asking for duplicate keys
-        return unsafe { $self.get_disjoint_unchecked_mut($keys) };
+        let ptrs = get_disjoint_mut_funcs!(@lookup, $self, $keys);
+
+        // distinct keys may still be equivalent to the same entry, don't hand out aliased references in that case
+        if size_of::<V>() != 0 && (1..N).any(|i| ptrs[i].is_some() && ptrs[..i].contains(&ptrs[i])) {
+            crate::utils::cold();
+            panic!("duplicate keys found");
+        }
+
+        return ptrs.map(|ptr| ptr.map(|mut ptr|
+            // SAFETY: pointers all safely acquired above, and we've validated that they are distinct
+            unsafe { ptr.as_mut() }
+        ));
     };
 
-    (@unsafe_body, $self:ident, $keys:ident) => {
+    (@lookup, $self:ident, $keys:ident) => {{
         let ptrs: [Option<::core::ptr::NonNull<V>>; N] = ::core::array::from_fn(|i| {
             $self.get_mut($keys[i]).map(|value| {
                 let v = value as *mut V;
@@ -270,6 +280,12 @@ macro_rules! get_disjoint_mut_funcs {
             })
         });
 
+        ptrs
+    }};
+
+    (@unsafe_body, $self:ident, $keys:ident) => {
+        let ptrs = get_disjoint_mut_funcs!(@lookup, $self, $keys);
+
         return ptrs.map(|ptr| ptr.map(|mut ptr|
             // SAFETY: pointers all safely acquired above
             unsafe { ptr.as_mut() }
-- 
2.43.0


From a2880168f44213b0bd3d56312e1274a81a2a64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:29 +0000
Subject: [PATCH 6/8] fix: let long-form string macros with computed keys
 compile for any number of entries

---
 frozen-collections-core/src/emit/generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/emit/generator.rs b/frozen-collections-core/src/emit/generator.rs
index 22ca7e7..bce8dfe 100644
--- a/frozen-collections-core/src/emit/generator.rs
+++ b/frozen-collections-core/src/emit/generator.rs
@@ -84,7 +84,11 @@ impl Generator {
 
     #[cfg(feature = "macros")]
     pub(super) fn gen_fz_string<K>(self, entries: Vec<CollectionEntry<K>>) -> Output {
-        let key_type = &self.key_type;
+        // FzStringMap and FzStringSet always own their keys, whatever string type the caller declared
+        let key_type = match self.key_type {
+            Type::Infer(_) => self.key_type,
+            _ => parse_quote!(::std::boxed::Box<str>),
+        };
         let value_type = &self.value_type;
 
         let mut ty = quote!(::frozen_collections::FzStringMap);
-- 
2.43.0


From eba11c2df97a2ee010d275997df5f0804cdff60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:15 +0000
Subject: [PATCH 7/8] fix: honor the declared key type for unsuffixed literals
 in long-form macros

---
 .../src/emit/collection_emitter.rs            |  2 +-
 .../src/macros/processor.rs                   | 26 +++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/frozen-collections-core/src/emit/collection_emitter.rs b/frozen-collections-core/src/emit/collection_emitter.rs
index 9337cf1..32556be 100644
--- a/frozen-collections-core/src/emit/collection_emitter.rs
+++ b/frozen-collections-core/src/emit/collection_emitter.rs
@@ -80,7 +80,7 @@ use {alloc::string::String, alloc::string::ToString, alloc::vec::Vec};
 #[derive(Clone, Debug)]
 #[expect(clippy::struct_excessive_bools, reason = "Analysis is misguided")]
 pub struct CollectionEmitter {
-    key_type: Type,
+    pub(crate) key_type: Type,
     pub(crate) value_type: Option<Type>,
     symbol_name: Option<String>,
     alias_name: Option<String>,
diff --git a/frozen-collections-core/src/macros/processor.rs b/frozen-collections-core/src/macros/processor.rs
index 1faf060..ef9c0bb 100644
--- a/frozen-collections-core/src/macros/processor.rs
+++ b/frozen-collections-core/src/macros/processor.rs
@@ -7,7 +7,7 @@ use core::fmt::Display;
 use core::str::FromStr;
 use proc_macro2::{Span, TokenStream};
 use quote::ToTokens;
-use syn::{Expr, ExprLit, Lit, LitInt, LitStr, parse_str, parse2};
+use syn::{Expr, ExprLit, Lit, LitInt, LitStr, Type, parse_str, parse2};
 
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
@@ -65,7 +65,12 @@ pub(super) fn process(payload: Payload, emitter: CollectionEmitter, macro_kind:
         };
     }
 
-    match assess_keys(&entries, macro_kind)? {
+    let mut key_kind = assess_keys(&entries, macro_kind)?;
+    if let EffectiveKeyKind::AllLiteralScalars(ScalarType::Undecided) = key_kind {
+        key_kind = EffectiveKeyKind::AllLiteralScalars(declared_scalar_type(&emitter.key_type));
+    }
+
+    match key_kind {
         EffectiveKeyKind::AllLiteralScalars(ScalarType::I8) => handle_literal_scalar_keys::<i8>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::I16) => handle_literal_scalar_keys::<i16>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::I32) => handle_literal_scalar_keys::<i32>(emitter, entries, ""),
@@ -143,6 +148,23 @@ fn assess_keys(entries: &[Entry], macro_kind: MacroKind) -> syn::Result<Effectiv
     })
 }
 
+/// Returns the scalar type explicitly declared for the collection's keys, if any.
+fn declared_scalar_type(key_type: &Type) -> ScalarType {
+    match format!("{}", key_type.to_token_stream()).as_str() {
+        "i8" => ScalarType::I8,
+        "i16" => ScalarType::I16,
+        "i32" => ScalarType::I32,
+        "i64" => ScalarType::I64,
+        "isize" => ScalarType::ISize,
+        "u8" => ScalarType::U8,
+        "u16" => ScalarType::U16,
+        "u32" => ScalarType::U32,
+        "u64" => ScalarType::U64,
+        "usize" => ScalarType::USize,
+        _ => ScalarType::Undecided,
+    }
+}
+
 fn eval_literal_expr(expr: &ExprLit) -> syn::Result<DiscoveredKeyKind> {
     let kind = match &expr.lit {
         Lit::Str(_) => DiscoveredKeyKind::LiteralString,
-- 
2.43.0


From 7d377edd9b66a10b2c535f374057a154c61bc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:09 +0000
Subject: [PATCH 8/8] fix: don't rely on Scalar implementations for the memory
 safety of dense lookups

---
 .../src/maps/dense_scalar_lookup_map.rs                   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index 6c8628b..de881a5 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -67,9 +67,13 @@ impl<K, V> DenseScalarLookupMap<K, V> {
     where
         K: Scalar,
     {
+        let min = entries[0].0.index();
+
         Self {
-            min: entries[0].0.index(),
-            max: entries[entries.len() - 1].0.index(),
+            min,
+            // Derived from the number of entries instead of the last key's index: lookups rely on this
+            // range for memory safety, and implementations of `Scalar` can't be trusted for that.
+            max: min.saturating_add(entries.len() - 1),
             entries: entries.into_boxed_slice(),
         }
     }
-- 
2.43.0

