From 3413ba4fc8639f596bdeadbf9cd84cb9f5aea979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 01/15] fix: boolean set remove reports whether that element
 was present

---
 src/set/storage/boolean.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 3737358..71823b9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -148,9 +148,8 @@ impl SetStorage<bool> for BooleanSetStorage {
 
     #[inline]
     fn remove(&mut self, value: bool) -> bool {
-        let value = to_bits(value);
-        let update = self.bits & !value;
-        mem::replace(&mut self.bits, update) != 0
+        let update = self.bits & !to_bits(value);
+        test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 3a6846f063a394b3748a9f67fba723f7a7c90731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 02/15] fix: boolean set insert returns true when the element
 was absent

---
 src/set/storage/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 71823b9..af747c9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -138,7 +138,7 @@ impl SetStorage<bool> for BooleanSetStorage {
     #[inline]
     fn insert(&mut self, value: bool) -> bool {
         let update = self.bits | to_bits(value);
-        test(mem::replace(&mut self.bits, update), value)
+        !test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 674e6b16fc39536f2de2d13b01a5942de8ca188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 03/15] fix: optional set is_empty treats an absent none as
 empty

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 5fe0fbb..db81fbe 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -118,7 +118,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        self.some.is_empty() && self.none
+        self.some.is_empty() && !self.none
     }
 
     #[inline]
-- 
2.43.0


From f4101e91299d4e726c3cbbbbbc7e4d3713dee850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 04/15] fix: optional set insert of none returns true when it
 was absent

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index db81fbe..fef1e51 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -125,7 +125,7 @@ where
     fn insert(&mut self, value: Option<T>) -> bool {
         match value {
             Some(value) => self.some.insert(value),
-            None => mem::replace(&mut self.none, true),
+            None => !mem::replace(&mut self.none, true),
         }
     }
 
-- 
2.43.0


From c784c3f7193747a4b2f38c9230412f85f9af63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 05/15] fix: singleton set retain leaves an absent element
 alone

---
 src/set/storage/singleton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/set/storage/singleton.rs b/src/set/storage/singleton.rs
index f52cb4e..6e92c05 100644
--- a/src/set/storage/singleton.rs
+++ b/src/set/storage/singleton.rs
@@ -51,7 +51,9 @@ where
     where
         F: FnMut(T) -> bool,
     {
-        self.is_set = func(T::default());
+        if self.is_set {
+            self.is_set = func(T::default());
+        }
     }
 
     #[inline]
-- 
2.43.0


From 42cfee47bd9765994c4f7bd4a34ae944450ec3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 06/15] fix: singleton map keys yields no key when the map is
 empty

---
 src/map/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/storage/singleton.rs b/src/map/storage/singleton.rs
index e01c930..22721e4 100644
--- a/src/map/storage/singleton.rs
+++ b/src/map/storage/singleton.rs
@@ -120,7 +120,7 @@ where
 
     #[inline]
     fn keys(&self) -> Self::Keys<'_> {
-        Some(K::default()).into_iter()
+        self.inner.is_some().then(K::default).into_iter()
     }
 
     #[inline]
-- 
2.43.0


From ce395324d528587ca38cc4c679dc86df2ee340ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 07/15] fix: bitset sets are ordered like every other set

---
 fixed-map-derive/src/unit_variants.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 20c3558..6df4eac 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -428,7 +428,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #partial_ord_t for #set_storage {
             #[inline]
             fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
-                #partial_ord_t::partial_cmp(&self.data, &other.data)
+                #option::Some(#ord_t::cmp(self, other))
             }
         }
 
@@ -436,7 +436,9 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #ord_t for #set_storage {
             #[inline]
             fn cmp(&self, other: &Self) -> #ordering {
-                #ord_t::cmp(&self.data, &other.data)
+                let a = #iterator_t::map(#set_storage_t::iter(self), to_bits);
+                let b = #iterator_t::map(#set_storage_t::iter(other), to_bits);
+                #iterator_t::cmp(a, b)
             }
         }
 
-- 
2.43.0


From dfbbb44c0923870492d38b8f734853d6e5d24539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 08/15] fix: bitset from_raw ignores bits which are not
 variants

---
 fixed-map-derive/src/unit_variants.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 6df4eac..e77979a 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -526,7 +526,8 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn from_raw(data: #ty) -> #set_storage {
-                #set_storage { data }
+                // Bits which do not correspond to a variant are not elements.
+                #set_storage { data: data & (0 #(| #numbers)*) }
             }
         }
     })
-- 
2.43.0


From b4d0c1f804c4b53c1721d52053694ea5ae49af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 09/15] fix: report every error the derive has collected

---
 fixed-map-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 365df0a..50125bb 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -37,12 +37,12 @@ pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
     let cx = context::Ctxt::new(&tokens, &ast, &lt);
 
     let result = impl_storage(&cx);
+    let errors = cx.into_errors();
 
-    if let Ok(g) = result {
+    if let (Ok(g), true) = (result, errors.is_empty()) {
         return g.into();
     }
 
-    let errors = cx.into_errors();
     let compile_errors = errors.iter().map(syn::Error::to_compile_error);
     quote!(#(#compile_errors)*).into()
 }
-- 
2.43.0


From 62c23e3197b2e448b3b43ead1ca8693389bf4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 10/15] fix: report tuple variants without fields instead of
 panicking

---
 fixed-map-derive/src/any_variants.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 3ff6378..2f48e23 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -30,15 +30,14 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                 Kind::Simple
             }
             syn::Fields::Unnamed(unnamed) => {
-                if unnamed.unnamed.len() > 1 {
+                let (Some(element), 1) = (unnamed.unnamed.first(), unnamed.unnamed.len()) else {
                     cx.span_error(
                         variant.fields.span(),
                         "unnamed variants must have a single field",
                     );
                     continue;
-                }
+                };
 
-                let element = unnamed.unnamed.first().expect("Expected one element");
                 let map_storage = quote!(<#element as #key_t>::MapStorage::<V>);
                 let as_map_storage = quote!(<#map_storage as #map_storage_t<#element, V>>);
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
-- 
2.43.0


From 8b6a3d179e8c63af4b3f9e76d91b3b5075685dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 11/15] fix: generated code does not depend on prelude names in
 scope

---
 fixed-map-derive/src/any_variants.rs  | 12 +++++++-----
 fixed-map-derive/src/context.rs       |  1 +
 fixed-map-derive/src/unit_variants.rs | 27 +++++++++++++++------------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 2f48e23..82e7530 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -142,6 +142,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     let vis = &cx.ast.vis;
     let ident = &cx.ast.ident;
 
+    let fn_mut_t = cx.toks.fn_mut_t();
     let option = cx.toks.option();
     let map_storage_t = cx.toks.map_storage_t();
 
@@ -365,7 +366,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
                 Kind::Simple => quote! {
                     if let #option::Some(val) = #option::as_mut(&mut self.#name) {
                         if !func(#ident::#var, val) {
-                            self.#name = None;
+                            self.#name = #option::None;
                         }
                     }
                 },
@@ -376,7 +377,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             #[inline]
             fn retain<F>(&mut self, mut func: F)
             where
-                F: FnMut(#ident, &mut V) -> bool
+                F: #fn_mut_t(#ident, &mut V) -> bool
             {
                 #(#retain;)*
             }
@@ -429,6 +430,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     let vis = &cx.ast.vis;
     let ident = &cx.ast.ident;
 
+    let fn_mut_t = cx.toks.fn_mut_t();
     let mem = cx.toks.mem();
     let set_storage_t = cx.toks.set_storage_t();
 
@@ -617,7 +619,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             #[inline]
             fn retain<F>(&mut self, mut func: F)
             where
-                F: FnMut(#ident) -> bool
+                F: #fn_mut_t(#ident) -> bool
             {
                 #(#retain;)*
             }
@@ -1443,7 +1445,7 @@ fn map_storage_into_iter(
         }
 
         #[automatically_derived]
-        impl<V> #clone_t for #type_name<V> where V: Clone, #(#clone_bounds,)* {
+        impl<V> #clone_t for #type_name<V> where V: #clone_t, #(#clone_bounds,)* {
             #[inline]
             fn clone(&self) -> Self {
                 Self {
@@ -1459,7 +1461,7 @@ fn map_storage_into_iter(
             type Item = (#ident, V);
 
             #[inline]
-            fn next(&mut self) -> Option<Self::Item> {
+            fn next(&mut self) -> #option<Self::Item> {
                 #step_forward
                 #option::None
             }
diff --git a/fixed-map-derive/src/context.rs b/fixed-map-derive/src/context.rs
index fb4ee63..3e8cee9 100644
--- a/fixed-map-derive/src/context.rs
+++ b/fixed-map-derive/src/context.rs
@@ -57,6 +57,7 @@ toks! {
         double_ended_iterator_t = [core::iter::DoubleEndedIterator],
         entry_enum = [crate::map::Entry],
         eq_t = [core::cmp::Eq],
+        fn_mut_t = [core::ops::FnMut],
         hash_t = [core::hash::Hash],
         hasher_t = [core::hash::Hasher],
         into_iterator_t = [core::iter::IntoIterator],
diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index e77979a..b689456 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -141,6 +141,7 @@ fn impl_map(
     let copy_t = cx.toks.copy_t();
     let entry_enum = cx.toks.entry_enum();
     let eq_t = cx.toks.eq_t();
+    let fn_mut_t = cx.toks.fn_mut_t();
     let hash_t = cx.toks.hash_t();
     let hasher_t = cx.toks.hasher_t();
     let iterator_cmp = cx.toks.iterator_cmp();
@@ -210,7 +211,7 @@ fn impl_map(
         #[automatically_derived]
         impl<V> #partial_ord_t for #map_storage<V> where V: #partial_ord_t {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp(&self.data, &other.data)
             }
         }
@@ -313,13 +314,13 @@ fn impl_map(
             #[inline]
             fn retain<F>(&mut self, mut func: F)
             where
-                F: FnMut(#ident, &mut V) -> bool
+                F: #fn_mut_t(#ident, &mut V) -> bool
             {
                 let [#(#names),*] = &mut self.data;
 
                 #(if let #option::Some(val) = #option::as_mut(#names) {
                     if !func(#ident::#variants, val) {
-                        *#names = None;
+                        *#names = #option::None;
                     }
                 })*
             }
@@ -338,7 +339,7 @@ fn impl_map(
             #[inline]
             fn keys(&self) -> Self::Keys<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #names.is_some() { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #option::is_some(#names) { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
@@ -390,6 +391,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let clone_t = cx.toks.clone_t();
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
+    let fn_mut_t = cx.toks.fn_mut_t();
     let hash_t = cx.toks.hash_t();
     let iterator_flatten = cx.toks.iterator_flatten();
     let mem = cx.toks.mem();
@@ -427,7 +429,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #option::Some(#ord_t::cmp(self, other))
             }
         }
@@ -486,7 +488,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
             #[inline]
             fn retain<F>(&mut self, mut f: F)
             where
-                F: FnMut(#ident) -> bool
+                F: #fn_mut_t(#ident) -> bool
             {
                 let mut update = 0;
 
@@ -506,12 +508,12 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
 
@@ -568,6 +570,7 @@ fn impl_set(
     let clone_t = cx.toks.clone_t();
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
+    let fn_mut_t = cx.toks.fn_mut_t();
     let hash_t = cx.toks.hash_t();
     let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
@@ -597,7 +600,7 @@ fn impl_set(
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp_bool(&self.data, &other.data)
             }
         }
@@ -664,7 +667,7 @@ fn impl_set(
             #[inline]
             fn retain<F>(&mut self, mut f: F)
             where
-                F: FnMut(#ident) -> bool
+                F: #fn_mut_t(#ident) -> bool
             {
                 let [#(#names),*] = &mut self.data;
 
@@ -681,13 +684,13 @@ fn impl_set(
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
     })
-- 
2.43.0


From 68ae3abd04082f63084245f9bf1fb016f5bc59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 12/15] fix: generated code does not depend on traits in scope

---
 fixed-map-derive/src/any_variants.rs  | 10 ++++++----
 fixed-map-derive/src/context.rs       |  1 +
 fixed-map-derive/src/unit_variants.rs |  6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 82e7530..0abe136 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -143,6 +143,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     let ident = &cx.ast.ident;
 
     let fn_mut_t = cx.toks.fn_mut_t();
+    let from_t = cx.toks.from_t();
     let option = cx.toks.option();
     let map_storage_t = cx.toks.map_storage_t();
 
@@ -248,7 +249,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             Kind::Complex(Complex { as_map_storage, .. }) => {
                 quote!(#as_map_storage::len(&self.#name))
             }
-            Kind::Simple => quote!(usize::from(#option::is_some(&self.#name))),
+            Kind::Simple => quote!(<usize as #from_t<_>>::from(#option::is_some(&self.#name))),
         });
 
         output.items.extend(quote! {
@@ -431,6 +432,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     let ident = &cx.ast.ident;
 
     let fn_mut_t = cx.toks.fn_mut_t();
+    let from_t = cx.toks.from_t();
     let mem = cx.toks.mem();
     let set_storage_t = cx.toks.set_storage_t();
 
@@ -532,7 +534,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             Kind::Complex(Complex { as_set_storage, .. }) => {
                 quote!(#as_set_storage::len(&self.#name))
             }
-            Kind::Simple => quote!(usize::from(self.#name)),
+            Kind::Simple => quote!(<usize as #from_t<_>>::from(self.#name)),
         });
 
         output.items.extend(quote! {
@@ -1809,7 +1811,7 @@ impl ToTokens for IteratorNext {
                     _ => break,
                 }
 
-                self.start = usize::min(self.start.wrapping_add(1), self.end);
+                self.start = ::core::cmp::Ord::min(self.start.wrapping_add(1), self.end);
             }
         });
     }
@@ -1844,7 +1846,7 @@ impl ToTokens for IteratorNextBack {
                     _ => break,
                 }
 
-                self.end = usize::max(next, self.start);
+                self.end = ::core::cmp::Ord::max(next, self.start);
             }
         });
     }
diff --git a/fixed-map-derive/src/context.rs b/fixed-map-derive/src/context.rs
index 3e8cee9..d8091ef 100644
--- a/fixed-map-derive/src/context.rs
+++ b/fixed-map-derive/src/context.rs
@@ -58,6 +58,7 @@ toks! {
         entry_enum = [crate::map::Entry],
         eq_t = [core::cmp::Eq],
         fn_mut_t = [core::ops::FnMut],
+        from_t = [core::convert::From],
         hash_t = [core::hash::Hash],
         hasher_t = [core::hash::Hasher],
         into_iterator_t = [core::iter::IntoIterator],
diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index b689456..61cf12e 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -142,6 +142,7 @@ fn impl_map(
     let entry_enum = cx.toks.entry_enum();
     let eq_t = cx.toks.eq_t();
     let fn_mut_t = cx.toks.fn_mut_t();
+    let from_t = cx.toks.from_t();
     let hash_t = cx.toks.hash_t();
     let hasher_t = cx.toks.hasher_t();
     let iterator_cmp = cx.toks.iterator_cmp();
@@ -257,7 +258,7 @@ fn impl_map(
             #[inline]
             fn len(&self) -> usize {
                 let [#(#names),*] = &self.data;
-                0 #(+ usize::from(#option::is_some(#names)))*
+                0 #(+ <usize as #from_t<_>>::from(#option::is_some(#names)))*
             }
 
             #[inline]
@@ -571,6 +572,7 @@ fn impl_set(
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
     let fn_mut_t = cx.toks.fn_mut_t();
+    let from_t = cx.toks.from_t();
     let hash_t = cx.toks.hash_t();
     let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
@@ -628,7 +630,7 @@ fn impl_set(
             #[inline]
             fn len(&self) -> usize {
                 let [#(#names),*] = &self.data;
-                0 #(+ usize::from(*#names))*
+                0 #(+ <usize as #from_t<_>>::from(*#names))*
             }
 
             #[inline]
-- 
2.43.0


From 4dc1c417f7266d40443efc6183a5c40ee06fb838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 13/15] fix: accept documented payloads in Key enums

The whole field, with its attributes, was used where its type belongs.
---
 fixed-map-derive/src/any_variants.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 0abe136..c321326 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -7,6 +7,7 @@ const MAP_STORAGE: &str = "__MapStorage";
 const SET_STORAGE: &str = "__SetStorage";
 
 use crate::context::Ctxt;
+use crate::symbol;
 
 /// Implement the `Key` trait for an enum.
 pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream, ()> {
@@ -30,7 +31,7 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                 Kind::Simple
             }
             syn::Fields::Unnamed(unnamed) => {
-                let (Some(element), 1) = (unnamed.unnamed.first(), unnamed.unnamed.len()) else {
+                let (Some(field), 1) = (unnamed.unnamed.first(), unnamed.unnamed.len()) else {
                     cx.span_error(
                         variant.fields.span(),
                         "unnamed variants must have a single field",
@@ -38,6 +39,15 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                     continue;
                 };
 
+                for attr in &field.attrs {
+                    if attr.path() == symbol::KEY {
+                        cx.span_error(attr.span(), "attributes are not supported on fields");
+                    }
+                }
+
+                // Only the type: the field might be documented.
+                let element = &field.ty;
+
                 let map_storage = quote!(<#element as #key_t>::MapStorage::<V>);
                 let as_map_storage = quote!(<#map_storage as #map_storage_t<#element, V>>);
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
@@ -2119,7 +2129,7 @@ pub(crate) enum Kind<'a> {
 /// A complex field kind.
 pub(crate) struct Complex<'a> {
     /// Type of variant field
-    pub(crate) element: &'a syn::Field,
+    pub(crate) element: &'a syn::Type,
     /// `<E as Key>::MapStorage::<V>` (`E` = type of variant field)
     pub(crate) map_storage: TokenStream,
     /// `<<E as Key>::MapStorage::<V> as MapStorage<E, V>>` (`E` = type of variant field)
-- 
2.43.0


From 406ff829238159ba9fe1eed88afb90800b82e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 14/15] fix: bind payloads with the hygiene of the generated
 code

A payload whose parentheses come from a macro fragment did not compile.
---
 fixed-map-derive/src/any_variants.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index c321326..5d52f2e 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -53,8 +53,11 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
                 let as_set_storage = quote!(<#set_storage as #set_storage_t<#element>>);
 
-                let pat =
-                    build_tuple_struct_pat(ident, var, Some(syn::Ident::new("v", unnamed.span())));
+                let pat = build_tuple_struct_pat(
+                    ident,
+                    var,
+                    Some(syn::Ident::new("v", Span::call_site())),
+                );
 
                 fields.patterns.push(pat);
 
-- 
2.43.0


From e241c5161e7912aa1539ac381461583e4d8bfad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 15/15] fix: apply the enum's allowed lints to the generated
 code

Deprecated variants and lints allowed on the enum gave warnings.
---
 fixed-map-derive/src/lib.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 50125bb..c640e53 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -16,7 +16,7 @@
 #![allow(missing_docs)]
 
 use proc_macro2::TokenStream;
-use quote::quote;
+use quote::{quote, ToTokens};
 use syn::spanned::Spanned;
 use syn::{Data, DataEnum, DeriveInput, Fields};
 
@@ -40,13 +40,36 @@ pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
     let errors = cx.into_errors();
 
     if let (Ok(g), true) = (result, errors.is_empty()) {
-        return g.into();
+        let allow = allowed_lints(&ast);
+        return quote!(#(#allow)* #g).into();
     }
 
     let compile_errors = errors.iter().map(syn::Error::to_compile_error);
     quote!(#(#compile_errors)*).into()
 }
 
+/// Lints which have to be allowed in the generated code, since it names the
+/// same types and variants as the enum.
+fn allowed_lints(ast: &DeriveInput) -> Vec<TokenStream> {
+    let mut allow = Vec::new();
+
+    for attr in &ast.attrs {
+        if attr.path().is_ident("allow") {
+            allow.push(attr.to_token_stream());
+        }
+    }
+
+    if let Data::Enum(en) = &ast.data {
+        let mut attrs = en.variants.iter().flat_map(|v| &v.attrs).chain(&ast.attrs);
+
+        if attrs.any(|attr| attr.path().is_ident("deprecated")) {
+            allow.push(quote!(#[allow(deprecated)]));
+        }
+    }
+
+    allow
+}
+
 fn impl_storage(cx: &context::Ctxt<'_>) -> Result<TokenStream, ()> {
     let opts = attrs::parse(cx)?;
 
-- 
2.43.0

