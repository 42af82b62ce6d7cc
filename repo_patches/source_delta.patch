From 84d8100e079f7326d2f536635d9e358df5a6522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 01/62] fix: don't relocate array arguments which the caller
 still destroys

Slot<std::array<T, N>>(T&&) copied the bytes of its argument without leaving
it in a moved-from state, so every element of an array passed by value from
C++ to Rust was dropped twice.
---
 support/internal/slot.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 0d219d8..817c423 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -145,13 +145,9 @@ class Slot<std::array<UT, S>> {
  public:
   using T = std::array<UT, S>;
   Slot() {}
-  explicit constexpr Slot(T&& x) {
-    if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
-      memcpy(value_.data(), x.data(), sizeof(UT) * S);
-    } else {
-      value_ = std::move(x);
-    }
-  }
+  // The caller still destroys `x`, so its elements have to be moved out of it
+  // rather than relocated.
+  explicit constexpr Slot(T&& x) : value_(std::move(x)) {}
   T* Get() { return &value_; }
   T AssumeInitAndTakeValue() && {
     if constexpr (requires(UT x) { UT(UnsafeRelocateTag{}, std::move(x)); }) {
-- 
2.43.0


From 886463bfb6dbe577720b958bc9d89efeda4a72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 02/62] fix: destroy the moved-from value left by
 TransmuteAbi::Decode

A moved-from C++ value may still own resources (e.g. a moved-from Rust type
holds its Default value), which leaked.
---
 support/bridge.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 1dd49a3..cfc2456 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -252,8 +252,12 @@ struct TransmuteAbi {
     alignas(Value) char buf[kSize];
     // Copy the value from the decoder buffer into the intermediate buffer.
     std::memcpy(buf, decoder.Next(kSize), kSize);
-    // Move-construct the value from the buffer.
-    return std::move(*reinterpret_cast<Value*>(buf));
+    // Move-construct the value from the buffer, and destroy the moved-from value
+    // left behind: the buffer is the only owner of whatever it still holds.
+    Value* value = reinterpret_cast<Value*>(buf);
+    Value result(std::move(*value));
+    value->~Value();
+    return result;
   }
 };
 
-- 
2.43.0


From 955f7c1daaf9dba7eba6cd63e46dbbe80a666747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 03/62] fix: pack class-typed fields of packed structs

Clang ignores a struct-level packed attribute for fields whose class type is
not POD, so the header of a crate with a packed struct holding a char, struct,
enum, tuple, etc. did not compile.
---
 .../generate_struct_and_union.rs              | 39 ++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 772368b..84f0a3f 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2098,6 +2098,9 @@ struct Field<'tcx> {
     offset_of_next_field: u64,
     doc_comment: TokenStream,
     attributes: Vec<TokenStream>,
+    /// `__attribute__((packed))` for a field of a packed ADT which C++ compilers don't pack on
+    /// their own; empty otherwise.
+    packed_attribute: TokenStream,
 }
 
 impl<'tcx> Field<'tcx> {
@@ -2183,6 +2186,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 offset_of_next_field: self.size_in_bytes,
                 doc_comment: quote! {},
                 attributes: vec![],
+                packed_attribute: quote! {},
             }]];
         };
 
@@ -2385,6 +2389,29 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             offset_of_next_field,
             doc_comment: generate_doc_comment(self.db, field_def.did),
             attributes,
+            packed_attribute: self.packed_field_attribute(field_def),
+        }
+    }
+
+    /// Clang ignores the `packed` attribute of a struct (or union) for the fields which have a
+    /// class type that is not POD, so such fields need to be packed individually.
+    fn packed_field_attribute(&self, field_def: &ty::FieldDef) -> TokenStream {
+        let is_packed = self
+            .repr_attrs
+            .iter()
+            .any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }));
+        let ty = field_def.ty(self.db.tcx(), self.adt_generic_args);
+        #[rustversion::since(2026-05-13)]
+        let ty = crate::normalize_ty(self.db.tcx(), self.db.tcx().param_env(field_def.did), ty);
+        if is_packed
+            && matches!(
+                ty.kind(),
+                ty::Adt(..) | ty::Array(..) | ty::Tuple(..) | ty::Char | ty::Ref(..)
+            )
+        {
+            quote! { __attribute__((packed)) }
+        } else {
+            quote! {}
         }
     }
 
@@ -2506,6 +2533,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let cpp_type = cpp_type.into_tokens(&mut prereqs);
         let doc_comment = field.doc_comment;
         let attributes = field.attributes;
+        let packed_attribute = field.packed_attribute;
 
         let padding = if always_omit_padding || padding == 0 {
             quote! {}
@@ -2523,10 +2551,10 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 // memcpy, in the move or UnsafeRelocateTag constructor, and lets
                 // us destroy them only by calling into Rust.
                 // See also b/288138612.
-                union { __NEWLINE__
+                union #packed_attribute { __NEWLINE__
                     #doc_comment
                     #(#attributes)*
-                    #cpp_type #bracketed_cc_name;
+                    #packed_attribute #cpp_type #bracketed_cc_name;
                 };
             #padding
         };
@@ -2555,12 +2583,13 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let mut prereqs = CcPrerequisites::default();
         let cpp_type = cpp_type.into_tokens(&mut prereqs);
         let doc_comment = field.doc_comment;
+        let packed_attribute = field.packed_attribute;
 
         let tokens = if is_repr_c {
             quote! {
                 #visibility __NEWLINE__
                 #doc_comment
-                #cpp_type #bracketed_cc_name;
+                #packed_attribute #cpp_type #bracketed_cc_name;
             }
         } else {
             let internal_padding = if field.offset == 0 {
@@ -2572,9 +2601,9 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             quote! {
                 #visibility __NEWLINE__
                 #doc_comment
-                struct {
+                struct #packed_attribute {
                     #internal_padding
-                    #cpp_type value;
+                    #packed_attribute #cpp_type value;
                 } #bracketed_cc_name;
             }
         };
-- 
2.43.0


From 4188f2ec61f791df6e485808ef21f6955a57f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 04/62] fix: don't panic when reporting an error about a part
 of an item

With --error-report-out, unsupported enum variants, operators and conversions
(reported while their type is being generated) crashed the tool.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 3a4fa85..29547e1 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1985,7 +1985,9 @@ pub(crate) fn generate_unsupported_def<'tcx>(
     def_id: DefId,
     err: Error,
 ) -> CcSnippet<'tcx> {
-    db.errors().assert_in_item(item_name_for_error_report(db, def_id));
+    // The error may be about a part of the item that is being generated (e.g. about an enum variant
+    // or a trait impl): attribute it to that part.
+    error_scope!(db, def_id);
     db.errors().report(&err);
     let msg = format!(
         "Error generating bindings for {}",
-- 
2.43.0


From d3475fa85f6f10619d39c8737877983fd53bae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 05/62] fix: specialize the element types of array fields
 before their use

A field of type [Option<T>; N], [Result<T, E>; N] or [(T, U); N] instantiated
the unspecialized template, because the specialization was only emitted after
the struct.
---
 cc_bindings_from_rs/generate_bindings/format_type.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 8eca442..28486aa 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -452,8 +452,14 @@ pub fn format_ty_for_cc<'tcx>(
             // We need to be able to handle expressions at the type level that are not simple
             // numeric literals.
             let target_size = evaluate_const_as_u64(db.tcx(), length)?;
+            // Like the array, its elements need a complete type where the array is a field or a
+            // template argument.
+            let element_location = match location {
+                TypeLocation::Field | TypeLocation::TemplateArg => TypeLocation::Field,
+                _ => TypeLocation::Other,
+            };
             let cc_element_ty =
-                db.format_ty_for_cc(element_type, TypeLocation::Other)?.into_tokens(&mut prereqs);
+                db.format_ty_for_cc(element_type, element_location)?.into_tokens(&mut prereqs);
             let c_int = Literal::u64_unsuffixed(target_size);
             CcSnippet { prereqs, tokens: quote! { ::std::array<#cc_element_ty, #c_int> } }
         }
-- 
2.43.0


From 99643f047f41365d072c997c218f3126bec9e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 06/62] fix: emit the padding of repr(C, packed(N)) structs

The C++ struct has no implicit padding, so the fields of a
repr(C, packed(N)) struct with N > 1 were at wrong offsets and the header did
not compile.
---
 .../generate_struct_and_union.rs                  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 84f0a3f..286f559 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2285,7 +2285,10 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
 
         match self.adt_def.adt_kind() {
             ty::AdtKind::Struct => {
+                // C++ inserts the same padding as `repr(C)`, except that `packed(N)` is represented
+                // by a struct without any implicit padding.
                 let always_omit_padding = self.repr_attrs.contains(&rustc_hir::attrs::ReprC)
+                    && !self.is_packed()
                     && variants_fields.iter().flatten().all(|field| field.type_info.is_ok());
                 let fields = variants_fields.into_iter().next().unwrap_or_default();
                 Ok(AdtLayout::Struct { fields, always_omit_padding })
@@ -2393,17 +2396,19 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         }
     }
 
+    fn is_packed(&self) -> bool {
+        self.repr_attrs
+            .iter()
+            .any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }))
+    }
+
     /// Clang ignores the `packed` attribute of a struct (or union) for the fields which have a
     /// class type that is not POD, so such fields need to be packed individually.
     fn packed_field_attribute(&self, field_def: &ty::FieldDef) -> TokenStream {
-        let is_packed = self
-            .repr_attrs
-            .iter()
-            .any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }));
         let ty = field_def.ty(self.db.tcx(), self.adt_generic_args);
         #[rustversion::since(2026-05-13)]
         let ty = crate::normalize_ty(self.db.tcx(), self.db.tcx().param_env(field_def.did), ty);
-        if is_packed
+        if self.is_packed()
             && matches!(
                 ty.kind(),
                 ty::Adt(..) | ty::Array(..) | ty::Tuple(..) | ty::Char | ty::Ref(..)
-- 
2.43.0


From 875b38c2acd44a21719037d438fd0a294aa84e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 07/62] fix: don't make constructors of non-literal enums
 constexpr

A repr(C) enum whose payloads all have a non-literal C++ counterpart (a tuple,
or a struct with a default constructor) got a constexpr static constructor
for each of its variants without a payload, and the header didn't compile.
---
 .../generate_struct_and_union.rs              | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 286f559..9937edf 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1874,6 +1874,43 @@ fn get_enum_kind<'tcx>(
     }
 }
 
+/// Returns whether the C++ counterpart of `ty` (assumed to have no drop glue) is known to be a
+/// literal type, which a `constexpr` function can return.
+///
+/// A C++ constructor that calls into Rust (e.g. `Default::default`) can't be `constexpr`.
+fn is_literal_type_in_cc<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'tcx>) -> bool {
+    let tcx = db.tcx();
+    match ty.kind() {
+        ty::TyKind::Array(element_ty, _) => is_literal_type_in_cc(db, *element_ty),
+        ty::TyKind::Tuple(element_tys) => element_tys.is_empty(),
+        ty::TyKind::Adt(adt, generic_args) => {
+            let is_literal_variant = |variant: &ty::VariantDef| {
+                variant.fields.iter().all(|field_def| {
+                    let field_ty = field_def.ty(tcx, generic_args);
+                    #[rustversion::since(2026-05-13)]
+                    let field_ty =
+                        crate::normalize_ty(tcx, tcx.param_env(field_def.did), field_ty);
+                    is_literal_type_in_cc(db, field_ty)
+                })
+            };
+            match get_enum_kind(db, *adt) {
+                Some(EnumKind::OpaqueBlobOfBytes) => true,
+                // A C++ union is a literal type if one of its members is.
+                Some(EnumKind::ReprC) => {
+                    let mut payloads =
+                        adt.variants().iter().filter(|variant| !variant.fields.is_empty()).peekable();
+                    payloads.peek().is_none() || payloads.any(is_literal_variant)
+                }
+                None => {
+                    !crate::has_default_ctor(db, ty)
+                        && adt.variants().iter().all(is_literal_variant)
+                }
+            }
+        }
+        _ => true,
+    }
+}
+
 fn generate_variant_ctor<'tcx>(
     db: &BindingsGenerator<'tcx>,
     core: Rc<AdtCoreBindings<'tcx>>,
@@ -2051,7 +2088,9 @@ fn generate_variant_ctor<'tcx>(
                     }
                 }
             };
-            let constexpr = if adt_core_bindings_needs_drop(&core, tcx) {
+            let constexpr = if adt_core_bindings_needs_drop(&core, tcx)
+                || !is_literal_type_in_cc(db, core.common.self_ty)
+            {
                 // TODO(b/489085607): If we can make destructor `constexpr` (see bug for ideas)
                 // then `constexpr` *here* can be used unconditionally.
                 quote! {}
-- 
2.43.0


From 684e76bd892c1a5ccf7c25d23a901a50e8a5067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 08/62] fix: clone rs_std::Option into its layout-compatible
 form

The Rust half of the copy constructor of rs_std::Option<T> wrote the bridged
form of the option (a bool and the value) over the layout-compatible one.
---
 .../generate_bindings/generate_function_thunk.rs            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index a8d14b3..d53f0b6 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -446,7 +446,11 @@ fn write_rs_value_to_c_abi_ptr<'tcx>(
     let write_directly = || -> Result<TokenStream> {
         Ok(quote! { ::core::ptr::write(#c_ptr as *mut _, #rs_value); })
     };
-    Ok(if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
+    Ok(if is_constructor && is_bridged_layout_compat_type(db, rs_type) {
+        // `c_ptr` points to the layout-compatible type that is being constructed, not to a buffer
+        // for the bridged form.
+        write_directly()?
+    } else if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
         match bridged_type {
             BridgedType::Legacy { conversion_info, .. } => match conversion_info {
                 BridgedTypeConversionInfo::PointerLikeTransmute { .. } => write_directly()?,
-- 
2.43.0


From 8621135fdeaf03557da5fd0ea26fb5476cb638ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 09/62] fix: define synthesized tuple constructors out of line

The body of the constructor needs the definitions of the types behind
its parameters, e.g. of `T` when the parameter is an `Option<T>`. Those
only need to be forward-declared for the class, so they may come after
it, and the header did not compile.
---
 .../generate_bindings/generate_struct_and_union.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 9937edf..469d668 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1998,12 +1998,20 @@ fn generate_variant_ctor<'tcx>(
                     prereqs,
                     tokens: quote! {
                     __NEWLINE__ __COMMENT__ "Synthesized tuple constructor"
-                    #explicit #adt_cc_name (
-                        #( #main_api_params ),*
-                    ) : #( #initializer_list ),* { }
+                    #explicit #adt_cc_name ( #( #main_api_params ),* );
                     __NEWLINE__
                     },
                 },
+                // The body is emitted out of line, because the definitions of the types behind
+                // the parameters (e.g. `T` in `Option<T>`) may come after the class.
+                cc_details: CcSnippet {
+                    prereqs: main_api_prereqs,
+                    tokens: quote! {
+                        inline #adt_cc_name::#adt_cc_name (
+                            #( #main_api_params ),*
+                        ) : #( #initializer_list ),* { }
+                    },
+                },
                 ..Default::default()
             })
         }
-- 
2.43.0


From 060d4b8d6d3abff34a2a813cbc6587cfe5cd13e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 10/62] fix: don't treat std::optional<bool> as a bool payload
 in rs_std::Option

---
 support/rs_std/option.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/rs_std/option.h b/support/rs_std/option.h
index a8d59a3..d1321c8 100644
--- a/support/rs_std/option.h
+++ b/support/rs_std/option.h
@@ -23,6 +23,8 @@ inline constexpr bool OptionForwardConstructible = std::negation_v<
     std::disjunction<std::is_base_of<OptionType, std::decay_t<U>>,
                      std::is_same<std::decay_t<U>, std::nullopt_t>,
                      std::is_same<std::decay_t<U>, std::in_place_t>,
+                     // `bool` is constructible from `std::optional<bool>`.
+                     std::is_same<std::decay_t<U>, std::optional<T>>,
                      std::negation<std::is_constructible<T, U>>>>;
 
 template <typename ArgType, typename Opt>
-- 
2.43.0


From 5e941ac105ec4801593dea83548dbc1ab5aabcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 11/62] fix: give every memoized database its own index (u8
 wrapped after 256 and shared tables)

---
 common/memoized.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/memoized.rs b/common/memoized.rs
index 9860ebf..33f88d4 100644
--- a/common/memoized.rs
+++ b/common/memoized.rs
@@ -205,7 +205,7 @@ macro_rules! query_group {
     // The database struct, which contains the lookup tables.
     $vis struct $database_struct $(<$($type_param),*>)? {
       pub __unwinding_cycles: ::core::cell::Cell<u32>,
-      pub __db_index: u8,
+      pub __db_index: usize,
       $(
         $input_function: $input_type,
       )*
@@ -346,7 +346,7 @@ macro_rules! memoized {
     }
     $vis fn $memoized_ident(db: $db_type, $($arg: $arg_type),*) -> $return_type {
       $memoized_ident::TABLES.with(|tables| {
-        let db_index = db.__db_index as usize;
+        let db_index = db.__db_index;
         if tables.borrow().len() <= db_index {
           tables.borrow_mut().resize_with(db_index + 1, Default::default);
         }
@@ -453,8 +453,8 @@ pub mod internal {
         }
     }
 
-    pub fn db_index() -> u8 {
-        static DB_INDEX: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
+    pub fn db_index() -> usize {
+        static DB_INDEX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
         DB_INDEX.fetch_add(1, std::sync::atomic::Ordering::AcqRel)
     }
 }
-- 
2.43.0


From c3000a08618822e31ffc1f57021abbda76ec8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 12/62] fix: Error::root_cause looks through any number of
 StdError layers

---
 common/arc_anyhow.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/common/arc_anyhow.rs b/common/arc_anyhow.rs
index 40be950..c116f04 100644
--- a/common/arc_anyhow.rs
+++ b/common/arc_anyhow.rs
@@ -62,12 +62,11 @@ impl Error {
     pub fn root_cause(&self) -> &(dyn std::error::Error + 'static) {
         // This crate's `StdError` type is private, so recurse into it to get an
         // error the caller might expect to find.
-        let e = self.0.root_cause();
-        if let Some(e) = e.downcast_ref::<StdError>() {
-            e.0.root_cause()
-        } else {
-            e
+        let mut e = self.0.root_cause();
+        while let Some(std_error) = e.downcast_ref::<StdError>() {
+            e = std_error.0.root_cause();
         }
+        e
     }
 
     pub fn context<C>(self, context: C) -> Self
-- 
2.43.0


From dd6e3e9805d1ac76a7f9c49a9fd73b2d56b64c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 13/62] fix: unescape string literals of comments, and keep a
 trailing backslash from swallowing the next line

---
 common/token_stream_printer.rs | 87 +++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 22 deletions(-)

diff --git a/common/token_stream_printer.rs b/common/token_stream_printer.rs
index 5b77ddd..60f5746 100644
--- a/common/token_stream_printer.rs
+++ b/common/token_stream_printer.rs
@@ -203,10 +203,70 @@ pub struct FormattedOffsetsWithProvenance {
 /// records.
 pub type FormattedProvenanceMap = HashMap<usize, FormattedOffsetsWithProvenance>;
 
-/// Unescapes a string literal token (for __CAPTURE_TAG__).
+/// Returns the value of a string literal token (or the text of any other literal).
+///
+/// `TokenTree::Literal` does not provide a structured way to get the value out (`str_value` is only
+/// available on `procmacro2_semver_exempt`), so we have to use the Display impl to print the
+/// literal as Rust syntax, and unescape it.
 fn clean_literal(lit: proc_macro2::Literal) -> String {
-    // We'd like to use str_value, but that's only on procmacro2_semver_exempt.
-    lit.to_string().trim_matches('"').replace("\\\"", "\"")
+    let text = lit.to_string();
+    if let Some(raw) = text.strip_prefix('r') {
+        let raw = raw.trim_matches('#');
+        return raw.strip_prefix('"').and_then(|raw| raw.strip_suffix('"')).unwrap_or(raw).into();
+    }
+    let Some(escaped) = text.strip_prefix('"').and_then(|text| text.strip_suffix('"')) else {
+        return text;
+    };
+    let mut value = String::with_capacity(escaped.len());
+    let mut chars = escaped.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            value.push(c);
+            continue;
+        }
+        match chars.next() {
+            Some('n') => value.push('\n'),
+            Some('r') => value.push('\r'),
+            Some('t') => value.push('\t'),
+            Some('0') => value.push('\0'),
+            Some('x') => {
+                let digits: String = chars.by_ref().take(2).collect();
+                value.extend(u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32));
+            }
+            Some('u') => {
+                let digits: String = chars
+                    .by_ref()
+                    .skip(1)
+                    .take_while(|&c| c != '}')
+                    .filter(|&c| c != '_')
+                    .collect();
+                value.extend(u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32));
+            }
+            // An escaped newline continues the literal after the indentation of the next line.
+            Some('\n') => {
+                let rest = chars.as_str().trim_start_matches([' ', '\t', '\n', '\r']);
+                chars = rest.chars();
+            }
+            // `\\`, `\"` and `\'`.
+            Some(c) => value.push(c),
+            None => {}
+        }
+    }
+    value
+}
+
+/// Writes `text` as C++ (or Rust) line comments.
+fn write_comment(result: &mut impl std::fmt::Write, text: &str) -> Result<()> {
+    for line in text.replace("\r\n", "\n").split(['\n', '\r']) {
+        write!(result, "// {line}")?;
+        // In C++ a line which ends in a backslash (even if followed by whitespace) continues on the
+        // next one, which must not become a part of the comment.
+        if line.trim_end().ends_with('\\') {
+            write!(result, " //")?;
+        }
+        writeln!(result)?;
+    }
+    Ok(())
 }
 
 pub fn write_unformatted_tokens(
@@ -292,31 +352,14 @@ impl<'a, T: std::fmt::Write> TokenOutputState<'a, T> {
                 }
                 TokenTree::Ident(tt) if tt == "__COMMENT__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        writeln!(
-                            self.result,
-                            "// {}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\n", "\n// ")
-                        )?;
+                        write_comment(self.result, &clean_literal(lit))?;
                     } else {
                         bail!("__COMMENT__ must be followed by a literal")
                     }
                 }
                 TokenTree::Ident(tt) if tt == "__LITERALLY__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        // TokenTree::Literal does not provide a structured way to
-                        // get the value out, so we have to use the Display impl to
-                        // print the string literal as Rust syntax and unescape it.
-                        writeln!(
-                            self.result,
-                            "{}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\\\", "\\")
-                        )?;
+                        writeln!(self.result, "{}", clean_literal(lit))?;
                     } else {
                         bail!("__LITERALLY__ must be followed by a literal")
                     }
-- 
2.43.0


From 054481d7c4e437dc75a9caae44dddf704f11c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 14/62] fix: interned empty slices and strings are not equal to
 another value at the same address

---
 common/interner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/interner.rs b/common/interner.rs
index 0ad052c..104c16e 100644
--- a/common/interner.rs
+++ b/common/interner.rs
@@ -29,9 +29,11 @@ impl<'arena, T: ?Sized + 'arena> Interned<'arena, T> {
         self.0
     }
 
+    /// The pointer (including the length of a slice or a string: an empty value may share its address
+    /// with another one) which identifies the interned value.
     #[inline(always)]
-    fn ptr(&self) -> *const () {
-        self.0 as *const T as *const ()
+    fn ptr(&self) -> *const T {
+        self.0
     }
 }
 
@@ -50,7 +52,7 @@ impl<'arena, T: ?Sized + 'arena> std::ops::Deref for Interned<'arena, T> {
 
 impl<T: ?Sized> PartialEq for Interned<'_, T> {
     fn eq(&self, other: &Self) -> bool {
-        self.ptr() == other.ptr()
+        std::ptr::eq(self.ptr(), other.ptr())
     }
 }
 
-- 
2.43.0


From bf38cc46f4b3ae21659542952d6b4b39cb6c3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 15/62] fix: let TupleAbi encode move-only elements, and decode
 elements in order

---
 support/bridge.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index cfc2456..ede6f1d 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -271,7 +271,9 @@ struct TupleAbi {
         [&](auto&&... args) {
           return std::apply(
               [&](auto&&... abis) {
-                (std::move(abis).Encode(args, encoder), ...);
+                (std::move(abis).Encode(std::forward<decltype(args)>(args),
+                                        encoder),
+                 ...);
               },
               std::move(abis));
         },
@@ -280,7 +282,8 @@ struct TupleAbi {
   Value Decode(Decoder& decoder) && {
     return std::apply(
         [&](Abis&&... abis) {
-          return std::make_tuple(std::move(abis).Decode(decoder)...);
+          // Braces, so that the elements are decoded from left to right.
+          return Value{std::move(abis).Decode(decoder)...};
         },
         std::move(abis));
   }
-- 
2.43.0


From 57b023eef3f35c34b970b48d5d11b7882e8a869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 16/62] fix: PairAbi::Decode can be instantiated (std::pair is
 no aggregate)

---
 support/bridge.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index ede6f1d..aec057d 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -303,9 +303,10 @@ struct PairAbi {
     std::move(abis.second).Encode(std::move(value.second), encoder);
   }
   Value Decode(Decoder& decoder) && {
-    return {
-        .first = std::move(abis.first).Decode(decoder),
-        .second = std::move(abis.second).Decode(decoder),
+    // Braces, so that the elements are decoded from left to right.
+    return Value{
+        std::move(abis.first).Decode(decoder),
+        std::move(abis.second).Decode(decoder),
     };
   }
 
-- 
2.43.0


From 1e71e3cd5d9b931cc58752bf0d759d5099fa692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 17/62] fix: mutable slices can be compared (the element type
 is not deduced through SliceRef<const T>)

---
 support/rs_std/slice_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index 7e2b5b7..dd9d2e3 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -180,25 +180,25 @@ constexpr bool EqualImpl(SliceRef<const T> a, SliceRef<const T> b) {
 
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<const T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<const T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(const U& a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(SliceRef<T> a, const U& b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 
 template <typename T>
-- 
2.43.0


From 75387b7d9327e64b9828bb8e997c3b6c43d2303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 18/62] fix: bind consts and type aliases under the name their
 public path gives them

A const or type alias whose only public path is a renaming re-export
(`pub use private::X as Y`) was bound under its private name X.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 29547e1..83ea4a7 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1109,6 +1109,15 @@ fn generate_using<'tcx>(
     }
 }
 
+/// Returns the name under which the public API of the crate exports `def_id`. This differs from the
+/// name in the definition if the item's canonical public path comes from a renaming re-export.
+fn exported_item_name(db: &BindingsGenerator<'_>, def_id: DefId) -> Symbol {
+    db.all_public_paths_by_def_id()
+        .get(&def_id)
+        .map(|paths| paths.canonical().name)
+        .unwrap_or_else(|| db.tcx().item_name(def_id))
+}
+
 fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<ApiSnippets<'tcx>> {
     let tcx = db.tcx();
     // TODO: b/457843120 - Remove this workaround once we can properly support float constants.
@@ -1131,7 +1140,7 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
     let cc_type_snippet = db.format_ty_for_cc(rust_type, TypeLocation::Const)?;
 
     let cc_type = cc_type_snippet.tokens;
-    let cc_name = format_cc_ident(db, tcx.item_name(def_id).as_str())?;
+    let cc_name = format_cc_ident(db, exported_item_name(db, def_id).as_str())?;
 
     // Note that `&str` constants may appear as either `ConstValue::Slice` or
     // `ConstValue::Indirect`.
@@ -1931,7 +1940,7 @@ fn generate_item_impl<'tcx>(
             db.adt_needs_bindings(def_id).map(|core| Some(generate_adt(db, core)))
         }
         DefKind::Fn => db.generate_function(def_id, None, StaticMethodMode::Infer).map(Some),
-        DefKind::TyAlias => generate_type_alias(db, def_id, tcx.item_name(def_id).as_str())
+        DefKind::TyAlias => generate_type_alias(db, def_id, exported_item_name(db, def_id).as_str())
             .map(|snippets| Some(snippets.into_main_api())),
         DefKind::Const { .. } => generate_const(db, def_id).map(Some),
         DefKind::Trait => generate_trait(db, def_id).map(Some),
-- 
2.43.0


From cbc7fca67d0b28650e537673dfeaace6cb48b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 19/62] fix: keep backtraces out of the header

The reason given for an unsupported `use` was formatted with Debug, so under
RUST_BACKTRACE the header contained a stack backtrace of the tool.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 83ea4a7..66467be 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1029,7 +1029,7 @@ fn generate_using<'tcx>(
             let mut prereqs = match db.generate_function(def_id, None, StaticMethodMode::Infer) {
                 Ok(snippet) => snippet.main_api.prereqs,
                 Err(err) => {
-                    bail!("Unable to `use` function whose bindings failed: {err:?}");
+                    bail!("Unable to `use` function whose bindings failed: {err:#}");
                 }
             };
             let fully_qualified_fn_name = db
-- 
2.43.0


From a950d5f0049d9451b3a0b085840a5298a5843a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 20/62] fix: keep C++ names of parameters distinct

Escaping a C++ keyword could yield the name of another parameter
(`fn f(class: u8, class_: u8)`), which made the header invalid.
---
 cc_bindings_from_rs/generate_bindings/generate_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index e871b11..c1b2af8 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -35,7 +35,7 @@ use rustc_middle::mir::Mutability;
 use rustc_middle::ty::{self, TraitRef, Ty, TyCtxt};
 use rustc_span::def_id::DefId;
 use rustc_span::symbol::{sym, Symbol};
-use std::collections::BTreeSet;
+use std::collections::{BTreeSet, HashSet};
 
 #[derive(Debug, Eq, PartialEq)]
 enum FunctionKind<'tcx> {
@@ -951,6 +951,8 @@ pub fn generate_function<'tcx>(
 
     let params = {
         let names = fn_arg_idents(tcx, def_id);
+        let rs_names: HashSet<String> =
+            names.iter().flatten().map(|ident| ident.name.to_string()).collect();
         let cpp_types =
             format_param_types_for_cc_api(db, &sig_mid, function_kind.has_self_param())?;
         names
@@ -964,6 +966,8 @@ pub fn generate_function<'tcx>(
                 if let Some(ident) = name.as_ref()
                     && ident.name.as_str() != "_"
                     && let Ok(name) = format_cc_ident(db, ident.name.as_str())
+                    // Escaping a C++ keyword may yield the name of another parameter.
+                    && (name == ident.name.as_str() || !rs_names.contains(&name.to_string()))
                 {
                     cc_name = Some(name);
                 }
-- 
2.43.0


From 694c47c77872a33186a49ca82f3abca67ba6eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 21/62] fix: keep C++ names of the members of a type distinct

Two methods whose C++ names coincide (`class` and `class_`) made the tool
panic; fields that coincide after escaping, fields and members named like their
type, fields named like an associated constant and fields with raw identifiers
made the header invalid.
---
 .../generate_struct_and_union.rs              | 103 ++++++++++++++----
 1 file changed, 80 insertions(+), 23 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 469d668..25c015d 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -334,6 +334,36 @@ fn is_trait_method_of_impl_lookup_stable<'tcx>(tcx: TyCtxt<'tcx>, impl_assoc_id:
         .expect("Associated trait item should be defined on it's trait")
 }
 
+/// Returns the C++ name of the associated item, or an error if another member already has it. (The
+/// names of two Rust items may become the same in C++, e.g. when escaping a C++ keyword.)
+fn claim_member_name(
+    db: &BindingsGenerator<'_>,
+    def_id: DefId,
+    member_function_names: &HashSet<String>,
+) -> Result<String> {
+    let Some(unqualified_name) = db.symbol_unqualified_name(def_id) else {
+        panic!("Associated item should have an unqualified name: {}", db.tcx().def_path_str(def_id));
+    };
+    let cpp_name = unqualified_name.cpp_name.to_string();
+    ensure!(
+        !member_function_names.contains(&cpp_name),
+        "Conflicting member name: another member is already named `{cpp_name}` in C++"
+    );
+    let tcx = db.tcx();
+    let impl_id = tcx.parent(def_id);
+    let self_ty = crate::normalize_ty(
+        tcx,
+        tcx.param_env(impl_id),
+        tcx.type_of(impl_id).instantiate_identity(),
+    );
+    let type_name = self_ty.ty_adt_def().and_then(|adt| db.symbol_unqualified_name(adt.did()));
+    ensure!(
+        type_name.is_none_or(|type_name| type_name.cpp_name.as_str() != cpp_name),
+        "A member named `{cpp_name}` like its type would be a constructor in C++"
+    );
+    Ok(cpp_name)
+}
+
 pub(crate) fn generate_associated_item<'tcx>(
     db: &BindingsGenerator<'tcx>,
     assoc_item: &ty::AssocItem,
@@ -349,20 +379,21 @@ pub(crate) fn generate_associated_item<'tcx>(
     crate::error_scope!(db, def_id);
     let result = match assoc_item.kind {
         ty::AssocKind::Fn { .. } => {
-            db.generate_function(def_id, method_name_override, static_method_mode).inspect(|_binding| {
+            claim_member_name(db, def_id, member_function_names).and_then(|cpp_name| {
+                let snippets =
+                    db.generate_function(def_id, method_name_override, static_method_mode)?;
                 // If `generate_function` succeeds, record the method in `member_function_names`.
-                let Some(unqualified_name) = db.symbol_unqualified_name(def_id) else {
-                    panic!("Associated item should have an unqualified name: {}", tcx.def_path_str(def_id));
-                };
-                let cpp_name = unqualified_name.cpp_name.to_string();
-                let was_inserted = member_function_names.insert(cpp_name.clone());
-                assert!(
-                    was_inserted, // Bindings for Rust/user-named items are given priority.
-                    "Unexpected (user-named 'members' are handled first) naming conflict: {cpp_name}",
-            );
+                member_function_names.insert(cpp_name);
+                Ok(snippets)
+            })
+        }
+        ty::AssocKind::Const { .. } => {
+            claim_member_name(db, def_id, member_function_names).and_then(|cpp_name| {
+                let snippets = generate_const(db, def_id)?;
+                member_function_names.insert(cpp_name);
+                Ok(snippets)
             })
         }
-        ty::AssocKind::Const { .. } => generate_const(db, def_id),
         // TODO: b/405132277 - Rust does not support inherent associated types, but should support
         // associated types when adding traits.
         ty::AssocKind::Type { .. } => {
@@ -2283,10 +2314,11 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 let mut fields = variant
                     .fields
                     .iter()
+                    .zip(self.cc_field_names(variant))
                     .zip(offsets)
                     .enumerate()
-                    .map(|(index, (field_def, offset))| {
-                        self.analyze_field(index, field_def, offset)
+                    .map(|(index, ((field_def, cc_name), offset))| {
+                        self.analyze_field(index, field_def, &cc_name, offset)
                     })
                     .collect_vec();
 
@@ -2394,18 +2426,43 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         Ok(FieldTypeInfo { size, cpp_type })
     }
 
-    fn analyze_field(&self, index: usize, field_def: &ty::FieldDef, offset: u64) -> Field<'tcx> {
+    /// Returns distinct C++ names for the fields of a variant. A field keeps its Rust name unless
+    /// that is reserved in C++, or is the name of the type or of one of its member functions.
+    fn cc_field_names(&self, variant: &ty::VariantDef) -> Vec<String> {
+        let features = self.db.crate_features(self.db.source_crate_num());
+        let type_name = self.cc_short_name.to_string();
+        let mut used: HashSet<String> =
+            variant.fields.iter().map(|field_def| field_def.name.to_string()).collect();
+        variant
+            .fields
+            .iter()
+            .map(|field_def| {
+                let rs_name = field_def.name.as_str();
+                let mut cc_name =
+                    code_gen_utils::unkeyword_cpp_ident(rs_name, features).to_string();
+                while self.member_function_names.contains(&cc_name)
+                    || cc_name == type_name
+                    || (cc_name != rs_name && used.contains(&cc_name))
+                {
+                    cc_name.push('_');
+                }
+                used.insert(cc_name.clone());
+                cc_name
+            })
+            .collect()
+    }
+
+    fn analyze_field(
+        &self,
+        index: usize,
+        field_def: &ty::FieldDef,
+        cc_name: &str,
+        offset: u64,
+    ) -> Field<'tcx> {
         let tcx = self.db.tcx();
         let type_info = self.prepare_field_type(field_def);
-        let name = field_def.ident(tcx).to_string();
-        let features = self.db.crate_features(self.db.source_crate_num());
-        let cc_name = code_gen_utils::unkeyword_cpp_ident(&name, features).to_string();
-        let cc_name = if self.member_function_names.contains(&cc_name) {
-            format!("{cc_name}_")
-        } else {
-            cc_name
-        };
-        let cc_name = format_cc_ident(self.db, cc_name.as_str())
+        let name = field_def.name.to_string();
+        let cc_name = format_cc_ident(self.db, cc_name)
             .unwrap_or_else(|_err| anonymous_field_ident(index));
         let rs_name = {
             let name_starts_with_digit = name
-- 
2.43.0


From 8993ca0d53ca2d35f9d750a45748b66d68f14748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 22/62] fix: name the structs of raw-identifier variants
 without r#

---
 .../generate_bindings/generate_struct_and_union.rs              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 25c015d..67d4bb9 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2819,7 +2819,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                         .enumerate()
                         .flat_map(|(variant_index, variant_layout)| {
                             let variant_def = self.adt_def.variant(VariantIdx::from_usize(variant_index));
-                            let cc_variant = variant_def.ident(tcx);
+                            let cc_variant = variant_def.name;
                             let qualified_struct_name =
                                 format_nonportable_cc_type_name(&format!("{}::__crubit_{}_struct", adt_cc_name, cc_variant)).expect("generated invalid C++ identifier");
                             if variant_def.fields.is_empty() {
-- 
2.43.0


From 62ac5525397cf2093f5364919dd7a03bc117fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 23/62] fix: keep template parameters of a trait apart from its
 name

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 66467be..a0970b6 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1301,14 +1301,25 @@ fn generate_trait<'tcx>(
         .collect();
     let trait_params = if generics.has_self { &own_params[1..] } else { &own_params[..] };
 
+    // C++ doesn't let a template parameter shadow the trait itself (e.g. `trait T`).
+    let template_param = |name: String| {
+        if trait_name == name {
+            format_ident!("{}_", name)
+        } else {
+            format_ident!("{}", name)
+        }
+    };
+    let impl_param = template_param("T".to_string());
+
     let (template_prefix, trait_name_with_args) = if trait_params.is_empty() {
         (quote! {}, quote! { #trait_name })
     } else {
         let template_params = trait_params.iter().enumerate().map(|(i, _)| {
-            let param_name = format_ident!("T{}", i);
+            let param_name = template_param(format!("T{i}"));
             quote! { typename #param_name }
         });
-        let template_args = trait_params.iter().enumerate().map(|(i, _)| format_ident!("T{}", i));
+        let template_args =
+            trait_params.iter().enumerate().map(|(i, _)| template_param(format!("T{i}")));
         (quote! { template <#(#template_params),*> }, quote! { #trait_name<#(#template_args),*> })
     };
 
@@ -1317,8 +1328,8 @@ fn generate_trait<'tcx>(
             __NEWLINE__ #doc_comment
             #template_prefix
             struct #(#attributes)* #trait_name {
-                template <typename T>
-                using impl = rs_std::impl<T, #trait_name_with_args>;
+                template <typename #impl_param>
+                using impl = rs_std::impl<#impl_param, #trait_name_with_args>;
             };
             __NEWLINE__
         },
-- 
2.43.0


From 375be5790f95592a39555a60e257f4f2c28080de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 24/62] fix: check the names of trait methods against the class
 they become members of

---
 .../generate_struct_and_union.rs              | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 67d4bb9..d3fb9fb 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -351,15 +351,23 @@ fn claim_member_name(
     );
     let tcx = db.tcx();
     let impl_id = tcx.parent(def_id);
-    let self_ty = crate::normalize_ty(
-        tcx,
-        tcx.param_env(impl_id),
-        tcx.type_of(impl_id).instantiate_identity(),
-    );
-    let type_name = self_ty.ty_adt_def().and_then(|adt| db.symbol_unqualified_name(adt.did()));
+    // Trait impls are specializations of the C++ class template `rs_std::impl`.
+    let class_name = if tcx.impl_opt_trait_ref(impl_id).is_some() {
+        Some("impl".to_string())
+    } else {
+        let self_ty = crate::normalize_ty(
+            tcx,
+            tcx.param_env(impl_id),
+            tcx.type_of(impl_id).instantiate_identity(),
+        );
+        self_ty
+            .ty_adt_def()
+            .and_then(|adt| db.symbol_unqualified_name(adt.did()))
+            .map(|type_name| type_name.cpp_name.to_string())
+    };
     ensure!(
-        type_name.is_none_or(|type_name| type_name.cpp_name.as_str() != cpp_name),
-        "A member named `{cpp_name}` like its type would be a constructor in C++"
+        class_name.is_none_or(|class_name| class_name != cpp_name),
+        "A member named `{cpp_name}` like its class would be a constructor in C++"
     );
     Ok(cpp_name)
 }
-- 
2.43.0


From f29e9c55508cc22482467638d69ce3a6de3456aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 25/62] fix: construct the value of a moved Slot instead of
 assigning to uninitialized memory

---
 support/internal/slot.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 817c423..c8ab9ff 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -105,7 +105,10 @@ class Slot {
 
   // SAFETY REQUIREMENTS: The value contained in `other` must be initialized
   // (but may be moved-from).
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) {
+    // `value_` is uninitialized, so it can't be assigned to.
+    std::construct_at(&value_, std::move(other.value_));
+  }
 
   // Does not destroy the contained value.
   //
@@ -159,7 +162,10 @@ class Slot<std::array<UT, S>> {
       return return_value;
     }
   }
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) {
+    // `value_` is uninitialized, so it can't be assigned to.
+    std::construct_at(&value_, std::move(other.value_));
+  }
   ~Slot() {}
 
   Slot(const Slot&) = delete;
-- 
2.43.0


From c1dca070e0adf0f723e0fff262b63312cfcb10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 26/62] fix: empty slices do not alias with anything

---
 support/internal/check_no_mutable_aliasing.cc | 10 ++++++++++
 support/internal/check_no_mutable_aliasing.h  |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/support/internal/check_no_mutable_aliasing.cc b/support/internal/check_no_mutable_aliasing.cc
index e9b8234..3af3f72 100644
--- a/support/internal/check_no_mutable_aliasing.cc
+++ b/support/internal/check_no_mutable_aliasing.cc
@@ -19,6 +19,14 @@ void SortPtrDatas(std::span<PtrData> unsorted) {
       [](const PtrData& a, const PtrData& b) { return a.start < b.start; });
 }
 
+// Drops empty regions (e.g. of empty slices), which don't alias with anything.
+std::span<PtrData> RemoveEmpty(std::span<PtrData> ptrs) {
+  auto end = std::remove_if(
+      ptrs.begin(), ptrs.end(),
+      [](const PtrData& ptr) { return ptr.start == ptr.end; });
+  return ptrs.first(end - ptrs.begin());
+}
+
 }  // namespace
 
 void CheckNoMutableAliasingSpans(std::span<PtrData> mut_ptrs,
@@ -28,6 +36,8 @@ void CheckNoMutableAliasingSpans(std::span<PtrData> mut_ptrs,
 
 bool HasMutableAliasingSpans(std::span<PtrData> mut_ptrs,
                              std::span<PtrData> const_ptrs) {
+  mut_ptrs = RemoveEmpty(mut_ptrs);
+  const_ptrs = RemoveEmpty(const_ptrs);
   if (mut_ptrs.empty()) {
     return false;
   }
diff --git a/support/internal/check_no_mutable_aliasing.h b/support/internal/check_no_mutable_aliasing.h
index 5609b3b..87e047f 100644
--- a/support/internal/check_no_mutable_aliasing.h
+++ b/support/internal/check_no_mutable_aliasing.h
@@ -82,9 +82,11 @@ std::array<PtrData, sizeof...(Ts)> AsMutPtrDatas(Ts... ts) {
 }
 
 // Returns `true` if the two `PtrData` overlap in memory. An overlap means the
-// pointers point at the same region of memory.
+// pointers point at the same region of memory. Empty regions (e.g. of empty
+// slices) don't overlap with anything.
 constexpr bool Overlaps(PtrData a, PtrData b) {
-  return a.start < b.end && b.start < a.end;
+  return a.start < a.end && b.start < b.end && a.start < b.end &&
+         b.start < a.end;
 }
 
 // CHECKs that none of the mutable pointers alias with either each other or
-- 
2.43.0


From f70588e24721723b0082ef5ac448e3594401e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 27/62] fix: print float constants as valid C++ literals of the
 same value

---
 .../generate_bindings/generate_struct_and_union.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index d3fb9fb..787c5e3 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -138,8 +138,18 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         TyKind::Uint(U16) => format!("UINT16_C({})", scalar.to_u16()),
         TyKind::Uint(U32) => format!("UINT32_C({})", scalar.to_u32()),
         TyKind::Uint(U64) => format!("UINT64_C({})", scalar.to_u64()),
-        TyKind::Float(F32) => format!("{}f", scalar.to_f32()),
-        TyKind::Float(F64) => format!("{}L", scalar.to_f64()),
+        // `{:?}` always prints a decimal point or an exponent (unlike `{}`), as required by C++
+        // literals, and keeps the sign of a negative zero.
+        TyKind::Float(F32) => {
+            let value = f32::from_bits(scalar.to_u32());
+            ensure!(value.is_finite(), "Non-finite constants are not supported: {value}");
+            format!("{value:?}f")
+        }
+        TyKind::Float(F64) => {
+            let value = f64::from_bits(scalar.to_u64());
+            ensure!(value.is_finite(), "Non-finite constants are not supported: {value}");
+            format!("{value:?}L")
+        }
         TyKind::Uint(Usize) => format!("UINT64_C({})", scalar.to_target_usize(tcx)),
 
         // Signed integer minimums cannot be expressed with literals, as `-<int>` parses as a unary
-- 
2.43.0


From 99b6916405b9b535323a15658eaf352c0948c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 28/62] fix: keep NUL characters of string constants

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 23 ++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index a0970b6..abe92bb 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -54,7 +54,7 @@ pub use database::{
 };
 use error_report::{anyhow, bail, ErrorReporting, ReportFatalError};
 use itertools::Itertools;
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Literal, TokenStream};
 use query_compiler::{
     does_type_implement_trait, get_layout, get_scalar_int_type, get_tag_size_with_padding,
     is_c_abi_compatible_by_value, is_copy, liberate_and_deanonymize_late_bound_regions,
@@ -1118,6 +1118,25 @@ fn exported_item_name(db: &BindingsGenerator<'_>, def_id: DefId) -> Symbol {
         .unwrap_or_else(|| db.tcx().item_name(def_id))
 }
 
+/// Returns a C++ constant expression of type `rs_std::StrRef` with the given value.
+fn str_ref_constant(value: &str) -> TokenStream {
+    if !value.contains('\0') {
+        return quote! { rs_std::StrRef(#value) };
+    }
+    // The length has to be given explicitly, and each NUL has to be a literal of its own: C++ escape
+    // sequences would otherwise include hexadecimal digits that follow them.
+    let len = Literal::usize_unsuffixed(value.len());
+    let literals = value
+        .split_inclusive('\0')
+        .flat_map(|part| match part.strip_suffix('\0') {
+            Some(part) => [Some(part), Some("\0")],
+            None => [Some(part), None],
+        })
+        .flatten()
+        .filter(|part| !part.is_empty());
+    quote! { rs_std::StrRef(::std::string_view(#( #literals )*, #len)) }
+}
+
 fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<ApiSnippets<'tcx>> {
     let tcx = db.tcx();
     // TODO: b/457843120 - Remove this workaround once we can properly support float constants.
@@ -1158,7 +1177,7 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
                     }
                     if let Some(slice) = const_value.try_get_slice_bytes_for_diagnostics(tcx) {
                         let str_data = std::str::from_utf8(slice).unwrap();
-                        Some(quote! { rs_std::StrRef(#str_data) }.to_string())
+                        Some(str_ref_constant(str_data).to_string())
                     } else { None }
                 }
                 _ => None
-- 
2.43.0


From 5eaf31aff24768f68b2aaf9ded682858807280d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 29/62] fix: name the instantiated types in the ABI of
 Option<layout-equivalent generic>

By-value uses of a composite (e.g. Option<G<T>>) of a type with a cpp_type
annotation and an include_path spelled the bare path of the Rust type and
the raw annotation, so that generic, specialized or pointer-mapped types
generated glue that did not compile.
---
 .../generate_bindings/format_type.rs          | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 28486aa..8019ed1 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -1376,23 +1376,20 @@ pub fn crubit_abi_type_from_ty<'tcx>(
                         return crubit_abi_type_from_bridged_adt(db, abi_rust, abi_cpp, substs);
                     }
                     BridgingAttrs::JustCppType { include_paths, cpp_type } => {
-                        let fully_qualified_name = db.symbol_canonical_name(adt.did()).ok_or_else(|| {
-                            anyhow!("Failed to get canonical name for {:?}", adt.did())
-                        })?;
-                        let mut prereqs = CcPrerequisites::default();
-                        for path in &include_paths {
-                            prereqs.includes.insert(CcInclude::from_path(path.as_str()));
+                        let rust_type = db.format_ty_for_rs(ty)?;
+                        if !include_paths.is_empty() {
+                            // `cpp_type` may refer to generic parameters.
+                            let CcSnippet { tokens: cpp_type, prereqs } =
+                                db.format_ty_for_cc(ty, TypeLocation::Other)?;
+                            return Ok(CrubitAbiTypeWithCcPrereqs {
+                                crubit_abi_type: CrubitAbiType::Transmute { rust_type, cpp_type },
+                                prereqs,
+                            });
+                        }
+                        CrubitAbiType::Transmute {
+                            rust_type,
+                            cpp_type: cpp_type.as_str().parse().expect("Malformed cpp_type annotation"),
                         }
-                        return Ok(CrubitAbiTypeWithCcPrereqs {
-                            crubit_abi_type: CrubitAbiType::Transmute {
-                                rust_type: {
-                                    let parts = fully_qualified_name.rs_name_parts();
-                                    quote! { #(::#parts)* }
-                                },
-                                cpp_type: cpp_type.as_str().parse().expect("Malformed cpp_type annotation"),
-                            },
-                            prereqs,
-                        });
                     }
                     _ => bail!("Failed to construct the CrubitAbiType for {ty} because it has bridging attrs for a different kind of bridging: {bridging_attrs:?}"),
                 }
-- 
2.43.0


From 6ff5f86febd9bbfe6504af37b8c098e6f0a02a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 30/62] fix: put const after the pointer in slices of types
 mapped to C++ pointers

A slice of a type annotated with cpp_type="T*" was SliceRef<const T*>, that
is, of non-const pointers to const.
---
 cc_bindings_from_rs/generate_bindings/format_type.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 8019ed1..55afcb8 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -151,6 +151,14 @@ fn format_pointer_or_reference_ty_for_cc<'tcx>(
     Ok(CcSnippet { prereqs, tokens: quote! { #tokens #const_qualifier #pointer_sigil } })
 }
 
+/// Returns true if `ty` is annotated with a `cpp_type` which is a C++ pointer type.
+fn is_mapped_to_cpp_pointer<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'tcx>) -> Result<bool> {
+    Ok(matches!(
+        is_bridged_type(db, ty)?,
+        Some(BridgedType::Legacy { cpp_type: CcType::Pointer { .. }, .. })
+    ))
+}
+
 fn format_slice_ref_for_cc<'tcx>(
     db: &BindingsGenerator<'tcx>,
     element_ty: Ty<'tcx>,
@@ -176,6 +184,8 @@ fn format_slice_ref_for_cc<'tcx>(
                 // `SliceRef<void* const>`.
                 quote! { #tokens const }
             }
+            // Types which are mapped to C++ pointers (e.g. `cpp_type="T*"`) are pointers as well.
+            _ if is_mapped_to_cpp_pointer(db, element_ty)? => quote! { #tokens const },
             _ => {
                 // For non-pointer types, placing `const` before the type (`const #tokens`)
                 // produces the standard canonical formatting (e.g., `SliceRef<const uint8_t>`).
-- 
2.43.0


From 77914789601d26f41792f89d3a6e00cd32a2b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 31/62] fix: do not const-qualify &self methods of
 cpp_thread_safe types

References to such types are non-const in C++, so the method passed a const
*this to a thunk taking T&, and the header did not compile.
---
 cc_bindings_from_rs/generate_bindings/format_type.rs       | 2 +-
 cc_bindings_from_rs/generate_bindings/generate_function.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 55afcb8..69bb482 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -64,7 +64,7 @@ fn is_ctor_by_value(db: &BindingsGenerator<'_>, did: DefId) -> bool {
 }
 
 /// Returns true if `ty` is annotated with `cpp_thread_safe`.
-fn is_cpp_thread_safe<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'tcx>) -> Result<bool> {
+pub fn is_cpp_thread_safe<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'tcx>) -> Result<bool> {
     let ty::TyKind::Adt(adt, _) = ty.kind() else {
         return Ok(false);
     };
diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index c1b2af8..678a2c8 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -7,6 +7,7 @@ use crate::format_type::{
     ty_as_alias_ty, CcParamTy,
 };
 use crate::generate_doc_comment;
+use crate::format_type::is_cpp_thread_safe;
 use crate::generate_function_thunk::{
     generate_thunk_decl, generate_thunk_impl, is_thunk_required, make_thunk_name, ThunkKind,
 };
@@ -995,7 +996,7 @@ pub fn generate_function<'tcx>(
                 };
             }
             FunctionKind::MethodTakingSelfByRef { .. } => {
-                let ty::TyKind::Ref(region, _, mutability) = *params[0].ty.kind() else {
+                let ty::TyKind::Ref(region, referent, mutability) = *params[0].ty.kind() else {
                     panic!("Expecting TyKind::Ref for MethodKind...Self...Ref")
                 };
                 let tcx = db.tcx();
@@ -1016,6 +1017,8 @@ pub fn generate_function<'tcx>(
                 };
                 let mutability = match mutability {
                     Mutability::Mut => quote! {},
+                    // Shared references to thread-safe types are not const in C++.
+                    Mutability::Not if is_cpp_thread_safe(db, referent)? => quote! {},
                     Mutability::Not => quote! { const },
                 };
                 method_qualifiers = quote! { #mutability #ref_qualifier }
-- 
2.43.0


From c5adeba0d5ddfdcb3fb718faf9f05db326b5f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 32/62] fix: honour do_not_bind on methods

The attribute is accepted on methods, but only free functions marked with
it were left out of the bindings.
---
 .../generate_bindings/generate_struct_and_union.rs             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 787c5e3..f94cfa4 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -394,6 +394,9 @@ pub(crate) fn generate_associated_item<'tcx>(
     if !is_supported_associated_item(tcx, def_id) {
         return None;
     }
+    if crubit_attr::get_attrs(tcx, def_id).unwrap_or_default().do_not_bind {
+        return None;
+    }
     crate::error_scope!(db, def_id);
     let result = match assoc_item.kind {
         ty::AssocKind::Fn { .. } => {
-- 
2.43.0


From 869f9d393e507555220e7b97303f20bdcd332056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 33/62] fix: do not name a generic type through an alias which
 rearranges its parameters

A public type alias such as `type Al<A, B> = m::G<B, A>` counted as a path
for G, so that G<u16, u8> could be spelled Al<u16, u8>, which is another
type.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 29 ++++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index abe92bb..e3cfa03 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -554,18 +554,23 @@ fn public_paths_by_def_id(
                 // Check if generics match.
                 let generics_match = args.len() == alias_generics.own_params.len()
                     && args.iter().zip(alias_generics.own_params.iter()).all(|(arg, param)| {
-                        matches!(
-                            (arg.kind(), &param.kind),
-                            (ty::GenericArgKind::Type(_), ty::GenericParamDefKind::Type { .. })
-                                | (
-                                    ty::GenericArgKind::Const(_),
-                                    ty::GenericParamDefKind::Const { .. }
-                                )
-                                | (
-                                    ty::GenericArgKind::Lifetime(_),
-                                    ty::GenericParamDefKind::Lifetime
-                                )
-                        )
+                        match (arg.kind(), &param.kind) {
+                            (
+                                ty::GenericArgKind::Type(arg),
+                                ty::GenericParamDefKind::Type { .. },
+                            ) => arg.is_param(param.index),
+                            (
+                                ty::GenericArgKind::Const(arg),
+                                ty::GenericParamDefKind::Const { .. },
+                            ) => {
+                                matches!(arg.kind(), ty::ConstKind::Param(arg) if arg.index == param.index)
+                            }
+                            (
+                                ty::GenericArgKind::Lifetime(_),
+                                ty::GenericParamDefKind::Lifetime,
+                            ) => true,
+                            _ => false,
+                        }
                     });
                 // If our generics do not match for our type alias, do not consider them a public
                 // path for their underlying type.
-- 
2.43.0


From 09bb0dd0dd86b4e48bcbc5231fd0c9a506e19fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 34/62] fix: do not name a generic type through an alias of one
 of its instantiations

An alias marked specializes_cpp_type could become the canonical path of the
generic type it instantiates, so that the Rust glue gave the alias generic
arguments and did not compile.
---
 .../database/fully_qualified_name.rs                  | 11 ++++++++---
 cc_bindings_from_rs/generate_bindings/lib.rs          |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs b/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
index ae490d7..7616660 100644
--- a/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
+++ b/cc_bindings_from_rs/generate_bindings/database/fully_qualified_name.rs
@@ -160,6 +160,9 @@ pub struct ExportedPath {
     /// If this path points as a type alias, rather than a use statement, this will be the DefId of
     /// the type alias.
     pub type_alias_def_id: Option<DefId>,
+    /// True if this path is a type alias of a single instantiation of a generic definition, and
+    /// therefore not a name for the definition itself.
+    pub is_instantiation_alias: bool,
     /// True if any segment of this path is marked #[doc(hidden)] making it a less preferable path
     /// than any non-hidden path regardless of length.
     pub is_doc_hidden: bool,
@@ -227,9 +230,11 @@ impl ExportedPath {
 impl Ord for ExportedPath {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         use std::cmp::Ordering;
-        // Prefer paths that are do not contain an item marked #[doc(hidden)].
-        self.is_doc_hidden
-            .cmp(&other.is_doc_hidden)
+        // Prefer paths that name the definition itself.
+        self.is_instantiation_alias
+            .cmp(&other.is_instantiation_alias)
+            // Prefer paths that are do not contain an item marked #[doc(hidden)].
+            .then_with(|| self.is_doc_hidden.cmp(&other.is_doc_hidden))
             // Prefer the shortest path.
             .then_with(|| self.path.len().cmp(&other.path.len()))
             // Between two paths of the same length, prefer the one that is not a type alias.
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index e3cfa03..1267d70 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -543,6 +543,7 @@ fn public_paths_by_def_id(
 
         // Map type aliases to their underlying type.
         let mut type_alias_def_id = None;
+        let mut is_instantiation_alias = false;
         if def_kind == DefKind::TyAlias {
             let underlying_type = normalize_ty(
                 tcx,
@@ -578,6 +579,7 @@ fn public_paths_by_def_id(
                     || crubit_attr::get_attrs(tcx, def_id).unwrap().specializes_cpp_type
                 {
                     type_alias_def_id = Some(def_id);
+                    is_instantiation_alias = !generics_match;
                     def_id = def.did();
                 }
             }
@@ -601,6 +603,7 @@ fn public_paths_by_def_id(
             path: parent.clone(),
             name: child.ident.name,
             type_alias_def_id,
+            is_instantiation_alias,
             is_doc_hidden,
             is_reexport: !child.reexport_chain.is_empty(),
             krate: crate_num,
-- 
2.43.0


From 45097c1caa530f04a5b430bc900ab7e630efa850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 35/62] fix: name the bridge ABI of a composable type through
 the type's own crate

The path of bridge_abi_rust was taken to be in the crate that bindings are
generated for, so that using a composable type of another crate generated
glue that did not compile.
---
 .../generate_bindings/format_type.rs                | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 69bb482..b820629 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -1383,7 +1383,13 @@ pub fn crubit_abi_type_from_ty<'tcx>(
             if let Some(bridging_attrs) = attrs.get_bridging_attrs()? {
                 match bridging_attrs {
                     BridgingAttrs::Composable { abi_rust, abi_cpp, .. } => {
-                        return crubit_abi_type_from_bridged_adt(db, abi_rust, abi_cpp, substs);
+                        return crubit_abi_type_from_bridged_adt(
+                            db,
+                            adt.did(),
+                            abi_rust,
+                            abi_cpp,
+                            substs,
+                        );
                     }
                     BridgingAttrs::JustCppType { include_paths, cpp_type } => {
                         let rust_type = db.format_ty_for_rs(ty)?;
@@ -1562,6 +1568,7 @@ impl BridgedBuiltin {
 /// May return an error is `crubit_abi_type_from_ty` fails for any of the generic args.
 fn crubit_abi_type_from_bridged_adt<'tcx>(
     db: &BindingsGenerator<'tcx>,
+    adt_did: DefId,
     abi_rust: Symbol,
     abi_cpp: Symbol,
     substs: &[GenericArg<'tcx>],
@@ -1572,7 +1579,7 @@ fn crubit_abi_type_from_bridged_adt<'tcx>(
             start_with_colon2: true,
             parts: {
                 let tcx = db.tcx();
-                let krate = tcx.crate_name(db.source_crate_num());
+                let krate = tcx.crate_name(adt_did.krate);
                 let crate_name = Ident::new(krate.as_str(), Span::call_site());
                 let rust_abi_path = Ident::new(abi_rust.as_str(), Span::call_site());
                 Rc::from([crate_name, rust_abi_path])
@@ -1667,7 +1674,7 @@ fn is_manually_annotated_bridged_adt<'tcx>(
         }
         BridgingAttrs::Composable { cpp_type, abi_rust, abi_cpp } => {
             let crubit_abi_type_with_cc_prereqs =
-                crubit_abi_type_from_bridged_adt(db, abi_rust, abi_cpp, substs)?;
+                crubit_abi_type_from_bridged_adt(db, adt.did(), abi_rust, abi_cpp, substs)?;
             Ok(Some(BridgedType::Composable(Box::new(BridgedTypeComposable {
                 cpp_type: FullyQualifiedPath::new(cpp_type.as_str()),
                 prereqs: crubit_abi_type_with_cc_prereqs.prereqs,
-- 
2.43.0


From cd1df4ca028d9a4c9acc6b6b427bc82533355550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 36/62] fix: do not generate bindings for impls of traits for
 generic types

Generic types with a cpp_type annotation passed the filter for trait impls.
An impl with methods for an instantiation crashed the generator, and a
generic impl made a header that does not compile.
---
 .../generate_template_specialization.rs                  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index 6fbbad6..07f5720 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -8,7 +8,7 @@ use crate::generate_struct_and_union::{
     scalar_value_to_string,
 };
 use crate::generate_unsupported_def;
-use arc_anyhow::{bail, Result};
+use arc_anyhow::{bail, ensure, Result};
 use code_gen_utils::{escape_non_identifier_chars, CcInclude};
 use database::code_snippet::{
     ApiSnippets, CcPrerequisites, CcSnippet, EnumSpecializationKind, FormattedTy,
@@ -1771,6 +1771,13 @@ fn generate_trait_impl_specialization<'tcx>(
     );
     let trait_name = canonical_trait_name.format_for_cc(db)?;
 
+    if let ty::TyKind::Adt(_, substs) = trait_ref.self_ty().kind() {
+        ensure!(
+            substs.iter().all(|subst| subst.as_region().is_some()),
+            "Implementations of traits for generic types are not supported yet (b/259749095)"
+        );
+    }
+
     let mut prereqs = CcPrerequisites::default();
     let trait_args: Vec<_> = trait_ref
         .args
-- 
2.43.0


From d322916449040cf278475b786cb92f5aa56b700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 37/62] fix: keep room for every union field whose type is not
 supported

---
 .../generate_bindings/generate_struct_and_union.rs            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index f94cfa4..641eb75 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2363,7 +2363,9 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                     .chain(once(size))
                     .collect_vec();
                 for (field, next_offset) in fields.iter_mut().zip(next_offsets) {
-                    field.offset_of_next_field = next_offset;
+                    // The fields of a union overlap each other.
+                    field.offset_of_next_field =
+                        if self.adt_def.is_union() { size } else { next_offset };
                 }
 
                 fields
-- 
2.43.0


From d158ba5fcca571e71594cde82162b119b2c9de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 38/62] fix: lay out repr(C) enum payloads which have opaque
 fields

---
 .../generate_struct_and_union.rs              | 72 +++++++++++++------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 641eb75..e499daa 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2209,6 +2209,24 @@ impl<'tcx> Field<'tcx> {
             Ok(FieldTypeInfo { size, .. }) => size,
         }
     }
+
+    /// The explicit padding between this field (of the given `size`) and the next one.
+    fn padding(
+        &self,
+        size: u64,
+        always_omit_padding: bool,
+        current_visibility: &mut CcFieldVisState,
+    ) -> TokenStream {
+        assert!((self.offset + size) <= self.offset_of_next_field);
+        let padding = self.offset_of_next_field - self.offset - size;
+        if always_omit_padding || padding == 0 {
+            return quote! {};
+        }
+        let padding = Literal::u64_unsuffixed(padding);
+        let ident = format_ident!("__padding{}", self.index);
+        let padding_visibility = current_visibility.set_is_public(false);
+        quote! { #padding_visibility unsigned char #ident[#padding]; }
+    }
 }
 
 #[derive(Debug, Default)]
@@ -2242,6 +2260,13 @@ struct AdtVariantLayout<'tcx> {
     size: u64,
 }
 
+impl AdtVariantLayout<'_> {
+    /// Whether some field is represented by a blob of bytes rather than by its own type.
+    fn has_opaque_fields(&self) -> bool {
+        self.fields.iter().any(|field| field.type_info.is_err())
+    }
+}
+
 enum AdtLayout<'tcx> {
     Struct { fields: Vec<Field<'tcx>>, always_omit_padding: bool },
     Union { fields: Vec<Field<'tcx>> },
@@ -2652,29 +2677,18 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
             quote! { #cc_name }
         };
 
-        let (cpp_type, size) = match field.type_info {
-            Err(ref err) => return self.emit_field_err(&field, err, current_visibility),
-            Ok(FieldTypeInfo { cpp_type, size }) => (cpp_type, size),
+        let (cpp_type, size) = match &field.type_info {
+            Err(err) => return self.emit_field_err(&field, err, current_visibility),
+            Ok(FieldTypeInfo { cpp_type, size }) => (cpp_type.clone(), *size),
         };
 
-        assert!((field.offset + size) <= field.offset_of_next_field);
-        let padding = field.offset_of_next_field - field.offset - size;
-
         let visibility = current_visibility.set_is_public(field.is_public);
         let mut prereqs = CcPrerequisites::default();
         let cpp_type = cpp_type.into_tokens(&mut prereqs);
+        let padding = field.padding(size, always_omit_padding, current_visibility);
         let doc_comment = field.doc_comment;
         let attributes = field.attributes;
         let packed_attribute = field.packed_attribute;
-
-        let padding = if always_omit_padding || padding == 0 {
-            quote! {}
-        } else {
-            let padding = Literal::u64_unsuffixed(padding);
-            let ident = format_ident!("__padding{}", field.index);
-            let padding_visibility = current_visibility.set_is_public(false);
-            quote! { #padding_visibility unsigned char #ident[#padding]; }
-        };
         let tokens = quote! {
             #visibility __NEWLINE__
                 // The anonymous union gives more control over when exactly
@@ -2746,20 +2760,23 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         &self,
         field: &Field<'tcx>,
         current_visibility: &mut CcFieldVisState,
+        always_omit_padding: bool,
     ) -> CcSnippet<'tcx> {
         let cc_name = &field.cc_name;
 
-        let cpp_type = match &field.type_info {
+        let (cpp_type, size) = match &field.type_info {
             Err(err) => return self.emit_field_err(field, err, current_visibility),
-            Ok(FieldTypeInfo { cpp_type, .. }) => cpp_type,
+            Ok(FieldTypeInfo { cpp_type, size }) => (cpp_type, *size),
         };
 
         let visibility = current_visibility.set_is_public(field.is_public);
         let mut prereqs = CcPrerequisites::default();
         let cpp_type = cpp_type.clone().into_tokens(&mut prereqs);
+        let padding = field.padding(size, always_omit_padding, current_visibility);
 
         let tokens = quote! {
             #visibility __NEWLINE__ #cpp_type #cc_name;
+            #padding
         };
         CcSnippet { tokens, prereqs }
     }
@@ -2899,7 +2916,8 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 .iter()
                 .flat_map(|v| &v.fields)
                 .map(|field| {
-                    self.emit_enum_field(field, &mut Default::default()).into_tokens(&mut prereqs)
+                    self.emit_enum_field(field, &mut Default::default(), true)
+                        .into_tokens(&mut prereqs)
                 })
                 .collect()
         } else {
@@ -2956,8 +2974,12 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                         .fields
                         .iter()
                         .map(|field| {
-                            self.emit_enum_field(field, &mut current_visibility)
-                                .into_tokens(&mut prereqs)
+                            self.emit_enum_field(
+                                field,
+                                &mut current_visibility,
+                                !variant_layout.has_opaque_fields(),
+                            )
+                            .into_tokens(&mut prereqs)
                         })
                         .collect()
                 })
@@ -2995,8 +3017,14 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
 
                     let fields_for_variant = &tokens_per_variant[variant_index.index()];
 
-                    let variant_alignment =
-                        Literal::u64_unsuffixed(variant_alignments[variant_index.index()]);
+                    // Blobs of bytes don't have the alignment of the types which they replace.
+                    let variant_layout = &variants[variant_index.index()];
+                    let variant_alignment = if variant_layout.has_opaque_fields() {
+                        self.alignment_in_bytes
+                    } else {
+                        variant_alignments[variant_index.index()]
+                    };
+                    let variant_alignment = Literal::u64_unsuffixed(variant_alignment);
 
                     if variants[variant_index.index()].size == 0 {
                         let cc_variant_name = format_cc_ident(self.db, variant_def.name.as_str())
-- 
2.43.0


From 91998267aa4fc7161a85f15835302db294d852ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 39/62] fix: let structs hold slices of types which are defined
 later

---
 .../generate_bindings/format_type.rs          | 10 ++++++--
 support/rs_std/slice_ref.h                    | 24 +++++++++++--------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index b820629..d9ac479 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -163,12 +163,18 @@ fn format_slice_ref_for_cc<'tcx>(
     db: &BindingsGenerator<'tcx>,
     element_ty: Ty<'tcx>,
     mutability: rustc_middle::mir::Mutability,
+    location: TypeLocation,
 ) -> Result<CcSnippet<'tcx>> {
     let CcSnippet { mut tokens, mut prereqs } =
         db.format_ty_for_cc(element_ty, TypeLocation::Other).with_context(|| {
             format!("Failed to format the element type of the slice type `{element_ty}`")
         })?;
     prereqs.includes.insert(db.support_header("rs_std/slice_ref.h"));
+    // Like the pointee of a pointer, the element type can be incomplete. (It may well be, where the
+    // definitions of structs refer to each other.)
+    if !matches!(location, TypeLocation::FnParam { .. } | TypeLocation::FnReturn { .. }) {
+        prereqs.move_defs_to_fwd_decls();
+    }
 
     if let Mutability::Not = mutability {
         // For immutable slices (`&[T]` or `*const [T]`), the elements of the slice
@@ -685,7 +691,7 @@ pub fn format_ty_for_cc<'tcx>(
         ty::TyKind::RawPtr(pointee_ty, mutbl) => {
             if let ty::TyKind::Slice(slice_ty) = pointee_ty.kind() {
                 check_slice_layout(db.tcx(), ty);
-                return format_slice_ref_for_cc(db, *slice_ty, mutbl);
+                return format_slice_ref_for_cc(db, *slice_ty, mutbl, location);
             }
             // Early return in case we handle a transparent pointer type.
             if let Some(snippet) =
@@ -703,7 +709,7 @@ pub fn format_ty_for_cc<'tcx>(
         ty::TyKind::Ref(region, referent, mutability) => {
             if let ty::TyKind::Slice(element_ty) = *referent.kind() {
                 check_slice_layout(db.tcx(), ty);
-                return format_slice_ref_for_cc(db, element_ty, mutability);
+                return format_slice_ref_for_cc(db, element_ty, mutability, location);
             }
 
             if matches!(referent.kind(), ty::TyKind::Str) {
diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index dd9d2e3..57e9b44 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -65,10 +65,10 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   //
   // Style waiver for implicit conversions granted in cl/662479273.
   template <typename S>
-    requires(internal::ByteSliceTarget<T> &&
+    requires(!std::same_as<std::remove_cvref_t<S>, SliceRef> &&
+             internal::ByteSliceTarget<T> &&
              std::convertible_to<S, std::string_view> &&
-             std::is_trivially_copyable_v<std::remove_cvref_t<S>> &&
-             !std::same_as<std::remove_cvref_t<S>, SliceRef>)
+             std::is_trivially_copyable_v<std::remove_cvref_t<S>>)
   // Non-owning views (pointers, string views, and literals) are trivially
   // copyable. These do not need lifetime annotation.
   // NOLINTNEXTLINE(google-explicit-constructor)
@@ -77,10 +77,10 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
                  std::string_view(str).size()) {}
 
   template <typename S>
-    requires(internal::ByteSliceTarget<T> &&
+    requires(!std::same_as<std::remove_cvref_t<S>, SliceRef> &&
+             internal::ByteSliceTarget<T> &&
              std::convertible_to<const S&, std::string_view> &&
-             !std::is_trivially_copyable_v<std::remove_cvref_t<S>> &&
-             !std::same_as<std::remove_cvref_t<S>, SliceRef>)
+             !std::is_trivially_copyable_v<std::remove_cvref_t<S>>)
   // Owning containers (like std::string) are not trivially copyable. These are
   // marked with CRUBIT_LIFETIME_BOUND to prevent temporaries from outliving the
   // SliceRef.
@@ -92,7 +92,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // Implicit conversion from views.
   template <typename View>
   // NOLINTNEXTLINE(build/c++20)
-    requires(std::ranges::view<std::decay_t<View>> &&
+    requires(!std::is_same_v<std::decay_t<View>, SliceRef> &&
+             std::ranges::view<std::decay_t<View>> &&
              std::convertible_to<View &&, std::span<T>> &&
              !std::is_same_v<std::decay_t<View>, std::span<T>>)
   // NOLINTNEXTLINE(google-explicit-constructor)
@@ -103,7 +104,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // std::span).
   template <typename View>
   // NOLINTNEXTLINE(build/c++20)
-    requires(std::ranges::view<std::decay_t<View>> &&
+    requires(!std::is_same_v<std::decay_t<View>, SliceRef> &&
+             std::ranges::view<std::decay_t<View>> &&
              std::constructible_from<std::span<T>, View &&> &&
              !std::convertible_to<View &&, std::span<T>> &&
              !std::is_same_v<std::decay_t<View>, std::span<T>>)
@@ -113,7 +115,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // Implicit conversion from non-view containers (only allowed if T is const).
   template <typename Container>
   // NOLINTNEXTLINE(build/c++20)
-    requires(!std::ranges::view<std::decay_t<Container>> &&
+    requires(!std::is_same_v<std::decay_t<Container>, SliceRef> &&
+             !std::ranges::view<std::decay_t<Container>> &&
              std::is_const_v<T> &&
              std::convertible_to<Container &&, std::span<T>>)
   // NOLINTNEXTLINE(google-explicit-constructor)
@@ -127,7 +130,8 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   // convertible to std::span.
   template <typename Container>
   // NOLINTNEXTLINE(build/c++20)
-    requires(!std::ranges::view<std::decay_t<Container>> &&
+    requires(!std::is_same_v<std::decay_t<Container>, SliceRef> &&
+             !std::ranges::view<std::decay_t<Container>> &&
              ((!std::is_const_v<T> &&
                std::constructible_from<std::span<T>, Container &&>) ||
               (std::is_const_v<T> &&
-- 
2.43.0


From 287eff8094426b891cd97c0873555e8afa8d712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 40/62] fix: omit zero-length arrays from the C++ fields like
 other zero-sized types

---
 .../generate_bindings/generate_struct_and_union.rs               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index e499daa..72d6602 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2452,6 +2452,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         #[rustversion::since(2026-05-13)]
         let ty = crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
         let size = get_layout(tcx, ty).map(|layout| layout.size().bytes())?;
+        ensure!(size != 0, "Zero-sized types (ZSTs) are not supported (b/258259459)");
 
         if is_bridged_type(self.db, ty).is_ok_and(|bridged_type| {
             bridged_type.is_some_and(|bridged_type| !bridged_type.is_layout_compatible())
-- 
2.43.0


From b48552613ba43f2fe4a9a47a5e2c28f07cc1417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 41/62] fix: don't construct C++ objects from returned
 transparent types which have drop glue

---
 cc_bindings_from_rs/generate_bindings/query_compiler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/query_compiler.rs b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
index 823b5ae..f1111ea 100644
--- a/cc_bindings_from_rs/generate_bindings/query_compiler.rs
+++ b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
@@ -89,6 +89,12 @@ pub fn is_c_abi_compatible_by_value<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'
                 // If our adt is not transparent, it is not abi compatible by value.
                 return false;
             }
+            if ty.needs_drop(tcx, ty::TypingEnv::fully_monomorphized()) {
+                // The C++ class has a non-trivial destructor, so that a value which is returned
+                // directly cannot initialize `*this` (and assigning it would drop the value that
+                // uninitialized memory happens to hold).
+                return false;
+            }
             let Some(field) = adt.all_fields().next() else {
                 // TODO: b/258259459 - Support zero sized types.
                 return false;
-- 
2.43.0


From 5e5dd92d7a84b408ce616aee9fd4d408090f2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 42/62] fix: move transparent types which are not Copy into
 thunks

---
 .../generate_bindings/generate_function.rs                | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index 678a2c8..a2ba1f3 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -213,7 +213,13 @@ pub(crate) fn cc_param_to_c_abi<'tcx>(
         includes.insert(code_gen_utils::CcInclude::utility());
         quote! { ::std::move(#cc_ident) }
     } else if is_c_abi_compatible_by_value(db, ty) {
-        quote! { #cc_ident }
+        if ty.is_adt() && !db.tcx().type_is_copy_modulo_regions(post_analysis_typing_env, ty) {
+            // There is no C++ copy constructor.
+            includes.insert(code_gen_utils::CcInclude::utility());
+            quote! { ::std::move(#cc_ident) }
+        } else {
+            quote! { #cc_ident }
+        }
     } else if let ty::TyKind::Tuple(tuple_tys) = ty.kind()
         && !db
             .crate_features(db.source_crate_num())
-- 
2.43.0


From 8e5fad7e760a82ad41c754294c1c2fb1228b6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 43/62] fix: return transparent types in tuples and arrays
 without a default constructor

---
 cc_bindings_from_rs/generate_bindings/generate_function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index a2ba1f3..cc0540a 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -386,7 +386,7 @@ fn cc_return_value_from_c_abi<'tcx>(
                 })
             }
         }
-    } else if is_c_abi_compatible_by_value(db, ty) {
+    } else if is_c_abi_compatible_by_value(db, ty) && !ty.is_adt() {
         let cc_type = &format_ty_for_cc_amending_prereqs(db, ty, prereqs)?;
         let local_name = &expect_format_cc_ident(&format!("__{ident}_ret_val_holder"));
         storage_statements.extend(quote! {
-- 
2.43.0


From 1aa326813a78b9a47c533df80b61b48c78ef30aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 44/62] fix: don't pass transparent types with opaque fields in
 floating point registers

---
 cc_bindings_from_rs/generate_bindings/query_compiler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/query_compiler.rs b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
index f1111ea..c4763d9 100644
--- a/cc_bindings_from_rs/generate_bindings/query_compiler.rs
+++ b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
@@ -36,7 +36,7 @@ use rustc_trait_selection::infer::InferCtxtExt;
 use std::collections::HashMap;
 use std::rc::Rc;
 
-use database::BindingsGenerator;
+use database::{BindingsGenerator, TypeLocation};
 
 /// Whether functions using `extern "C"` ABI can safely handle values of type
 /// `ty` (e.g. when passing by value arguments or return values of such type).
@@ -111,6 +111,10 @@ pub fn is_c_abi_compatible_by_value<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'
             if let ty::TyKind::Pat(pat_ty, _) = ty.kind() {
                 ty = *pat_ty;
             }
+            if ty.is_adt() && db.format_ty_for_cc(ty, TypeLocation::Field).is_err() {
+                // The C++ field is an opaque blob of bytes, which isn't passed like a `float`.
+                return false;
+            }
             is_c_abi_compatible_by_value(db, ty)
         }
         ty::TyKind::Pat { .. } | ty::TyKind::Coroutine { .. } |
-- 
2.43.0


From 79a1336d382f0f6c6444deeaf2f01916d60be8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 45/62] fix: pass a transparent type like its field which isn't
 zero-sized

---
 .../generate_bindings/query_compiler.rs          | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/query_compiler.rs b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
index c4763d9..ee27638 100644
--- a/cc_bindings_from_rs/generate_bindings/query_compiler.rs
+++ b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
@@ -95,14 +95,20 @@ pub fn is_c_abi_compatible_by_value<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'
                 // uninitialized memory happens to hold).
                 return false;
             }
-            let Some(field) = adt.all_fields().next() else {
+            let field_types = adt.all_fields().map(|field| {
+                #[rustversion::before(2026-04-19)]
+                let ty = tcx.type_of(field.did).instantiate(tcx, substs);
+                #[rustversion::since(2026-04-19)]
+                let ty = tcx.type_of(field.did).instantiate(tcx, substs).skip_normalization();
+                ty
+            });
+            // At most one field isn't zero-sized, and that is the one which is passed.
+            let mut field_types = field_types
+                .filter(|ty| get_layout(tcx, *ty).map(|layout| !layout.is_zst()).unwrap_or(true));
+            let Some(mut ty) = field_types.next() else {
                 // TODO: b/258259459 - Support zero sized types.
                 return false;
             };
-            #[rustversion::before(2026-04-19)]
-            let mut ty = tcx.type_of(field.did).instantiate(tcx, substs);
-            #[rustversion::since(2026-04-19)]
-            let mut ty = tcx.type_of(field.did).instantiate(tcx, substs).skip_normalization();
 
             // Pattern types can be considered by value when they're embedded within an ADT.
             // We dont' want to do that for pattern types at large because they might mean they're
-- 
2.43.0


From 4b500c05053c4e94b93bfc4039306721d6b28492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 46/62] fix: pack pointers to slices in the C++ fields of
 packed structs

---
 .../generate_bindings/generate_struct_and_union.rs         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 72d6602..eca8ceb 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2564,7 +2564,12 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         if self.is_packed()
             && matches!(
                 ty.kind(),
-                ty::Adt(..) | ty::Array(..) | ty::Tuple(..) | ty::Char | ty::Ref(..)
+                ty::Adt(..)
+                    | ty::Array(..)
+                    | ty::Tuple(..)
+                    | ty::Char
+                    | ty::RawPtr(..)
+                    | ty::Ref(..)
             )
         {
             quote! { __attribute__((packed)) }
-- 
2.43.0


From a82cc6e20ca1f34e63e14cc52e2ddbceecd87699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 47/62] fix: give the futures of async functions an output type
 with Rust's layout

---
 .../generate_bindings/generate_function.rs    | 24 +++++++++++++++----
 .../generate_function_thunk.rs                | 10 ++++----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index cc0540a..2549bb9 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -717,7 +717,7 @@ pub(crate) fn generate_thunk_call<'tcx>(
 
     let return_body = if is_async {
         let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } =
-            db.format_ty_for_cc(rs_return_type, TypeLocation::FnReturn { is_constructor: false })?;
+            format_async_output_ty_for_cc(db, rs_return_type)?;
         prereqs += ret_prereqs;
         let local_name = expect_format_cc_ident("__return_value_ret_val_holder");
         prereqs.includes.insert(CcInclude::utility()); // for `std::move`
@@ -945,10 +945,8 @@ pub fn generate_function<'tcx>(
 
     let mut main_api_prereqs = CcPrerequisites::default();
     let main_api_ret_type = if is_async {
-        let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } = db.format_ty_for_cc(
-            actual_rs_return_type,
-            TypeLocation::FnReturn { is_constructor: false },
-        )?;
+        let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } =
+            format_async_output_ty_for_cc(db, actual_rs_return_type)?;
         main_api_prereqs += ret_prereqs;
         main_api_prereqs.includes.insert(db.support_header("rs_std/dyn_erased_future.h"));
         quote! { ::crubit::DynErasedFuture<#cc_ret_ty> }
@@ -1259,6 +1257,22 @@ pub fn check_fn_sig(sig: &ty::FnSig) -> Result<()> {
     Ok(())
 }
 
+/// Formats the `T` of the `DynErasedFuture<T>` which is returned by an async function.
+///
+/// The future writes its Rust output to a `T*`. Therefore `T` has to have the layout of the Rust type
+/// (unlike, say, `std::tuple`), and it can't be a C++ reference.
+pub fn format_async_output_ty_for_cc<'tcx>(
+    db: &BindingsGenerator<'tcx>,
+    output_ty: Ty<'tcx>,
+) -> Result<CcSnippet<'tcx>> {
+    let location = match output_ty.kind() {
+        ty::TyKind::Tuple(types) if !types.is_empty() => TypeLocation::Other,
+        ty::TyKind::Ref(..) | ty::TyKind::FnPtr(..) => TypeLocation::Other,
+        _ => TypeLocation::FnReturn { is_constructor: false },
+    };
+    db.format_ty_for_cc(output_ty, location)
+}
+
 /// If `rs_return_type` represents an async future desugared type, extracts and returns its `Output` type.
 pub fn get_async_future_output_ty<'tcx>(
     tcx: TyCtxt<'tcx>,
diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index d53f0b6..6ad88ba 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -2,7 +2,9 @@
 // Exceptions. See /LICENSE for license information.
 // SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 
-use crate::generate_function::{fn_arg_idents, get_async_future_output_ty};
+use crate::generate_function::{
+    fn_arg_idents, format_async_output_ty_for_cc, get_async_future_output_ty,
+};
 use crate::{
     does_type_implement_trait, format_cc_ident, format_param_types_for_cc_thunk, is_bridged_type,
     is_c_abi_compatible_by_value, liberate_and_deanonymize_late_bound_regions, BridgedBuiltin,
@@ -121,7 +123,7 @@ pub fn generate_thunk_decl<'tcx>(
     };
     let main_api_ret_type = if is_async {
         let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } =
-            db.format_ty_for_cc(actual_output_ty, TypeLocation::FnReturn { is_constructor })?;
+            format_async_output_ty_for_cc(db, actual_output_ty)?;
         prereqs += ret_prereqs;
         prereqs.includes.insert(db.support_header("rs_std/dyn_erased_future.h"));
         quote! { ::crubit::DynErasedFuture<#cc_ret_ty> }
@@ -187,9 +189,7 @@ pub fn generate_thunk_decl<'tcx>(
     // We should centralize this logic so that the order exists in a singular location used by both
     // places.
     let thunk_ret_type = if is_async {
-        let cc_ret_ty = db
-            .format_ty_for_cc(actual_output_ty, TypeLocation::FnReturn { is_constructor })?
-            .tokens;
+        let cc_ret_ty = format_async_output_ty_for_cc(db, actual_output_ty)?.tokens;
         thunk_params.push(quote! { ::crubit::DynErasedFuture<#cc_ret_ty>* __ret_ptr });
         quote! { void }
     } else if is_constructor && is_bridged_layout_compat_type(db, sig_mid.output()) {
-- 
2.43.0


From 7f38aa79be25b86effbf136d6ddaa17a6ccb39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:25 +0000
Subject: [PATCH 48/62] fix: don't synthesize constructors which initialize
 omitted zero-sized fields

---
 .../generate_bindings/generate_struct_and_union.rs           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index eca8ceb..c604794 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2000,6 +2000,11 @@ fn generate_variant_ctor<'tcx>(
             #[rustversion::since(2026-05-13)]
             let ty = crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
 
+            if adt_def.is_struct() && get_layout(tcx, ty)?.size().bytes() == 0 {
+                // There is no C++ field that the constructor could initialize.
+                bail!("Field `{}` is zero-sized", field_def.name)
+            }
+
             let is_default =
                 query_compiler::does_type_implement_trait(tcx, ty, default_trait_id, []);
             let is_clone = query_compiler::does_type_implement_trait(tcx, ty, clone_trait_id, []);
-- 
2.43.0


From b464ab78aae46b2392a6d2ec6845388f84b6f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 49/62] fix: don't make constructors of enums constexpr if
 fields have types of Crubit's C++ library

---
 .../generate_bindings/generate_struct_and_union.rs  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index c604794..01e1197 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1935,6 +1935,19 @@ fn is_literal_type_in_cc<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'tcx>) -> bo
     match ty.kind() {
         ty::TyKind::Array(element_ty, _) => is_literal_type_in_cc(db, *element_ty),
         ty::TyKind::Tuple(element_tys) => element_tys.is_empty(),
+        // `rs_std::char_`, `rs_std::StrRef` and `rs_std::SliceRef` have default constructors which
+        // are not trivial.
+        ty::TyKind::Char => false,
+        ty::TyKind::Ref(_, pointee, _) | ty::TyKind::RawPtr(pointee, _) => {
+            !matches!(pointee.kind(), ty::TyKind::Slice(_) | ty::TyKind::Str)
+        }
+        // Types from outside of the generated bindings, e.g. `rs_std::Result`.
+        ty::TyKind::Adt(adt, _)
+            if BridgedBuiltin::new(db, *adt).is_some()
+                || !matches!(is_bridged_type(db, ty), Ok(None)) =>
+        {
+            false
+        }
         ty::TyKind::Adt(adt, generic_args) => {
             let is_literal_variant = |variant: &ty::VariantDef| {
                 variant.fields.iter().all(|field_def| {
-- 
2.43.0


From bd4be9f9b893c816f4c364e1787954c63e4effd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 50/62] fix: don't make types with a constructor from slices
 check themselves recursively

SliceRef's constructors from views and containers asked whether a type is a
std::ranges::view, and so whether it is movable, before anything else. For the
bindings of an iterator which implements From<&[T]> this depends on itself.
---
 support/rs_std/slice_ref.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index 57e9b44..cae9d11 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -89,13 +89,18 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
       : SliceRef(reinterpret_cast<T*>(std::string_view(str).data()),
                  std::string_view(str).size()) {}
 
+  // The following constructors only look at whether a type is a view once it is
+  // known to be convertible to `std::span`: `std::ranges::view` asks whether the
+  // type is movable, which for types with a constructor taking a `SliceRef` asks
+  // for these constructors again.
+
   // Implicit conversion from views.
   template <typename View>
   // NOLINTNEXTLINE(build/c++20)
     requires(!std::is_same_v<std::decay_t<View>, SliceRef> &&
-             std::ranges::view<std::decay_t<View>> &&
              std::convertible_to<View &&, std::span<T>> &&
-             !std::is_same_v<std::decay_t<View>, std::span<T>>)
+             !std::is_same_v<std::decay_t<View>, std::span<T>> &&
+             std::ranges::view<std::decay_t<View>>)
   // NOLINTNEXTLINE(google-explicit-constructor)
   constexpr SliceRef(View&& view) noexcept
       : SliceRef(static_cast<std::span<T>>(std::forward<View>(view))) {}
@@ -105,10 +110,10 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   template <typename View>
   // NOLINTNEXTLINE(build/c++20)
     requires(!std::is_same_v<std::decay_t<View>, SliceRef> &&
-             std::ranges::view<std::decay_t<View>> &&
              std::constructible_from<std::span<T>, View &&> &&
              !std::convertible_to<View &&, std::span<T>> &&
-             !std::is_same_v<std::decay_t<View>, std::span<T>>)
+             !std::is_same_v<std::decay_t<View>, std::span<T>> &&
+             std::ranges::view<std::decay_t<View>>)
   constexpr explicit SliceRef(View&& view) noexcept
       : SliceRef(std::span<T>(std::forward<View>(view))) {}
 
@@ -116,9 +121,9 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   template <typename Container>
   // NOLINTNEXTLINE(build/c++20)
     requires(!std::is_same_v<std::decay_t<Container>, SliceRef> &&
-             !std::ranges::view<std::decay_t<Container>> &&
              std::is_const_v<T> &&
-             std::convertible_to<Container &&, std::span<T>>)
+             std::convertible_to<Container &&, std::span<T>> &&
+             !std::ranges::view<std::decay_t<Container>>)
   // NOLINTNEXTLINE(google-explicit-constructor)
   constexpr SliceRef(Container&& container CRUBIT_LIFETIME_BOUND) noexcept
       : SliceRef(
@@ -131,12 +136,12 @@ class CRUBIT_INTERNAL_RUST_TYPE("&[]", T) CRUBIT_TRIVIAL_ABI CRUBIT_VIEW
   template <typename Container>
   // NOLINTNEXTLINE(build/c++20)
     requires(!std::is_same_v<std::decay_t<Container>, SliceRef> &&
-             !std::ranges::view<std::decay_t<Container>> &&
              ((!std::is_const_v<T> &&
                std::constructible_from<std::span<T>, Container &&>) ||
               (std::is_const_v<T> &&
                std::constructible_from<std::span<T>, Container &&> &&
-               !std::convertible_to<Container &&, std::span<T>>)))
+               !std::convertible_to<Container &&, std::span<T>>)) &&
+             !std::ranges::view<std::decay_t<Container>>)
   constexpr explicit SliceRef(
       Container&& container CRUBIT_LIFETIME_BOUND) noexcept
       : SliceRef(std::span<T>(std::forward<Container>(container))) {}
-- 
2.43.0


From 090119508d67495a2c3e179adf51f3532dc68a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:21 +0000
Subject: [PATCH 51/62] fix: name the traits of the standard library in Rust
 when their crates have no bindings

---
 .../generate_bindings/generate_function.rs    |  8 ++----
 .../generate_function_thunk.rs                | 28 +++++++++++++++----
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index 2549bb9..eadbedf 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -9,7 +9,8 @@ use crate::format_type::{
 use crate::generate_doc_comment;
 use crate::format_type::is_cpp_thread_safe;
 use crate::generate_function_thunk::{
-    generate_thunk_decl, generate_thunk_impl, is_thunk_required, make_thunk_name, ThunkKind,
+    format_trait_path_for_rs, generate_thunk_decl, generate_thunk_impl, is_thunk_required,
+    make_thunk_name, ThunkKind,
 };
 use crate::{
     format_param_types_for_cc_api, format_region_as_cc_lifetime, format_ret_ty_for_cc,
@@ -822,10 +823,7 @@ fn format_trait_ref_for_rs<'tcx>(
     db: &BindingsGenerator<'tcx>,
     trait_ref: &TraitRef<'tcx>,
 ) -> Result<TokenStream> {
-    let trait_name = db
-        .symbol_canonical_name(trait_ref.def_id)
-        .map(|fully_qualified_name| fully_qualified_name.format_for_rs())
-        .expect("Generated trait method for a trait with an invalid rs name");
+    let trait_name = format_trait_path_for_rs(db, trait_ref.def_id)?;
     let mut trait_args = trait_ref.args[1..].iter().filter_map(|arg| arg.as_type()).peekable();
     if trait_args.peek().is_none() {
         Ok(quote! { #trait_name })
diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index 6ad88ba..c7ea821 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -719,6 +719,27 @@ pub struct TraitThunks<'tcx> {
     pub rs_thunk_impls: RsSnippet,
 }
 
+/// Formats the path of a trait for use in Rust code.
+///
+/// The traits of the standard library have a path even if the crates which define them have no
+/// bindings.
+pub fn format_trait_path_for_rs(
+    db: &BindingsGenerator<'_>,
+    trait_id: DefId,
+) -> Result<TokenStream> {
+    if let Some(canonical_name) = db.symbol_canonical_name(trait_id) {
+        return Ok(canonical_name.format_for_rs());
+    }
+    let tcx = db.tcx();
+    let path = tcx.def_path_str(trait_id);
+    ensure!(
+        matches!(tcx.crate_name(trait_id.krate).as_str(), "core" | "alloc" | "std"),
+        "Failed to get canonical name for {path}"
+    );
+    let path = path.split("::").map(make_rs_ident);
+    Ok(quote! { #( ::#path )* })
+}
+
 #[allow(clippy::too_many_arguments)]
 pub fn generate_trait_thunks<'tcx>(
     db: &BindingsGenerator<'tcx>,
@@ -843,12 +864,7 @@ pub fn generate_trait_thunks<'tcx>(
                 }
             })
         } else {
-            let fully_qualified_trait_name = db
-                .symbol_canonical_name(trait_id)
-                .ok_or_else(|| {
-                    anyhow!("Failed to get canonical name for {}", tcx.def_path_str(trait_id))
-                })?
-                .format_for_rs();
+            let fully_qualified_trait_name = format_trait_path_for_rs(db, trait_id)?;
             let method_name = make_rs_ident(method.name().as_str());
             let args = type_args
                 .iter()
-- 
2.43.0


From 86d4322188709a7342b08514cb1b8f2ae773fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:58 +0000
Subject: [PATCH 52/62] fix: leave out functions whose tuple or array
 parameters hold values which C++ cannot move

---
 .../generate_function_thunk.rs                | 52 +++++++++++++------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index c7ea821..fdb0f01 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -104,6 +104,40 @@ fn array_c_abi_c_type<'tcx>(tcx: TyCtxt<'tcx>, inner_ty: Ty<'tcx>) -> Result<Tok
     }
 }
 
+/// Checks that a parameter (and each value inside of it) can be moved by C++.
+fn ensure_movable_param<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'tcx>) -> Result<()> {
+    match ty.kind() {
+        ty::TyKind::Tuple(tys) => {
+            return tys.iter().try_for_each(|ty| ensure_movable_param(db, ty));
+        }
+        ty::TyKind::Array(inner_ty, _) => return ensure_movable_param(db, *inner_ty),
+        _ => (),
+    }
+    let Some(adt_def) = ty.ty_adt_def() else { return Ok(()) };
+    if is_bridged_type(db, ty)?.is_some() || is_c_abi_compatible_by_value(db, ty) {
+        return Ok(());
+    }
+    // If the type is a standard template specialization (like Option or Result)
+    // from the external `core` library, passing the generic `Option` DefId causes
+    // the compiler to try to analyze the layout of `Option<T>`, which fails because `T`
+    // does not have a fixed layout. Passing `None` forces the query to fall back to
+    // a fully monomorphized typing environment to layout the concrete type (e.g., `Option<i32>`).
+    let always_specialize_generics = db
+        .crate_features(db.source_crate_num())
+        .contains(crubit_feature::CrubitFeature::AlwaysSpecializeGenericsInCppApiFromRust);
+    let def_id = if always_specialize_generics
+        && db.parse_rs_std_template_specialization(ty).is_some()
+    {
+        None
+    } else {
+        Some(adt_def.did())
+    };
+    db.has_move_ctor_and_assignment_operator(def_id, ty).ok_or_else(|| {
+        anyhow!("Can't pass type `{ty}` by value without a move constructor. See crubit.rs/rust/movable_types for what types are C++ movable.")
+    })?;
+    Ok(())
+}
+
 /// Formats a C++ declaration of a C-ABI-compatible-function wrapper around a Rust function.
 pub fn generate_thunk_decl<'tcx>(
     db: &BindingsGenerator<'tcx>,
@@ -140,6 +174,7 @@ pub fn generate_thunk_decl<'tcx>(
             .iter()
             .zip(cpp_types)
             .map(|(&ty, cpp_type)| -> Result<TokenStream> {
+                ensure_movable_param(db, ty)?;
                 let cpp_type = cpp_type.snippet.into_tokens(&mut prereqs);
                 let bridged_type_opt = is_bridged_type(db, ty)?;
                 if let Some(bridged_type) = bridged_type_opt {
@@ -160,23 +195,6 @@ pub fn generate_thunk_decl<'tcx>(
                     Ok(tuple_abi)
                 } else if let ty::TyKind::Array(inner_ty, _) = ty.kind() {
                     array_c_abi_c_type(db.tcx(), *inner_ty)
-                } else if let Some(adt_def) = ty.ty_adt_def() {
-                    // If the type is a standard template specialization (like Option or Result)
-                    // from the external `core` library, passing the generic `Option` DefId causes
-                    // the compiler to try to analyze the layout of `Option<T>`, which fails because `T`
-                    // does not have a fixed layout. Passing `None` forces the query to fall back to
-                    // a fully monomorphized typing environment to layout the concrete type (e.g., `Option<i32>`).
-                    let always_specialize_generics = db.crate_features(db.source_crate_num())
-                        .contains(crubit_feature::CrubitFeature::AlwaysSpecializeGenericsInCppApiFromRust);
-                    let def_id = if always_specialize_generics && db.parse_rs_std_template_specialization(ty).is_some() {
-                        None
-                    } else {
-                        Some(adt_def.did())
-                    };
-                    db.has_move_ctor_and_assignment_operator(def_id, ty).ok_or_else(|| {
-                        anyhow!("Can't pass type `{ty}` by value without a move constructor. See crubit.rs/rust/movable_types for what types are C++ movable.")
-                    })?;
-                    Ok(quote! { #cpp_type* })
                 } else {
                     Ok(quote! { #cpp_type* })
                 }
-- 
2.43.0


From fd19744c9b4b0c49319610cf4c9bf54322c49475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:54 +0000
Subject: [PATCH 53/62] fix: check references to c_void for mutable aliasing

---
 support/internal/check_no_mutable_aliasing.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/support/internal/check_no_mutable_aliasing.h b/support/internal/check_no_mutable_aliasing.h
index 87e047f..3b58298 100644
--- a/support/internal/check_no_mutable_aliasing.h
+++ b/support/internal/check_no_mutable_aliasing.h
@@ -20,6 +20,15 @@ struct PtrData {
   uintptr_t end;
 };
 
+// The size of the data behind a pointer or reference to `T`. (Rust's `c_void`,
+// which is `void` in C++, is a type of one byte.)
+template <typename T>
+inline constexpr uintptr_t kPointeeSize = sizeof(T);
+template <>
+inline constexpr uintptr_t kPointeeSize<void> = 1;
+template <>
+inline constexpr uintptr_t kPointeeSize<const void> = 1;
+
 // Typeclass for types that are pointer-like. Specifically, C++ types that may
 // to a Rust reference should specialize this template to add `kIsConst` and
 // `AsPtrData` functionality.
@@ -38,7 +47,7 @@ struct PtrLike<T*> {
     uintptr_t start = reinterpret_cast<uintptr_t>(t);
     return {
         .start = start,
-        .end = start + sizeof(T),
+        .end = start + kPointeeSize<T>,
     };
   }
 };
@@ -50,7 +59,7 @@ struct PtrLike<T&> {
     uintptr_t start = reinterpret_cast<uintptr_t>(&t);
     return {
         .start = start,
-        .end = start + sizeof(T),
+        .end = start + kPointeeSize<T>,
     };
   }
 };
-- 
2.43.0


From 16ba40a5bfb2024c229feef91b4dcd169aff3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 54/62] fix: don't treat generic function pointers in template
 arguments as ones with static lifetimes

---
 .../generate_template_specialization.rs       | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index 07f5720..2ae6b96 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -52,10 +52,13 @@ pub(crate) fn parse_rs_std_template_specialization<'tcx>(
     let unnorm_ty = self_ty;
     #[rustversion::since(2026-04-22)]
     let unnorm_ty = Unnormalized::new(self_ty);
-    let self_ty = replace_all_regions_with_static(
-        tcx,
-        tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), unnorm_ty),
-    );
+    let self_ty = tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), unnorm_ty);
+    // Replacing the regions would turn function pointers which are generic over a lifetime into
+    // ones of a different type.
+    let has_generic_fn_ptr = self_ty.walk().filter_map(|arg| arg.as_type()).any(|ty| {
+        matches!(ty.kind(), ty::TyKind::FnPtr(..)) && ty.fn_sig(tcx).no_bound_vars().is_none()
+    });
+    let self_ty = replace_all_regions_with_static(tcx, self_ty);
     // If our specialization contains a status type from additional srcs, we should not generate a
     // specialization for it.
     if self_ty.walk().any(|arg| {
@@ -66,7 +69,7 @@ pub(crate) fn parse_rs_std_template_specialization<'tcx>(
         return None;
     }
 
-    match self_ty.kind() {
+    let specialization = match self_ty.kind() {
         ty::TyKind::Adt(adt, substs) => {
             parse_adt_template_specialization(db, self_ty, *adt, substs)
         }
@@ -74,7 +77,14 @@ pub(crate) fn parse_rs_std_template_specialization<'tcx>(
             parse_tuple_template_specialization(db, self_ty, types)
         }
         _ => None,
-    }
+    };
+    specialization.map(|specialization| {
+        ensure!(
+            !has_generic_fn_ptr,
+            "Generic function pointers are not supported yet (b/259749023)"
+        );
+        specialization
+    })
 }
 
 fn parse_unit_in_specialization<'tcx>(
-- 
2.43.0


From 519fa9f69d28f6ede53787028912323d22ccea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 55/62] fix: write f64 constants as double literals

A literal with the suffix L is rounded to long double first and then again to
double, so that some constants had a neighbouring value in C++.
---
 .../generate_bindings/generate_struct_and_union.rs              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 01e1197..bdf24c6 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -148,7 +148,7 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         TyKind::Float(F64) => {
             let value = f64::from_bits(scalar.to_u64());
             ensure!(value.is_finite(), "Non-finite constants are not supported: {value}");
-            format!("{value:?}L")
+            format!("{value:?}")
         }
         TyKind::Uint(Usize) => format!("UINT64_C({})", scalar.to_target_usize(tcx)),
 
-- 
2.43.0


From 7b6b8053cc1b646eaa0d221a76b01e62200dd775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 56/62] fix: keep names of associated types and kIsImplemented
 distinct from other members of impls

An associated type and a method (or constant) of the same name, or a member
named kIsImplemented, made a specialization of rs_std::impl which C++ rejects.
---
 .../generate_bindings/generate_struct_and_union.rs          | 6 +++++-
 .../generate_bindings/generate_template_specialization.rs   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index bdf24c6..510658a 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -423,6 +423,7 @@ pub(crate) fn generate_associated_item<'tcx>(
                 .zip(tcx.trait_impl_of_assoc(def_id))
                 .ok_or(anyhow!("Associated types with no name are not supported."))
                 .and_then(|(name, impl_id)| {
+                    let cpp_name = claim_member_name(db, def_id, member_function_names)?;
                     #[rustversion::before(2026-04-19)]
                     let trait_ref = tcx.impl_trait_header(impl_id).trait_ref.instantiate_identity();
                     #[rustversion::since(2026-04-19)]
@@ -457,7 +458,10 @@ pub(crate) fn generate_associated_item<'tcx>(
                         name.as_str(),
                         alias_type,
                     )
-                    .map(|snippet| snippet.into_main_api())
+                    .map(|snippet| {
+                        member_function_names.insert(cpp_name);
+                        snippet.into_main_api()
+                    })
                 })
         }
     };
diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index 2ae6b96..cc946cd 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -1822,7 +1822,7 @@ fn generate_trait_impl_specialization<'tcx>(
         add_specialization_prereqs(db, &mut prereqs, adt.did())?;
     }
 
-    let mut member_function_names = HashSet::new();
+    let mut member_function_names = HashSet::from(["kIsImplemented".to_string()]);
     let assoc_items: ApiSnippets = tcx
         .associated_items(impl_def_id)
         .in_definition_order()
-- 
2.43.0


From 1e92d9ddbdb8bcb11d3e44ae34ef75f56f4021cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 57/62] fix: don't bind two operators or conversions whose
 arguments have the same C++ type

Impls for e.g. `&'static u8` and `*const u8`, or for a safe and an unsafe
function pointer, were bound to the same C++ overload, so that the bindings
didn't compile.  PartialOrd impls for types like usize and u64 didn't either.
---
 .../avoid_colliding_types.rs                  | 43 +++++++++-
 .../generate_bindings/format_type.rs          |  4 +-
 .../generate_struct_and_union.rs              | 81 ++++++++++++++++---
 3 files changed, 114 insertions(+), 14 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs b/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs
index 2504423..abd18c7 100644
--- a/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs
+++ b/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs
@@ -2,9 +2,11 @@
 // Exceptions. See /LICENSE for license information.
 // SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 
+extern crate rustc_hir;
 extern crate rustc_middle;
 
-use rustc_middle::ty::{self, Ty, TyCtxt}; // See also <internal link>/ty.html#import-convention
+use rustc_hir::Safety;
+use rustc_middle::ty::{self, Ty, TyCtxt, TypeFoldable, TypeFolder, TypeSuperFoldable}; // See also <internal link>/ty.html#import-convention
 use std::collections::HashSet;
 
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -59,6 +61,45 @@ pub trait AvoidCollidingTypes<'tcx, T: 'tcx>: Iterator<Item = T> {
 
 impl<'tcx, T: 'tcx, I> AvoidCollidingTypes<'tcx, T> for I where I: Iterator<Item = T> {}
 
+/// Erases what Rust's types have but their C++ counterparts don't: lifetimes, the difference between
+/// references and raw pointers, and the safety of functions.  Different types which are the same once
+/// erased (e.g. `&'static u8` and `*const u8`) have the same C++ type.
+pub fn erase_cpp_indistinct<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> Ty<'tcx> {
+    struct Eraser<'tcx>(TyCtxt<'tcx>);
+
+    impl<'tcx> TypeFolder<TyCtxt<'tcx>> for Eraser<'tcx> {
+        fn cx(&self) -> TyCtxt<'tcx> {
+            self.0
+        }
+
+        fn fold_ty(&mut self, ty: Ty<'tcx>) -> Ty<'tcx> {
+            match ty.kind() {
+                ty::TyKind::Ref(_, referent, mutability) => {
+                    Ty::new_ptr(self.0, referent.fold_with(self), *mutability)
+                }
+                ty::TyKind::FnPtr(..) => {
+                    let sig = self.0.instantiate_bound_regions_with_erased(ty.fn_sig(self.0));
+                    #[rustversion::before(2026-04-19)]
+                    let sig = ty::FnSig { safety: Safety::Safe, ..sig };
+                    #[rustversion::since(2026-04-19)]
+                    let sig = ty::FnSig {
+                        fn_sig_kind: sig.fn_sig_kind.set_safety(Safety::Safe),
+                        ..sig
+                    };
+                    Ty::new_fn_ptr(self.0, ty::Binder::dummy(sig)).super_fold_with(self)
+                }
+                _ => ty.super_fold_with(self),
+            }
+        }
+
+        fn fold_region(&mut self, _: ty::Region<'tcx>) -> ty::Region<'tcx> {
+            self.0.lifetimes.re_erased
+        }
+    }
+
+    ty.fold_with(&mut Eraser(tcx))
+}
+
 /// Returns a type that should be preferred over `ty` (if both are present in the input
 /// to `avoid_colliding_types`).
 ///
diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index d9ac479..66145ec 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -874,12 +874,12 @@ pub(crate) fn alias_ty_as_opaque_def_id<'tcx>(
     (tcx.def_kind(def_id) == rustc_hir::def::DefKind::OpaqueTy).then_some(def_id)
 }
 
-enum RefConvert {
+pub(crate) enum RefConvert {
     ToPtr { is_lifetime_bound: bool },
     ToRef,
 }
 
-fn treat_ref_as_ptr<'tcx>(
+pub(crate) fn treat_ref_as_ptr<'tcx>(
     tcx: TyCtxt<'tcx>,
     ty: ty::Ty<'tcx>,
     location: TypeLocation,
diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 510658a..c1c8dfb 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -7,9 +7,11 @@ extern crate rustc_hir;
 extern crate rustc_middle;
 extern crate rustc_span;
 
-use crate::avoid_colliding_types::{AvoidCollidingTypes, TypeCollisionRisk};
+use crate::avoid_colliding_types::{
+    erase_cpp_indistinct, AvoidCollidingTypes, TypeCollisionRisk,
+};
 use crate::format_cc_ident;
-use crate::format_type::CcParamTy;
+use crate::format_type::{treat_ref_as_ptr, CcParamTy, RefConvert};
 use crate::generate_doc_comment;
 use crate::generate_function::{
     cc_param_to_c_abi, format_variant_ctor_cc_name, generate_thunk_call, Param, ThunkSelfParameter,
@@ -555,6 +557,31 @@ pub fn into_trait_impls_by_destination<'tcx>(
     Rc::new(map)
 }
 
+/// Fails if C++ can't tell `ty` from one of the types `seen` before.  E.g. `&'static u8` and
+/// `*const u8` are both pointers in C++, which can't have overloads for each of them.
+fn ensure_distinct_in_cpp<'tcx>(
+    tcx: TyCtxt<'tcx>,
+    seen: &mut HashMap<Ty<'tcx>, Ty<'tcx>>,
+    ty: Ty<'tcx>,
+    location: TypeLocation,
+) -> Result<()> {
+    let cpp_ty = match ty.kind() {
+        // C++ references differ from pointers.
+        ty::TyKind::Ref(_, referent, mutability)
+            if !referent.is_slice()
+                && !referent.is_str()
+                && matches!(treat_ref_as_ptr(tcx, ty, location), RefConvert::ToRef) =>
+        {
+            let referent = erase_cpp_indistinct(tcx, *referent);
+            Ty::new_ref(tcx, tcx.lifetimes.re_erased, referent, *mutability)
+        }
+        _ => erase_cpp_indistinct(tcx, ty),
+    };
+    let other = *seen.entry(cpp_ty).or_insert(ty);
+    ensure!(other == ty, "`{ty}` is not supported when `{other}` is, as both have the same C++ type");
+    Ok(())
+}
+
 fn generate_into_impls<'tcx>(
     db: &BindingsGenerator<'tcx>,
     core: &AdtCoreBindings<'tcx>,
@@ -607,6 +634,7 @@ fn generate_into_impls<'tcx>(
             Some((into_middle_ty, cc_ty, into_impl_id))
         });
 
+    let mut seen_types = HashMap::new();
     from_impls
         .chain(into_impls)
         .avoid_colliding_types(tcx, |(middle_ty, _, _)| *middle_ty)
@@ -624,6 +652,10 @@ fn generate_into_impls<'tcx>(
             };
             let mut prereqs = CcPrerequisites::default();
             let cc_ty = cc_ty.into_tokens(&mut prereqs);
+            let location = TypeLocation::FnReturn { is_constructor: false };
+            if let Err(err) = ensure_distinct_in_cpp(tcx, &mut seen_types, middle_ty, location) {
+                return Some(generate_unsupported_def(db, def_id, err).into_main_api());
+            }
 
             // Delay converting this type until we've successfully generated the thunks.
             // We generate thunks for `into` here. This relies on the blanket impls of for `Into` in the stdlib to work.
@@ -806,6 +838,7 @@ fn generate_constructor_impls<'tcx>(
         );
 
     // Avoid collisions in cases where types may map to the same underlying C++ type.
+    let mut seen_types = HashMap::new();
     from_impls
         .chain(into_impls)
         .avoid_colliding_types(tcx, |(src_ty, _, _, _)| *src_ty)
@@ -828,6 +861,11 @@ fn generate_constructor_impls<'tcx>(
             };
             let mut prereqs = CcPrerequisites::default();
             let cc_ty = cc_ty.into_tokens(&mut prereqs);
+            let location =
+                TypeLocation::FnParam { is_self_param: false, elided_is_output: false };
+            if let Err(err) = ensure_distinct_in_cpp(tcx, &mut seen_types, src_ty, location) {
+                return Some(generate_unsupported_def(db, impl_id, err).into_main_api());
+            }
             // Generate thunk names, declarations, and implementations.
             // `From` and `Into` are handled differently Self is different for both
             let (thunk_name, cc_thunk_decls, rs_details) = if is_from {
@@ -982,6 +1020,14 @@ fn generate_trait_operator_impls<'tcx>(
                              operator_name: &'static str|
      -> Vec<ApiSnippets<'_>> {
         let trait_name = tcx.item_name(trait_def_id).to_string();
+        // Results of `operator[]` borrow, and the parameter of `operator==` is a reference to the
+        // argument of the trait.
+        let arg_location = match operator_name {
+            "operator[]" => TypeLocation::FnParam { is_self_param: false, elided_is_output: true },
+            "operator==" => TypeLocation::Other,
+            _ => TypeLocation::FnParam { is_self_param: false, elided_is_output: false },
+        };
+        let mut seen_types = HashMap::new();
 
         tcx.non_blanket_impls_for_ty(trait_def_id, core.common.self_ty)
             .map(|impl_id| {
@@ -1015,6 +1061,8 @@ fn generate_trait_operator_impls<'tcx>(
                         );
                         return Err((err, impl_id));
                     }
+                    ensure_distinct_in_cpp(tcx, &mut seen_types, trait_arg_ty, arg_location)
+                        .map_err(|err| (err, impl_id))?;
 
                     let assoc_fn_id = tcx
                         .associated_items(impl_id)
@@ -1196,16 +1244,27 @@ fn generate_ord_and_partialord_impls<'tcx>(
         ord_rhs_types.insert(erase_regions(tcx, core.common.self_ty));
     }
 
-    for impl_id in tcx.non_blanket_impls_for_ty(partial_ord_trait_id, core.common.self_ty) {
-        let trait_ref = get_trait_ref_from_impl_id(tcx, impl_id);
-        let rhs_ty = trait_ref.args.type_at(1);
-        let erased_rhs_ty = erase_regions(tcx, rhs_ty);
-
-        if ord_rhs_types.contains(&erased_rhs_ty) {
-            continue;
-        }
+    let partial_ord_impls = tcx
+        .non_blanket_impls_for_ty(partial_ord_trait_id, core.common.self_ty)
+        .map(|impl_id| (impl_id, get_trait_ref_from_impl_id(tcx, impl_id).args.type_at(1)))
+        .filter(|(_, rhs_ty)| !ord_rhs_types.contains(&erase_regions(tcx, *rhs_ty)))
+        .avoid_colliding_types(tcx, |(_, rhs_ty)| *rhs_ty);
+    let mut seen_types = HashMap::new();
+    for res in partial_ord_impls {
+        let (impl_id, rhs_ty) = match res {
+            Ok(item) => item,
+            Err(TypeCollisionRisk { item: (impl_id, _), key_type, preferred_type }) => {
+                let err = anyhow!(
+                    "PartialOrd implementation for `{key_type}` is not supported when \
+                     `PartialOrd<{preferred_type}>` is implemented as it may overlap."
+                );
+                snippets.push(generate_unsupported_def(db, impl_id, err).into_main_api());
+                continue;
+            }
+        };
 
-        match generate_partial_ord_impls(db, core, rhs_ty) {
+        let result = ensure_distinct_in_cpp(tcx, &mut seen_types, rhs_ty, TypeLocation::Other);
+        match result.and_then(|()| generate_partial_ord_impls(db, core, rhs_ty)) {
             Ok(s) => snippets.push(s),
             Err(err) => snippets.push(generate_unsupported_def(db, impl_id, err).into_main_api()),
         }
-- 
2.43.0


From 20f017c4b2a7bbbe1e7fa80b939da16180f2efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 58/62] fix: don't specialize rs_std::impl twice for trait
 arguments with the same C++ type

---
 .../generate_template_specialization.rs       | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index cc946cd..94d2633 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -2,6 +2,7 @@
 // Exceptions. See /LICENSE for license information.
 // SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 
+use crate::avoid_colliding_types::erase_cpp_indistinct;
 use crate::generate_function_thunk::{make_thunk_name, replace_all_regions_with_static, ThunkKind};
 use crate::generate_struct_and_union::{
     generate_associated_item, generate_relocating_ctor, has_type_or_const_vars,
@@ -1788,6 +1789,27 @@ fn generate_trait_impl_specialization<'tcx>(
         );
     }
 
+    // Two impls whose type arguments have the same C++ types would be the same specialization.
+    let erased_args = |impl_def_id: DefId| -> Vec<Ty<'tcx>> {
+        let trait_ref = crate::normalize_ty(
+            tcx,
+            tcx.param_env(impl_def_id),
+            tcx.impl_trait_header(impl_def_id).trait_ref.instantiate_identity(),
+        );
+        trait_ref.args.types().map(|ty| erase_cpp_indistinct(tcx, ty)).collect()
+    };
+    let erased_trait_args = erased_args(impl_def_id);
+    let repeated_impl = tcx
+        .non_blanket_impls_for_ty(trait_def_id, trait_ref.self_ty())
+        .take_while(|other_impl| *other_impl != impl_def_id)
+        .find(|other_impl| erased_args(*other_impl) == erased_trait_args);
+    if let Some(repeated_impl) = repeated_impl {
+        bail!(
+            "`{}` has the same C++ type, and already has bindings",
+            tcx.impl_trait_header(repeated_impl).trait_ref.skip_binder(),
+        );
+    }
+
     let mut prereqs = CcPrerequisites::default();
     let trait_args: Vec<_> = trait_ref
         .args
-- 
2.43.0


From c7cdf2bebf32bd39b8efecb2b451969839206d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 59/62] fix: leave out items which need the definition of a
 type in an ignored file

---
 .../generate_bindings/database/code_snippet.rs           | 8 +++++++-
 cc_bindings_from_rs/generate_bindings/database/db.rs     | 9 +++++++++
 cc_bindings_from_rs/generate_bindings/lib.rs             | 6 +-----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/database/code_snippet.rs b/cc_bindings_from_rs/generate_bindings/database/code_snippet.rs
index da3570c..86e6a02 100644
--- a/cc_bindings_from_rs/generate_bindings/database/code_snippet.rs
+++ b/cc_bindings_from_rs/generate_bindings/database/code_snippet.rs
@@ -7,7 +7,7 @@ extern crate rustc_middle;
 extern crate rustc_span;
 
 use crate::{BindingsGenerator, FineGrainedFeature};
-use arc_anyhow::{anyhow, Result};
+use arc_anyhow::{anyhow, ensure, Result};
 use code_gen_utils::CcInclude;
 use crubit_abi_type::CrubitAbiType;
 use error_report::bail;
@@ -325,6 +325,12 @@ impl<'tcx> CcPrerequisites<'tcx> {
         })?;
         // Definition with a local canonical name can be immediately added to the `defs` set.
         if canonical_name.krate_num == db.source_crate_num() {
+            ensure!(
+                canonical_name.unqualified.cpp_type.is_some()
+                    || !db.is_in_ignored_file(def_id),
+                "Definition `{}` comes from a file which is excluded from the bindings",
+                tcx.def_path_str(def_id)
+            );
             self.defs.insert(def_id);
             return Ok(());
         }
diff --git a/cc_bindings_from_rs/generate_bindings/database/db.rs b/cc_bindings_from_rs/generate_bindings/database/db.rs
index affc5dd..6fcd616 100644
--- a/cc_bindings_from_rs/generate_bindings/database/db.rs
+++ b/cc_bindings_from_rs/generate_bindings/database/db.rs
@@ -391,4 +391,13 @@ impl<'tcx> BindingsGenerator<'tcx> {
         };
         features.copied().unwrap_or_else(|| self.default_features())
     }
+
+    /// Whether `def_id` is defined in a file which `--ignore-symbols-from-files` excludes.
+    pub fn is_in_ignored_file(&self, def_id: DefId) -> bool {
+        let tcx = self.tcx();
+        let file_name = tcx.sess.source_map().span_to_filename(tcx.def_span(def_id));
+        let file_name = file_name.prefer_local_unconditionally().to_string();
+        let file_name = file_name.strip_prefix("./").unwrap_or(file_name.as_str());
+        self.ignore_symbols_from_files().contains(&PathBuf::from(file_name))
+    }
 }
diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 1267d70..4c85733 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -84,11 +84,7 @@ pub(crate) fn should_receive_bindings<'tcx>(db: &BindingsGenerator<'tcx>, def_id
     if attributes.do_not_bind {
         return false;
     }
-    let def_span = db.tcx().def_span(def_id);
-    let filepath = db.tcx().sess.source_map().span_to_filename(def_span);
-    let file_name = filepath.prefer_local_unconditionally().to_string();
-    let file_name = file_name.strip_prefix("./").unwrap_or(file_name.as_str());
-    !db.ignore_symbols_from_files().contains(&PathBuf::from(file_name))
+    !db.is_in_ignored_file(def_id)
 }
 
 pub struct BindingsTokens {
-- 
2.43.0


From f3b05602dbe6197c95dc86458fea8a08e8685cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 60/62] fix: use byte offsets of the file itself in Kythe
 metadata

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 4c85733..67968c8 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1842,8 +1842,10 @@ fn generate_kythe_doc_comment(
         // We're assuming that lo and hi are in the same source file.
         let sf = tcx.sess.source_map().lookup_source_file(def_span.lo());
         (
-            sf.relative_position(def_span.lo()).0.to_string(),
-            sf.relative_position(def_span.hi()).0.to_string(),
+            // Positions in the file itself, which can differ from positions in the text that rustc
+            // keeps (without a byte order mark, and with normalized line endings).
+            sf.original_relative_byte_pos(def_span.lo()).0.to_string(),
+            sf.original_relative_byte_pos(def_span.hi()).0.to_string(),
         )
     };
     let file_name =
-- 
2.43.0


From 879da3b55a30d688a5b1f92d804c181db726052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 61/62] fix: only capture the name of a function's declaration
 for Kythe metadata

---
 cc_bindings_from_rs/generate_bindings/generate_function.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index eadbedf..f36d03c 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -1176,7 +1176,7 @@ pub fn generate_function<'tcx>(
                 let trait_name_with_args = format_trait_ref_for_cc(db, trait_ref)
                     .expect("Implementation of trait containing invalid type requested. Caller should have verified type arguments were valid.")
                     .into_tokens(&mut prereqs);
-                quote! { rs_std :: impl <#struct_name, #trait_name_with_args> :: #bracketed_decl_name }
+                quote! { rs_std :: impl <#struct_name, #trait_name_with_args> :: #main_api_fn_name }
             }
             StaticMethodMode::Infer => struct_name
                 .as_ref()
@@ -1185,9 +1185,9 @@ pub fn generate_function<'tcx>(
                     let name = format_cc_ident(db, name.as_str()).expect(
                         "Caller of generate_function should verify struct via generate_adt_core",
                     );
-                    quote! { #name :: #bracketed_decl_name }
+                    quote! { #name :: #main_api_fn_name }
                 })
-                .unwrap_or_else(|| quote! { #bracketed_decl_name }),
+                .unwrap_or_else(|| quote! { #main_api_fn_name }),
         };
         let tokens = quote! {
             __NEWLINE__
-- 
2.43.0


From 34c78db9741fdc66b6b57c4c7b55bc3b63dff993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 62/62] fix: find captured names although the documentation
 mentions them

---
 common/token_stream_printer.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/common/token_stream_printer.rs b/common/token_stream_printer.rs
index 60f5746..9681ee6 100644
--- a/common/token_stream_printer.rs
+++ b/common/token_stream_printer.rs
@@ -352,7 +352,22 @@ impl<'a, T: std::fmt::Write> TokenOutputState<'a, T> {
                 }
                 TokenTree::Ident(tt) if tt == "__COMMENT__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        write_comment(self.result, &clean_literal(lit))?;
+                        let comment = clean_literal(lit);
+                        let follows_capture_tag = (self.cur_len)(self.result)
+                            == Some(self.provenance_entry.destination_search_start);
+                        match comment.rsplit_once('\n') {
+                            // The search starts at the last line ("Generated from: ..."), which is
+                            // the one that `fix_provenance_map_postformatting` looks for. The lines
+                            // above it (documentation) may also mention the captured name.
+                            Some((doc, last_line)) if follows_capture_tag => {
+                                write_comment(self.result, doc.strip_suffix('\r').unwrap_or(doc))?;
+                                if let Some(search_start) = (self.cur_len)(self.result) {
+                                    self.provenance_entry.destination_search_start = search_start;
+                                }
+                                write_comment(self.result, last_line)?;
+                            }
+                            _ => write_comment(self.result, &comment)?,
+                        }
                     } else {
                         bail!("__COMMENT__ must be followed by a literal")
                     }
-- 
2.43.0

