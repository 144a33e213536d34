From b3597da3c5f0929c37ffc4a5e1e7620a0a78c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 01/16] fix: reject unnamed Option<Vec<T>> instead of panicking
 in derive(StructMeta)

---
 structmeta-derive/src/struct_meta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..9ac8641 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -315,6 +315,12 @@ impl<'a> Param<'a> {
                 is_option,
             })
         } else if let NamedParamType::Value { ty, is_vec } = ty {
+            if is_option && is_vec {
+                bail!(
+                    info.span(),
+                    "this field type cannot be used as unnamed parameter."
+                )
+            }
             Param::Unnamed(UnnamedParam {
                 info,
                 ty,
-- 
2.43.0


From 5112feb7fbb8d15ce3bba6da21c277d6764bc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 02/16] fix: report an unopened closing delimiter in
 derive(ToTokens) instead of panicking

---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..dc21e9f 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -185,6 +185,9 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             })));
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
+                            if scopes.len() == 1 {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            }
                             let scope = scopes.pop().unwrap();
                             scopes
                                 .last_mut()
-- 
2.43.0


From 8e5b134b17614aff809d1e40cd81b0c19deca87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 03/16] fix: derive(Parse) on enums with generic parameters

---
 structmeta-derive/src/parse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..586807d 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -3,7 +3,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
 use std::unreachable;
 use syn::{
-    Data, DataEnum, DataStruct, DeriveInput, Fields, Ident, Result, Token,
+    Data, DataEnum, DataStruct, DeriveInput, Fields, Generics, Ident, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
     spanned::Spanned,
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input.ident, data)?,
+        Data::Enum(data) => code_from_enum(&input.ident, &input.generics, data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,7 +43,8 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
+fn code_from_enum(self_ident: &Ident, generics: &Generics, data: &DataEnum) -> Result<TokenStream> {
+    let (impl_g, ty_g, where_clause) = generics.split_for_impl();
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use syn::ext::*;
@@ -63,7 +64,7 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident> {
+            fn #fn_ident #impl_g (input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident #ty_g> #where_clause {
                 #fn_expr
             }
         };
-- 
2.43.0


From 438ae10a7025b463b4adbd4aa53afc79b5b09e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 04/16] fix: derive(Parse) must not resolve `syn` in the scope
 of the caller

---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 586807d..19c48f6 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -47,7 +47,7 @@ fn code_from_enum(self_ident: &Ident, generics: &Generics, data: &DataEnum) -> R
     let (impl_g, ty_g, where_clause) = generics.split_for_impl();
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -269,7 +269,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
         #ts
         Ok(#self_path #init)
     })
-- 
2.43.0


From 70eca03cdcbe6a201de2533c97a2c07a28929395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 05/16] fix: derive(StructMeta) must not resolve `structmeta`
 in the scope of the caller

---
 structmeta-derive/src/struct_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 9ac8641..83694c6 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -750,7 +750,7 @@ impl<'a> NamedParamType<'a> {
                         args
                     }
                 };
-                quote!(structmeta::NameArgs { name_span : span, args: #args })
+                quote!(::structmeta::NameArgs { name_span : span, args: #args })
             }
         }
     }
-- 
2.43.0


From 2a6f2c17cf8256a77dcfccd45b36557da4df6d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 06/16] fix: suggest the closest name even if farther names are
 tied

---
 structmeta/src/helpers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..c556249 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -173,9 +173,8 @@ fn find_similar_name<'a>(names: &[&[&'a str]], ident: &Ident) -> Option<&'a str>
                 if d < r_d {
                     r_d = d;
                     r = Some(name);
-                }
-                if d == r_d && Some(name) != r {
-                    return None;
+                } else if d == r_d && Some(name) != r {
+                    r = None;
                 }
             }
         }
-- 
2.43.0


From 4ca435773fcd29a42caba09a417ec5997fab3946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 07/16] fix: a missing Vec<T> parameter is `name(...)`, not
 `name = ...`

---
 structmeta-derive/src/struct_meta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 83694c6..f100f90 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -423,11 +423,11 @@ impl NamedParam<'_> {
             match self.ty {
                 NamedParamType::Flag => quote!(::structmeta::Flag { span: #temp_ident }),
                 NamedParamType::Bool => quote!(#temp_ident.is_some()),
-                NamedParamType::Value { .. } | NamedParamType::NameValue { .. } => {
+                NamedParamType::Value { is_vec: false, .. } | NamedParamType::NameValue { .. } => {
                     let msg = format!("missing argument `{} = ...`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-                NamedParamType::NameArgs { .. } => {
+                NamedParamType::Value { is_vec: true, .. } | NamedParamType::NameArgs { .. } => {
                     let msg = format!("missing argument `{}(...)`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-- 
2.43.0


From de9c608783609dc0c85ac12e83360ba8e99e687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 08/16] fix: accept `name=-1` and other values whose
 punctuation directly follows `=`

---
 structmeta/src/helpers.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index c556249..07471e6 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,7 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From 4fefdfdd65db96adba397d7ac14776bf121ff3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 09/16] fix: recognize field types that come from a macro_rules
 `ty` fragment

---
 structmeta-derive/src/syn_utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 1dd939a..016ff07 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -70,7 +70,15 @@ pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
         false
     }
 }
-pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+pub fn get_arguments_of<'a>(
+    mut ty: &'a Type,
+    ns: &[&[&str]],
+    name: &str,
+) -> Option<&'a PathArguments> {
+    // A `ty` fragment of `macro_rules!` is wrapped in a group without delimiters.
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From c9f90f49e7108df07cc9401d67a61d4fb37bcd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 10/16] fix: do not panic when an enum variant that ends with a
 TokenStream is parsed on a fork

---
 structmeta-derive/src/parse.rs |  2 +-
 structmeta/src/helpers.rs      | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 19c48f6..76c5a78 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -79,7 +79,7 @@ fn code_from_enum(self_ident: &Ident, generics: &Generics, data: &DataEnum) -> R
                 quote! {
                     let fork = input.fork();
                     if let Ok(value) = #fn_ident(&fork) {
-                        ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
+                        ::structmeta::helpers::advance_to(input, &fork)?;
                         return Ok(value);
                     }
                 }
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 07471e6..38e41f8 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -19,6 +19,16 @@ pub enum NameIndex {
     NameArgs(std::result::Result<usize, Ident>),
 }
 
+/// Make `input` continue where `fork` has stopped.
+pub fn advance_to(input: ParseStream, fork: &ParseBuffer) -> Result<()> {
+    if input.cursor().partial_cmp(&fork.cursor()).is_none() {
+        // `TokenStream::parse` leaves the token buffer; `advance_to` requires that both have left it.
+        input.parse::<TokenStream>()?;
+    }
+    input.advance_to(fork);
+    Ok(())
+}
+
 #[allow(clippy::too_many_arguments)]
 pub fn try_parse_name(
     input: ParseStream,
-- 
2.43.0


From 84ab7f79a5ce9b69d2ba9895c6fc504979956413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 11/16] fix: let `Self` be used in enums that derive Parse

The variants were parsed by inner functions, in which `Self` in a field
type or in the where clause is an error (E0401).
---
 structmeta-derive/src/parse.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 76c5a78..28561cf 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -3,7 +3,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
 use std::unreachable;
 use syn::{
-    Data, DataEnum, DataStruct, DeriveInput, Fields, Generics, Ident, Result, Token,
+    Data, DataEnum, DataStruct, DeriveInput, Fields, Ident, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
     spanned::Spanned,
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input.ident, &input.generics, data)?,
+        Data::Enum(data) => code_from_enum(data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,8 +43,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(self_ident: &Ident, generics: &Generics, data: &DataEnum) -> Result<TokenStream> {
-    let (impl_g, ty_g, where_clause) = generics.split_for_impl();
+fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use ::structmeta::helpers::exports::syn::ext::*;
@@ -58,15 +57,15 @@ fn code_from_enum(self_ident: &Ident, generics: &Generics, data: &DataEnum) -> R
         let fn_ident = format_ident!("_parse_{}", &variant.ident);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
-            quote!(#self_ident::#variant_ident),
+            quote!(Self::#variant_ident),
             &variant.fields,
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident #impl_g (input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident #ty_g> #where_clause {
+            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
-            }
+            };
         };
         let code = if peeks.is_empty() {
             if is_last && !input_is_forked {
-- 
2.43.0


From fed2b7151196ade4565a5be3d5998c965c0e73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 12/16] fix: let the fields of an item come from macro
 arguments

The code for a field has the span of the field, where the locals of the
generated functions are unknown if the field comes from the arguments of
a macro_rules! that has the derive (E0425).
---
 structmeta-derive/src/struct_meta.rs | 21 +++++++++++++--------
 structmeta-derive/src/syn_utils.rs   |  9 ++++++++-
 structmeta-derive/src/to_tokens.rs   |  6 ++++--
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f100f90..d9c5488 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -369,7 +369,8 @@ impl<'a> ParamInfo<'a> {
     fn build_let_parse(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.field.ty;
-        quote_spanned!(self.span()=> let #temp_ident = input.parse::<#ty>()?;)
+        let input = local_ident("input");
+        quote_spanned!(self.span()=> let #temp_ident = #input.parse::<#ty>()?;)
     }
 }
 
@@ -403,10 +404,11 @@ impl NamedParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let arg_span = local_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, #msg));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, #msg));
                 }
                 #temp_ident = Some(#expr);
             }
@@ -446,10 +448,11 @@ impl RestParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let arg_span = local_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, format!("parameter `{}` specified more than once", name)));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -757,18 +760,20 @@ impl<'a> NamedParamType<'a> {
 }
 
 fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
-    quote_spanned!(span=> input.parse::<#ty>()?)
+    let input = local_ident("input");
+    quote_spanned!(span=> #input.parse::<#ty>()?)
 }
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
+    let content = local_ident("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect())
+        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
     } else {
-        quote_spanned!(span=> content.parse::<#ty>()?)
+        quote_spanned!(span=> #content.parse::<#ty>()?)
     };
     quote! {
         {
-            let content;
-            ::structmeta::helpers::exports::syn::parenthesized!(content in input);
+            let #content;
+            ::structmeta::helpers::exports::syn::parenthesized!(#content in input);
             #value
         }
     }
diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 016ff07..faf5381 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{
     DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
@@ -63,6 +63,13 @@ pub fn impl_trait_result(
     Ok(ts)
 }
 
+/// A local variable of the generated code, for use in code that has the span of a field.
+///
+/// The field may come from the arguments of a `macro_rules!`, where the variable is not in scope.
+pub fn local_ident(name: &str) -> Ident {
+    Ident::new(name, Span::call_site())
+}
+
 pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
     if let Some(a) = get_arguments_of(ty, ns, name) {
         a.is_empty()
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index dc21e9f..4795812 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -161,7 +161,8 @@ impl Scope<'_> {
                 let ty = s.token_type_ident();
                 quote_spanned!(span=> ::structmeta::helpers::exports::syn::token::#ty::surround)
             };
-            let code = quote_spanned!(span=> #func(#ident, tokens, |tokens| { #ts }););
+            let tokens = local_ident("tokens");
+            let code = quote_spanned!(span=> #func(#ident, #tokens, |#tokens| { #ts }););
             return Ok(code);
         }
         Ok(quote!())
@@ -206,7 +207,8 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
             }
         }
         if field_to_tokens {
-            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, tokens););
+            let tokens = local_ident("tokens");
+            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, #tokens););
             scopes.last_mut().unwrap().ts.extend(code);
         }
     }
-- 
2.43.0


From 83ac2b59a1db3fd2f0adb41906a0ce3dba64a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 13/16] fix: name the standard library absolutely in generated
 code

The code that the derives generate used Ok, Err, Some, None, Option,
unreachable! and format! by their bare names, so it did not compile (or
meant something else) where the caller shadows one of them.
---
 structmeta-derive/src/parse.rs       |  8 +++---
 structmeta-derive/src/struct_meta.rs | 38 ++++++++++++++--------------
 structmeta/src/helpers.rs            |  4 +--
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 28561cf..1d850f0 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -77,9 +77,9 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 input_is_forked = true;
                 quote! {
                     let fork = input.fork();
-                    if let Ok(value) = #fn_ident(&fork) {
+                    if let ::std::result::Result::Ok(value) = #fn_ident(&fork) {
                         ::structmeta::helpers::advance_to(input, &fork)?;
-                        return Ok(value);
+                        return ::std::result::Result::Ok(value);
                     }
                 }
             }
@@ -101,7 +101,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     }
     if !input_is_moved {
         ts.extend(quote! {
-            Err(input.error("parse failed."))
+            ::std::result::Result::Err(input.error("parse failed."))
         });
     }
     Ok(ts)
@@ -270,7 +270,7 @@ fn code_from_fields(
     Ok(quote! {
         use ::structmeta::helpers::exports::syn::ext::*;
         #ts
-        Ok(#self_path #init)
+        ::std::result::Result::Ok(#self_path #init)
     })
 }
 
diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index d9c5488..4f9d948 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -115,7 +115,7 @@ impl<'a> Params<'a> {
                 );
                 ts.extend(quote! {
                     if input.is_empty () {
-                        return Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
+                        return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
                     }
                     input.parse::<::structmeta::helpers::exports::syn::Token![,]>()?;
                 });
@@ -137,7 +137,7 @@ impl<'a> Params<'a> {
             p.build_ctor_arg(false, &mut ctor_args);
         } else {
             arms_unnamed.push(quote! {
-                _ => { return Err(input.error("too many unnamed parameter")); }
+                _ => { return ::std::result::Result::Err(input.error("too many unnamed parameter")); }
             });
         }
         for p in self.named.values() {
@@ -193,7 +193,7 @@ impl<'a> Params<'a> {
         {
             quote! {
                 if named_used {
-                    return Err(input.error("cannot use unnamed parameter after named parameter"));
+                    return ::std::result::Result::Err(input.error("cannot use unnamed parameter after named parameter"));
                 }
                 match unnamed_index {
                     #(#arms_unnamed)*
@@ -202,7 +202,7 @@ impl<'a> Params<'a> {
             }
         } else {
             quote! {
-                return Err(input.error("cannot use unnamed parameter"));
+                return ::std::result::Result::Err(input.error("cannot use unnamed parameter"));
             }
         };
         let name_filter = self.name_filter.to_code();
@@ -219,7 +219,7 @@ impl<'a> Params<'a> {
                     }
                 }
                 is_next = true;
-                if let Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
+                if let ::std::option::Option::Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
                     &[#(#flag_names,)*],
                     #flag_rest,
                     &[#(#name_value_names,)*],
@@ -232,14 +232,14 @@ impl<'a> Params<'a> {
                     named_used = true;
                     match index {
                         #(#arms_named)*
-                        _ => unreachable!()
+                        _ => ::std::unreachable!()
                     }
 
                 } else {
                     #ts_parse_unnamed
                 }
             }
-            Ok(Self #ctor_args)
+            ::std::result::Result::Ok(Self #ctor_args)
         });
 
         ts
@@ -359,7 +359,7 @@ impl<'a> ParamInfo<'a> {
     fn build_let_none(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.ty;
-        quote!(let mut #temp_ident : Option<#ty> = None;)
+        quote!(let mut #temp_ident : ::std::option::Option<#ty> = ::std::option::Option::None;)
     }
     fn build_let_vec_new(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
@@ -396,7 +396,7 @@ struct UnnamedParam<'a> {
 impl NamedParam<'_> {
     fn build_let(&self) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
-        quote!(let mut #temp_ident = None;)
+        quote!(let mut #temp_ident = ::std::option::Option::None;)
     }
     fn build_arm_parse(&self, index: usize, kind: ArgKind) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
@@ -406,11 +406,11 @@ impl NamedParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let arg_span = local_ident("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
+            ::structmeta::helpers::NameIndex::#var(::std::result::Result::Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, #msg));
+                    return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, #msg));
                 }
-                #temp_ident = Some(#expr);
+                #temp_ident = ::std::option::Option::Some(#expr);
             }
         }
     }
@@ -450,9 +450,9 @@ impl RestParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let arg_span = local_ident("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Err(name)) => {
+            ::structmeta::helpers::NameIndex::#var(::std::result::Result::Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, format!("parameter `{}` specified more than once", name)));
+                    return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, ::std::format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -469,7 +469,7 @@ impl UnnamedParam<'_> {
         let expr = build_parse_expr(self.ty, span);
         quote_spanned! { span=>
             #index => {
-                #temp_ident = Some(#expr);
+                #temp_ident = ::std::option::Option::Some(#expr);
             }
         }
     }
@@ -727,11 +727,11 @@ impl<'a> NamedParamType<'a> {
             }
             NamedParamType::NameValue { ty, is_option } => {
                 let value = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::std::option::Option::None)
                 } else {
                     let value = build_parse_expr(ty, span);
                     if *is_option {
-                        quote!(Some(#value))
+                        quote!(::std::option::Option::Some(#value))
                     } else {
                         value
                     }
@@ -744,11 +744,11 @@ impl<'a> NamedParamType<'a> {
                 is_vec,
             } => {
                 let args = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::std::option::Option::None)
                 } else {
                     let args = build_parse_expr_name_args(ty, *is_vec, span);
                     if *is_option {
-                        quote!(Some(#args))
+                        quote!(::std::option::Option::Some(#args))
                     } else {
                         args
                     }
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 38e41f8..6f7c250 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -260,11 +260,11 @@ pub fn parse_macro_delimiter<'a>(
 macro_rules! helpers_parse_macro_delimiter {
     ($content:ident in $input:ident) => {
         match $crate::helpers::parse_macro_delimiter($input) {
-            Ok((token, content)) => {
+            ::std::result::Result::Ok((token, content)) => {
                 $content = content;
                 token
             }
-            Err(e) => return Err(e),
+            ::std::result::Result::Err(e) => return ::std::result::Result::Err(e),
         }
     };
 }
-- 
2.43.0


From f3638bfde75c83de485a6e80564ebc9d3342f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:20 +0000
Subject: [PATCH 14/16] fix: derive(ToTokens) on an enum without variants

The generated `match self {}` matches on a reference, which rustc
rejects as non-exhaustive.
---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 4795812..80d2bd0 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -46,6 +46,9 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     Ok(ts)
 }
 fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
+    if data.variants.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
     let mut arms = Vec::new();
     for variant in &data.variants {
         let ident = &variant.ident;
-- 
2.43.0


From 7ace063cc15b2329e26439c5dd72f002b11e6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:40 +0000
Subject: [PATCH 15/16] fix: do not rely on the traits of the prelude in
 generated code

---
 structmeta-derive/src/struct_meta.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 4f9d948..79a0b4e 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -451,7 +451,7 @@ impl RestParam<'_> {
         let arg_span = local_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(::std::result::Result::Err(name)) => {
-                if #temp_ident.insert(name.to_string(), #expr).is_some() {
+                if #temp_ident.insert(::std::string::ToString::to_string(&name), #expr).is_some() {
                     return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, ::std::format!("parameter `{}` specified more than once", name)));
                 }
             }
@@ -766,7 +766,9 @@ fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
     let content = local_ident("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
+        quote_spanned!(span=> ::std::iter::Iterator::collect(::std::iter::IntoIterator::into_iter(
+            ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?
+        )))
     } else {
         quote_spanned!(span=> #content.parse::<#ty>()?)
     };
-- 
2.43.0


From 17bcbe2c89805f38a736b22b8cd191a8626af660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:58 +0000
Subject: [PATCH 16/16] fix: derive(Parse) on a field whose type is named
 IdentExt

---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 1d850f0..12723a3 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -46,7 +46,7 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
 fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use ::structmeta::helpers::exports::syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -268,7 +268,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use ::structmeta::helpers::exports::syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
         #ts
         ::std::result::Result::Ok(#self_path #init)
     })
-- 
2.43.0

