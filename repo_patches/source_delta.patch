From df7121019086032de8e40616f0b45467505cb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 01/19] fix: reject fixed points over functions of several
 parameters

The body of a fixed point sees one variable, but a two-parameter lambda was
accepted and its de Bruijn indices were resolved in the enclosing scope.
---
 src/chomp/typed/infer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..1cdffd2 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,14 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            // A fixed point binds exactly one variable.
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From 5edc65b7843db82f4ce353d6311297f45a5fbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 02/19] fix: report mismatches in literals with multi-byte
 characters

---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From 2aef6a0ea97cac41e61c775f37fdf624175df1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 03/19] fix: keep the position when reading at the end of input

---
 chewed/src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..05d2a14 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,6 +159,7 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
+            None => None,
             x => {
                 self.pos.col += 1;
                 x
-- 
2.43.0


From 32a0576f85784d8b9673e47a56fd5ca2637bb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 04/19] fix: leave the offending character unread when taking
 characters from a set

---
 chewed/src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 05d2a14..858624d 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,9 +53,12 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
-            match self.next() {
+            match self.peek() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
-                Some(c) if set.contains(&c) => *pos = c,
+                Some(c) if set.contains(&c) => {
+                    self.next();
+                    *pos = c
+                }
                 Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
             }
         }
-- 
2.43.0


From 6c8aa1e3fcd9a6883f7b933d6e50c168234995ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 05/19] fix: treat a raw identifier as the same name as its
 plain spelling

---
 src/chomp/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..c225e9f 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -61,7 +61,7 @@ impl SnakeCase for Content {
 impl PartialEq for Content {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (Self::Spanned(me), Self::Spanned(them)) => me == them,
+            (Self::Spanned(me), Self::Spanned(them)) => me.unraw() == them.unraw(),
             (Self::Spanned(me), Self::Spanless(them)) => me.unraw() == them,
             (Self::Spanless(me), Self::Spanned(them)) => them.unraw() == me,
             (Self::Spanless(me), Self::Spanless(them)) => me == them,
-- 
2.43.0


From 5dbe757a2ce5958638db7a0f410286cfa1127281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 06/19] fix: decode the digits of unicode escapes in the
 hand-written JSON parser

---
 chomp-bench/src/json/mod.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..2e5f841 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -120,21 +120,21 @@ impl Parse for Value {
             for c in &chars {
                 match c {
                     '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From e3efc9341984e4caae21b9554319ad4da2068fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 07/19] fix: accept whitespace inside empty JSON arrays and
 objects

---
 chomp-bench/src/json/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2e5f841..0ef9a9c 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -208,6 +208,7 @@ impl Parse for Value {
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
                 input.consume_str("[")?;
+                skip_ws(input);
                 let a = input
                     .iter_strict(Self::take, ',', ']', ARRAY_TAIL, FIRST_WS)
                     .collect::<Result<_, _>>()
@@ -218,6 +219,7 @@ impl Parse for Value {
             '{' => {
                 const OBJECT_TAIL: &[char] = &[',', '}'];
                 input.consume_str("{")?;
+                skip_ws(input);
                 let o = input
                     .iter_strict(
                         |p| {
-- 
2.43.0


From ce40819bd343405645538ab87fcce19b18f94efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 08/19] fix: print control characters of JSON strings as
 escapes

---
 chomp-bench/src/json/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 0ef9a9c..26fbe39 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -48,12 +48,7 @@ impl fmt::Display for Value {
                     '\x0A' => write!(f, r#"\n"#),
                     '\x0D' => write!(f, r#"\r"#),
                     '\x09' => write!(f, r#"\t"#),
-                    _ => {
-                        let codepoint = u32::from(c) - 0x10000;
-                        let high: u16 = (codepoint / 0x400 + 0xD800).try_into().unwrap();
-                        let low: u16 = (codepoint % 0x400 + 0xDC00).try_into().unwrap();
-                        write!(f, r#"\u{:04X}\u{:04X}"#, high, low)
-                    }
+                    _ => write!(f, r#"\u{:04X}"#, u32::from(c)),
                 }?;
             }
             write!(f, "\"")
-- 
2.43.0


From 70158937d0a992eac41c5298cf452db61bcdc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 09/19] fix: keep names that are all underscores and digits
 valid when changing case

---
 src/chomp/name.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index c225e9f..f1a0d99 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -32,15 +32,24 @@ impl From<Content> for Ident {
     }
 }
 
+/// Changing case drops underscores. Put one back if what remains cannot start an identifier.
+fn start_ident(name: String) -> String {
+    if syn::parse_str::<Ident>(&format!("{}1", name)).is_ok() {
+        name
+    } else {
+        format!("_{}", name)
+    }
+}
+
 impl CamelCase for Content {
     fn to_camel_case(&self) -> Self::Owned {
         match self {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&start_ident(name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => start_ident(name.to_camel_case()).into(),
         }
     }
 }
@@ -51,9 +60,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&start_ident(name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => start_ident(name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From 42f6d374abbb0c95f0b65bfee2cf65aa076f4dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 10/19] fix: keep generated type, field and variant names
 distinct

---
 src/lower/mod.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..d49c5e1 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
@@ -36,23 +36,41 @@ pub struct RustBackend {
     fix_map: HashMap<TypedExpression, usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
+    type_names: HashSet<Ident>,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
 
 type NamedSpan = (Option<Name>, Span);
 
+/// The first unused name when counting up from `count`.
+fn distinct<F: Fn(usize) -> Ident>(used: &mut HashSet<Ident>, count: &mut usize, f: F) -> Ident {
+    loop {
+        let name = f(*count);
+        if used.insert(name.clone()) {
+            return name;
+        }
+        *count += 1;
+    }
+}
+
 impl RustBackend {
     fn new_type_name(&mut self, prefix: &str, name: Option<Name>, span: Span) -> (usize, Ident) {
         let id = self.data.len();
+        let used = &mut self.type_names;
 
         match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
+            None => (
+                id,
+                distinct(used, &mut (id + 1), |count| {
+                    format_ident!("{}{}", prefix, count, span = span)
+                }),
+            ),
             Some(name) => {
                 let name: Ident = name.to_camel_case().into();
                 let count = self.name_map.entry(name.clone()).or_insert(0);
                 *count += 1;
-                (id, format_ident!("{}{}", name, count))
+                (id, distinct(used, count, |count| format_ident!("{}{}", name, count)))
             }
         }
     }
@@ -101,15 +119,18 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => distinct(&mut used, &mut (index + 1), |count| {
+                    format_ident!("{}{}", default, count, span = span)
+                }),
                 Some(name) => {
                     let name: Ident = name.to_snake_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    distinct(&mut used, count, |count| format_ident!("{}{}", name, count))
                 }
             })
     }
@@ -119,15 +140,18 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => distinct(&mut used, &mut (index + 1), |count| {
+                    format_ident!("{}{}", default, count, span = span)
+                }),
                 Some(name) => {
                     let name: Ident = name.to_camel_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    distinct(&mut used, count, |count| format_ident!("{}{}", name, count))
                 }
             })
     }
@@ -144,6 +168,7 @@ impl Default for RustBackend {
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
             name_map: HashMap::new(),
+            type_names: HashSet::new(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
-- 
2.43.0


From 1d27d73c8afc25fe9fb0ca269e214afbfe00ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 11/19] fix: give parts and branches their own names when
 sub-grammars repeat under other labels

---
 src/lower/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index d49c5e1..bd32243 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -31,8 +31,8 @@ pub struct RustBackend {
     data: Vec<Ty>,
     eps_id: Option<usize>,
     lit_map: HashMap<String, usize>,
-    cat_map: HashMap<Vec<usize>, usize>,
-    alt_map: HashMap<Vec<usize>, usize>,
+    cat_map: HashMap<(Vec<usize>, Vec<Option<Name>>), usize>,
+    alt_map: HashMap<(Vec<usize>, Vec<Option<Name>>), usize>,
     fix_map: HashMap<TypedExpression, usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
@@ -246,9 +246,11 @@ impl Backend for RustBackend {
     fn gen_cat(&mut self, name: Option<Name>, span: Span, cat: Cat) -> Self::Id {
         let (_, name_spans, ids) = self.recurse_exprs(cat);
 
-        if let Some(&id) = self.cat_map.get(&ids) {
+        let key = (ids, name_spans.iter().map(|(name, _)| name.clone()).collect());
+        if let Some(&id) = self.cat_map.get(&key) {
             return id;
         }
+        let ids = key.0.clone();
 
         let (id, name) = self.new_type_name("Cat", name, span);
         let ty_names: Vec<_> = self.ty_names(ids.iter().copied()).collect();
@@ -298,7 +300,7 @@ impl Backend for RustBackend {
             }
         };
 
-        self.cat_map.insert(ids.clone(), id);
+        self.cat_map.insert(key, id);
         self.data.push(Ty {
             name: TokenTree::from(name).into(),
             rest,
@@ -310,9 +312,11 @@ impl Backend for RustBackend {
     fn gen_alt(&mut self, name: Option<Name>, span: Span, alt: Alt) -> Self::Id {
         let (tys, name_spans, ids) = self.recurse_exprs(alt);
 
-        if let Some(&id) = self.alt_map.get(&ids) {
+        let key = (ids, name_spans.iter().map(|(name, _)| name.clone()).collect());
+        if let Some(&id) = self.alt_map.get(&key) {
             return id;
         }
+        let ids = key.0.clone();
 
         let (id, name) = self.new_type_name("Alt", name, span);
         let ty_names: Vec<_> = self.ty_names(ids.iter().copied()).collect();
@@ -393,7 +397,7 @@ impl Backend for RustBackend {
             })
         }
 
-        self.alt_map.insert(ids.clone(), id);
+        self.alt_map.insert(key, id);
         self.data.push(Ty {
             name: TokenTree::from(name).into(),
             rest,
-- 
2.43.0


From 6b626390dc7dabea565853ad89af5a609bd243a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 12/19] fix: share fixed points only when their free variables
 agree

---
 src/chomp/typed/mod.rs | 20 +++++++++++++++++++-
 src/lower/mod.rs       | 10 +++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..983fb93 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{collections::BTreeSet, hash};
 
 use proc_macro2::Span;
 
@@ -220,6 +220,24 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// The de Bruijn indices of the variables that are free in `self`.
+    pub fn free_variables(&self) -> BTreeSet<usize> {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => BTreeSet::new(),
+            RawTypedExpression::Cat(Cat { terms, .. })
+            | RawTypedExpression::Alt(Alt { terms, .. }) => {
+                terms.iter().flat_map(Self::free_variables).collect()
+            }
+            RawTypedExpression::Fix(f) => {
+                let inner = f.inner.free_variables();
+                inner.into_iter().filter_map(|index| index.checked_sub(1)).collect()
+            }
+            RawTypedExpression::Variable(v) => std::iter::once(v.index()).collect(),
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index bd32243..0e89b00 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,8 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<(Vec<usize>, Vec<Option<Name>>), usize>,
     alt_map: HashMap<(Vec<usize>, Vec<Option<Name>>), usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    // Key is body and the fix point IDs its other variables stand for
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     type_names: HashSet<Ident>,
@@ -409,12 +410,15 @@ impl Backend for RustBackend {
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        let outer = inner.free_variables().into_iter().filter(|index| *index > 0);
+        let outer = outer.map(|index| self.context[self.context.len() - index]).collect();
+        let key = (inner.clone(), outer);
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From 00ca8949415c47af51b9aca1c04e92c423ff719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 13/19] fix: report escapes of characters that do not exist
 instead of panicking

---
 autonibble/src/lib.rs | 49 ++++++++++++++++++++++++++++---------------
 src/nibble/convert.rs |  7 ++++++-
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 2fed0f0..8fe32fd 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -1,4 +1,7 @@
-use std::{convert::TryInto, mem};
+use std::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 use chomp::{
     chomp::{
@@ -277,7 +280,11 @@ impl Convert for Term1 {
             }),
             Term1::Literal1(literal) => Ok(NamedExpression {
                 name: None,
-                expr: literal.contents1.into_iter().collect::<Literal>().into(),
+                expr: literal
+                    .contents1
+                    .into_iter()
+                    .collect::<Result<Literal, _>>()?
+                    .into(),
                 span: Span::call_site(),
             }),
             Term1::Parens1(parens) => parens.expr1.convert(context),
@@ -392,7 +399,7 @@ impl Iterator for Opt13 {
 }
 
 impl IntoIterator for Contents1 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     type IntoIter = Opt11;
 
@@ -402,7 +409,7 @@ impl IntoIterator for Contents1 {
 }
 
 impl Iterator for Opt11 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let orig = mem::replace(self, Opt11::None1(Epsilon));
@@ -410,27 +417,31 @@ impl Iterator for Opt11 {
             Opt11::None1(_) => None,
             Opt11::Plus1(contents) => {
                 *self = contents.opt1;
-                Some(contents.literal_char1.into())
+                Some(contents.literal_char1.try_into())
             }
         }
     }
 }
 
-impl From<LiteralChar1> for char {
-    fn from(c: LiteralChar1) -> Self {
+impl TryFrom<LiteralChar1> for char {
+    type Error = ConvertError;
+
+    fn try_from(c: LiteralChar1) -> Result<Self, ConvertError> {
         match c {
-            LiteralChar1::Literal1(c) => c.into(),
-            LiteralChar1::Escape1(e) => e.into(),
+            LiteralChar1::Literal1(c) => Ok(c.into()),
+            LiteralChar1::Escape1(e) => e.try_into(),
         }
     }
 }
 
-impl From<Escape1> for char {
-    fn from(e: Escape1) -> Self {
+impl TryFrom<Escape1> for char {
+    type Error = ConvertError;
+
+    fn try_from(e: Escape1) -> Result<Self, ConvertError> {
         match e.1 {
-            Alt171::Ascii1(a) => a.escape(),
-            Alt171::Oct1(o) => o.into(),
-            Alt171::Unicode1(u) => u.into(),
+            Alt171::Ascii1(a) => Ok(a.escape()),
+            Alt171::Oct1(o) => Ok(o.into()),
+            Alt171::Unicode1(u) => u.try_into(),
         }
     }
 }
@@ -458,10 +469,14 @@ impl From<Oct1> for char {
     }
 }
 
-impl From<Unicode1> for char {
-    fn from(u: Unicode1) -> Self {
+impl TryFrom<Unicode1> for char {
+    type Error = ConvertError;
+
+    fn try_from(u: Unicode1) -> Result<Self, ConvertError> {
         let s = u.up_to1.to_string();
-        u32::from_str_radix(&s, 16).unwrap().try_into().unwrap()
+        let code = u32::from_str_radix(&s, 16).unwrap();
+        code.try_into()
+            .map_err(|_| ConvertError::InvalidEscape(Span::call_site(), format!("\\u{{{}}}", s)))
     }
 }
 
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index ca6c95a..6399170 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -62,6 +62,7 @@ pub enum ConvertError {
     EmptyCat(Span),
     EmptyAlt(Span),
     EmptyCall(Span),
+    InvalidEscape(Span, String),
 }
 
 impl From<ConvertError> for syn::Error {
@@ -71,7 +72,8 @@ impl From<ConvertError> for syn::Error {
             ConvertError::UndeclaredName(name) => name.span(),
             ConvertError::EmptyCat(span)
             | ConvertError::EmptyAlt(span)
-            | ConvertError::EmptyCall(span) => span,
+            | ConvertError::EmptyCall(span)
+            | ConvertError::InvalidEscape(span, _) => span,
         };
 
         Self::new(span, msg)
@@ -93,6 +95,9 @@ impl fmt::Display for ConvertError {
             Self::EmptyCall(_) => {
                 write!(f, "call has no function")
             }
+            Self::InvalidEscape(_, escape) => {
+                write!(f, "invalid character escape: `{}`", escape)
+            }
         }
     }
 }
-- 
2.43.0


From 55d2679b049b2e9aa9e5ae562324b9ac820c54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 14/19] fix: report an item's own error when iterating
 separated items

When parsing an item failed, the iterator went on to examine and consume the
separator, and could replace the item's error with a later one.
---
 chewed/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 858624d..7fdd43c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -104,7 +104,10 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = (self.parse)(self.iter);
+            if res.is_err() {
+                return Some(res);
+            }
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0


From 031d9b70afe9ce755f6fc05d4436465f7a08ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 15/19] fix: report code that could not be written out
 completely

---
 autonibble/src/main.rs | 5 ++++-
 src/main.rs            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/main.rs b/autonibble/src/main.rs
index 56c757d..9a508f8 100644
--- a/autonibble/src/main.rs
+++ b/autonibble/src/main.rs
@@ -51,7 +51,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut out = io::stdout();
+            write!(out, "{:#}", code)
+                .and_then(|_| out.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
diff --git a/src/main.rs b/src/main.rs
index 0954074..d4f29ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut out = io::stdout();
+            write!(out, "{:#}", code)
+                .and_then(|_| out.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
-- 
2.43.0


From 2e63dc85d6c78f1e11ea66d4667435018a722503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 16/19] fix: point at the call when the goal itself is at fault

---
 src/nibble/convert.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index 6399170..135f710 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -321,12 +321,10 @@ impl Convert for Expression {
 
 impl Convert for GoalStatement {
     fn convert(self, context: &mut Context) -> Result<NamedExpression, ConvertError> {
-        let span = self.span();
         let inner = self.expr.convert(context)?;
         Ok(NamedExpression {
             name: Name::merge(inner.name, Some(Name::new_variable("Ast".to_owned()))),
-            expr: inner.expr,
-            span,
+            ..inner
         })
     }
 }
-- 
2.43.0


From b7850725d7d0a27c444c6f9d841978b1d0d09751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 17/19] fix: reject C string literals instead of panicking

---
 src/nibble/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nibble/mod.rs b/src/nibble/mod.rs
index f5417db..e4f6b69 100644
--- a/src/nibble/mod.rs
+++ b/src/nibble/mod.rs
@@ -96,13 +96,22 @@ impl ToTokens for Term {
     }
 }
 
+/// Whether the next token is a C string literal. The version of syn in use
+/// does not know of these and panics when it peeks at one.
+fn at_c_string(input: ParseStream<'_>) -> bool {
+    input
+        .cursor()
+        .literal()
+        .map_or(false, |(lit, _)| lit.to_string().starts_with('c'))
+}
+
 impl Parse for Term {
     fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
         let lookahead = input.lookahead1();
 
         if lookahead.peek(Token![_]) {
             input.parse().map(Self::Epsilon)
-        } else if lookahead.peek(LitStr) {
+        } else if !at_c_string(input) && lookahead.peek(LitStr) {
             input.parse().map(Self::Literal)
         } else if lookahead.peek(Token![!]) {
             input.parse().map(Self::Fix)
@@ -143,7 +152,7 @@ impl Parse for Call {
         loop {
             let lookahead = input.lookahead1();
             if lookahead.peek(Token![_])
-                || lookahead.peek(LitStr)
+                || (!at_c_string(input) && lookahead.peek(LitStr))
                 || lookahead.peek(Token![!])
                 || lookahead.peek(Paren)
                 || lookahead.peek(Ident::peek_any)
-- 
2.43.0


From 65c8ab44fb3c36ba39ede1a97bf252497637e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 18/19] fix: give the root's alias a name no other type has

---
 src/lower/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index 0e89b00..d719427 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -457,7 +457,7 @@ impl Backend for RustBackend {
         id
     }
 
-    fn emit_code(self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
+    fn emit_code(mut self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
         let mut tokens = quote_spanned! {span=>
             use ::chewed::*;
         };
@@ -480,8 +480,10 @@ impl Backend for RustBackend {
 
         tokens.extend(if let Some(name) = name {
             let name = name.into();
-            let count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
-            let name = format_ident!("{}{}", name, count);
+            let mut count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
+            let name = distinct(&mut self.type_names, &mut count, |count| {
+                format_ident!("{}{}", name, count)
+            });
             quote_spanned! {span=>
                 pub type #name = #root_name;
             }
-- 
2.43.0


From 5d1efabb43c884e8eb13aaf4a09b8b1dbeac8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:18 +0000
Subject: [PATCH 19/19] fix: reject unicode escapes with signs in the LALR JSON
 parser

---
 chomp-bench/src/json/lalr.lalrpop | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chomp-bench/src/json/lalr.lalrpop b/chomp-bench/src/json/lalr.lalrpop
index b5a8401..535930a 100644
--- a/chomp-bench/src/json/lalr.lalrpop
+++ b/chomp-bench/src/json/lalr.lalrpop
@@ -45,13 +45,13 @@ pub Str: String = r#""([^\\"]|\\.)*""# => {
                 't' => '\x09',
                 'u' => {
                     let v = iter.by_ref().take(4).collect::<String>();
-                    assert_eq!(v.len(), 4);
+                    assert!(v.len() == 4 && v.chars().all(|c| c.is_ascii_hexdigit()));
                     let v = u16::from_str_radix(&v, 16).unwrap();
                     let codepoint = if (0xD800..=0xDFFF).contains(&v) {
                         let skipped = iter.by_ref().take(2).collect::<String>();
                         assert_eq!(skipped, "\\u");
                         let o = iter.by_ref().take(4).collect::<String>();
-                        assert_eq!(o.len(), 4);
+                        assert!(o.len() == 4 && o.chars().all(|c| c.is_ascii_hexdigit()));
                         let o = u16::from_str_radix(&o, 16).unwrap();
                         decode_pair(v, o)
                     } else {
-- 
2.43.0

