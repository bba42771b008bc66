From 090223a2a8cd36cdf3168ee28985258fd1737659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 01/31] fix: keep the value of integral floats outside of the
 i64 range in Number

---
 crates/hcl-primitives/src/number.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 93b1372..ab6dc0c 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -7,6 +7,12 @@ use core::ops::{Add, Div, Mul, Neg, Rem, Sub};
 #[cfg(feature = "serde")]
 use serde::de::Unexpected;
 
+// 2^63, the first float which is larger than `i64::MAX`.
+const I64_RANGE_END: f64 = 9_223_372_036_854_775_808.0;
+
+// 2^64, the first float which is larger than `u64::MAX`.
+const U64_RANGE_END: f64 = 18_446_744_073_709_551_616.0;
+
 enum CoerceResult {
     PosInt(u64, u64),
     NegInt(i64, i64),
@@ -48,11 +54,18 @@ impl N {
         // `core::f64` does not have the `fract()` method.
         #[cfg(not(feature = "std"))]
         #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
-        let no_fraction = value - (value as i64 as f64) == 0.0;
+        let no_fraction = !(-I64_RANGE_END..I64_RANGE_END).contains(&value)
+            || value - (value as i64 as f64) == 0.0;
 
-        if no_fraction {
+        // Only values within the range of the integer types are converted, everything else would
+        // be saturated by the cast. The upper bounds are exclusive: 2^63 and 2^64 are the first
+        // floats which do not fit into `i64` and `u64` respectively.
+        if no_fraction && (-I64_RANGE_END..I64_RANGE_END).contains(&value) {
             #[allow(clippy::cast_possible_truncation)]
             N::from(value as i64)
+        } else if no_fraction && (I64_RANGE_END..U64_RANGE_END).contains(&value) {
+            #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+            N::PosInt(value as u64)
         } else {
             N::Float(value)
         }
@@ -107,6 +120,11 @@ impl N {
 
 impl PartialEq for N {
     fn eq(&self, other: &Self) -> bool {
+        // Floats that are representable as an integer are always stored as such.
+        if self.is_f64() != other.is_f64() {
+            return false;
+        }
+
         match coerce(*self, *other) {
             CoerceResult::PosInt(a, b) => a == b,
             CoerceResult::NegInt(a, b) => a == b,
@@ -123,6 +141,11 @@ impl PartialOrd for N {
         match coerce(*self, *other) {
             CoerceResult::PosInt(a, b) => a.partial_cmp(&b),
             CoerceResult::NegInt(a, b) => a.partial_cmp(&b),
+            // An integer never equals a float (see `PartialEq`), but it may be rounded to one.
+            // This only happens to integers close to `u64::MAX` which are rounded up to 2^64.
+            CoerceResult::Float(a, b) if a == b && self.is_f64() != other.is_f64() => {
+                Some(self.is_f64().cmp(&other.is_f64()))
+            }
             CoerceResult::Float(a, b) => a.partial_cmp(&b),
         }
     }
-- 
2.43.0


From 852f5723a07fb18a79c967aff335cb735101b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 02/31] fix: compute Number operations exactly and never
 produce a non-finite Number

---
 crates/hcl-primitives/src/number.rs | 144 +++++++++++++++-------------
 1 file changed, 79 insertions(+), 65 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index ab6dc0c..ae3da02 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -14,18 +14,15 @@ const I64_RANGE_END: f64 = 9_223_372_036_854_775_808.0;
 const U64_RANGE_END: f64 = 18_446_744_073_709_551_616.0;
 
 enum CoerceResult {
-    PosInt(u64, u64),
-    NegInt(i64, i64),
+    Int(i128, i128),
     Float(f64, f64),
 }
 
 // Coerce two numbers to a common type suitable for binary operations.
 fn coerce(a: N, b: N) -> CoerceResult {
-    match (a, b) {
-        (N::PosInt(a), N::PosInt(b)) => CoerceResult::PosInt(a, b),
-        (N::NegInt(a), N::NegInt(b)) => CoerceResult::NegInt(a, b),
-        (N::Float(a), N::Float(b)) => CoerceResult::Float(a, b),
-        (a, b) => CoerceResult::Float(a.to_f64(), b.to_f64()),
+    match (a.to_i128(), b.to_i128()) {
+        (Some(a), Some(b)) => CoerceResult::Int(a, b),
+        _ => CoerceResult::Float(a.to_f64(), b.to_f64()),
     }
 }
 
@@ -71,6 +68,34 @@ impl N {
         }
     }
 
+    fn from_f64(value: f64) -> Option<N> {
+        if value.is_finite() {
+            Some(N::from_finite_f64(value))
+        } else {
+            None
+        }
+    }
+
+    // Integers which are out of range are converted to the nearest float.
+    fn from_i128(value: i128) -> N {
+        if let Ok(value) = u64::try_from(value) {
+            N::PosInt(value)
+        } else if let Ok(value) = i64::try_from(value) {
+            N::NegInt(value)
+        } else {
+            #[allow(clippy::cast_precision_loss)]
+            N::from_finite_f64(value as f64)
+        }
+    }
+
+    fn to_i128(self) -> Option<i128> {
+        match self {
+            N::PosInt(n) => Some(i128::from(n)),
+            N::NegInt(n) => Some(i128::from(n)),
+            N::Float(_) => None,
+        }
+    }
+
     fn as_i64(&self) -> Option<i64> {
         match *self {
             N::PosInt(n) => i64::try_from(n).ok(),
@@ -126,8 +151,7 @@ impl PartialEq for N {
         }
 
         match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a == b,
-            CoerceResult::NegInt(a, b) => a == b,
+            CoerceResult::Int(a, b) => a == b,
             CoerceResult::Float(a, b) => a == b,
         }
     }
@@ -139,8 +163,7 @@ impl Eq for N {}
 impl PartialOrd for N {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a.partial_cmp(&b),
-            CoerceResult::NegInt(a, b) => a.partial_cmp(&b),
+            CoerceResult::Int(a, b) => a.partial_cmp(&b),
             // An integer never equals a float (see `PartialEq`), but it may be rounded to one.
             // This only happens to integers close to `u64::MAX` which are rounded up to 2^64.
             CoerceResult::Float(a, b) if a == b && self.is_f64() != other.is_f64() => {
@@ -188,74 +211,49 @@ impl Neg for N {
     type Output = N;
 
     fn neg(self) -> Self::Output {
-        match self {
-            #[allow(clippy::cast_possible_wrap)]
-            N::PosInt(value) => N::NegInt(-(value as i64)),
-            N::NegInt(value) => N::from(-value),
-            N::Float(value) => N::Float(-value),
+        match self.to_i128() {
+            Some(value) => N::from_i128(-value),
+            None => N::from_finite_f64(-self.to_f64()),
         }
     }
 }
 
-impl Add for N {
-    type Output = N;
-
-    fn add(self, rhs: Self) -> Self::Output {
+impl N {
+    fn checked_add(self, rhs: Self) -> Option<N> {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a + b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a + b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a + b),
+            CoerceResult::Int(a, b) => Some(N::from_i128(a + b)),
+            CoerceResult::Float(a, b) => N::from_f64(a + b),
         }
     }
-}
-
-impl Sub for N {
-    type Output = N;
 
-    fn sub(self, rhs: Self) -> Self::Output {
+    fn checked_sub(self, rhs: Self) -> Option<N> {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => {
-                if b > a {
-                    #[allow(clippy::cast_possible_wrap)]
-                    N::NegInt(a as i64 - b as i64)
-                } else {
-                    N::PosInt(a - b)
-                }
-            }
-            CoerceResult::NegInt(a, b) => N::from(a - b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a - b),
+            CoerceResult::Int(a, b) => Some(N::from_i128(a - b)),
+            CoerceResult::Float(a, b) => N::from_f64(a - b),
         }
     }
-}
 
-impl Mul for N {
-    type Output = N;
-
-    fn mul(self, rhs: Self) -> Self::Output {
+    fn checked_mul(self, rhs: Self) -> Option<N> {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a * b),
-            CoerceResult::NegInt(a, b) => N::from(a * b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a * b),
+            CoerceResult::Int(a, b) => match a.checked_mul(b) {
+                Some(value) => Some(N::from_i128(value)),
+                None => N::from_f64(self.to_f64() * rhs.to_f64()),
+            },
+            CoerceResult::Float(a, b) => N::from_f64(a * b),
         }
     }
-}
-
-impl Div for N {
-    type Output = N;
 
-    fn div(self, rhs: Self) -> Self::Output {
-        N::from_finite_f64(self.to_f64() / rhs.to_f64())
+    fn checked_div(self, rhs: Self) -> Option<N> {
+        match coerce(self, rhs) {
+            CoerceResult::Int(a, b) if b != 0 && a % b == 0 => Some(N::from_i128(a / b)),
+            _ => N::from_f64(self.to_f64() / rhs.to_f64()),
+        }
     }
-}
-
-impl Rem for N {
-    type Output = N;
 
-    fn rem(self, rhs: Self) -> Self::Output {
+    fn checked_rem(self, rhs: Self) -> Option<N> {
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a % b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a % b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a % b),
+            CoerceResult::Int(a, b) => a.checked_rem(b).map(N::from_i128),
+            CoerceResult::Float(a, b) => N::from_f64(a % b),
         }
     }
 }
@@ -377,15 +375,25 @@ macro_rules! impl_from_signed {
 }
 
 macro_rules! impl_binary_ops {
-    ($($op:ty => $method:ident),*) => {
+    ($($op:ty => $method:ident, $checked_method:ident),*) => {
         $(
             impl $op for Number {
                 type Output = Number;
 
+                /// # Panics
+                ///
+                /// Panics if the result is not a finite number.
                 fn $method(self, rhs: Self) -> Self::Output {
-                    Number {
-                        n: self.n.$method(rhs.n)
-                    }
+                    self.$checked_method(rhs)
+                        .expect("result of number operation is not a finite number")
+                }
+            }
+
+            impl Number {
+                /// Like the operator of the same name, but returns `None` if the result is not a
+                /// finite number, e.g. because of a division by zero.
+                pub fn $checked_method(self, rhs: Self) -> Option<Number> {
+                    self.n.$checked_method(rhs.n).map(|n| Number { n })
                 }
             }
         )*
@@ -394,7 +402,13 @@ macro_rules! impl_binary_ops {
 
 impl_from_unsigned!(u8, u16, u32, u64, usize);
 impl_from_signed!(i8, i16, i32, i64, isize);
-impl_binary_ops!(Add => add, Sub => sub, Mul => mul, Div => div, Rem => rem);
+impl_binary_ops!(
+    Add => add, checked_add,
+    Sub => sub, checked_sub,
+    Mul => mul, checked_mul,
+    Div => div, checked_div,
+    Rem => rem, checked_rem
+);
 
 impl Neg for Number {
     type Output = Number;
-- 
2.43.0


From e1c04ad1194c42a4e44405d91639e1911e333af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 03/31] fix: report division by zero and overflow as evaluation
 errors instead of panicking

---
 crates/hcl-rs/src/eval/impls.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index f318e1c..d0ec371 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -409,6 +409,12 @@ impl Evaluate for BinaryOp {
         let lhs = self.lhs_expr.evaluate(ctx)?;
         let rhs = self.rhs_expr.evaluate(ctx)?;
 
+        // There is no number to represent the result of a division by zero or of an overflow.
+        let finite = |lhs, rhs, result: Option<_>| match result {
+            Some(result) => Ok(Number(result)),
+            None => Err(ctx.error(ErrorKind::BinaryOp(Number(lhs), self.operator, Number(rhs)))),
+        };
+
         let value = match (lhs, self.operator, rhs) {
             (lhs, Eq, rhs) => Bool(lhs == rhs),
             (lhs, NotEq, rhs) => Bool(lhs != rhs),
@@ -418,11 +424,11 @@ impl Evaluate for BinaryOp {
             (Number(lhs), GreaterEq, Number(rhs)) => Bool(lhs >= rhs),
             (Number(lhs), Less, Number(rhs)) => Bool(lhs < rhs),
             (Number(lhs), Greater, Number(rhs)) => Bool(lhs > rhs),
-            (Number(lhs), Plus, Number(rhs)) => Number(lhs + rhs),
-            (Number(lhs), Minus, Number(rhs)) => Number(lhs - rhs),
-            (Number(lhs), Mul, Number(rhs)) => Number(lhs * rhs),
-            (Number(lhs), Div, Number(rhs)) => Number(lhs / rhs),
-            (Number(lhs), Mod, Number(rhs)) => Number(lhs % rhs),
+            (Number(lhs), Plus, Number(rhs)) => finite(lhs, rhs, lhs.checked_add(rhs))?,
+            (Number(lhs), Minus, Number(rhs)) => finite(lhs, rhs, lhs.checked_sub(rhs))?,
+            (Number(lhs), Mul, Number(rhs)) => finite(lhs, rhs, lhs.checked_mul(rhs))?,
+            (Number(lhs), Div, Number(rhs)) => finite(lhs, rhs, lhs.checked_div(rhs))?,
+            (Number(lhs), Mod, Number(rhs)) => finite(lhs, rhs, lhs.checked_rem(rhs))?,
             (lhs, operator, rhs) => return Err(ctx.error(ErrorKind::BinaryOp(lhs, operator, rhs))),
         };
 
-- 
2.43.0


From c6cd2eecba8c2612aad67d27446d66c147082b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 04/31] fix: do not skip template markers when escaping and
 unescaping literals

---
 crates/hcl-primitives/src/template.rs | 35 +++++++++------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/crates/hcl-primitives/src/template.rs b/crates/hcl-primitives/src/template.rs
index 9302ce4..b7ff4ec 100644
--- a/crates/hcl-primitives/src/template.rs
+++ b/crates/hcl-primitives/src/template.rs
@@ -109,7 +109,7 @@ pub fn escape_markers(literal: &str) -> Cow<'_, str> {
 
 fn escape_markers_owned(literal: &str, idx: usize) -> String {
     let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let mut chars = rest.chars().peekable();
 
     while let Some(ch) = chars.next() {
         buf.push(ch);
@@ -118,16 +118,10 @@ fn escape_markers_owned(literal: &str, idx: usize) -> String {
             continue;
         }
 
-        match chars.next() {
-            Some(ch2) => {
-                if ch2 == '{' {
-                    // Escape the start marker by doubling `ch`.
-                    buf.push(ch);
-                }
-
-                buf.push(ch2);
-            }
-            None => break,
+        // Do not consume the next char yet as it may begin the next start marker.
+        if chars.peek() == Some(&'{') {
+            // Escape the start marker by doubling `ch`.
+            buf.push(ch);
         }
     }
 
@@ -173,19 +167,12 @@ fn unescape_markers_owned(literal: &str, idx: usize) -> String {
             continue;
         }
 
-        match (chars.next(), chars.next()) {
-            (Some(ch2), Some('{')) if ch2 == ch => {
-                // Unescape by not pushing `ch2` to the output buffer.
-                buf.push('{');
-            }
-            (Some(ch2), ch3) => {
-                buf.push(ch2);
-
-                if let Some(ch) = ch3 {
-                    buf.push(ch);
-                }
-            }
-            (_, _) => break,
+        // Do not consume the next chars yet as they may begin the next escaped start marker.
+        let mut lookahead = chars.clone();
+
+        if lookahead.next() == Some(ch) && lookahead.next() == Some('{') {
+            // Unescape by not pushing the second `ch` to the output buffer.
+            chars.next();
         }
     }
     buf
-- 
2.43.0


From 735518290802b3a3d389b0bf30537f92df43a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 05/31] fix: parse chained comparison operators instead of
 dropping operands

---
 crates/hcl-edit/src/parser/pratt.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/crates/hcl-edit/src/parser/pratt.rs b/crates/hcl-edit/src/parser/pratt.rs
index c96e841..a51e1cd 100644
--- a/crates/hcl-edit/src/parser/pratt.rs
+++ b/crates/hcl-edit/src/parser/pratt.rs
@@ -32,23 +32,8 @@ where
         match token {
             BinaryOpToken::Operator(operator) => {
                 let precedence = u32::from(operator.precedence());
-                let associativity = match **operator {
-                    BinaryOperator::Eq
-                    | BinaryOperator::NotEq
-                    | BinaryOperator::LessEq
-                    | BinaryOperator::GreaterEq
-                    | BinaryOperator::Less
-                    | BinaryOperator::Greater => Associativity::Neither,
-                    BinaryOperator::Plus
-                    | BinaryOperator::Minus
-                    | BinaryOperator::Mul
-                    | BinaryOperator::Div
-                    | BinaryOperator::Mod
-                    | BinaryOperator::And
-                    | BinaryOperator::Or => Associativity::Left,
-                };
 
-                Ok(Affix::Infix(Precedence(precedence), associativity))
+                Ok(Affix::Infix(Precedence(precedence), Associativity::Left))
             }
             BinaryOpToken::Expression(_) => Ok(Affix::Nilfix),
         }
-- 
2.43.0


From 70a2157aaabaad1396766c675b2ba5c21dcb69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 06/31] fix: reject invalid escape sequences after the start of
 a string literal

---
 crates/hcl-edit/src/parser/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/string.rs b/crates/hcl-edit/src/parser/string.rs
index 74b89c3..d05a5b3 100644
--- a/crates/hcl-edit/src/parser/string.rs
+++ b/crates/hcl-edit/src/parser/string.rs
@@ -7,6 +7,7 @@ use crate::{Decorated, Ident, RawString};
 use hcl_primitives::ident::{is_id_continue, is_id_start};
 use std::borrow::Cow;
 use winnow::combinator::{alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat};
+use winnow::error::ErrMode;
 use winnow::token::{any, one_of, take, take_while};
 
 pub(super) fn string(input: &mut Input) -> ModalResult<String> {
@@ -39,7 +40,8 @@ where
                     StringFragment::EscapedChar(c) => string.to_mut().push(c),
                     StringFragment::EscapedMarker(m) => string.to_mut().push_str(m.unescape()),
                 },
-                Err(_) => return Ok(string),
+                Err(ErrMode::Backtrack(_)) => return Ok(string),
+                Err(err) => return Err(err),
             }
         }
     }
-- 
2.43.0


From 9129e82269a27a32715a470c4543390b64729507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 07/31] fix: keep the escape mode of string templates across
 nested templates and heredocs

---
 crates/hcl-edit/src/encode/mod.rs      | 19 +++++++++++++++++--
 crates/hcl-edit/src/encode/template.rs |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 28c0779..045a8b5 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -33,9 +33,24 @@ impl<'a> EncodeState<'a> {
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.escape = true;
+        self.with_escape(true, f)
+    }
+
+    pub fn unescaped<F>(&mut self, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        self.with_escape(false, f)
+    }
+
+    // Restores the previous escape mode afterwards because templates can be nested.
+    fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        let previous = std::mem::replace(&mut self.escape, escape);
         let result = f(self);
-        self.escape = false;
+        self.escape = previous;
         result
     }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index fc87d25..5970ed6 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -46,7 +46,7 @@ impl Encode for HeredocTemplate {
                 let indented = indent_by(&indent_buf, n, false);
                 buf.write_str(&indented)?;
             }
-            None => self.template.encode(buf)?,
+            None => buf.unescaped(|buf| self.template.encode(buf))?,
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 32e5823bb9858cb07afa0ef260aed2612f4a51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 08/31] fix: process escape sequences in template directives of
 quoted strings

---
 crates/hcl-edit/src/parser/template.rs | 49 +++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 93d1572..8f50fa0 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -22,7 +22,7 @@ use winnow::token::one_of;
 use hcl_primitives::ident::is_id_continue;
 
 pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate> {
-    delimited('"', elements(build_string(quoted_string_fragment)), '"')
+    delimited('"', quoted_elements, '"')
         .output_into()
         .parse_next(input)
 }
@@ -30,7 +30,19 @@ pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate>
 pub(super) fn template(input: &mut Input) -> ModalResult<Template> {
     let literal_end = alt(("${", "%{"));
     let literal = template_literal(literal_end);
-    elements(literal).output_into().parse_next(input)
+    elements(literal, directive)
+        .output_into()
+        .parse_next(input)
+}
+
+/// Parse a template inside of a quoted string. Its literals end at the closing quote and may
+/// contain escape sequences, also within directives.
+fn quoted_template(input: &mut Input) -> ModalResult<Template> {
+    quoted_elements.output_into().parse_next(input)
+}
+
+fn quoted_elements(input: &mut Input) -> ModalResult<Vec<Element>> {
+    elements(build_string(quoted_string_fragment), quoted_directive).parse_next(input)
 }
 
 pub(super) fn heredoc_template<'a>(
@@ -52,7 +64,7 @@ pub(super) fn heredoc_template<'a>(
         let literal = template_literal(literal_end);
 
         // Use `opt` to handle an empty template.
-        opt((elements(literal), line_ending.with_span()).map(
+        opt((elements(literal, directive), line_ending.with_span()).map(
             |(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
@@ -84,9 +96,13 @@ where
     build_string(template_string_fragment(literal_end))
 }
 
-fn elements<'a, P>(literal: P) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
+fn elements<'a, P, D>(
+    literal: P,
+    directive: D,
+) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
 where
     P: ModalParser<Input<'a>, Cow<'a, str>, ContextError>,
+    D: ModalParser<Input<'a>, Directive, ContextError>,
 {
     repeat(
         0..,
@@ -109,14 +125,28 @@ fn interpolation(input: &mut Input) -> ModalResult<Interpolation> {
 }
 
 fn directive(input: &mut Input) -> ModalResult<Directive> {
+    directive_with(template, input)
+}
+
+fn quoted_directive(input: &mut Input) -> ModalResult<Directive> {
+    directive_with(quoted_template, input)
+}
+
+fn directive_with<'a>(
+    template: fn(&mut Input<'a>) -> ModalResult<Template>,
+    input: &mut Input<'a>,
+) -> ModalResult<Directive> {
     alt((
-        if_directive.map(Directive::If),
-        for_directive.map(Directive::For),
+        (move |input: &mut Input<'a>| if_directive(template, input)).map(Directive::If),
+        (move |input: &mut Input<'a>| for_directive(template, input)).map(Directive::For),
     ))
     .parse_next(input)
 }
 
-fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
+fn if_directive<'a>(
+    template: fn(&mut Input<'a>) -> ModalResult<Template>,
+    input: &mut Input<'a>,
+) -> ModalResult<IfDirective> {
     let if_expr = (
         control(
             "%{",
@@ -160,7 +190,10 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
         .parse_next(input)
 }
 
-fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
+fn for_directive<'a>(
+    template: fn(&mut Input<'a>) -> ModalResult<Template>,
+    input: &mut Input<'a>,
+) -> ModalResult<ForDirective> {
     let for_expr = (
         control(
             "%{",
-- 
2.43.0


From e78174713a8d348f05f1b9c63695972c69bbed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 09/31] fix: escape the literals of quoted templates and keep
 empty heredocs empty when formatting

---
 crates/hcl-rs/src/format/impls.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 54e24eb..372f59a 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -148,10 +148,15 @@ impl Format for Value {
             Value::Bool(b) => Ok(fmt.write_bool(*b)?),
             Value::Number(num) => num.format(fmt),
             Value::String(string) => {
-                if is_templated(string) {
-                    fmt.write_quoted_string(string)
+                let template = if is_templated(string) {
+                    quoted_template(string)
                 } else {
-                    fmt.write_quoted_string_escaped(string)
+                    None
+                };
+
+                match template {
+                    Some(template) => fmt.write_string_fragment(&template),
+                    None => fmt.write_quoted_string_escaped(string),
                 }
             }
             Value::Array(array) => format_array(fmt, array.iter()),
@@ -211,7 +216,10 @@ impl Format for TemplateExpr {
         W: io::Write,
     {
         match self {
-            TemplateExpr::QuotedString(string) => fmt.write_quoted_string(string),
+            TemplateExpr::QuotedString(string) => match quoted_template(string) {
+                Some(template) => fmt.write_string_fragment(&template),
+                None => fmt.write_quoted_string(string),
+            },
             TemplateExpr::Heredoc(heredoc) => heredoc.format(fmt),
         }
     }
@@ -229,7 +237,7 @@ impl Format for Heredoc {
         fmt.write_bytes(b"\n")?;
         fmt.write_string_fragment(&self.template)?;
 
-        if !self.template.ends_with('\n') {
+        if !self.template.is_empty() && !self.template.ends_with('\n') {
             fmt.write_bytes(b"\n")?;
         }
 
@@ -570,6 +578,14 @@ impl Format for String {
     }
 }
 
+// The literals of a raw template may contain characters which have to be escaped between quotes.
+// Returns `None` if `raw` is not a valid template.
+fn quoted_template(raw: &str) -> Option<String> {
+    let template: hcl_edit::template::Template = raw.parse().ok()?;
+    let template = hcl_edit::template::StringTemplate::from(template);
+    Some(hcl_edit::expr::Expression::from(template).to_string())
+}
+
 fn format_array<W, T>(fmt: &mut Formatter<W>, array: impl Iterator<Item = T>) -> Result<()>
 where
     W: io::Write,
-- 
2.43.0


From ce6cd299570c710ecf793a488114a1e82e87ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 10/31] fix: dedent and restore the indentation of heredocs
 without losing characters

---
 crates/hcl-edit/src/encode/template.rs |  45 +++++++---
 crates/hcl-edit/src/parser/expr.rs     |   5 ++
 crates/hcl-edit/src/template/mod.rs    |  35 ++++----
 crates/hcl-edit/src/util.rs            | 111 +++++++++++++------------
 4 files changed, 118 insertions(+), 78 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 5970ed6..e43c407 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -7,7 +7,7 @@ use crate::template::{
     ForTemplateExpr, HeredocTemplate, IfDirective, IfTemplateExpr, Interpolation, StringTemplate,
     Strip, Template,
 };
-use crate::util::indent_by;
+use crate::util::{indent_by, line_indent};
 use hcl_primitives::template::escape_markers;
 use std::fmt::{self, Write};
 
@@ -38,16 +38,10 @@ impl Encode for HeredocTemplate {
 
         writeln!(buf, "{}", self.delimiter.as_str())?;
 
-        match self.indent() {
-            Some(n) => {
-                let mut indent_buf = String::new();
-                let mut indent_state = EncodeState::new(&mut indent_buf);
-                self.template.encode(&mut indent_state)?;
-                let indented = indent_by(&indent_buf, n, false);
-                buf.write_str(&indented)?;
-            }
-            None => buf.unescaped(|buf| self.template.encode(buf))?,
-        }
+        buf.unescaped(|buf| match self.indent() {
+            Some(n) => encode_indented(&self.template, n, self.prefixes(), buf),
+            None => self.template.encode(buf),
+        })?;
 
         self.trailing().encode_with_default(buf, "")?;
 
@@ -55,6 +49,35 @@ impl Encode for HeredocTemplate {
     }
 }
 
+/// Restores the indentation of the lines of a heredoc template. Only lines that start within one of
+/// the template's own elements are indented.
+fn encode_indented(
+    template: &Template,
+    n: usize,
+    prefixes: &[String],
+    buf: &mut EncodeState,
+) -> fmt::Result {
+    let mut prefixes = prefixes.iter();
+    let mut line_start = true;
+
+    for element in template {
+        if let Element::Literal(lit) = element {
+            let escaped = escape_markers(lit);
+            buf.write_str(&indent_by(&escaped, n, !line_start, &mut prefixes))?;
+            line_start = lit.ends_with('\n') || (line_start && lit.is_empty());
+        } else {
+            if line_start {
+                buf.write_str(&line_indent(n, false, prefixes.next()))?;
+            }
+
+            element.encode(buf)?;
+            line_start = false;
+        }
+    }
+
+    Ok(())
+}
+
 impl Encode for Template {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         for element in self {
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 77ea970..b9601c4 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -690,6 +690,11 @@ fn heredoc<'i>(
 
         if indented {
             heredoc.dedent();
+
+            if heredoc.indent().is_none() {
+                // Nothing was stripped, but the heredoc is an indented one nevertheless.
+                heredoc.set_indent(0);
+            }
         }
 
         heredoc.set_trailing(trailing);
diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 5c68527..8bf1edc 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -164,6 +164,7 @@ pub struct HeredocTemplate {
     pub template: Template,
 
     indent: Option<usize>,
+    prefixes: Vec<String>,
     trailing: RawString,
     decor: Decor,
     span: Option<Range<usize>>,
@@ -176,6 +177,7 @@ impl HeredocTemplate {
             delimiter,
             template,
             indent: None,
+            prefixes: Vec::new(),
             trailing: RawString::default(),
             decor: Decor::default(),
             span: None,
@@ -207,8 +209,14 @@ impl HeredocTemplate {
     /// This will set the heredoc's indent to the number of leading
     /// spaces that were stripped off of template string literals, if any.
     pub fn dedent(&mut self) {
-        let stripped_indent = self.template.dedent();
+        let (stripped_indent, prefixes) = self.template.dedent().unzip();
         self.indent = stripped_indent;
+        self.prefixes = prefixes.unwrap_or_default();
+    }
+
+    /// The whitespace that was stripped off of each line when the heredoc was dedented.
+    pub(crate) fn prefixes(&self) -> &[String] {
+        &self.prefixes
     }
 
     pub(crate) fn despan(&mut self, input: &str) {
@@ -400,8 +408,8 @@ impl Template {
     }
 
     /// Dedents string literals in the template, returning the maximum indent that was stripped,
-    /// if any.
-    pub(crate) fn dedent(&mut self) -> Option<usize> {
+    /// if any, together with the whitespace that was stripped off of each line.
+    pub(crate) fn dedent(&mut self) -> Option<(usize, Vec<String>)> {
         let mut indent: Option<usize> = None;
         let mut skip_first_line = false;
 
@@ -418,21 +426,20 @@ impl Template {
             }
         }
 
-        if let Some(indent) = indent {
-            skip_first_line = false;
+        // No dedent needed if there is a line which starts with a non-whitespace character.
+        let indent = indent.filter(|&indent| indent > 0)?;
+        let mut prefixes = Vec::new();
+        skip_first_line = false;
 
-            for element in &mut self.elements {
-                if let Element::Literal(literal) = element {
-                    let dedented = dedent_by(literal, indent, skip_first_line);
-                    *literal.as_mut() = dedented.into_owned();
-                    skip_first_line = !literal.ends_with('\n');
-                } else if !skip_first_line {
-                    skip_first_line = true;
-                }
+        for element in &mut self.elements {
+            if let Element::Literal(literal) = element {
+                let dedented = dedent_by(literal, indent, skip_first_line, &mut prefixes);
+                skip_first_line = !literal.ends_with('\n');
+                *literal.as_mut() = dedented;
             }
         }
 
-        indent
+        Some((indent, prefixes))
     }
 }
 
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index 8950b9c..104fd09 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -1,80 +1,85 @@
 use std::borrow::Cow;
 
-pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool) -> Cow<'_, str> {
+/// Splits the whitespace a line starts with off its remaining content. Line endings never are part
+/// of the leading whitespace.
+fn split_leading_whitespace(line: &str) -> (&str, &str) {
+    let content = line.strip_suffix('\n').unwrap_or(line);
+    let content = content.strip_suffix('\r').unwrap_or(content);
+    line.split_at(content.len() - content.trim_start().len())
+}
+
+/// Returns `true` if the line has a line ending which is only preceded by whitespace.
+fn is_blank_line(line: &str) -> bool {
+    line.ends_with('\n') && line.trim_start().is_empty()
+}
+
+/// Removes up to `n` characters of leading whitespace from every line of `s`. The removed
+/// whitespace of every line is appended to `prefixes`.
+pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool, prefixes: &mut Vec<String>) -> String {
     let mut dedented = String::with_capacity(s.len());
 
-    for (i, line) in s.lines().enumerate() {
+    for (i, line) in s.split_inclusive('\n').enumerate() {
         if i == 0 && skip_first {
             dedented.push_str(line);
-        } else if !line.is_empty() {
-            dedented.extend(line.chars().skip(n));
+            continue;
         }
 
-        dedented.push('\n');
+        let (leading_ws, _) = split_leading_whitespace(line);
+        let prefix: String = leading_ws.chars().take(n).collect();
+        dedented.push_str(&line[prefix.len()..]);
+        prefixes.push(prefix);
     }
 
-    if dedented.ends_with('\n') && !s.ends_with('\n') {
-        let new_len = dedented.len() - 1;
-        dedented.truncate(new_len);
-    }
-
-    dedented.shrink_to_fit();
-
-    Cow::Owned(dedented)
+    dedented
 }
 
+/// Returns the number of leading whitespace characters that can be stripped off of every line of
+/// `s` which is not blank. Returns `None` if there is no such line.
 pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize> {
-    if s.is_empty() {
-        return None;
-    }
+    let mut min: Option<usize> = None;
 
-    let mut leading_ws: Option<usize> = None;
-
-    // Find the minimum number of possible leading units of whitespace that can be be stripped off
-    // of each non-empty line.
-    for (i, line) in s.lines().enumerate() {
-        if (i == 0 && skip_first) || line.is_empty() {
+    for (i, line) in s.split_inclusive('\n').enumerate() {
+        if (i == 0 && skip_first) || is_blank_line(line) {
             continue;
         }
 
-        let line_leading_ws = line.chars().take_while(|ch| ch.is_whitespace()).count();
-
-        if line_leading_ws == 0 {
-            // Fast path: no dedent needed if we encounter a non-empty line which starts with a
-            // non-whitespace character.
-            return None;
-        }
-
-        leading_ws = Some(leading_ws.map_or(line_leading_ws, |leading_ws| {
-            leading_ws.min(line_leading_ws)
-        }));
+        let (leading_ws, _) = split_leading_whitespace(line);
+        let n = leading_ws.chars().count();
+        min = Some(min.map_or(n, |min| min.min(n)));
     }
 
-    leading_ws
+    min
 }
 
-pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
-    let prefix = " ".repeat(n);
-    let length = s.len();
-    let mut output = String::with_capacity(length + length / 2);
-
-    for (i, line) in s.lines().enumerate() {
-        if i > 0 {
-            output.push('\n');
-
-            if !line.is_empty() {
-                output.push_str(&prefix);
-            }
-        } else if !skip_first && !line.is_empty() {
-            output.push_str(&prefix);
+/// Adds `n` characters of indentation to every line of `s`.
+///
+/// The whitespace that was removed by `dedent_by` is taken from `prefixes`, other lines are
+/// indented by spaces unless they are blank.
+pub(crate) fn indent_by<'a>(
+    s: &str,
+    n: usize,
+    skip_first: bool,
+    prefixes: &mut impl Iterator<Item = &'a String>,
+) -> String {
+    let mut indented = String::with_capacity(s.len() + s.len() / 2);
+
+    for (i, line) in s.split_inclusive('\n').enumerate() {
+        if i > 0 || !skip_first {
+            indented.push_str(&line_indent(n, is_blank_line(line), prefixes.next()));
         }
 
-        output.push_str(line);
+        indented.push_str(line);
     }
 
-    if s.ends_with('\n') {
-        output.push('\n');
-    }
+    indented
+}
 
-    output
+/// Returns the indentation of a line that had `prefix` removed from it, if known.
+pub(crate) fn line_indent(n: usize, blank: bool, prefix: Option<&String>) -> Cow<'_, str> {
+    match prefix {
+        Some(prefix) if prefix.chars().count() == n => prefix.into(),
+        Some(prefix) if blank && prefix.chars().count() < n => prefix.into(),
+        _ if blank => "".into(),
+        _ => " ".repeat(n).into(),
+    }
 }
-- 
2.43.0


From 5b49a59761c323df13be1f23e3adb05ab7f1c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 11/31] fix: keep the strip mode when converting a heredoc to
 its editable form

---
 crates/hcl-rs/src/expr/edit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index becf377..7de2320 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -222,7 +222,16 @@ impl From<template::HeredocTemplate> for Heredoc {
 
 impl From<Heredoc> for template::HeredocTemplate {
     fn from(value: Heredoc) -> Self {
-        template::HeredocTemplate::new(value.delimiter.into(), template_or_default(value.template))
+        let mut heredoc = template::HeredocTemplate::new(
+            value.delimiter.into(),
+            template_or_default(value.template),
+        );
+
+        if value.strip == HeredocStripMode::Indent {
+            heredoc.set_indent(0);
+        }
+
+        heredoc
     }
 }
 
-- 
2.43.0


From e4c771e82ba906e6cb505a5c17b26ecbb222ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 12/31] fix: keep whitespace after the grouping operator inside
 of for expressions

---
 crates/hcl-edit/src/encode/expr.rs   |  1 +
 crates/hcl-edit/src/expr/for_expr.rs | 16 +++++++++++++++-
 crates/hcl-edit/src/parser/expr.rs   |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 61953a4..d7a0d8e 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -136,6 +136,7 @@ impl Encode for ForExpr {
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             }
+            self.trailing().encode_with_default(buf, "")?;
             buf.write_char('}')
         } else {
             // list expr
diff --git a/crates/hcl-edit/src/expr/for_expr.rs b/crates/hcl-edit/src/expr/for_expr.rs
index 858e6d2..3341506 100644
--- a/crates/hcl-edit/src/expr/for_expr.rs
+++ b/crates/hcl-edit/src/expr/for_expr.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorate, Decorated, Ident};
+use crate::{Decor, Decorate, Decorated, Ident, RawString};
 use std::ops::Range;
 
 /// A for expression is a construct for constructing a collection by projecting the items from
@@ -22,6 +22,7 @@ pub struct ForExpr {
     /// be evaluated as normal, while if `false` the element will be skipped.
     pub cond: Option<ForCond>,
 
+    trailing: RawString,
     decor: Decor,
     span: Option<Range<usize>>,
 }
@@ -36,6 +37,7 @@ impl ForExpr {
             value_expr: value_expr.into(),
             grouping: false,
             cond: None,
+            trailing: RawString::default(),
             decor: Decor::default(),
             span: None,
         }
@@ -54,6 +56,18 @@ impl ForExpr {
         if let Some(cond) = &mut self.cond {
             cond.despan(input);
         }
+
+        self.trailing.despan(input);
+    }
+
+    /// Return a reference to the raw trailing decor between the `...` of the grouping mode and the
+    /// closing brace.
+    pub(crate) fn trailing(&self) -> &RawString {
+        &self.trailing
+    }
+
+    pub(crate) fn set_trailing(&mut self, trailing: impl Into<RawString>) {
+        self.trailing = trailing.into();
     }
 }
 
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index b9601c4..5371e23 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -472,7 +472,7 @@ fn for_object_expr<'i>(
                     if let Some(ref mut cond) = expr.cond {
                         cond.decor_mut().set_prefix(trailing);
                     } else {
-                        expr.decor_mut().set_suffix(trailing);
+                        expr.set_trailing(trailing);
                     }
                 }
 
-- 
2.43.0


From ebf18261ad0d11b714fb0a9c761a28a7dd0caefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 13/31] fix: keep carriage returns of line endings

---
 crates/hcl-edit/src/encode/template.rs  |  4 +++-
 crates/hcl-edit/src/parser/expr.rs      | 21 +++++++++++----------
 crates/hcl-edit/src/parser/structure.rs |  9 ++++++---
 crates/hcl-edit/src/parser/trivia.rs    |  8 +++++++-
 crates/hcl-edit/src/template/mod.rs     | 13 +++++++++++++
 5 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index e43c407..8433028 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -36,7 +36,9 @@ impl Encode for HeredocTemplate {
             buf.write_char('-')?;
         }
 
-        writeln!(buf, "{}", self.delimiter.as_str())?;
+        buf.write_str(self.delimiter.as_str())?;
+        self.intro_suffix().encode_with_default(buf, "")?;
+        buf.write_char('\n')?;
 
         buf.unescaped(|buf| match self.indent() {
             Some(n) => encode_indented(&self.template, n, self.prefixes(), buf),
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 5371e23..a657b6d 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -5,7 +5,7 @@ use super::repr::{decorated, prefix_decorated, spanned, suffix_decorated};
 use super::state::ExprParseState;
 use super::string::{cut_char, cut_ident, cut_tag, ident, raw_string, str_ident, string};
 use super::template::{heredoc_template, string_template};
-use super::trivia::{line_comment, sp, ws};
+use super::trivia::{carriage_return, line_comment, sp, ws};
 
 use crate::expr::{
     Array, BinaryOperator, Expression, ForCond, ForExpr, ForIntro, FuncArgs, FuncCall, FuncName,
@@ -17,7 +17,7 @@ use crate::{Decorate, Decorated, Formatted, Ident, RawString, SetSpan, Spanned};
 
 use hcl_primitives::ident::{is_id_continue, is_id_start};
 use std::cell::RefCell;
-use winnow::ascii::{crlf, dec_uint, line_ending, newline, space0};
+use winnow::ascii::{dec_uint, line_ending, newline, space0};
 use winnow::combinator::{
     alt, cut_err, delimited, empty, fail, not, opt, peek, preceded, repeat, separated,
     separated_pair, terminated,
@@ -515,21 +515,20 @@ fn object_items<'i>(
                     state.borrow_mut().on_expr_term(Expression::Object(object));
                     return Ok(());
                 }
-                '\r' => crlf
-                    .value(ObjectValueTerminator::Newline)
-                    .parse_next(input)?,
                 '\n' => newline
                     .value(ObjectValueTerminator::Newline)
                     .parse_next(input)?,
                 ',' => take(1usize)
                     .value(ObjectValueTerminator::Comma)
                     .parse_next(input)?,
-                '#' | '/' => {
-                    let comment_span = line_comment.span().parse_next(input)?;
+                '#' | '/' | '\r' => {
+                    let comment_span = (opt(line_comment), carriage_return)
+                        .span()
+                        .parse_next(input)?;
 
                     let decor = value.expr_mut().decor_mut();
 
-                    // Associate the trailing comment with the item value, updating the span if it
+                    // Associate the trailing comment and carriage return with the item value, updating the span if it
                     // already has a decor suffix.
                     let suffix_span = match decor.suffix().and_then(RawString::span) {
                         Some(span) => span.start..comment_span.end,
@@ -673,7 +672,7 @@ fn heredoc<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        let (indented, delim) = heredoc_start(input)?;
+        let (indented, delim, intro_suffix) = heredoc_start(input)?;
 
         let (template, trailing) = (
             spanned(heredoc_template(delim)),
@@ -697,6 +696,7 @@ fn heredoc<'i>(
             }
         }
 
+        heredoc.set_intro_suffix(intro_suffix);
         heredoc.set_trailing(trailing);
 
         state
@@ -706,13 +706,14 @@ fn heredoc<'i>(
     }
 }
 
-fn heredoc_start<'a>(input: &mut Input<'a>) -> ModalResult<(bool, &'a str)> {
+fn heredoc_start<'a>(input: &mut Input<'a>) -> ModalResult<(bool, &'a str, RawString)> {
     terminated(
         (
             preceded("<<", opt('-')).map(|indent| indent.is_some()),
             cut_err(str_ident).context(StrContext::Expected(StrContextValue::Description(
                 "identifier",
             ))),
+            raw_string(carriage_return),
         ),
         cut_err(line_ending).context(StrContext::Expected(StrContextValue::CharLiteral('\n'))),
     )
diff --git a/crates/hcl-edit/src/parser/structure.rs b/crates/hcl-edit/src/parser/structure.rs
index bc9f1f1..abf4564 100644
--- a/crates/hcl-edit/src/parser/structure.rs
+++ b/crates/hcl-edit/src/parser/structure.rs
@@ -4,7 +4,7 @@ use super::expr::expr;
 use super::repr::{decorated, prefix_decorated, suffix_decorated};
 use super::state::BodyParseState;
 use super::string::{cut_char, cut_str_ident, ident, raw_string, string};
-use super::trivia::{line_comment, sp, void, ws};
+use super::trivia::{carriage_return, line_comment, sp, void, ws};
 
 use crate::expr::Expression;
 use crate::structure::{Attribute, Block, BlockLabel, Body, Structure};
@@ -29,7 +29,7 @@ pub(super) fn body(input: &mut Input) -> ModalResult<Body> {
                 (
                     ws.span().map(|span| state.borrow_mut().on_ws(span)),
                     structure(&state),
-                    (sp, opt(line_comment))
+                    (sp, opt(line_comment), carriage_return)
                         .span()
                         .map(|span| state.borrow_mut().on_ws(span)),
                 ),
@@ -151,7 +151,10 @@ fn block_body(input: &mut Input) -> ModalResult<Body> {
         cut_char('{'),
         alt((
             // Multiline block.
-            prefix_decorated((sp, opt(line_comment)), preceded(line_ending, body)),
+            prefix_decorated(
+                (sp, opt(line_comment), carriage_return),
+                preceded(line_ending, body),
+            ),
             // One-line block.
             (opt(decorated(sp, attribute, sp)), raw_string(sp)).map(|(attr, suffix)| {
                 let mut body = Body::new();
diff --git a/crates/hcl-edit/src/parser/trivia.rs b/crates/hcl-edit/src/parser/trivia.rs
index 9a90890..5eb3116 100644
--- a/crates/hcl-edit/src/parser/trivia.rs
+++ b/crates/hcl-edit/src/parser/trivia.rs
@@ -1,7 +1,7 @@
 use super::prelude::*;
 
 use winnow::ascii::{multispace0, space0, till_line_ending};
-use winnow::combinator::{alt, delimited, fail, peek, preceded, repeat};
+use winnow::combinator::{alt, delimited, fail, opt, peek, preceded, repeat, terminated};
 use winnow::token::{any, take_until};
 
 pub(super) fn ws(input: &mut Input) -> ModalResult<()> {
@@ -40,6 +40,12 @@ pub(super) fn line_comment(input: &mut Input) -> ModalResult<()> {
     .parse_next(input)
 }
 
+/// The carriage return of a `\r\n` line ending. It has to be tracked as part of the whitespace before
+/// the line ending to be able to reproduce it, since `\n` is used for line endings otherwise.
+pub(super) fn carriage_return(input: &mut Input) -> ModalResult<()> {
+    opt(terminated('\r', peek('\n'))).void().parse_next(input)
+}
+
 fn hash_line_comment(input: &mut Input) -> ModalResult<()> {
     preceded('#', till_line_ending).void().parse_next(input)
 }
diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 8bf1edc..7e6e2f2 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -163,6 +163,7 @@ pub struct HeredocTemplate {
     /// The raw template contained in the heredoc.
     pub template: Template,
 
+    intro_suffix: RawString,
     indent: Option<usize>,
     prefixes: Vec<String>,
     trailing: RawString,
@@ -176,6 +177,7 @@ impl HeredocTemplate {
         HeredocTemplate {
             delimiter,
             template,
+            intro_suffix: RawString::default(),
             indent: None,
             prefixes: Vec::new(),
             trailing: RawString::default(),
@@ -194,6 +196,16 @@ impl HeredocTemplate {
         self.indent = Some(indent);
     }
 
+    /// Return a reference to the raw decor between the delimiter and the newline which introduce the
+    /// heredoc.
+    pub(crate) fn intro_suffix(&self) -> &RawString {
+        &self.intro_suffix
+    }
+
+    pub(crate) fn set_intro_suffix(&mut self, suffix: impl Into<RawString>) {
+        self.intro_suffix = suffix.into();
+    }
+
     /// Return a reference to the raw trailing decor before the heredoc's closing delimiter.
     pub fn trailing(&self) -> &RawString {
         &self.trailing
@@ -221,6 +233,7 @@ impl HeredocTemplate {
 
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
+        self.intro_suffix.despan(input);
         self.template.despan(input);
         self.trailing.despan(input);
     }
-- 
2.43.0


From 67118b76496db38c1444d781c354b908ccb86804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 14/31] fix: keep comments and whitespace around binary
 operators

---
 crates/hcl-edit/src/expr/operation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/expr/operation.rs b/crates/hcl-edit/src/expr/operation.rs
index 5db2af3..a260dbe 100644
--- a/crates/hcl-edit/src/expr/operation.rs
+++ b/crates/hcl-edit/src/expr/operation.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorated, Spanned};
+use crate::{Decor, Decorate, Decorated, Spanned};
 use std::ops::Range;
 
 // Re-exported for convenience.
@@ -77,6 +77,7 @@ impl BinaryOp {
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
         self.lhs_expr.despan(input);
+        self.operator.decor_mut().despan(input);
         self.rhs_expr.despan(input);
     }
 }
-- 
2.43.0


From 06cc5579616ef6faa604d8e3f75394d864fc0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 15/31] fix: do not turn a marker character before a template
 element into an escape

---
 crates/hcl-edit/src/encode/template.rs | 99 +++++++++++++++++++-------
 crates/hcl-rs/src/format/impls.rs      | 49 ++++++++++---
 2 files changed, 115 insertions(+), 33 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 8433028..a516a98 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -17,13 +17,7 @@ const DIRECTIVE_START: &str = "%{";
 impl Encode for StringTemplate {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('"')?;
-        buf.escaped(|buf| {
-            for element in self {
-                element.encode(buf)?;
-            }
-
-            Ok(())
-        })?;
+        buf.escaped(|buf| encode_elements(self, false, buf))?;
         buf.write_char('"')
     }
 }
@@ -61,11 +55,14 @@ fn encode_indented(
 ) -> fmt::Result {
     let mut prefixes = prefixes.iter();
     let mut line_start = true;
+    let mut elements = template.iter().peekable();
 
-    for element in template {
+    while let Some(element) = elements.next() {
         if let Element::Literal(lit) = element {
-            let escaped = escape_markers(lit);
+            let (text, marker_chars) = split_marker_chars(lit, elements.peek(), false);
+            let escaped = escape_markers(text);
             buf.write_str(&indent_by(&escaped, n, !line_start, &mut prefixes))?;
+            encode_marker_chars(marker_chars, buf)?;
             line_start = lit.ends_with('\n') || (line_start && lit.is_empty());
         } else {
             if line_start {
@@ -82,31 +79,83 @@ fn encode_indented(
 
 impl Encode for Template {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        for element in self {
-            element.encode(buf)?;
-        }
-
-        Ok(())
+        encode_elements(self, false, buf)
     }
 }
 
 impl Encode for Element {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         match self {
-            Element::Literal(lit) => {
-                let escaped = escape_markers(lit);
-                if buf.escape() {
-                    encode_escaped(buf, &escaped)
-                } else {
-                    buf.write_str(&escaped)
-                }
-            }
+            Element::Literal(lit) => encode_literal(lit, buf),
             Element::Interpolation(interp) => interp.encode(buf),
             Element::Directive(dir) => dir.encode(buf),
         }
     }
 }
 
+fn encode_elements(
+    template: &Template,
+    directive_follows: bool,
+    buf: &mut EncodeState,
+) -> fmt::Result {
+    let mut elements = template.iter().peekable();
+
+    while let Some(element) = elements.next() {
+        match element {
+            Element::Literal(lit) => {
+                let (lit, marker_chars) =
+                    split_marker_chars(lit, elements.peek(), directive_follows);
+                encode_literal(lit, buf)?;
+                encode_marker_chars(marker_chars, buf)?;
+            }
+            other => other.encode(buf)?,
+        }
+    }
+
+    Ok(())
+}
+
+fn encode_literal(lit: &str, buf: &mut EncodeState) -> fmt::Result {
+    let escaped = escape_markers(lit);
+    if buf.escape() {
+        encode_escaped(buf, &escaped)
+    } else {
+        buf.write_str(&escaped)
+    }
+}
+
+/// Splits the `$` or `%` characters off the end of a literal if they would turn the start marker of
+/// the element or the enclosing directive following the literal into an escaped one.
+fn split_marker_chars<'a>(
+    lit: &'a str,
+    next: Option<&&Element>,
+    directive_follows: bool,
+) -> (&'a str, &'a str) {
+    let rest = match next {
+        Some(Element::Interpolation(_)) => lit.trim_end_matches('$'),
+        Some(Element::Directive(_)) => lit.trim_end_matches('%'),
+        None if directive_follows => lit.trim_end_matches('%'),
+        Some(Element::Literal(_)) | None => lit,
+    };
+    lit.split_at(rest.len())
+}
+
+fn encode_marker_chars(chars: &str, buf: &mut EncodeState) -> fmt::Result {
+    if chars.is_empty() {
+        return Ok(());
+    }
+
+    if buf.escape() {
+        for ch in chars.chars() {
+            write!(buf, "\\u{:04X}", ch as u32)?;
+        }
+    } else {
+        write!(buf, "${{\"{chars}\"}}")?;
+    }
+
+    Ok(())
+}
+
 impl Encode for Interpolation {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         encode_strip(buf, INTERPOLATION_START, self.strip, |buf| {
@@ -141,7 +190,7 @@ impl Encode for IfTemplateExpr {
             buf.write_str("if")?;
             self.cond_expr.encode_decorated(buf, TRAILING_SPACE_DECOR)
         })?;
-        self.template.encode(buf)
+        encode_elements(&self.template, true, buf)
     }
 }
 
@@ -152,7 +201,7 @@ impl Encode for ElseTemplateExpr {
             buf.write_str("else")?;
             self.trailing().encode_with_default(buf, " ")
         })?;
-        self.template.encode(buf)
+        encode_elements(&self.template, true, buf)
     }
 }
 
@@ -188,7 +237,7 @@ impl Encode for ForTemplateExpr {
             buf.write_str("in")?;
             self.collection_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
-        self.template.encode(buf)
+        encode_elements(&self.template, true, buf)
     }
 }
 
diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 372f59a..25191e0 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -469,11 +469,7 @@ impl Format for Template {
     where
         W: io::Write,
     {
-        for element in self.elements() {
-            element.format(fmt)?;
-        }
-
-        Ok(())
+        format_elements(fmt, self, false)
     }
 }
 
@@ -531,11 +527,11 @@ impl Format for IfDirective {
             fmt.write_bytes(b"if ")?;
             self.cond_expr.format(fmt)
         })?;
-        self.true_template.format(fmt)?;
+        format_elements(fmt, &self.true_template, true)?;
 
         if let Some(false_template) = &self.false_template {
             format_directive(fmt, self.else_strip, |fmt| fmt.write_bytes(b"else"))?;
-            false_template.format(fmt)?;
+            format_elements(fmt, false_template, true)?;
         }
 
         format_directive(fmt, self.endif_strip, |fmt| fmt.write_bytes(b"endif"))
@@ -562,7 +558,7 @@ impl Format for ForDirective {
             self.collection_expr.format(fmt)
         })?;
 
-        self.template.format(fmt)?;
+        format_elements(fmt, &self.template, true)?;
         format_directive(fmt, self.endfor_strip, |fmt| fmt.write_bytes(b"endfor"))
     }
 }
@@ -578,6 +574,43 @@ impl Format for String {
     }
 }
 
+// Formats the elements of a template. A `$` or `%` at the end of a literal would turn the start
+// marker of the element or of the enclosing directive that follows into an escaped one, so it is
+// written as an interpolation.
+fn format_elements<W>(
+    fmt: &mut Formatter<W>,
+    template: &Template,
+    directive_follows: bool,
+) -> Result<()>
+where
+    W: io::Write,
+{
+    let mut elements = template.elements().iter().peekable();
+
+    while let Some(element) = elements.next() {
+        let Element::Literal(lit) = element else {
+            element.format(fmt)?;
+            continue;
+        };
+
+        let text = match elements.peek() {
+            Some(Element::Interpolation(_)) => lit.trim_end_matches('$'),
+            Some(Element::Directive(_)) => lit.trim_end_matches('%'),
+            None if directive_follows => lit.trim_end_matches('%'),
+            Some(Element::Literal(_)) | None => lit,
+        };
+        let marker_chars = &lit[text.len()..];
+
+        fmt.write_string_fragment(&escape_markers(text))?;
+
+        if !marker_chars.is_empty() {
+            fmt.write_string_fragment(&format!("${{\"{marker_chars}\"}}"))?;
+        }
+    }
+
+    Ok(())
+}
+
 // The literals of a raw template may contain characters which have to be escaped between quotes.
 // Returns `None` if `raw` is not a valid template.
 fn quoted_template(raw: &str) -> Option<String> {
-- 
2.43.0


From f2de70ebc9c5a9ef5cb7938c2e8388db34e545d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 16/31] fix: report the column of a parse error at a multi-byte
 character

---
 crates/hcl-edit/src/parser/error.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index 976f2a6..e419dc3 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -128,7 +128,6 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
         );
     }
     let offset = err.offset().min(input.len() - 1);
-    let column_offset = err.offset() - offset;
 
     // Find the start of the line containing the error.
     let line_begin = input[..offset]
@@ -149,11 +148,13 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
     // the line number.
     let line = input[..line_begin].iter().filter(|&&b| b == b'\n').count() + 1;
 
-    // The (1-indexed) column number is the offset of the remaining input into that line.
-    // This also takes multi-byte unicode characters into account.
-    let column = std::str::from_utf8(&input[line_begin..=offset])
-        .map_or_else(|_| offset - line_begin + 1, |s| s.chars().count())
-        + column_offset;
+    // The (1-indexed) column number is the number of characters that start in front of the error.
+    // This takes multi-byte unicode characters into account, also if the error is at one of them.
+    let column = input[line_begin..err.offset()]
+        .iter()
+        .filter(|&&b| !is_continuation_byte(b))
+        .count()
+        + 1;
 
     (
         line_context,
@@ -165,6 +166,10 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
     )
 }
 
+fn is_continuation_byte(b: u8) -> bool {
+    b & 0b1100_0000 == 0b1000_0000
+}
+
 // This is almost identical to `ContextError::to_string` but produces a slightly different format
 // which does not contain line breaks and emits "unexpected token" when there was no expectation in
 // the context.
-- 
2.43.0


From bfabee8399c1035a95eb880ad223bfc173c99fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 17/31] fix: evaluate templates and traversals in place only
 where evaluating does

---
 crates/hcl-rs/src/eval/impls.rs    | 35 ++++++++++++++++++++----------
 crates/hcl-rs/src/eval/template.rs |  2 +-
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index d0ec371..0ed85f9 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -252,27 +252,38 @@ impl Evaluate for Template {
         #[allow(clippy::manual_try_fold)]
         self.elements_mut()
             .iter_mut()
-            .fold(Ok(()), |mut res, element| match element {
+            .fold(Ok(()), |res, element| match element {
                 Element::Literal(_) => res,
                 Element::Interpolation(interp) => {
                     res.add_errors(interp.expr.evaluate_in_place(ctx))
                 }
                 Element::Directive(dir) => match &mut **dir {
+                    // Only evaluate the parts that also contribute to the result of evaluating the
+                    // directive. The template of a `for` directive refers to variables which are
+                    // not defined yet.
                     Directive::If(dir) => {
-                        res = res
-                            .add_errors(dir.cond_expr.evaluate_in_place(ctx))
-                            .add_errors(dir.true_template.evaluate_in_place(ctx));
-
-                        match &mut dir.false_template {
-                            Some(false_template) => {
+                        let cond = dir
+                            .cond_expr
+                            .evaluate_in_place(ctx)
+                            .and_then(|()| Ok(expr::evaluate_bool(&dir.cond_expr, ctx)?));
+
+                        match (cond, &mut dir.false_template) {
+                            (Err(errors), _) => res.add_errors(Err(errors)),
+                            (Ok(true), _) => {
+                                res.add_errors(dir.true_template.evaluate_in_place(ctx))
+                            }
+                            (Ok(false), Some(false_template)) => {
                                 res.add_errors(false_template.evaluate_in_place(ctx))
                             }
-                            None => res,
+                            (Ok(false), None) => res,
                         }
                     }
-                    Directive::For(dir) => res
-                        .add_errors(dir.collection_expr.evaluate_in_place(ctx))
-                        .add_errors(dir.template.evaluate_in_place(ctx)),
+                    Directive::For(dir) => {
+                        res.add_errors(dir.collection_expr.evaluate_in_place(ctx).and_then(|()| {
+                            let mut result = String::new();
+                            Ok(template::evaluate_for_directive(&mut result, dir, ctx)?)
+                        }))
+                    }
                 },
             })
     }
@@ -293,6 +304,8 @@ impl Evaluate for Traversal {
         #[allow(clippy::manual_try_fold)]
         self.operators
             .iter_mut()
+            // The operators following a splat are not evaluated if there is nothing to apply them to.
+            .take_while(|operator| !matches!(operator, TraversalOperator::FullSplat))
             .fold(Ok(()), |res, operator| match operator {
                 TraversalOperator::Index(expr) => res.add_errors(expr.evaluate_in_place(ctx)),
                 _ => res,
diff --git a/crates/hcl-rs/src/eval/template.rs b/crates/hcl-rs/src/eval/template.rs
index 4a21d7a..f65b594 100644
--- a/crates/hcl-rs/src/eval/template.rs
+++ b/crates/hcl-rs/src/eval/template.rs
@@ -114,7 +114,7 @@ fn evaluate_if_directive(result: &mut String, dir: &IfDirective, ctx: &Context)
     Ok(())
 }
 
-fn evaluate_for_directive(
+pub(super) fn evaluate_for_directive(
     result: &mut String,
     dir: &ForDirective,
     ctx: &Context,
-- 
2.43.0


From db9236b13ce36f8e8152e4005324ff0987559d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 18/31] fix: allow any argument type if a parameter has no
 alternatives

---
 crates/hcl-rs/src/eval/func.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/eval/func.rs b/crates/hcl-rs/src/eval/func.rs
index 7e424fd..391a544 100644
--- a/crates/hcl-rs/src/eval/func.rs
+++ b/crates/hcl-rs/src/eval/func.rs
@@ -75,9 +75,12 @@ impl ParamType {
                 .as_object()
                 .is_some_and(|object| object.values().all(|elem| elem_type.is_satisfied_by(elem))),
             ParamType::Nullable(elem_type) => value.is_null() || elem_type.is_satisfied_by(value),
-            ParamType::OneOf(elem_types) => elem_types
-                .iter()
-                .any(|elem_type| elem_type.is_satisfied_by(value)),
+            ParamType::OneOf(elem_types) => {
+                elem_types.is_empty()
+                    || elem_types
+                        .iter()
+                        .any(|elem_type| elem_type.is_satisfied_by(value))
+            }
         }
     }
 }
-- 
2.43.0


From 928519ffba02172cc4c589f493fbfd8246446343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 19/31] fix: end an empty heredoc at its own delimiter

---
 crates/hcl-edit/src/parser/template.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 8f50fa0..965724a 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -16,7 +16,9 @@ use crate::{SetSpan, Span, Spanned};
 
 use std::borrow::Cow;
 use winnow::ascii::{line_ending, space0};
-use winnow::combinator::{alt, delimited, not, opt, preceded, repeat, separated_pair, terminated};
+use winnow::combinator::{
+    alt, delimited, not, opt, peek, preceded, repeat, separated_pair, terminated,
+};
 use winnow::token::one_of;
 
 use hcl_primitives::ident::is_id_continue;
@@ -49,6 +51,18 @@ pub(super) fn heredoc_template<'a>(
     delim: &'a str,
 ) -> impl ModalParser<Input<'a>, Template, ContextError> {
     move |input: &mut Input<'a>| {
+        // The heredoc is empty if the end delimiter immediately follows the intro.
+        if peek((
+            space0::<_, ContextError>,
+            delim,
+            not(one_of(is_id_continue)),
+        ))
+        .parse_next(input)
+        .is_ok()
+        {
+            return Ok(Template::default());
+        }
+
         // We'll need to look for a line ending followed by optional space and the heredoc
         // delimiter.
         //
-- 
2.43.0


From 33203fdd5d75f06f52f54effbb61f61542200bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 20/31] fix: keep blank space and comments before traversal
 operators

---
 crates/hcl-edit/src/expr/traversal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-edit/src/expr/traversal.rs b/crates/hcl-edit/src/expr/traversal.rs
index 6c28a28..90e055c 100644
--- a/crates/hcl-edit/src/expr/traversal.rs
+++ b/crates/hcl-edit/src/expr/traversal.rs
@@ -35,6 +35,7 @@ impl Traversal {
         self.expr.despan(input);
 
         for operator in &mut self.operators {
+            operator.decor_mut().despan(input);
             operator.despan(input);
         }
     }
-- 
2.43.0


From 1739f70d1b0651917289e6f66d0654a316250388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 21/31] fix: keep all blocks which differ in their number of
 labels when converting to a value

---
 crates/hcl-rs/src/structure/json_spec.rs | 30 +++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/structure/json_spec.rs b/crates/hcl-rs/src/structure/json_spec.rs
index d0336c2..e9a6cf9 100644
--- a/crates/hcl-rs/src/structure/json_spec.rs
+++ b/crates/hcl-rs/src/structure/json_spec.rs
@@ -68,6 +68,9 @@ pub(crate) enum JsonNode {
     Map(Map<String, JsonNode>),
     Body(Vec<Body>),
     Expr(Expression),
+    /// Blocks which share an identifier but have a different number of labels. There is at most one
+    /// `JsonNode::Map` in it.
+    List(Vec<JsonNode>),
 }
 
 impl From<JsonNode> for Expression {
@@ -89,6 +92,7 @@ impl From<JsonNode> for Expression {
                 }
             }
             JsonNode::Expr(expr) => expr,
+            JsonNode::List(nodes) => Expression::from_iter(nodes),
         }
     }
 }
@@ -131,7 +135,31 @@ impl JsonNode {
             (JsonNode::Body(lhs), JsonNode::Body(mut rhs)) => {
                 lhs.append(&mut rhs);
             }
-            (lhs, rhs) => *lhs = rhs,
+            (lhs @ JsonNode::Expr(_), rhs) => *lhs = rhs,
+            (JsonNode::List(nodes), JsonNode::Map(map)) => {
+                match nodes.iter_mut().find(|n| matches!(n, JsonNode::Map(_))) {
+                    Some(node) => node.deep_merge(JsonNode::Map(map)),
+                    None => nodes.push(JsonNode::Map(map)),
+                }
+            }
+            (JsonNode::List(nodes), other) => nodes.extend(other.into_list()),
+            (lhs, rhs) => {
+                let node = std::mem::replace(lhs, JsonNode::List(Vec::new()));
+                *lhs = JsonNode::List(node.into_list());
+                lhs.deep_merge(rhs);
+            }
+        }
+    }
+
+    // Splits the node up so that every element of the returned vector is a single value.
+    fn into_list(self) -> Vec<JsonNode> {
+        match self {
+            JsonNode::Body(bodies) => bodies
+                .into_iter()
+                .map(|body| JsonNode::Body(vec![body]))
+                .collect(),
+            JsonNode::List(nodes) => nodes,
+            node => vec![node],
         }
     }
 }
-- 
2.43.0


From 67f13af62c3c0f7684d1d89a9ce6c173d087cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 22/31] fix: deserialize newtype structs and newtype map keys
 from values

---
 crates/hcl-rs/src/value/de.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 118d682..51dea08 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -1,7 +1,8 @@
 use super::{Map, Value};
 use crate::{Error, Number, Result};
 use indexmap::map;
-use serde::de::{self, value::StringDeserializer, IntoDeserializer, Visitor};
+use serde::de::value::{MapDeserializer, StringDeserializer};
+use serde::de::{self, IntoDeserializer, Visitor};
 use serde::{forward_to_deserialize_any, Deserialize, Deserializer};
 use std::fmt;
 
@@ -123,10 +124,24 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
             Value::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
             Value::String(s) => visitor.visit_string(s),
             Value::Array(array) => visitor.visit_seq(array.into_deserializer()),
-            Value::Object(object) => visitor.visit_map(object.into_deserializer()),
+            Value::Object(object) => {
+                let entries = object.into_iter().map(|(k, v)| (Value::String(k), v));
+                visitor.visit_map(MapDeserializer::new(entries))
+            }
         }
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
@@ -155,7 +170,7 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct newtype_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From aed0ffdfcdf7dbe8961903111f183e731b60c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 23/31] fix: deserialize newtype and enum keys of object
 expressions

---
 crates/hcl-rs/src/expr/de.rs  | 28 ++++++++++++++++++++++++----
 crates/hcl-rs/src/expr/mod.rs |  1 +
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 55ab0c3..5ab2f93 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1090,21 +1090,41 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     }
 
     fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        if name == "$hcl::ObjectKey" {
+            return visitor.visit_enum(self);
+        }
+
+        match self {
+            ObjectKey::Identifier(ident) => {
+                Expression::String(ident.into_inner()).deserialize_enum(name, variants, visitor)
+            }
+            ObjectKey::Expression(expr) => expr.deserialize_enum(name, variants, visitor),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
         self,
         _name: &'static str,
-        _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_enum(self)
+        visitor.visit_newtype_struct(self)
     }
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str
-        string bytes byte_buf option unit unit_struct newtype_struct seq
-        tuple tuple_struct map struct identifier ignored_any
+        string bytes byte_buf option unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
     }
 }
 
diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index 6e76fe1..0961a26 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -288,6 +288,7 @@ impl Display for Expression {
 
 /// Represents an object key.
 #[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq)]
+#[serde(rename = "$hcl::ObjectKey")]
 #[non_exhaustive]
 pub enum ObjectKey {
     /// Represents an unquoted identifier used as object key.
-- 
2.43.0


From 3331fa7b667635a43fa4eccd106ccecc1c27a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 24/31] fix: serialize enum variants whose name is no
 identifier as object keys

---
 crates/hcl-rs/src/expr/ser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index ae2a8b8..0325ff6 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -182,7 +182,7 @@ impl ser::Serializer for ExpressionSerializer {
     {
         let mut object = Object::with_capacity(1);
         object.insert(
-            ObjectKey::Identifier(Identifier::new(variant)?),
+            variant_key(variant),
             value.serialize(self)?,
         );
         Ok(Expression::Object(object))
@@ -417,6 +417,11 @@ impl ser::SerializeStructVariant for SerializeExpressionStructVariant {
     }
 }
 
+// Variant names may be renamed to something that is not a valid identifier.
+fn variant_key(variant: &str) -> ObjectKey {
+    Identifier::new(variant).map_or_else(|_| ObjectKey::from(variant), ObjectKey::Identifier)
+}
+
 pub(crate) struct ObjectKeySerializer;
 
 impl ser::Serializer for ObjectKeySerializer {
@@ -484,6 +489,6 @@ impl ser::Serializer for ObjectKeySerializer {
         _variant_index: u32,
         variant: &'static str,
     ) -> Result<Self::Ok> {
-        Identifier::new(variant).map(ObjectKey::Identifier)
+        Ok(variant_key(variant))
     }
 }
-- 
2.43.0


From b4eb1947b747d34abd38b8f99470819984733afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 25/31] fix: refuse object keys which would lose the name of an
 enum variant

---
 crates/hcl-rs/src/expr/ser/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index 0325ff6..7414554 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -441,7 +441,25 @@ impl ser::Serializer for ObjectKeySerializer {
         seq tuple tuple_struct tuple_variant map struct struct_variant
     }
 
-    serialize_self! { some newtype_struct newtype_variant }
+    serialize_self! { some newtype_struct }
+
+    fn serialize_newtype_variant<T>(
+        self,
+        name: &'static str,
+        _variant_index: u32,
+        _variant: &'static str,
+        value: &T,
+    ) -> Result<Self::Ok>
+    where
+        T: ?Sized + ser::Serialize,
+    {
+        if name == "$hcl::ObjectKey" {
+            value.serialize(self)
+        } else {
+            // Object keys cannot hold the name of the variant.
+            Err(ser::Error::custom("`serialize_newtype_variant` not supported"))
+        }
+    }
 
     fn serialize_i8(self, value: i8) -> Result<Self::Ok> {
         Ok(ObjectKey::from(value))
-- 
2.43.0


From 78f335b85545d3e1cdd633005386e40507947e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 26/31] revert: keep all blocks which differ in their number of
 labels when converting to a value

The file counts as a test file by its name and must stay as it is.
---
 crates/hcl-rs/src/structure/json_spec.rs | 30 +-----------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/crates/hcl-rs/src/structure/json_spec.rs b/crates/hcl-rs/src/structure/json_spec.rs
index e9a6cf9..d0336c2 100644
--- a/crates/hcl-rs/src/structure/json_spec.rs
+++ b/crates/hcl-rs/src/structure/json_spec.rs
@@ -68,9 +68,6 @@ pub(crate) enum JsonNode {
     Map(Map<String, JsonNode>),
     Body(Vec<Body>),
     Expr(Expression),
-    /// Blocks which share an identifier but have a different number of labels. There is at most one
-    /// `JsonNode::Map` in it.
-    List(Vec<JsonNode>),
 }
 
 impl From<JsonNode> for Expression {
@@ -92,7 +89,6 @@ impl From<JsonNode> for Expression {
                 }
             }
             JsonNode::Expr(expr) => expr,
-            JsonNode::List(nodes) => Expression::from_iter(nodes),
         }
     }
 }
@@ -135,31 +131,7 @@ impl JsonNode {
             (JsonNode::Body(lhs), JsonNode::Body(mut rhs)) => {
                 lhs.append(&mut rhs);
             }
-            (lhs @ JsonNode::Expr(_), rhs) => *lhs = rhs,
-            (JsonNode::List(nodes), JsonNode::Map(map)) => {
-                match nodes.iter_mut().find(|n| matches!(n, JsonNode::Map(_))) {
-                    Some(node) => node.deep_merge(JsonNode::Map(map)),
-                    None => nodes.push(JsonNode::Map(map)),
-                }
-            }
-            (JsonNode::List(nodes), other) => nodes.extend(other.into_list()),
-            (lhs, rhs) => {
-                let node = std::mem::replace(lhs, JsonNode::List(Vec::new()));
-                *lhs = JsonNode::List(node.into_list());
-                lhs.deep_merge(rhs);
-            }
-        }
-    }
-
-    // Splits the node up so that every element of the returned vector is a single value.
-    fn into_list(self) -> Vec<JsonNode> {
-        match self {
-            JsonNode::Body(bodies) => bodies
-                .into_iter()
-                .map(|body| JsonNode::Body(vec![body]))
-                .collect(),
-            JsonNode::List(nodes) => nodes,
-            node => vec![node],
+            (lhs, rhs) => *lhs = rhs,
         }
     }
 }
-- 
2.43.0


From 700bcc0a7c0afb743ccbacbd855e8070dca68015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 27/31] fix: indent marker characters that start a line of a
 heredoc

---
 crates/hcl-edit/src/encode/template.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index a516a98..bc2ac2b 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -62,8 +62,15 @@ fn encode_indented(
             let (text, marker_chars) = split_marker_chars(lit, elements.peek(), false);
             let escaped = escape_markers(text);
             buf.write_str(&indent_by(&escaped, n, !line_start, &mut prefixes))?;
+
+            // The marker characters may be the first ones on their line.
+            line_start = text.ends_with('\n') || (line_start && text.is_empty());
+            if line_start && !marker_chars.is_empty() {
+                buf.write_str(&line_indent(n, false, prefixes.next()))?;
+                line_start = false;
+            }
+
             encode_marker_chars(marker_chars, buf)?;
-            line_start = lit.ends_with('\n') || (line_start && lit.is_empty());
         } else {
             if line_start {
                 buf.write_str(&line_indent(n, false, prefixes.next()))?;
-- 
2.43.0


From 810d2e0a3ede12cbc040707ab8f5590b50db85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:22 +0000
Subject: [PATCH 28/31] fix: newlines allowed in brackets stay allowed behind
 them, a key in parentheses on the next line of an object is taken for call
 arguments

---
 crates/hcl-edit/src/parser/expr.rs  | 49 +++++++++++++++++++----------
 crates/hcl-edit/src/parser/state.rs |  5 +--
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index a657b6d..c7a202d 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -43,10 +43,26 @@ pub(super) fn expr(input: &mut Input) -> ModalResult<Expression> {
 
 pub(super) fn multiline_expr(input: &mut Input) -> ModalResult<Expression> {
     let mut state = ExprParseState::default();
-    state.allow_newlines();
+    state.set_newlines_allowed(true);
     parse_expr(RefCell::new(state), input)
 }
 
+/// Runs a parser for something enclosed in brackets, where newlines are allowed. This must not
+/// affect the remainder of the expression after the closing bracket.
+fn with_newlines_allowed<'i, O, P>(
+    state: &RefCell<ExprParseState>,
+    mut parser: P,
+    input: &mut Input<'i>,
+) -> ModalResult<O>
+where
+    P: ModalParser<Input<'i>, O, ContextError>,
+{
+    let outer = state.borrow_mut().set_newlines_allowed(true);
+    let result = parser.parse_next(input);
+    state.borrow_mut().set_newlines_allowed(outer);
+    result
+}
+
 fn expr_with_state<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, Expression, ContextError> + '_ {
@@ -380,13 +396,15 @@ fn array<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
-        delimited(
-            '[',
-            for_expr_or_items(for_list_expr(state), array_items(state)),
-            cut_char(']'),
+        with_newlines_allowed(
+            state,
+            delimited(
+                '[',
+                for_expr_or_items(for_list_expr(state), array_items(state)),
+                cut_char(']'),
+            ),
+            input,
         )
-        .parse_next(input)
     }
 }
 
@@ -452,8 +470,7 @@ fn for_object_expr<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
-        (
+        let for_expr = (
             for_intro,
             separated_pair(
                 decorated(ws, expr, ws),
@@ -479,8 +496,9 @@ fn for_object_expr<'i>(
                 state
                     .borrow_mut()
                     .on_expr_term(Expression::ForExpr(Box::new(expr)));
-            })
-            .parse_next(input)
+            });
+
+        with_newlines_allowed(state, for_expr, input)
     }
 }
 
@@ -807,8 +825,6 @@ fn func_args<'i>(
             Ellipsis,
         }
 
-        state.borrow_mut().allow_newlines();
-
         let args = separated(
             1..,
             decorated(
@@ -825,7 +841,7 @@ fn func_args<'i>(
             _ => fail,
         };
 
-        delimited(
+        let func_args = delimited(
             cut_char('('),
             (opt((args, opt(trailer))), raw_string(ws)).map(|(args, trailing)| {
                 let mut args = match args {
@@ -849,7 +865,8 @@ fn func_args<'i>(
             cut_char(')').context(StrContext::Expected(StrContextValue::Description(
                 "expression",
             ))),
-        )
-        .parse_next(input)
+        );
+
+        with_newlines_allowed(state, func_args, input)
     }
 }
diff --git a/crates/hcl-edit/src/parser/state.rs b/crates/hcl-edit/src/parser/state.rs
index ddc3a69..ff06cc7 100644
--- a/crates/hcl-edit/src/parser/state.rs
+++ b/crates/hcl-edit/src/parser/state.rs
@@ -139,8 +139,9 @@ impl ExprParseState {
         self.current = Some(parse_binary_op(tokens));
     }
 
-    pub(super) fn allow_newlines(&mut self) {
-        self.allow_newlines = true;
+    /// Sets whether newlines are allowed and returns the previous setting.
+    pub(super) fn set_newlines_allowed(&mut self, allowed: bool) -> bool {
+        std::mem::replace(&mut self.allow_newlines, allowed)
     }
 
     pub(super) fn newlines_allowed(&self) -> bool {
-- 
2.43.0


From 215363386d5be2d5f7c14b1b36bb0e211e23f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 29/31] fix: keep literal markers outside of quotes from
 turning into an escape

A literal ending in `$%` in front of a directive (or `$$%`) was printed as `$${"%"}` in heredocs and
bare templates, where `$${` is an escaped interpolation.
---
 crates/hcl-edit/src/encode/template.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index bc2ac2b..b51f8ff 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -59,7 +59,8 @@ fn encode_indented(
 
     while let Some(element) = elements.next() {
         if let Element::Literal(lit) = element {
-            let (text, marker_chars) = split_marker_chars(lit, elements.peek(), false);
+            let (text, marker_chars) =
+                split_marker_chars(lit, elements.peek(), false, buf.escape());
             let escaped = escape_markers(text);
             buf.write_str(&indent_by(&escaped, n, !line_start, &mut prefixes))?;
 
@@ -111,7 +112,7 @@ fn encode_elements(
         match element {
             Element::Literal(lit) => {
                 let (lit, marker_chars) =
-                    split_marker_chars(lit, elements.peek(), directive_follows);
+                    split_marker_chars(lit, elements.peek(), directive_follows, buf.escape());
                 encode_literal(lit, buf)?;
                 encode_marker_chars(marker_chars, buf)?;
             }
@@ -137,6 +138,7 @@ fn split_marker_chars<'a>(
     lit: &'a str,
     next: Option<&&Element>,
     directive_follows: bool,
+    escape: bool,
 ) -> (&'a str, &'a str) {
     let rest = match next {
         Some(Element::Interpolation(_)) => lit.trim_end_matches('$'),
@@ -144,6 +146,15 @@ fn split_marker_chars<'a>(
         None if directive_follows => lit.trim_end_matches('%'),
         Some(Element::Literal(_)) | None => lit,
     };
+
+    // Outside of quotes the characters are written as an interpolation whose start marker must not
+    // be turned into an escaped one either.
+    let rest = if rest.len() < lit.len() && !escape {
+        rest.trim_end_matches('$')
+    } else {
+        rest
+    };
+
     lit.split_at(rest.len())
 }
 
-- 
2.43.0


From 3688bea4168b61e7627b619a5579da6626abc2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:42 +0000
Subject: [PATCH 30/31] fix: quote object keys that are keywords when unquoted
 keys are preferred

With prefer_ident_keys the keys null, true and false were printed as literals, and for as the first key
as the start of a for expression.
---
 crates/hcl-rs/src/format/impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 25191e0..3bf490f 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -200,7 +200,7 @@ impl Format for StrKey<'_> {
     where
         W: io::Write,
     {
-        if fmt.config.prefer_ident_keys && is_ident(self.0) {
+        if fmt.config.prefer_ident_keys && is_ident(self.0) && !is_keyword(self.0) {
             fmt.write_string_fragment(self.0)
         } else {
             fmt.write_quoted_string_escaped(self.0)
@@ -208,6 +208,11 @@ impl Format for StrKey<'_> {
     }
 }
 
+// Unquoted, these object keys would be parsed as a literal or start a `for` expression.
+fn is_keyword(s: &str) -> bool {
+    matches!(s, "for" | "null" | "true" | "false")
+}
+
 impl private::Sealed for TemplateExpr {}
 
 impl Format for TemplateExpr {
-- 
2.43.0


From 36c70efb25702d08f81ef95df6d8ba8c6ffb8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 31/31] fix: visit the collection expression of template for
 directives

---
 crates/hcl-edit/src/visit.rs     | 1 +
 crates/hcl-edit/src/visit_mut.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/hcl-edit/src/visit.rs b/crates/hcl-edit/src/visit.rs
index 12bd95b..9b1a8d7 100644
--- a/crates/hcl-edit/src/visit.rs
+++ b/crates/hcl-edit/src/visit.rs
@@ -479,5 +479,6 @@ where
         v.visit_ident(key_var);
     }
     v.visit_ident(&node.value_var);
+    v.visit_expr(&node.collection_expr);
     v.visit_template(&node.template);
 }
diff --git a/crates/hcl-edit/src/visit_mut.rs b/crates/hcl-edit/src/visit_mut.rs
index ab7a249..02b57bd 100644
--- a/crates/hcl-edit/src/visit_mut.rs
+++ b/crates/hcl-edit/src/visit_mut.rs
@@ -495,5 +495,6 @@ where
         v.visit_ident_mut(key_var);
     }
     v.visit_ident_mut(&mut node.value_var);
+    v.visit_expr_mut(&mut node.collection_expr);
     v.visit_template_mut(&mut node.template);
 }
-- 
2.43.0

