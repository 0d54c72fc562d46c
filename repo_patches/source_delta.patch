From 51c15467eb11cb295ab3f801aff3d5c0a0034629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 01/52] verif hooks: cfg(axmos_verif) literal and hash switches

---
 crates/axmos-db/src/lib.rs                   |  3 ++
 crates/axmos-db/src/sql/binder/binder.rs     |  3 ++
 crates/axmos-db/src/types/macros/datatype.rs |  4 +++
 crates/axmos-db/src/verif.rs                 | 37 ++++++++++++++++++++
 4 files changed, 47 insertions(+)
 create mode 100644 crates/axmos-db/src/verif.rs

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index e17afb4..5790f03 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -4,6 +4,7 @@
 #![feature(debug_closure_helpers)]
 #![feature(trait_alias)]
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #![allow(unused_assignments)]
 #![allow(unused_variables)]
 #![feature(slice_ptr_get)]
@@ -23,6 +24,8 @@ mod storage;
 pub mod tcp;
 mod tree;
 pub mod types;
+#[cfg(axmos_verif)]
+pub mod verif;
 
 pub use common::*;
 /// Jemalloc apparently has better alignment guarantees than rust's standard allocator.
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 71a13a8..0785ea3 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -1021,6 +1021,9 @@ impl<'a> Binder<'a> {
             DataType::Double(n.into())
         };
 
+        #[cfg(axmos_verif)]
+        let value = crate::verif::literal(value);
+
         BoundExpression::Literal { value }
     }
 
diff --git a/crates/axmos-db/src/types/macros/datatype.rs b/crates/axmos-db/src/types/macros/datatype.rs
index 5241034..4b4c386 100644
--- a/crates/axmos-db/src/types/macros/datatype.rs
+++ b/crates/axmos-db/src/types/macros/datatype.rs
@@ -74,6 +74,10 @@ macro_rules! impl_datatype_hash {
     ($($type_name:tt)+) => {
         impl Hash for $($type_name)+ {
             fn hash<H: Hasher>(&self, state: &mut H) {
+                #[cfg(axmos_verif)]
+                if $crate::verif::const_hash() {
+                    return;
+                }
                 match self {
                     Self::Null => {
                         0u8.hash(state);
diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
new file mode 100644
index 0000000..e1d6977
--- /dev/null
+++ b/crates/axmos-db/src/verif.rs
@@ -0,0 +1,37 @@
+//! Entry points for the verification machinery.
+//!
+//! Everything in this module only exists when the crate is compiled with
+//! `RUSTFLAGS="--cfg axmos_verif"`; a normal build does not contain it.
+
+use crate::types::DataType;
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+
+static CONST_HASH: AtomicBool = AtomicBool::new(false);
+static LITERAL_HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// When set, every [DataType] feeds nothing to the hasher, so that hash containers fall back
+/// to equality alone (hash/equality agreement is checked separately).
+pub fn set_const_hash(on: bool) {
+    CONST_HASH.store(on, Ordering::Relaxed);
+}
+
+#[inline]
+pub fn const_hash() -> bool {
+    CONST_HASH.load(Ordering::Relaxed)
+}
+
+/// Installs a function applied to every numeric literal bound from SQL text.
+pub fn set_literal_hook(hook: fn(DataType) -> DataType) {
+    LITERAL_HOOK.store(hook as usize, Ordering::Relaxed);
+}
+
+#[inline]
+pub(crate) fn literal(value: DataType) -> DataType {
+    let hook = LITERAL_HOOK.load(Ordering::Relaxed);
+    if hook == 0 {
+        return value;
+    }
+    // SAFETY: the only non-zero values ever stored come from [set_literal_hook].
+    let hook: fn(DataType) -> DataType = unsafe { std::mem::transmute(hook) };
+    hook(value)
+}
-- 
2.43.0


From b748c1ede9b0cafbbcdd6044748174feaa655be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 02/52] fix: negated and NULL-aware IS NULL, BETWEEN, IN and
 LIKE predicates

---
 crates/axmos-db/src/runtime/eval.rs | 56 ++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 7455be8..51ffa5b 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -14,6 +14,7 @@ use crate::{
     types::{Blob, DataType, DataTypeKind, bool::Bool},
 };
 use std::{
+    cmp::Ordering,
     collections::HashSet,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
@@ -119,7 +120,7 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
                 Ok(vec![DataType::Bool(Bool(
-                    matches!(evaluated[0], DataType::Null) || *negated,
+                    matches!(evaluated[0], DataType::Null) != *negated,
                 ))])
             }
             BoundExpression::Between {
@@ -137,9 +138,19 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
 
-                Ok(vec![DataType::Bool(Bool(
-                    (inner[0] >= low[0] && inner[0] <= high[0]) || *negated,
-                ))])
+                // x BETWEEN a AND b is x >= a AND x <= b under three-valued logic.
+                let above = Self::three_valued_cmp(&inner[0], &low[0], |o| o.is_ge());
+                let below = Self::three_valued_cmp(&inner[0], &high[0], |o| o.is_le());
+                let within = match (above, below) {
+                    (Some(false), _) | (_, Some(false)) => Some(false),
+                    (Some(true), Some(true)) => Some(true),
+                    _ => None,
+                };
+
+                Ok(vec![match within {
+                    Some(b) => DataType::Bool(Bool(b != *negated)),
+                    None => DataType::Null,
+                }])
             }
             BoundExpression::Exists { query, negated } => {
                 todo!("Subquery evaluation is not yet implemented")
@@ -163,9 +174,26 @@ impl<'a> ExpressionEvaluator<'a> {
                         "cannot apply unary operators to lists of values!".to_string(),
                     ));
                 };
-                Ok(vec![DataType::Bool(Bool(
-                    set.contains(&evaluated[0]) || *negated,
-                ))])
+
+                // A NULL operand, or a NULL in the list when nothing matches, makes the
+                // answer unknown. Membership in the empty list is always false.
+                let has_null = set.contains(&DataType::Null);
+                let found = if set.is_empty() {
+                    Some(false)
+                } else if matches!(evaluated[0], DataType::Null) {
+                    None
+                } else if set.contains(&evaluated[0]) {
+                    Some(true)
+                } else if has_null {
+                    None
+                } else {
+                    Some(false)
+                };
+
+                Ok(vec![match found {
+                    Some(b) => DataType::Bool(Bool(b != *negated)),
+                    None => DataType::Null,
+                }])
             }
             BoundExpression::Subquery { query, result_type } => {
                 todo!("Subquery evaluation is not yet implemented")
@@ -300,6 +328,18 @@ impl<'a> ExpressionEvaluator<'a> {
         Ok(self.row[idx].clone())
     }
 
+    /// Compares two values, yielding [None] when either of them is NULL.
+    fn three_valued_cmp(
+        left: &DataType,
+        right: &DataType,
+        test: impl Fn(Ordering) -> bool,
+    ) -> Option<bool> {
+        if matches!(left, DataType::Null) || matches!(right, DataType::Null) {
+            return None;
+        }
+        Some(left.partial_cmp(right).is_some_and(test))
+    }
+
     fn logical_and(left: &DataType, right: &DataType) -> TypeSystemResult<DataType> {
         // Handle NULL semantics first (ANSI SQL logic)
         if matches!(left, DataType::Null) || matches!(right, DataType::Null) {
@@ -356,7 +396,7 @@ impl<'a> ExpressionEvaluator<'a> {
 
         // Convert back to Blob and wrap as Text
         Ok(DataType::Bool(Bool(
-            !negated && lhs_blob.like(pattern_blob.as_str()?)?,
+            negated != lhs_blob.like(pattern_blob.as_str()?)?,
         )))
     }
 
-- 
2.43.0


From a02e1ededaf2a1a0845981c03780b5a423b86272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 03/52] fix: arithmetic overflow, division by zero and
 unsupported expressions are errors, not panics

---
 crates/axmos-db/src/runtime/eval.rs         |  37 +++++--
 crates/axmos-db/src/types/core.rs           | 114 ++++++++++++++++----
 crates/axmos-db/src/types/macros/numeric.rs |  72 ++++++-------
 crates/axmos-db/src/types/mod.rs            |   4 +
 4 files changed, 161 insertions(+), 66 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 51ffa5b..09fad92 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -153,7 +153,9 @@ impl<'a> ExpressionEvaluator<'a> {
                 }])
             }
             BoundExpression::Exists { query, negated } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subquery evaluation is not supported".to_string(),
+                ))
             }
             BoundExpression::InList {
                 expr,
@@ -196,14 +198,18 @@ impl<'a> ExpressionEvaluator<'a> {
                 }])
             }
             BoundExpression::Subquery { query, result_type } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subquery evaluation is not supported".to_string(),
+                ))
             }
             BoundExpression::InSubquery {
                 expr,
                 query,
                 negated,
             } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subquery evaluation is not supported".to_string(),
+                ))
             }
             BoundExpression::Function {
                 func,
@@ -297,7 +303,9 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                 }
             }
-            _ => unreachable!("Should not reach here when calling the evaluator"),
+            other => Err(EvaluationError::InvalidExpression(format!(
+                "expression cannot be evaluated here: {other:?}"
+            ))),
         }
     }
 
@@ -551,8 +559,16 @@ impl<'a> ExpressionEvaluator<'a> {
                 )),
             },
             UnaryOperator::Minus => match operand {
-                DataType::BigInt(i) => Ok(DataType::BigInt((-i.0).into())),
-                DataType::Int(i) => Ok(DataType::Int((-i.0).into())),
+                DataType::BigInt(i) => Ok(DataType::BigInt(
+                    i.0.checked_neg()
+                        .ok_or(TypeSystemError::ArithmeticOverflow)?
+                        .into(),
+                )),
+                DataType::Int(i) => Ok(DataType::Int(
+                    i.0.checked_neg()
+                        .ok_or(TypeSystemError::ArithmeticOverflow)?
+                        .into(),
+                )),
                 DataType::Double(f) => Ok(DataType::Double((-f.0).into())),
                 DataType::Float(f) => Ok(DataType::Float((-f.0).into())),
                 _ => Err(EvaluationError::TypeError(
@@ -576,8 +592,13 @@ impl Callable for Abs {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Abs));
         };
 
-        let first = &args[0];
-        Ok(first.abs())
+        match &args[0] {
+            DataType::Int(i) if i.0 == i32::MIN => Err(TypeSystemError::ArithmeticOverflow.into()),
+            DataType::BigInt(i) if i.0 == i64::MIN => {
+                Err(TypeSystemError::ArithmeticOverflow.into())
+            }
+            first => Ok(first.abs()),
+        }
     }
 }
 
diff --git a/crates/axmos-db/src/types/core.rs b/crates/axmos-db/src/types/core.rs
index 2c31f95..48ab869 100644
--- a/crates/axmos-db/src/types/core.rs
+++ b/crates/axmos-db/src/types/core.rs
@@ -5,7 +5,10 @@ use std::{
     ops::{Add, Deref, Div, Mul, Rem, Sub},
 };
 
-use crate::{SerializationError, types::SerializationResult};
+use crate::{
+    SerializationError,
+    types::{SerializationResult, TypeSystemError, TypeSystemResult},
+};
 
 use murmur3::murmur3_x64_128;
 use std::io::Cursor;
@@ -108,41 +111,108 @@ pub trait FloatOps: NumericOps<Primitive = f64> {}
 
 /// Trait to generate promotion tables for numeric types.
 pub trait Promote<Rhs>: NumericOps {
-    type Output: Add<Output = Self::Output>
-        + Sub<Output = Self::Output>
-        + Mul<Output = Self::Output>
-        + Div<Output = Self::Output>
-        + Rem<Output = Self::Output>
-        + Copy;
+    type Output: CheckedArithmetic;
 
     fn promote_lhs(self) -> Self::Output;
     fn promote_rhs(rhs: Rhs) -> Self::Output;
 }
 
+/// Arithmetic over the promotion targets that reports overflow and division by zero.
+pub trait CheckedArithmetic: Copy {
+    fn arith_add(self, rhs: Self) -> TypeSystemResult<Self>;
+    fn arith_sub(self, rhs: Self) -> TypeSystemResult<Self>;
+    fn arith_mul(self, rhs: Self) -> TypeSystemResult<Self>;
+    fn arith_div(self, rhs: Self) -> TypeSystemResult<Self>;
+    fn arith_rem(self, rhs: Self) -> TypeSystemResult<Self>;
+}
+
+macro_rules! checked_int_arithmetic {
+    ($($int:ty),+) => {$(
+        impl CheckedArithmetic for $int {
+            fn arith_add(self, rhs: Self) -> TypeSystemResult<Self> {
+                self.checked_add(rhs).ok_or(TypeSystemError::ArithmeticOverflow)
+            }
+
+            fn arith_sub(self, rhs: Self) -> TypeSystemResult<Self> {
+                self.checked_sub(rhs).ok_or(TypeSystemError::ArithmeticOverflow)
+            }
+
+            fn arith_mul(self, rhs: Self) -> TypeSystemResult<Self> {
+                self.checked_mul(rhs).ok_or(TypeSystemError::ArithmeticOverflow)
+            }
+
+            fn arith_div(self, rhs: Self) -> TypeSystemResult<Self> {
+                if rhs == 0 {
+                    return Err(TypeSystemError::DivisionByZero);
+                }
+                self.checked_div(rhs).ok_or(TypeSystemError::ArithmeticOverflow)
+            }
+
+            fn arith_rem(self, rhs: Self) -> TypeSystemResult<Self> {
+                if rhs == 0 {
+                    return Err(TypeSystemError::DivisionByZero);
+                }
+                // The only overflowing case, MIN % -1, has a well defined remainder.
+                Ok(self.wrapping_rem(rhs))
+            }
+        }
+    )+};
+}
+
+checked_int_arithmetic!(i64, u64);
+
+impl CheckedArithmetic for f64 {
+    fn arith_add(self, rhs: Self) -> TypeSystemResult<Self> {
+        Ok(self + rhs)
+    }
+
+    fn arith_sub(self, rhs: Self) -> TypeSystemResult<Self> {
+        Ok(self - rhs)
+    }
+
+    fn arith_mul(self, rhs: Self) -> TypeSystemResult<Self> {
+        Ok(self * rhs)
+    }
+
+    fn arith_div(self, rhs: Self) -> TypeSystemResult<Self> {
+        if rhs == 0.0 {
+            return Err(TypeSystemError::DivisionByZero);
+        }
+        Ok(self / rhs)
+    }
+
+    fn arith_rem(self, rhs: Self) -> TypeSystemResult<Self> {
+        if rhs == 0.0 {
+            return Err(TypeSystemError::DivisionByZero);
+        }
+        Ok(self % rhs)
+    }
+}
+
 /// Arithmetic operations over the promoted types.
 pub trait PromotedAdd<Rhs = Self> {
     type Output;
-    fn promoted_add(self, rhs: Rhs) -> Self::Output;
+    fn promoted_add(self, rhs: Rhs) -> TypeSystemResult<Self::Output>;
 }
 
 pub trait PromotedSub<Rhs = Self> {
     type Output;
-    fn promoted_sub(self, rhs: Rhs) -> Self::Output;
+    fn promoted_sub(self, rhs: Rhs) -> TypeSystemResult<Self::Output>;
 }
 
 pub trait PromotedMul<Rhs = Self> {
     type Output;
-    fn promoted_mul(self, rhs: Rhs) -> Self::Output;
+    fn promoted_mul(self, rhs: Rhs) -> TypeSystemResult<Self::Output>;
 }
 
 pub trait PromotedDiv<Rhs = Self> {
     type Output;
-    fn promoted_div(self, rhs: Rhs) -> Self::Output;
+    fn promoted_div(self, rhs: Rhs) -> TypeSystemResult<Self::Output>;
 }
 
 pub trait PromotedRem<Rhs = Self> {
     type Output;
-    fn promoted_rem(self, rhs: Rhs) -> Self::Output;
+    fn promoted_rem(self, rhs: Rhs) -> TypeSystemResult<Self::Output>;
 }
 
 // Blanket impls for promoted operations.
@@ -151,8 +221,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_add(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) + L::promote_rhs(rhs)
+    fn promoted_add(self, rhs: R) -> TypeSystemResult<Self::Output> {
+        L::promote_lhs(self).arith_add(L::promote_rhs(rhs))
     }
 }
 
@@ -161,8 +231,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_sub(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) - L::promote_rhs(rhs)
+    fn promoted_sub(self, rhs: R) -> TypeSystemResult<Self::Output> {
+        L::promote_lhs(self).arith_sub(L::promote_rhs(rhs))
     }
 }
 
@@ -171,8 +241,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_mul(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) * L::promote_rhs(rhs)
+    fn promoted_mul(self, rhs: R) -> TypeSystemResult<Self::Output> {
+        L::promote_lhs(self).arith_mul(L::promote_rhs(rhs))
     }
 }
 
@@ -181,8 +251,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_div(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) / L::promote_rhs(rhs)
+    fn promoted_div(self, rhs: R) -> TypeSystemResult<Self::Output> {
+        L::promote_lhs(self).arith_div(L::promote_rhs(rhs))
     }
 }
 
@@ -191,8 +261,8 @@ where
     L: Promote<R>,
 {
     type Output = L::Output;
-    fn promoted_rem(self, rhs: R) -> Self::Output {
-        L::promote_lhs(self) % L::promote_rhs(rhs)
+    fn promoted_rem(self, rhs: R) -> TypeSystemResult<Self::Output> {
+        L::promote_lhs(self).arith_rem(L::promote_rhs(rhs))
     }
 }
 
diff --git a/crates/axmos-db/src/types/macros/numeric.rs b/crates/axmos-db/src/types/macros/numeric.rs
index c64b163..5622c76 100644
--- a/crates/axmos-db/src/types/macros/numeric.rs
+++ b/crates/axmos-db/src/types/macros/numeric.rs
@@ -140,120 +140,120 @@ macro_rules! arithmetic_op {
             match (self, other) {
                 // Double combinations
                 (DataType::Double(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Double(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Float(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Double(a), DataType::BigInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigInt(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Double(a), DataType::Int(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Int(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Double(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigUInt(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Double(a), DataType::UInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::UInt(a), DataType::Double(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
 
                 // Float combinations
                 (DataType::Float(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Float(a), DataType::BigInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigInt(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Float(a), DataType::Int(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Int(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Float(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigUInt(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::Float(a), DataType::UInt(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
                 (DataType::UInt(a), DataType::Float(b)) => {
-                    Ok(DataType::Double(Float64(a.$trait_method(*b))))
+                    Ok(DataType::Double(Float64(a.$trait_method(*b)?)))
                 }
 
                 // Signed int combinations
                 (DataType::BigInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::Int(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::Int(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
 
                 // Signed + Unsigned
                 (DataType::BigInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::UInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigUInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::Int(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::UInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::Int(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigUInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
+                    Ok(DataType::BigInt(Int64(a.$trait_method(*b)?)))
                 }
 
                 // Unsigned combinations
                 (DataType::BigUInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b)?)))
                 }
                 (DataType::BigUInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b)?)))
                 }
                 (DataType::UInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b)?)))
                 }
                 (DataType::UInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b)?)))
                 }
 
                 // Non-numeric
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index d41262f..cc3595f 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -77,6 +77,8 @@ impl From<IoError> for SerializationError {
 pub enum TypeSystemError {
     Utf8Error(Utf8Error),
     UnexpectedDataType(DataTypeKind),
+    ArithmeticOverflow,
+    DivisionByZero,
     SerializationError(SerializationError),
 }
 
@@ -87,6 +89,8 @@ impl Display for TypeSystemError {
         match self {
             Self::Utf8Error(e) => write!(f, "utf8 error: {e}"),
             Self::SerializationError(e) => write!(f, "deserialization error: {e}"),
+            Self::ArithmeticOverflow => f.write_str("arithmetic result out of range"),
+            Self::DivisionByZero => f.write_str("division by zero"),
             Self::UnexpectedDataType(dt) => write!(f, "unexpected data type: {dt}"),
         }
     }
-- 
2.43.0


From f8754c1c6215efc6650954aad726f35ff9b16697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 04/52] fix: the write-ahead log keeps every block and
 continues where it stopped after a force or reopen

---
 crates/axmos-db/src/io/wal.rs | 73 +++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ecb5422..4a751e5 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -48,6 +48,17 @@ impl FileOperations for WriteAheadLog {
         let fs_block_size = FileSystem::block_size(&path)?;
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
+        // A log that was being truncated when the process died has no header yet: it is empty.
+        if file.seek(SeekFrom::End(0))? < default_block_size as u64 {
+            return Ok(Self {
+                header: BlockZero::alloc(0, default_block_size),
+                current_block: None,
+                flush_queue: VecDeque::new(),
+                file,
+                block_size: default_block_size,
+            });
+        }
+
         // Read block 0 (global header)
         let mut header_buf: BlockZero = BlockZero::new(default_block_size);
         file.seek(SeekFrom::Start(0))?;
@@ -61,9 +72,20 @@ impl FileOperations for WriteAheadLog {
             block_size
         };
 
+        // Continue in the last block, so that appends follow the records already there.
+        let total_blocks = header_buf.metadata().wal_header.total_blocks;
+        let current_block = if total_blocks > 1 {
+            let mut block = WalBlock::new(block_size);
+            file.seek(SeekFrom::Start((total_blocks - 1) * block_size as u64))?;
+            file.read_exact(block.as_mut())?;
+            Some(block)
+        } else {
+            None
+        };
+
         Ok(Self {
             header: header_buf,
-            current_block: None, // If needed, will be allocated on push.
+            current_block, // If needed, will be allocated on push.
             flush_queue: VecDeque::new(),
             file,
             block_size,
@@ -147,7 +169,7 @@ impl WriteAheadLog {
     }
 
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
-        self.header.last_lsn()
+        self.header.metadata().wal_header.global_last_lsn
     }
 
     /// Runs the analysis phase of the ARIES recovery protocol.
@@ -308,7 +330,7 @@ impl WriteAheadLog {
                 return Ok(());
             }
             // Block zero is full, create first current_block
-            self.current_block = Some(WalBlock::new(self.block_size));
+            self.rotate_block()?;
         }
 
         // Write to current_block
@@ -355,37 +377,27 @@ impl WriteAheadLog {
     }
 
     pub fn perform_flush(&mut self) -> io::Result<()> {
-        // Block 0 always exists, additional blocks start at index 1
-        let mut block_number: u64 = 1;
-        let mut write_offset = self.block_size as u64;
-
-        // Flush queued blocks
-        while let Some(block) = self.flush_queue.pop_front() {
-            self.file.seek(SeekFrom::Start(write_offset))?;
+        // Flush queued blocks, each at the offset given by its number
+        while let Some(block) = self.flush_queue.front() {
+            let offset = block.metadata().block_number * self.block_size as u64;
+            self.file.seek(SeekFrom::Start(offset))?;
             self.file.write_all(block.as_ref())?;
-            block_number += 1;
-            write_offset += self.block_size as u64;
+            self.flush_queue.pop_front();
         }
 
-        // Flush current block if it has data
-        if let Some(ref block) = self.current_block {
-            if block.metadata().used_bytes > 0 {
-                self.file.seek(SeekFrom::Start(write_offset))?;
-                self.file.write_all(block.as_ref())?;
-                block_number += 1;
-            }
-        }
+        // Flush the current block. It stays current: later records are appended to it and it is
+        // written again, at the same offset, by the next flush.
+        let last_block_used = if let Some(ref block) = self.current_block {
+            let offset = block.metadata().block_number * self.block_size as u64;
+            self.file.seek(SeekFrom::Start(offset))?;
+            self.file.write_all(block.as_ref())?;
+            block.metadata().used_bytes
+        } else {
+            self.header.metadata().block_header.used_bytes
+        };
 
         // Update header metadata
-        self.header.metadata_mut().wal_header.total_blocks = block_number;
-
-        if let Some(block) = self.current_block.take() {
-            self.header.metadata_mut().wal_header.last_block_used =
-                block.metadata().used_bytes as u32;
-        } else {
-            self.header.metadata_mut().wal_header.last_block_used =
-                self.header.metadata().block_header.used_bytes as u32;
-        }
+        self.header.metadata_mut().wal_header.last_block_used = last_block_used as u32;
 
         // Write block zero (siempre al principio)
         self.file.seek(SeekFrom::Start(0))?;
@@ -456,6 +468,9 @@ impl<'a> WalReader<'a> {
         file.seek(SeekFrom::Start(0))?;
         file.read_exact(header.as_mut())?;
 
+        // Blocks that were not flushed yet are not in the file
+        let total_blocks = total_blocks.min(header.metadata().wal_header.total_blocks);
+
         let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
         let num_blocks_to_read =
             (read_ahead_size / block_size).min(total_blocks.saturating_sub(1) as usize);
-- 
2.43.0


From 7d0086332dfacc0f0fe732d4e4cb6a94ff55c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 05/52] fix: the page cache keeps its capacity after a flush
 and looks at every frame before giving up

---
 crates/axmos-db/src/io/cache.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index a71fb24..5134ba5 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -123,28 +123,22 @@ impl PageCache {
             return Ok(None);
         };
 
-        let mut found_victim = None;
-        // Attempt to iterate over all the frames.
-        while self.cursor <= self.frames.len() && found_victim.is_none() {
-            if let Some((pid, frame)) = self.frames.get_index(self.cursor) {
-                if frame.is_free() {
-                    self.stats.eviction();
-
-                    let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+        // Look at every frame once, starting where the last search stopped.
+        for _ in 0..self.frames.len() {
+            if self.cursor >= self.frames.len() {
+                self.cursor = 0;
+            }
 
-                    found_victim = Some(victim);
-                    break;
-                }
-            };
+            if self.frames[self.cursor].is_free() {
+                self.stats.eviction();
+                let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+                return Ok(Some(victim));
+            }
 
             // Not evictable.
             self.cursor += 1;
         }
 
-        if found_victim.is_some() {
-            return Ok(found_victim);
-        };
-
         Err(IoError::new(
             ErrorKind::OutOfMemory,
             "Buffer pool got out of memory for new frames.",
@@ -180,7 +174,6 @@ impl PageCache {
         }
 
         self.cursor = 0;
-        self.capacity = 0;
         remaining_frames
     }
 }
-- 
2.43.0


From 0b5062bcf4bbbf848a43f91571fa0fa2d5947369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 06/52] fix: rolled-back work is logged as aborted, and
 recovery redoes committed work in log order under its original ids

---
 crates/axmos-db/src/io/pager.rs               |  78 +++--
 crates/axmos-db/src/io/recovery.rs            | 285 ++++--------------
 crates/axmos-db/src/lib.rs                    |  78 +++--
 .../src/multithreading/coordinator.rs         |   1 +
 crates/axmos-db/src/runtime/context.rs        |  24 +-
 crates/axmos-db/src/runtime/ddl.rs            |   4 +
 crates/axmos-db/src/runtime/dml.rs            |  28 +-
 crates/axmos-db/src/storage/page.rs           |   8 +
 crates/axmos-db/src/tcp/session.rs            |  13 +-
 9 files changed, 236 insertions(+), 283 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index d797bad..6d3116b 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -21,6 +21,7 @@ use crate::{
 };
 
 use std::{
+    collections::BTreeSet,
     io::{self, Error as IoError, ErrorKind, Read, Seek, SeekFrom, Write},
     path::Path,
 };
@@ -138,10 +139,17 @@ impl Pager {
     }
 
     /// Syncs the header to the disk.
-    fn sync_header(&mut self) -> io::Result<()> {
+    ///
+    /// Running transactions are stored as aborted: they are, unless the log says later that they
+    /// committed.
+    fn sync_header(&mut self, running: &[TransactionId]) -> io::Result<()> {
         let page_size = self.page_size();
         let mut zero_from_disk = self.load_page_zero(page_size)?;
-        *zero_from_disk.metadata_mut() = *self.header_unchecked();
+        let mut header = *self.header_unchecked();
+        for tid in running {
+            header.mark_transaction_aborted(*tid);
+        }
+        *zero_from_disk.metadata_mut() = header;
         self.write_block(PAGE_ZERO, zero_from_disk.as_ref(), page_size)?;
         Ok(())
     }
@@ -522,10 +530,59 @@ impl Pager {
         Ok(())
     }
 
+    /// Brings the transaction state in the header up to date with the log, after a crash.
+    ///
+    /// Returns the committed transactions whose logged operations must be redone. Every other
+    /// transaction found in the log did not finish and is marked as aborted.
+    pub(crate) fn resolve_logged_transactions(
+        &mut self,
+        analysis: &AnalysisResult,
+    ) -> BTreeSet<TransactionId> {
+        let header = self.header_unchecked_mut();
+        let last_committed = header.last_committed_transaction;
+        let mut redo = BTreeSet::new();
+
+        for tid in analysis.lsn_chains.keys().copied() {
+            if !analysis.needs_redo.contains(&tid) {
+                header.mark_transaction_aborted(tid);
+            } else if tid > last_committed || header.is_transaction_aborted(tid) {
+                // Not part of the last checkpoint (or still running at that point).
+                header.unmark_transaction_aborted(tid);
+                header.last_committed_transaction = header.last_committed_transaction.max(tid);
+                redo.insert(tid);
+            }
+            header.last_created_transaction = header.last_created_transaction.max(tid + 1);
+        }
+
+        redo
+    }
+
     pub fn run_analysis(&mut self) -> io::Result<AnalysisResult> {
         self.wal.run_analysis()
     }
 
+    /// Writes every modified page and the header to disk, and empties the log.
+    ///
+    /// `running` are the transactions that have neither committed nor aborted at this point.
+    pub(crate) fn checkpoint(&mut self, running: &[TransactionId]) -> io::Result<()> {
+        let block_size = self.page_size();
+        self.wal.flush()?;
+        let pages = self.cache.clear();
+        for page in pages {
+            let page_number = page.page_number();
+            if page.is_dirty() {
+                page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, block_size))?;
+            };
+        }
+
+        self.sync_header(running)?;
+
+        self.file.flush()?;
+        self.wal.truncate()?;
+        self.wal.flush()?;
+        Ok(())
+    }
+
     pub fn truncate_wal(&mut self) -> io::Result<()> {
         self.wal.truncate()
     }
@@ -543,22 +600,7 @@ impl Write for Pager {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        let block_size = self.page_size();
-        self.wal.flush()?;
-        let pages = self.cache.clear();
-        for page in pages {
-            let page_number = page.page_number();
-            if page.is_dirty() {
-                page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, block_size))?;
-            };
-        }
-
-        self.sync_header()?;
-
-        self.file.flush()?;
-        self.wal.truncate()?;
-        self.wal.flush()?;
-        Ok(())
+        self.checkpoint(&[])
     }
 }
 
diff --git a/crates/axmos-db/src/io/recovery.rs b/crates/axmos-db/src/io/recovery.rs
index e1638f6..09ad09f 100644
--- a/crates/axmos-db/src/io/recovery.rs
+++ b/crates/axmos-db/src/io/recovery.rs
@@ -14,9 +14,10 @@ use crate::{
         dml::DmlExecutor,
     },
     storage::tuple::Row,
+    types::{Lsn, TransactionId},
 };
 
-use std::io::{Error as IoError, ErrorKind};
+use std::collections::BTreeSet;
 
 pub struct WalRecuperator {
     dml_executor: DmlExecutor,
@@ -31,77 +32,40 @@ impl WalRecuperator {
         }
     }
 
-    /// Runs the recovery
-    pub(crate) fn run_recovery(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        self.run_undo(&analysis)?;
-        self.run_redo(&analysis)?;
-
-        Ok(())
-    }
-
-    /// Run all the undo.
-    pub(crate) fn run_undo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_undo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.undo_delete(delete_operation)?;
-                }
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.undo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.undo_insert(insert_operation)?;
-                }
-
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.undo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.undo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.undo_drop(drop_operation)?;
-                }
+    /// Reapplies, in log order, the operations of the given transactions.
+    ///
+    /// Transactions that did not commit need no undo pass: they are marked as aborted, so nothing
+    /// they wrote is visible.
+    pub(crate) fn run_recovery(
+        &mut self,
+        analysis: &AnalysisResult,
+        transactions: &BTreeSet<TransactionId>,
+    ) -> RuntimeResult<()> {
+        let lsns: BTreeSet<Lsn> = transactions
+            .iter()
+            .filter_map(|tid| analysis.try_iter_lsn(tid))
+            .flatten()
+            .copied()
+            .collect();
+
+        for lsn in &lsns {
+            if let Some(create_operation) = analysis.create_ops.get(lsn) {
+                self.redo_create(create_operation)?;
             }
-        }
-
-        Ok(())
-    }
-
-    /// Run all the redo.
-    pub(crate) fn run_redo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_redo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.redo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.redo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.redo_drop(drop_operation)?;
-                }
-
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.redo_delete(delete_operation)?;
-                }
-
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.redo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.redo_insert(insert_operation)?;
-                }
+            if let Some(alter_operation) = analysis.alter_ops.get(lsn) {
+                self.redo_alter(alter_operation)?;
+            }
+            if let Some(drop_operation) = analysis.drop_ops.get(lsn) {
+                self.redo_drop(drop_operation)?;
+            }
+            if let Some(delete_operation) = analysis.delete_ops.get(lsn) {
+                self.redo_delete(delete_operation)?;
+            }
+            if let Some(update_operation) = analysis.update_ops.get(lsn) {
+                self.redo_update(update_operation)?;
+            }
+            if let Some(insert_operation) = analysis.insert_ops.get(lsn) {
+                self.redo_insert(insert_operation)?;
             }
         }
 
@@ -111,8 +75,22 @@ impl WalRecuperator {
     /// Recovers a CREATE operation during redo phase.
     ///
     /// Deserializes the CreateTableInstr or CreateIndexInstr from the redo
-    /// payload and executes it to recreate the table/index.
+    /// payload and executes it to recreate the table/index, under the object id it had.
     fn redo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
+        let object_id = create_op
+            .row_id()
+            .expect("Object ID must be set for CREATE logs");
+        let pager = self.ddl_executor.ctx().pager().clone();
+        let next_object = pager.read().get_last_stored_object();
+        pager.write().set_last_stored_object(object_id);
+        let result = self.redo_create_at(create_op);
+        let mut pager = pager.write();
+        let reached = pager.get_last_stored_object();
+        pager.set_last_stored_object(reached.max(next_object));
+        result
+    }
+
+    fn redo_create_at(&mut self, create_op: &Create) -> RuntimeResult<()> {
         let redo_bytes = create_op.redo();
 
         if redo_bytes.is_empty() {
@@ -120,14 +98,16 @@ impl WalRecuperator {
         }
 
         // Try to deserialize as CreateTableInstr first
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
+        if let Ok(mut create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
+            create_table_instr.if_not_exists = true;
             let instr = DdlInstruction::CreateTable(create_table_instr);
             self.ddl_executor.execute_instruction(&instr)?;
             return Ok(());
         }
 
         // Try CreateIndexInstr
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
+        if let Ok(mut create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
+            create_index_instr.if_not_exists = true;
             let instr = DdlInstruction::CreateIndex(create_index_instr);
             self.ddl_executor.execute_instruction(&instr)?;
             return Ok(());
@@ -141,40 +121,6 @@ impl WalRecuperator {
         Ok(())
     }
 
-    /// Recovers a CREATE operation during undo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the undo
-    /// payload and executes it to remove the created table/index.
-    fn undo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let object_id = create_op
-            .row_id()
-            .expect("Object ID must be set for CREATE logs");
-
-        // The undo of CREATE is DROP
-        // We need to get the redo bytes to know what type of object was created
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Determine if it's a table or index and execute the inverse
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_table_instr.inverse(object_id);
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_index_instr.inverse(object_id);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
     /// Recovers a DROP operation during redo phase.
     ///
     /// Deserializes the DropTableInstr or DropIndexInstr from the redo
@@ -214,32 +160,6 @@ impl WalRecuperator {
         Ok(())
     }
 
-    /// Recovers a DROP operation during undo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the undo
-    /// payload and executes it to restore the dropped table/index.
-    fn undo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // The undo of DROP is CREATE - restore from the saved instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
     /// Recovers an ALTER operation during redo phase.
     ///
     /// Deserializes the AlterTableInstr from the redo payload and applies
@@ -259,97 +179,6 @@ impl WalRecuperator {
         Ok(())
     }
 
-    /// Recovers an ALTER operation during undo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the undo payload (which contains
-    /// the inverse operation) and applies it to restore the previous state.
-    fn undo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let undo_bytes = alter_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    // DML Undo operations
-    fn undo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(delete_op.undo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
-        Ok(())
-    }
-
-    fn undo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                self.dml_executor
-                    .update_row(table_id, &row_id, &redo_row, &undo_row)?;
-            }
-        }
-        Ok(())
-    }
-
-    fn undo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = insert_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
-    }
-
     // DML Redo operations
 
     fn redo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
@@ -418,8 +247,12 @@ impl WalRecuperator {
         if let Some(row) =
             Row::from_bytes_checked_with_snapshot(insert_op.redo(), schema, &snapshot)?
         {
+            let row_id = insert_op
+                .row_id()
+                .expect("Row id must be set for DML logs");
             let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
+            self.dml_executor
+                .insert_with_row_id(table_id, &columns, &row, Some(row_id))?;
         }
         Ok(())
     }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 5790f03..18b3653 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -51,9 +51,10 @@ use crate::{
         logger::Begin,
         pager::{Pager, SharedPager},
         recovery::WalRecuperator,
+        wal::AnalysisResult,
     },
     multithreading::{
-        coordinator::{TransactionCoordinator, TransactionError},
+        coordinator::{TransactionCoordinator, TransactionError, TransactionState},
         runner::{BoxError, SharedTaskRunner, TaskError},
     },
     runtime::{
@@ -66,6 +67,7 @@ use crate::{
 };
 
 use std::{
+    collections::BTreeSet,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
     io::{Error as IoError, Write},
@@ -225,6 +227,10 @@ impl Database {
         // Open pager
         let mut pager = Pager::open(&path)?;
 
+        // Find out what the log says before anything else uses the transaction state.
+        let analysis = pager.run_analysis()?;
+        let redo = pager.resolve_logged_transactions(&analysis);
+
         let total_pages = pager.total_allocated_pages();
 
         let (meta_table, meta_index) = if total_pages == 1 {
@@ -261,7 +267,9 @@ impl Database {
         };
 
         // Run recovery
-        db.run_recovery()?;
+        if !analysis.lsn_chains.is_empty() {
+            db.run_recovery(analysis, redo)?;
+        }
 
         Ok(db)
     }
@@ -279,6 +287,19 @@ impl Database {
         Ok((ctx, logger))
     }
 
+    /// Commits a transaction and forces its log records.
+    fn commit_and_log(tx_ctx: &TransactionContext, logger: &TransactionLogger) -> DatabaseResult<()> {
+        logger.log_commit()?;
+        if let Err(e) = tx_ctx.commit_transaction() {
+            // Not committed after all: recovery must not redo it.
+            logger.log_abort()?;
+            logger.log_end()?;
+            return Err(e.into());
+        }
+        logger.log_end()?;
+        Ok(())
+    }
+
     /// Creates a new session for this database.
     ///
     /// Each client/connection should have its own session.
@@ -306,30 +327,27 @@ impl Database {
     }
 
     /// Runs WAL recovery to restore database to consistent state.
-    fn run_recovery(&self) -> DatabaseResult<()> {
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
+    fn run_recovery(
+        &self,
+        analysis: AnalysisResult,
+        redo: BTreeSet<TransactionId>,
+    ) -> DatabaseResult<()> {
+        let handle = self.coordinator.begin()?;
+        let logger = TransactionLogger::disabled(handle.id(), self.pager.clone());
+        let tx_ctx = TransactionContext::new(self.pager.clone(), self.catalog.clone(), handle)?;
         let child = tx_ctx.create_child()?;
         let pager = self.pager.clone();
-        // Begin a recovery transaction
-        self.task_runner.run(move |ctx| {
-            let mut recuperator = WalRecuperator::new(child, logger.clone());
-
-            // Run analysis INSIDE the closure using the cloned pager
-            let analysis = pager.write().run_analysis().map_err(box_err)?;
-
-            // Run recovery through recuperator
-            recuperator.run_recovery(&analysis).map_err(box_err)?;
-
-            // Truncate WAL
-            pager.write().truncate_wal().map_err(box_err)?;
+        self.task_runner.run(move |_ctx| {
+            let mut recuperator = WalRecuperator::new(child, logger);
+            recuperator.run_recovery(&analysis, &redo).map_err(box_err)?;
 
             // Commit recovery transaction
             tx_ctx.commit_transaction().map_err(box_err)?;
 
+            // The log is still the only durable copy of what was redone: it can be dropped once
+            // the pages are on disk.
+            pager.write().checkpoint(&[]).map_err(box_err)?;
+
             Ok(())
         })?;
 
@@ -350,9 +368,7 @@ impl Database {
             let runner = QueryRunner::new(child, logger.clone());
             let result_guard = runner.prepare_and_run(&sql).map_err(box_err)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            Self::commit_and_log(&tx_ctx, &logger).map_err(box_err)?;
 
             Ok(result_guard)
         })?;
@@ -375,9 +391,7 @@ impl Database {
             let runner = QueryRunner::new(child, logger.clone());
             let result = runner.prepare_and_explain(&sql).map_err(box_err)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            Self::commit_and_log(&tx_ctx, &logger).map_err(box_err)?;
 
             Ok(result)
         })?;
@@ -402,9 +416,7 @@ impl Database {
 
             let results = runner.execute_all(&statements).map_err(box_err)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            Self::commit_and_log(&tx_ctx, &logger).map_err(box_err)?;
 
             Ok(results)
         })?;
@@ -414,7 +426,13 @@ impl Database {
 
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
-        self.pager.write().flush()?;
+        let mut pager = self.pager.write();
+        let running: Vec<TransactionId> = self
+            .coordinator
+            .transaction_set(TransactionState::Active)
+            .into_iter()
+            .collect();
+        pager.checkpoint(&running)?;
         Ok(())
     }
 
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 017347a..66c4179 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -439,6 +439,7 @@ impl TransactionCoordinator {
 
             ValidationResult::Conflict(id) => {
                 self.set_transaction_state(txid, TransactionState::Aborted)?;
+                self.pager.write().mark_transaction_aborted(txid);
                 Err(TransactionError::WriteWriteConflict(txid, id))
             }
         }
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index c557820..daeaafd 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -4,7 +4,7 @@ use parking_lot::RwLock;
 use super::RuntimeResult;
 use crate::{
     io::{
-        logger::{Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
+        logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
     multithreading::coordinator::{Snapshot, TransactionHandle},
@@ -99,6 +99,7 @@ pub(crate) struct TransactionLogger {
     tid: TransactionId,
     pager: SharedPager,
     last_lsn: Arc<RwLock<u64>>,
+    enabled: bool,
 }
 
 impl Clone for TransactionLogger {
@@ -107,6 +108,7 @@ impl Clone for TransactionLogger {
             tid: self.tid,
             pager: self.pager.clone(),
             last_lsn: Arc::clone(&self.last_lsn),
+            enabled: self.enabled,
         }
     }
 }
@@ -117,15 +119,25 @@ impl TransactionLogger {
             tid: xid,
             pager,
             last_lsn: Arc::new(RwLock::new(last_lsn)),
+            enabled: true,
         }
     }
+
+    /// A logger that writes nothing: what recovery does is in the log already.
+    pub(crate) fn disabled(xid: TransactionId, pager: SharedPager) -> Self {
+        Self {
+            enabled: false,
+            ..Self::new(xid, pager, 0)
+        }
+    }
+
     pub(crate) fn log_commit(&self) -> RuntimeResult<()> {
         self.log_operation(Commit)?;
         Ok(())
     }
 
     pub(crate) fn log_abort(&self) -> RuntimeResult<()> {
-        self.log_operation(Commit)?;
+        self.log_operation(Abort)?;
         Ok(())
     }
 
@@ -141,6 +153,9 @@ impl TransactionLogger {
     }
 
     fn log_operation<O: Operation>(&self, operation: O) -> RuntimeResult<()> {
+        if !self.enabled {
+            return Ok(());
+        }
         let new_last_lsn =
             self.pager
                 .write()
@@ -283,6 +298,11 @@ impl TransactionContext {
             .with_pager(self.pager().clone())
     }
 
+    /// Whether the transaction can still be committed or aborted.
+    pub(crate) fn is_open(&self) -> bool {
+        self.handle.read().can_commit()
+    }
+
     /// Commits the transaction: log commit, commit handle, end.
     pub(crate) fn commit_transaction(&self) -> RuntimeResult<()> {
         let mut h = self.handle.write();
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 16db50a..87db20b 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -484,6 +484,10 @@ impl DdlExecutor {
         Self { ctx, logger }
     }
 
+    pub(crate) fn ctx(&self) -> &ThreadContext {
+        &self.ctx
+    }
+
     pub fn is_ddl(stmt: &BoundStatement) -> bool {
         matches!(
             stmt,
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 28a9ef9..e57fc03 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -151,19 +151,33 @@ impl DmlExecutor {
         table_id: ObjectId,
         columns: &[usize],
         values: &Row,
+    ) -> RuntimeResult<InsertResult> {
+        self.insert_with_row_id(table_id, columns, values, None)
+    }
+
+    /// Inserts a row, under a given row ID when it already had one (recovery).
+    pub(crate) fn insert_with_row_id(
+        &mut self,
+        table_id: ObjectId,
+        columns: &[usize],
+        values: &Row,
+        given_row_id: Option<RowId>,
     ) -> RuntimeResult<InsertResult> {
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot().clone();
         let tid = self.ctx.tid();
 
         // Get the relation and allocate a new row ID
-        let mut relation = self
+        let relation = self
             .ctx
             .catalog()
             .get_relation(table_id, &tree_builder, &snapshot)?;
 
-        let row_id = relation.next_row_id();
-        relation.increment_row_id();
+        let row_id = match given_row_id {
+            Some(id) => UInt64(id),
+            None => relation.next_row_id(),
+        };
+        let next_row_id = relation.next_row_id().value().max(row_id.value() + 1);
 
         let schema = relation.schema().clone();
         let root = relation.root();
@@ -171,8 +185,10 @@ impl DmlExecutor {
         // Build the full row with the assigned row ID
         let full_row = self.build_full_row(&schema, columns, values, row_id)?;
 
-        // Constraint validation goes here.
-        self.validate_insert_constraints(&relation, full_row.as_slice())?;
+        // Constraint validation goes here. Rows that are being recovered were validated before.
+        if given_row_id.is_none() {
+            self.validate_insert_constraints(&relation, full_row.as_slice())?;
+        }
         let indexes = relation.get_indexes();
 
         // Create and insert the tuple
@@ -215,7 +231,7 @@ impl DmlExecutor {
         // Update relation metadata
         self.ctx.catalog().update_relation(
             relation.object_id(),
-            Some(relation.next_row_id().value()),
+            Some(next_row_id),
             None,
             None,
             &tree_builder,
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index 544012f..e617de0 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -142,6 +142,14 @@ impl PageZeroHeader {
         }
     }
 
+    pub(crate) fn unmark_transaction_aborted(&mut self, txid: TransactionId) {
+        if txid < MAX_TRACKED_ABORTED_TXS as u64 {
+            let byte_idx = (txid / 8) as usize;
+            let bit_idx = (txid % 8) as u8;
+            self.aborted_txs_bitmap[byte_idx] &= !(1 << bit_idx);
+        }
+    }
+
     pub(crate) fn is_transaction_aborted(&self, txid: TransactionId) -> bool {
         if txid >= MAX_TRACKED_ABORTED_TXS as u64 {
             return false;
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index eab65b6..1d6d569 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -28,13 +28,24 @@ impl Session {
     }
 
     pub fn commit_transaction(&mut self) -> QueryRunnerResult<()> {
+        if !self.ctx.is_open() {
+            return Ok(());
+        }
         self.logger.log_commit()?;
-        self.ctx.commit_transaction()?;
+        if let Err(e) = self.ctx.commit_transaction() {
+            // Not committed after all: recovery must not redo it.
+            self.logger.log_abort()?;
+            self.logger.log_end()?;
+            return Err(e.into());
+        }
         self.logger.log_end()?;
         Ok(())
     }
 
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
+        if !self.ctx.is_open() {
+            return Ok(());
+        }
         self.logger.log_abort()?;
         self.ctx.abort_transaction()?;
         self.logger.log_end()?;
-- 
2.43.0


From 578005be683d7f99cf718f3335083af4d7c6f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 07/52] fix: a task that panics no longer ends its worker
 thread

---
 crates/axmos-db/src/multithreading/threadpool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 5b21b80..212d72b 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -2,6 +2,7 @@ use std::{
     collections::VecDeque,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
+    panic::{AssertUnwindSafe, catch_unwind},
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
@@ -126,7 +127,8 @@ impl Worker {
             {
                 match job {
                     Job::Task(task) => {
-                        let _ = task();
+                        // A task that panics must not take the worker with it.
+                        let _ = catch_unwind(AssertUnwindSafe(task));
                     }
                     Job::Shutdown => break,
                 }
-- 
2.43.0


From 2e2ce2f80c0c02f50d70608d309729eaa2a55701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 08/52] fix: an error in a scan predicate fails the statement
 instead of panicking

---
 crates/axmos-db/src/runtime/ops/index_scan.rs | 31 ++++++++-----------
 crates/axmos-db/src/runtime/ops/seq_scan.rs   | 13 +++-----
 2 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index db3974c..8dae93b 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -163,18 +163,14 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.index_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_index_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(found_row) = tree.get_row_at(next_pos, &self.index_schema, &snapshot)? else {
+                continue;
+            };
+
+            if !self.evaluate_index_predicate(&found_row)? {
                 continue;
             }
 
-            let found_row = maybe_row.unwrap();
             let row_key_bytes = self.get_row_id_checked(&found_row)?.serialize()?;
 
             // Build the table tree
@@ -183,19 +179,18 @@ impl Executor for IndexScan {
                 table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?;
 
             if let SearchResult::Found(found_pos) = actual_row_result {
-                let actual_row = tree
-                    .get_row_at(found_pos, &self.table_schema, &snapshot)?
-                    .filter(|r| {
-                        self.evaluate_residual_predicate(r)
-                            .expect("Predicate evaluation failed")
-                    });
-
-                if actual_row.is_none() {
+                let Some(actual_row) =
+                    tree.get_row_at(found_pos, &self.table_schema, &snapshot)?
+                else {
+                    continue;
+                };
+
+                if !self.evaluate_residual_predicate(&actual_row)? {
                     continue;
                 }
 
                 self.stats.rows_produced += 1;
-                return Ok(Some(actual_row.unwrap()));
+                return Ok(Some(actual_row));
             } else {
                 continue;
             }
diff --git a/crates/axmos-db/src/runtime/ops/seq_scan.rs b/crates/axmos-db/src/runtime/ops/seq_scan.rs
index 6d9f9f5..a32450a 100644
--- a/crates/axmos-db/src/runtime/ops/seq_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/seq_scan.rs
@@ -98,19 +98,16 @@ impl Executor for SeqScan {
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
 
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.output_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
+            let Some(row) = tree.get_row_at(next_pos, &self.output_schema, &snapshot)? else {
+                continue;
+            };
 
-            if maybe_row.is_none() {
+            if !self.evaluate_predicate(&row)? {
                 continue;
             }
 
             self.stats.rows_produced += 1;
-            return Ok(Some(maybe_row.unwrap()));
+            return Ok(Some(row));
         }
     }
 
-- 
2.43.0


From ee4ff36988f7ec6c4b5c4a365f21e7b2a28423ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 09/52] fix: tuple versions wrap, deltas stay aligned, and
 deletions see the deleter's own and rolled-back marks correctly

---
 crates/axmos-db/src/storage/tuple.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 555b247..7b0c53f 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -594,7 +594,7 @@ impl<'a> TupleReader<'a> {
 
         // Check if tuple was deleted before our snapshot
         if let Some(xmax) = layout.version_xmax {
-            if snapshot.is_committed_before_snapshot(xmax) {
+            if snapshot.is_committed_before_snapshot(xmax) || xmax == snapshot.xid() {
                 return Ok(None);
             }
         }
@@ -1017,7 +1017,7 @@ impl Tuple {
 
         // Write header
         let original_xmin = self.xmin();
-        let header = TupleHeader::new(old_version + 1, original_xmin, None);
+        let header = TupleHeader::new(old_version.wrapping_add(1), original_xmin, None);
         cursor = header.write_to(buffer, cursor);
 
         // Write null bitmap for new values
@@ -1043,6 +1043,7 @@ impl Tuple {
         // Copy existing deltas
         if existing_deltas_size > 0 {
             let existing_deltas = &self.data.effective_data()[existing_deltas_start..];
+            cursor = DeltaHeader::aligned_offset(cursor);
             buffer[cursor..cursor + existing_deltas_size].copy_from_slice(existing_deltas);
         }
 
@@ -1159,8 +1160,11 @@ impl Tuple {
             }
         }
 
-        // Existing deltas
-        size += existing_deltas_size;
+        // Existing deltas, which start at an aligned offset
+        if existing_deltas_size > 0 {
+            size = DeltaHeader::aligned_offset(size);
+            size += existing_deltas_size;
+        }
 
         size
     }
@@ -1262,11 +1266,9 @@ impl Tuple {
         Ok(cursor)
     }
 
+    /// Marks the tuple as deleted by `xid`. A previous mark is replaced: it belongs to a
+    /// transaction that rolled back, as a tuple that is really deleted is not visible to `xid`.
     pub(crate) fn delete(&mut self, xid: TransactionId) -> TupleResult<()> {
-        if self.is_deleted() {
-            return Ok(());
-        }
-
         let buffer = self.data.effective_data_mut();
         let (mut header, _) = TupleHeader::read_from(buffer, 0);
         header.xmax = xid as i64;
@@ -1275,6 +1277,14 @@ impl Tuple {
         Ok(())
     }
 
+    /// Removes the deletion mark left by a transaction that rolled back.
+    pub(crate) fn undelete(&mut self) {
+        let buffer = self.data.effective_data_mut();
+        let (mut header, _) = TupleHeader::read_from(buffer, 0);
+        header.xmax = -1;
+        header.write_to(buffer, 0);
+    }
+
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-- 
2.43.0


From d8566173e66e0e2cac6a0953989c2af8742db766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 10/52] fix: concurrent writers of a row or unique key
 conflict, and vacuum, nulls and updates leave indexes consistent

---
 .../src/multithreading/coordinator.rs         |  58 ++++-
 crates/axmos-db/src/runtime/context.rs        |  51 +++-
 crates/axmos-db/src/runtime/ddl.rs            |   4 +
 crates/axmos-db/src/runtime/dml.rs            | 238 ++++++------------
 crates/axmos-db/src/schema/catalog.rs         |  14 +-
 5 files changed, 197 insertions(+), 168 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 66c4179..ea197db 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -376,10 +376,7 @@ impl TransactionCoordinator {
         let xmin = active.iter().min().copied().unwrap_or(txid);
 
         // xmax is the last committed transaction from PageZero
-        let xmax = {
-            let last = self.get_last_committed();
-            if last == 0 { None } else { Some(last) }
-        };
+        let xmax = Some(self.get_last_committed());
 
         Ok(Snapshot::new(txid, xmin, xmax, active, aborted))
     }
@@ -499,6 +496,49 @@ impl TransactionCoordinator {
         Ok(())
     }
 
+    /// Claims a tuple for writing: the first of two concurrent writers wins.
+    ///
+    /// Fails if another running transaction has written the tuple, or if one that committed after
+    /// `txid` started has.
+    pub fn lock_write(&self, txid: TransactionId, logical_id: LogicalId) -> TransactionResult<()> {
+        let mut txs = self.transactions.write();
+
+        let start_ts = match txs.get(&txid) {
+            Some(entry) if entry.state == TransactionState::Active => entry.start_ts(),
+            Some(_) => return Err(TransactionError::Aborted(txid)),
+            None => return Err(TransactionError::NotFound(txid)),
+        };
+
+        let claimed = txs.iter().any(|(id, entry)| {
+            *id != txid
+                && matches!(
+                    entry.state,
+                    TransactionState::Active | TransactionState::Committing
+                )
+                && entry.write_set.contains_key(&logical_id)
+        });
+
+        let overwritten = self
+            .tuple_commits
+            .read()
+            .get(&logical_id)
+            .is_some_and(|ts| *ts >= start_ts);
+
+        if claimed || overwritten {
+            return Err(TransactionError::WriteWriteConflict(txid, logical_id));
+        }
+
+        if let Some(entry) = txs.get_mut(&txid) {
+            entry.write_set.entry(logical_id).or_insert(0);
+        }
+        Ok(())
+    }
+
+    /// Current state of a transaction, if it is still tracked.
+    pub fn transaction_state(&self, txid: TransactionId) -> Option<TransactionState> {
+        self.transactions.read().get(&txid).map(|entry| entry.state)
+    }
+
     fn set_transaction_state(
         &self,
         txid: TransactionId,
@@ -599,6 +639,12 @@ impl TransactionCoordinator {
                 aborted.push(*id);
             }
         }
+        drop(txs);
+
+        let mut pager = self.pager.write();
+        for id in &aborted {
+            pager.mark_transaction_aborted(*id);
+        }
 
         aborted
     }
@@ -692,6 +738,10 @@ impl TransactionHandle {
         &self.snapshot
     }
 
+    pub(crate) fn coordinator(&self) -> Option<TransactionCoordinator> {
+        self.commit_handle.as_ref().map(|h| h.coordinator.clone())
+    }
+
     pub fn can_commit(&self) -> bool {
         self.commit_handle.is_some()
     }
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index daeaafd..423258b 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -1,19 +1,21 @@
 use parking_lot::RwLock;
 
 // src/sql/executor/context.rs
-use super::RuntimeResult;
+use super::{RuntimeError, RuntimeResult};
 use crate::{
     io::{
         logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionHandle},
+    multithreading::coordinator::{
+        Snapshot, TransactionCoordinator, TransactionError, TransactionHandle, TransactionState,
+    },
     schema::catalog::SharedCatalog,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
         bplustree::Btree,
     },
-    types::{ObjectId, PageId, RowId, TransactionId},
+    types::{LogicalId, ObjectId, PageId, RowId, TransactionId},
 };
 use std::sync::Arc;
 
@@ -24,6 +26,7 @@ pub(crate) struct ThreadContext {
     catalog: SharedCatalog,
     tid: TransactionId,
     snapshot: Snapshot,
+    coordinator: Option<TransactionCoordinator>,
 }
 
 impl ThreadContext {
@@ -38,9 +41,48 @@ impl ThreadContext {
             snapshot,
             pager,
             catalog,
+            coordinator: None,
         }
     }
 
+    /// Makes writes of this context subject to conflict detection.
+    pub(crate) fn with_coordinator(mut self, coordinator: Option<TransactionCoordinator>) -> Self {
+        self.coordinator = coordinator;
+        self
+    }
+
+    /// Claims a row before writing it.
+    pub(crate) fn lock_row(&self, table_id: ObjectId, row_id: RowId) -> RuntimeResult<()> {
+        if let Some(coordinator) = &self.coordinator {
+            coordinator
+                .lock_write(self.tid, LogicalId::new(table_id, row_id))
+                .map_err(RuntimeError::TransactionalError)?;
+        }
+        Ok(())
+    }
+
+    /// Fails if `creator`, which wrote something we cannot see at a place where we want to write,
+    /// has not rolled back.
+    pub(crate) fn check_no_conflict_with(
+        &self,
+        creator: TransactionId,
+        id: LogicalId,
+    ) -> RuntimeResult<()> {
+        let Some(coordinator) = &self.coordinator else {
+            return Ok(());
+        };
+        if creator == self.tid
+            || self.snapshot.is_committed_before_snapshot(creator)
+            || self.snapshot.is_transaction_aborted(creator)
+            || coordinator.transaction_state(creator) == Some(TransactionState::Aborted)
+        {
+            return Ok(());
+        }
+        Err(RuntimeError::TransactionalError(
+            TransactionError::WriteWriteConflict(self.tid, id),
+        ))
+    }
+
     pub(crate) fn pager(&self) -> &SharedPager {
         &self.pager
     }
@@ -254,7 +296,8 @@ impl TransactionContext {
             self.snapshot(),
             self.pager().clone(),
             self.catalog().clone(),
-        ))
+        )
+        .with_coordinator(self.handle.read().coordinator()))
     }
 
     pub(crate) fn tid(&self) -> TransactionId {
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 87db20b..119d567 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -1081,6 +1081,10 @@ impl DdlExecutor {
                         entry_values.push(row[col_idx].clone());
                     }
                 }
+                // Rows with a null in an indexed column have no entry.
+                if entry_values.iter().any(|v| v.is_null()) {
+                    continue;
+                }
                 entry_values.push(DataType::BigUInt(UInt64(*value)));
 
                 index_entries.push(Row::new(entry_values.into_boxed_slice()));
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index e57fc03..de4892f 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -20,7 +20,7 @@ use crate::{
     sql::binder::bounds::BoundExpression,
     storage::tuple::{Row, Tuple, TupleBuilder, TupleReader},
     tree::bplustree::SearchResult,
-    types::{DataType, ObjectId, RowId, UInt64},
+    types::{DataType, LogicalId, ObjectId, PageId, RowId, UInt64},
 };
 
 /// Result of an insert operation.
@@ -223,8 +223,6 @@ impl DmlExecutor {
             &relation.get_indexes(),
             None,
             Some(full_row),
-            None,
-            &schema,
             row_id.value(),
         )?;
 
@@ -310,7 +308,9 @@ impl DmlExecutor {
             return Ok(UpdateResult { updated: false });
         };
 
-        // Get the old row for index maintenance
+        self.ctx.lock_row(table_id, row_id.value())?;
+
+        // Get the old row for constraint validation
         let old_row = btree
             .get_row_at(position, &schema, &snapshot)?
             .expect("Tuple should exist");
@@ -327,12 +327,6 @@ impl DmlExecutor {
         let mut updated_tuple = tuple.clone();
         updated_tuple.add_version_with(&assignments, tid, &schema)?;
 
-        // Get the new row for index maintenance
-        let new_row = updated_tuple
-            .as_tuple_ref(&schema, &snapshot)
-            .expect("Updated tuple should be visible")
-            .to_row_with(&schema)?;
-
         // Log the update
         self.logger.log_update(
             table_id,
@@ -344,15 +338,8 @@ impl DmlExecutor {
         // Update the main table
         btree.update(root, updated_tuple, &schema)?;
 
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            Some(new_row),
-            Some(assignments),
-            &schema,
-            row_id.value(),
-        )?;
+        // Secondary index entries stay as they are: they point to the row id, which an update
+        // does not change.
 
         Ok(UpdateResult { updated: true })
     }
@@ -396,6 +383,8 @@ impl DmlExecutor {
             return Ok(DeleteResult { deleted: false });
         };
 
+        self.ctx.lock_row(table_id, row_id.value())?;
+
         // Get the row for index maintenance
         let old_row = btree
             .get_row_at(position, &schema, &snapshot)?
@@ -417,8 +406,6 @@ impl DmlExecutor {
             &relation.get_indexes(),
             Some(old_row),
             None,
-            None,
-            &schema,
             row_id.value(),
         )?;
 
@@ -476,14 +463,22 @@ impl DmlExecutor {
         Ok(Row::new(entry.into_boxed_slice()))
     }
 
+    /// Whether the row has an entry in the index: rows with a null in an indexed column do not.
+    fn is_indexed(values: &[DataType], index: &IndexHandle) -> bool {
+        index
+            .indexed_column_ids()
+            .iter()
+            .all(|col| values.get(*col).is_some_and(|v| !v.is_null()))
+    }
+
     /// Maintains secondary indexes.
+    ///
+    /// An insert has no old values and a delete has no new values.
     fn maintain_secondary_indexes(
         &mut self,
         indexes: &[IndexHandle],
         old_values: Option<Row>,
         new_values: Option<Row>,
-        table_assignments: Option<HashMap<usize, DataType>>,
-        table_schema: &Schema,
         row_id: RowId,
     ) -> RuntimeResult<()> {
         let old_values = old_values.map(|r| r.into_inner());
@@ -491,12 +486,6 @@ impl DmlExecutor {
 
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot();
-        let tid = self.ctx.tid();
-
-        // Determine which columns were modified
-        let modified_columns: Option<HashSet<usize>> = table_assignments
-            .clone()
-            .map(|c| c.keys().copied().collect());
 
         for index in indexes {
             let index_relation =
@@ -506,149 +495,82 @@ impl DmlExecutor {
             let index_schema = index_relation.schema();
             let index_root = index_relation.root();
 
-            if let Some(modified) = modified_columns.as_ref() {
-                // Skip indexes not affected by this update
-                let index_affected = index
-                    .indexed_column_ids()
-                    .iter()
-                    .any(|col| modified.contains(col));
-
-                if !index_affected {
-                    continue;
-                }
+            if let Some(values) = old_values.as_ref()
+                && Self::is_indexed(values, index)
+            {
+                self.delete_index_entry(values, index, index_schema, index_root, row_id)?;
             }
 
-            let mut index_btree = self.ctx.build_tree_mut(index_root);
-
-            match (
-                old_values.as_ref(),
-                new_values.as_ref(),
-                table_assignments.as_ref(),
-            ) {
-                // Insert operation
-                (None, Some(values), None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let existing =
-                            index_btree.get_tuple_at_unchecked(position, &index_schema)?;
-
-                        // If it is deleted we need to un-delete it
-                        if existing.is_deleted() {
-                            index_btree.update(index_root, index_tuple, index_schema)?;
-                        };
-
-                        // Otherwise there is nothing to do. Just keep the tuple there.
-                    } else {
-                        index_btree.insert(index_root, index_tuple, index_schema)?;
-                    }
-                }
-                // New values was set to [None] which means we are on a delete operation. Then we need to perform the maintenance in a different way.
-                // Delete operation
-                (Some(values), None, None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(position, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.delete(self.ctx.tid())?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    };
-                } // Update operation
-                (Some(old_values), Some(new_values), Some(assignments)) => {
-                    // Build the old index key for searching
-                    let old_index_row =
-                        Self::build_index_entry(&old_values, index, index_schema, row_id)?;
-                    let old_index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&old_index_row, tid)?;
-
-                    // Build new assignments for the index
-                    let index_assignments = self.build_index_assignments(
-                        &old_values,
-                        &assignments,
-                        index,
-                        index_schema,
-                    )?;
-
-                    // Search and update the index entry
-                    let mut index_btree = self.ctx.build_tree_mut(index_root);
-                    let search_result = index_btree.search_tuple(&old_index_tuple, index_schema)?;
-
-                    if let SearchResult::Found(pos) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(pos, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.add_version_with(
-                                &index_assignments,
-                                snapshot.xid(),
-                                index_schema,
-                            )?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    }
-                }
-                _ => return Err(RuntimeError::InvalidStatement),
+            if let Some(values) = new_values.as_ref()
+                && Self::is_indexed(values, index)
+            {
+                self.insert_index_entry(values, index, index_schema, index_root, row_id)?;
             }
         }
 
         Ok(())
     }
 
-    /// Builds assignment map for an index based on table assignments.
-    fn build_index_assignments(
+    fn insert_index_entry(
         &self,
-        old_values: &[DataType],
-        table_assignments: &HashMap<usize, DataType>,
+        values: &[DataType],
         index: &IndexHandle,
         index_schema: &Schema,
-    ) -> RuntimeResult<HashMap<usize, DataType>> {
-        let mut index_assignments: HashMap<usize, DataType> = HashMap::new();
-
-        for (index_col_idx, table_col_idx) in index.indexed_column_ids().iter().enumerate() {
-            // Check if this table column was modified
-            let Some(new_value) = table_assignments.get(table_col_idx) else {
-                continue;
-            };
-
-            // Validate type compatibility
-            let index_col_type = index_schema
-                .column(index_col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(index_col_idx))?
-                .datatype();
-
-            if index_col_type != new_value.kind() {
-                return Err(RuntimeError::TypeError(
-                    TypeSystemError::UnexpectedDataType(new_value.kind()),
-                ));
-            }
+        index_root: PageId,
+        row_id: RowId,
+    ) -> RuntimeResult<()> {
+        let index_row = Self::build_index_entry(values, index, index_schema, row_id)?;
+        let index_tuple =
+            TupleBuilder::from_schema(index_schema).build(&index_row, self.ctx.tid())?;
+
+        let mut index_btree = self.ctx.build_tree_mut(index_root);
+        let search_result = index_btree.search_tuple(&index_tuple, index_schema)?;
+
+        if let SearchResult::Found(position) = search_result {
+            // The constraint validation did not see this entry as a conflict, so it is deleted or
+            // was written by a transaction whose work is not visible to us.
+            let existing = index_btree.get_tuple_at_unchecked(position, index_schema)?;
+            self.ctx
+                .check_no_conflict_with(existing.xmin(), LogicalId::new(index.id(), row_id))?;
+            index_btree.update(index_root, index_tuple, index_schema)?;
+        } else {
+            index_btree.insert(index_root, index_tuple, index_schema)?;
+        }
+
+        Ok(())
+    }
 
-            index_assignments.insert(index_col_idx, new_value.clone());
+    fn delete_index_entry(
+        &self,
+        values: &[DataType],
+        index: &IndexHandle,
+        index_schema: &Schema,
+        index_root: PageId,
+        row_id: RowId,
+    ) -> RuntimeResult<()> {
+        let snapshot = self.ctx.snapshot();
+        let index_row = Self::build_index_entry(values, index, index_schema, row_id)?;
+        let index_tuple =
+            TupleBuilder::from_schema(index_schema).build(&index_row, self.ctx.tid())?;
+
+        let mut index_btree = self.ctx.build_tree_mut(index_root);
+        let search_result = index_btree.search_tuple(&index_tuple, index_schema)?;
+
+        if let SearchResult::Found(position) = search_result {
+            let tuple_reader = TupleReader::from_schema(index_schema);
+
+            let visible = index_btree.with_cell_at(position, |bytes| {
+                tuple_reader.parse_for_snapshot(bytes, snapshot).ok()??;
+                Tuple::from_slice_unchecked(bytes).ok()
+            })?;
+
+            if let Some(mut tuple) = visible {
+                tuple.delete(self.ctx.tid())?;
+                index_btree.update(index_root, tuple, index_schema)?;
+            }
         }
 
-        Ok(index_assignments)
+        Ok(())
     }
 }
 
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 92aa7a1..65dcd3a 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -422,13 +422,23 @@ impl Catalog {
                         let mut tuple = Tuple::from_slice_unchecked(bytes)?;
                         let xmin = tuple.xmin();
 
-                        let freed = if snapshot.is_transaction_aborted(xmin) || tuple.is_deleted() {
+                        // A deletion that was rolled back did not happen.
+                        let delete_aborted = tuple
+                            .xmax()
+                            .is_some_and(|xmax| snapshot.is_transaction_aborted(xmax));
+
+                        let freed = if snapshot.is_transaction_aborted(xmin)
+                            || (tuple.is_deleted() && !delete_aborted)
+                        {
                             let freed = tuple.full_data().len();
                             tuples_to_remove.push(tuple);
                             freed
                         } else {
                             let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
-                            if freed > 0 {
+                            if delete_aborted {
+                                tuple.undelete();
+                            }
+                            if freed > 0 || delete_aborted {
                                 tuples_to_vaccum.push(tuple);
                             };
                             freed
-- 
2.43.0


From 0c9a8c8dfef5e671c4b48543fe7614494e11dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 11/52] fix: a failed statement leaves no partial changes

---
 crates/axmos-db/src/runtime/dml.rs        |  8 +++-
 crates/axmos-db/src/runtime/ops/delete.rs | 12 +++--
 crates/axmos-db/src/runtime/ops/insert.rs | 23 +++++++---
 crates/axmos-db/src/runtime/ops/update.rs | 55 +++++++++++++++++------
 4 files changed, 75 insertions(+), 23 deletions(-)

diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index de4892f..7157edf 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -219,12 +219,16 @@ impl DmlExecutor {
         }
 
         // Maintain secondary indexes
-        self.maintain_secondary_indexes(
+        if let Err(e) = self.maintain_secondary_indexes(
             &relation.get_indexes(),
             None,
             Some(full_row),
             row_id.value(),
-        )?;
+        ) {
+            // A statement that fails leaves no partial changes.
+            self.delete(table_id, &row_id)?;
+            return Err(e);
+        }
 
         // Update relation metadata
         self.ctx.catalog().update_relation(
diff --git a/crates/axmos-db/src/runtime/ops/delete.rs b/crates/axmos-db/src/runtime/ops/delete.rs
index 1741f53..42ace5d 100644
--- a/crates/axmos-db/src/runtime/ops/delete.rs
+++ b/crates/axmos-db/src/runtime/ops/delete.rs
@@ -63,12 +63,18 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read and claim everything first, so that a conflict leaves no partial changes.
+        let mut row_ids = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
 
-            let row_id = extract_row_id(&row)?;
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+            let row_id = *extract_row_id(&row)?;
+            self.ctx.lock_row(self.table_id, row_id.value())?;
+            row_ids.push(row_id);
+        }
+
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        for row_id in &row_ids {
             let result = dml.delete(self.table_id, row_id)?;
 
             if result.deleted {
diff --git a/crates/axmos-db/src/runtime/ops/insert.rs b/crates/axmos-db/src/runtime/ops/insert.rs
index 157dd6c..3bb747a 100644
--- a/crates/axmos-db/src/runtime/ops/insert.rs
+++ b/crates/axmos-db/src/runtime/ops/insert.rs
@@ -64,15 +64,28 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read everything first: the statement must not see the rows it adds.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            rows.push(row);
+        }
 
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-            dml.insert(self.table_id, &self.columns, &row)?;
-
-            self.stats.rows_produced += 1;
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        let mut inserted = Vec::with_capacity(rows.len());
+        for row in &rows {
+            match dml.insert(self.table_id, &self.columns, row) {
+                Ok(result) => inserted.push(UInt64::from(result.row_id)),
+                Err(e) => {
+                    // A statement that fails leaves no partial changes.
+                    for row_id in &inserted {
+                        dml.delete(self.table_id, row_id)?;
+                    }
+                    return Err(e);
+                }
+            }
         }
+        self.stats.rows_produced += inserted.len() as u64;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/ops/update.rs b/crates/axmos-db/src/runtime/ops/update.rs
index 283ac98..0da6d47 100644
--- a/crates/axmos-db/src/runtime/ops/update.rs
+++ b/crates/axmos-db/src/runtime/ops/update.rs
@@ -11,6 +11,8 @@ use crate::{
     types::{DataType, UInt64},
 };
 
+use std::collections::HashMap;
+
 /// Running state for the Update operator.
 pub(crate) struct Update<Child>
 where
@@ -52,8 +54,8 @@ where
         &self.stats
     }
 
-    /// Evaluates assignments and performs the update for a single row.
-    fn update_row(&mut self, row: &Row) -> RuntimeResult<bool> {
+    /// Updates all the given rows, or none of them.
+    fn update_rows(&mut self, rows: &[Row]) -> RuntimeResult<u64> {
         // Get the schema to evaluate assignments
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot();
@@ -62,16 +64,43 @@ where
             .catalog()
             .get_relation(self.table_id, &tree_builder, &snapshot)?;
         let schema = relation.schema().clone();
+        let num_keys = schema.num_keys();
 
-        // Extract row ID and evaluate assignments
-        let row_id = extract_row_id(row)?;
-        let assignments = evaluate_assignments(self.assignments.iter(), row, &schema)?;
+        // Evaluate everything before changing anything
+        let mut changes = Vec::with_capacity(rows.len());
+        for row in rows {
+            let row_id = extract_row_id(row)?;
+            let assignments = evaluate_assignments(self.assignments.iter(), row, &schema)?;
+            self.ctx.lock_row(self.table_id, row_id.value())?;
+            changes.push((row_id, assignments));
+        }
 
-        // Delegate to DML executor
+        let mut updated = 0;
+        let mut undo: Vec<(&UInt64, HashMap<usize, DataType>)> = Vec::with_capacity(rows.len());
         let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-        let result = dml.update(self.table_id, row_id, assignments)?;
+        for (row, (row_id, assignments)) in rows.iter().zip(changes) {
+            let old_values = assignments
+                .keys()
+                .map(|idx| (*idx, row[idx + num_keys].clone()))
+                .collect();
+
+            match dml.update(self.table_id, row_id, assignments) {
+                Ok(result) if result.updated => {
+                    updated += 1;
+                    undo.push((row_id, old_values));
+                }
+                Ok(_) => {}
+                Err(e) => {
+                    // A statement that fails leaves no partial changes.
+                    for (row_id, old_values) in undo.into_iter().rev() {
+                        dml.update(self.table_id, row_id, old_values)?;
+                    }
+                    return Err(e);
+                }
+            }
+        }
 
-        Ok(result.updated)
+        Ok(updated)
     }
 }
 
@@ -89,15 +118,15 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read everything first: the statement must not see the rows it changes.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
-
-            if self.update_row(&row)? {
-                self.stats.rows_produced += 1;
-            }
+            rows.push(row);
         }
 
+        self.stats.rows_produced += self.update_rows(&rows)?;
+
         self.returned_result = true;
 
         // Return count of updated rows
-- 
2.43.0


From aef1c90d1a1a4c48b9ad44e2d0db8a1daa2bc116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 12/52] fix: numeric values compare and hash by exact value
 across types

---
 crates/axmos-db/src/types/macros/datatype.rs | 89 ++++++++++++--------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/crates/axmos-db/src/types/macros/datatype.rs b/crates/axmos-db/src/types/macros/datatype.rs
index 4b4c386..4d098c6 100644
--- a/crates/axmos-db/src/types/macros/datatype.rs
+++ b/crates/axmos-db/src/types/macros/datatype.rs
@@ -13,12 +13,9 @@ macro_rules! impl_datatype_partial_eq {
                     (Self::Bool(a), Self::Bool(b)) => a == b,
                     (Self::Blob(a), Self::Blob(b)) => a == b,
 
-                    // Numeric types are promoted to f64 to compare
+                    // Numeric types compare by value
                     (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x == y,
-                            _ => false,
-                        }
+                        a.compare_numeric(b) == Some(Ordering::Equal)
                     }
 
                     // Different type categories are not equal
@@ -44,13 +41,8 @@ macro_rules! impl_datatype_partial_ord {
                     // Blob uses lexicographic ordering
                     (Self::Blob(a), Self::Blob(b)) => a.partial_cmp(b),
 
-                    // Numeric types are promoted to f64 and compared
-                    (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x.partial_cmp(&y),
-                            _ => None,
-                        }
-                    }
+                    // Numeric types compare by value
+                    (a, b) if a.is_numeric() && b.is_numeric() => a.compare_numeric(b),
 
                     // Different type categories cannot be compared
                     _ => None,
@@ -60,9 +52,47 @@ macro_rules! impl_datatype_partial_ord {
     };
 }
 
+/// Comparison of numeric values of any type by their mathematical value.
+#[macro_export]
+macro_rules! impl_datatype_numeric_order {
+    ($($type_name:tt)+) => {
+        impl $($type_name)+ {
+            /// The value as an integer, when it is a whole number.
+            pub(crate) fn to_i128(&self) -> Option<i128> {
+                match self {
+                    Self::Int(v) => Some(v.0 as i128),
+                    Self::BigInt(v) => Some(v.0 as i128),
+                    Self::UInt(v) => Some(v.0 as i128),
+                    Self::BigUInt(v) => Some(v.0 as i128),
+                    _ => self
+                        .to_f64()
+                        .filter(|f| f.abs() < i64::MAX as f64 * 4.0 && f.trunc() == *f)
+                        .map(|f| f as i128),
+                }
+            }
+
+            /// Compares two numeric values. NaN equals itself and is greater than anything else.
+            pub(crate) fn compare_numeric(&self, other: &Self) -> Option<Ordering> {
+                if let (Some(a), Some(b)) = (self.to_i128(), other.to_i128()) {
+                    return Some(a.cmp(&b));
+                }
+
+                // At least one of them is not a whole number below 2^65, so that rounding the
+                // other one to a float cannot change the order.
+                let (a, b) = (self.to_f64()?, other.to_f64()?);
+                Some(
+                    a.partial_cmp(&b)
+                        .unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())),
+                )
+            }
+        }
+    };
+}
+
 #[macro_export]
 macro_rules! impl_datatype_ord_traits {
     ($($type_name:tt)+) => {
+        $crate::impl_datatype_numeric_order!($($type_name)+);
         $crate::impl_datatype_partial_eq!($($type_name)+);
         $crate::impl_datatype_partial_ord!($($type_name)+);
 
@@ -86,30 +116,19 @@ macro_rules! impl_datatype_hash {
                         1u8.hash(state);
                         (b.value() as u8).hash(state);
                     }
-                    // Numerics are converted to bits using the same discriminant
-                    Self::Int(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::UInt(v) => {
+                    // Numerics that compare equal hash the same, whatever their type
+                    Self::Int(_)
+                    | Self::BigInt(_)
+                    | Self::UInt(_)
+                    | Self::BigUInt(_)
+                    | Self::Float(_)
+                    | Self::Double(_) => {
                         2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigUInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Float(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Double(v) => {
-                        2u8.hash(state);
-                        v.0.to_bits().hash(state);
+                        match (self.to_i128(), self.to_f64()) {
+                            (Some(int), _) => int.hash(state),
+                            (None, Some(float)) if float.is_nan() => f64::NAN.to_bits().hash(state),
+                            (None, float) => float.map(f64::to_bits).hash(state),
+                        }
                     }
                     Self::Blob(b) => {
                         3u8.hash(state);
-- 
2.43.0


From 3ae41bd6b3ad563bf1980cd7548f2fc5c7720169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 13/52] fix: COUNT, SUM and friends over an expression skip
 nulls and honour DISTINCT

---
 crates/axmos-db/src/runtime/ops/aggregate.rs | 28 +++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/aggregate.rs b/crates/axmos-db/src/runtime/ops/aggregate.rs
index be4da18..1ff30ff 100644
--- a/crates/axmos-db/src/runtime/ops/aggregate.rs
+++ b/crates/axmos-db/src/runtime/ops/aggregate.rs
@@ -1,5 +1,8 @@
 // src/runtime/ops/aggregate.rs
-use std::{collections::HashMap, vec::IntoIter};
+use std::{
+    collections::{HashMap, HashSet},
+    vec::IntoIter,
+};
 
 use crate::{
     runtime::{ExecutionStats, Executor, RuntimeError, RuntimeResult, eval::ExpressionEvaluator},
@@ -129,6 +132,8 @@ struct GroupBucket {
     key: Vec<DataType>,
     /// One accumulator per aggregate expression.
     accumulators: Vec<Accumulator>,
+    /// Values already seen by each DISTINCT aggregate.
+    seen: Vec<HashSet<DataType>>,
 }
 
 impl GroupBucket {
@@ -139,6 +144,7 @@ impl GroupBucket {
                 .iter()
                 .map(|agg| Accumulator::new(&agg.func))
                 .collect(),
+            seen: vec![HashSet::new(); aggregates.len()],
         }
     }
 }
@@ -207,15 +213,19 @@ impl<Child: Executor> HashAggregate<Child> {
         // Accumulate the row
         let evaluator = ExpressionEvaluator::new(&row, &self.input_schema);
         for (i, agg_expr) in self.aggregates.iter().enumerate() {
-            let value = if agg_expr.arg.is_none() {
-                DataType::Null
-            } else if let Some(ref arg) = agg_expr.arg {
-                match arg {
-                    BoundExpression::Star => DataType::Null,
-                    other => evaluator.evaluate_as_single_value(other)?,
+            let value = match agg_expr.arg {
+                None | Some(BoundExpression::Star) => DataType::Null,
+                Some(ref arg) => {
+                    let value = evaluator.evaluate_as_single_value(arg)?;
+
+                    // Aggregates over an expression skip nulls, and repetitions when asked to.
+                    if value.is_null()
+                        || (agg_expr.distinct && !bucket.seen[i].insert(value.clone()))
+                    {
+                        continue;
+                    }
+                    value
                 }
-            } else {
-                DataType::Null
             };
             bucket.accumulators[i].accumulate(&value)?;
         }
-- 
2.43.0


From 9e6d4ef2b831767c2b7ac805e7ce0b4ebb9ca7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 14/52] fix: equi-joins handle nulls, either side order of the
 condition, and unmatched right rows

---
 crates/axmos-db/src/runtime/builder.rs     |  5 +-
 crates/axmos-db/src/runtime/ops/join.rs    | 18 ++---
 crates/axmos-db/src/sql/planner/logical.rs | 76 ++++++++++------------
 crates/axmos-db/src/sql/planner/rules.rs   |  6 +-
 4 files changed, 55 insertions(+), 50 deletions(-)

diff --git a/crates/axmos-db/src/runtime/builder.rs b/crates/axmos-db/src/runtime/builder.rs
index e897da7..35ab457 100644
--- a/crates/axmos-db/src/runtime/builder.rs
+++ b/crates/axmos-db/src/runtime/builder.rs
@@ -84,9 +84,12 @@ impl ExecutorBuilder {
 
             PhysicalOperator::NestedLoopJoin(join_op) => {
                 require_children(children, 2, "NestedLoopJoin")?;
+                let left_cols = children[0].output_schema().num_columns();
                 let left = build_child(&children[0])?;
                 let right = build_child(&children[1])?;
-                Ok(Box::new(NestedLoopJoin::new(join_op, left, right)))
+                Ok(Box::new(NestedLoopJoin::new(
+                    join_op, left, right, left_cols,
+                )))
             }
             PhysicalOperator::HashJoin(join_op) => {
                 require_children(children, 2, "HashJoin")?;
diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 752ddcf..c05c3fd 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -176,12 +176,11 @@ pub(crate) struct NestedLoopJoin<Left: Executor, Right: Executor> {
 }
 
 impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> {
-    pub(crate) fn new(op: &NestedLoopJoinOp, left: Left, right: Right) -> Self {
-        let total_cols = op.output_schema.num_columns();
+    pub(crate) fn new(op: &NestedLoopJoinOp, left: Left, right: Right, left_cols: usize) -> Self {
         Self {
             join_type: op.join_type,
             condition: op.condition.clone(),
-            left_cols: 0,
+            left_cols,
             output_schema: op.output_schema.clone(),
             left,
             right,
@@ -253,9 +252,6 @@ impl<Left: Executor, Right: Executor> Executor for NestedLoopJoin<Left, Right> {
                 match self.left.next()? {
                     Some(row) => {
                         self.stats.rows_scanned += 1;
-                        if self.left_cols == 0 {
-                            self.left_cols = row.len();
-                        }
                         self.current_left_row = Some(row);
                         self.right_idx = 0;
                         self.left_matched = false;
@@ -467,7 +463,9 @@ impl<Left: Executor, Right: Executor> Executor for HashJoin<Left, Right> {
             let left_row = self.current_left_row.as_ref().unwrap();
             let left_key = self.current_left_key.as_ref().unwrap();
 
-            if let Some(bucket) = self.hash_table.get_mut(left_key) {
+            if let Some(bucket) = self.hash_table.get_mut(left_key)
+                && !left_key.iter().any(DataType::is_null)
+            {
                 while self.current_bucket_idx < bucket.len() {
                     let right_row = &bucket.rows[self.current_bucket_idx];
                     self.current_bucket_idx += 1;
@@ -575,7 +573,11 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
 
     fn compare_keys(&self, left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
         for (l, r) in left_keys.iter().zip(right_keys.iter()) {
-            if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
+            // A null matches nothing: the row that has it is skipped.
+            if matches!(l, DataType::Null) {
+                return Ordering::Less;
+            }
+            if matches!(r, DataType::Null) {
                 return Ordering::Greater;
             }
             match l.partial_cmp(r) {
diff --git a/crates/axmos-db/src/sql/planner/logical.rs b/crates/axmos-db/src/sql/planner/logical.rs
index b1c9739..3cc8d86 100644
--- a/crates/axmos-db/src/sql/planner/logical.rs
+++ b/crates/axmos-db/src/sql/planner/logical.rs
@@ -293,59 +293,55 @@ impl JoinOp {
         Schema::new_table_with_num_keys(cols, 0)
     }
 
-    /// Checks if this is an equi-join.
+    /// Checks if this is an equi-join: a conjunction of equalities between a column of the left
+    /// side and a column of the right side.
     pub fn is_equi_join(&self) -> bool {
+        let mut keys = Vec::new();
         self.condition
             .as_ref()
-            .map_or(false, |c| Self::is_equi_condition(c))
+            .is_some_and(|c| self.collect_equi_keys(c, &mut keys))
     }
 
-    fn is_equi_condition(expr: &BoundExpression) -> bool {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    matches!(left.as_ref(), BoundExpression::ColumnBinding(_))
-                        && matches!(right.as_ref(), BoundExpression::ColumnBinding(_))
-                }
-                BinaryOperator::And => {
-                    Self::is_equi_condition(left) && Self::is_equi_condition(right)
-                }
-                _ => false,
-            },
-            _ => false,
-        }
-    }
-
-    /// Extracts equi-join keys as (left_col, right_col) pairs.
+    /// Extracts equi-join keys as (left_col, right_col) pairs of the combined schema.
     pub fn extract_equi_keys(&self) -> Vec<(usize, usize)> {
         let mut keys = Vec::new();
         if let Some(cond) = &self.condition {
-            Self::collect_equi_keys(cond, &mut keys);
+            self.collect_equi_keys(cond, &mut keys);
         }
         keys
     }
 
-    fn collect_equi_keys(expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) {
-        match expr {
-            BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    if let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
-                        (left.as_ref(), right.as_ref())
-                    {
-                        keys.push((l.column_idx, r.column_idx));
-                    }
+    /// Collects the keys and returns whether the whole expression consists of them.
+    fn collect_equi_keys(&self, expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) -> bool {
+        let BoundExpression::BinaryOp {
+            op, left, right, ..
+        } = expr
+        else {
+            return false;
+        };
+
+        match op {
+            BinaryOperator::Eq => {
+                let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
+                    (left.as_ref(), right.as_ref())
+                else {
+                    return false;
+                };
+                let (l, r) = (
+                    l.column_idx.min(r.column_idx),
+                    l.column_idx.max(r.column_idx),
+                );
+                let left_cols = self.left_schema.num_columns();
+                if l >= left_cols || r < left_cols {
+                    return false;
                 }
-                BinaryOperator::And => {
-                    Self::collect_equi_keys(left, keys);
-                    Self::collect_equi_keys(right, keys);
-                }
-                _ => {}
-            },
-            _ => {}
+                keys.push((l, r));
+                true
+            }
+            BinaryOperator::And => {
+                self.collect_equi_keys(left, keys) && self.collect_equi_keys(right, keys)
+            }
+            _ => false,
         }
     }
 }
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 84cddf6..ee15902 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1001,7 +1001,11 @@ impl ImplementationRule for JoinRule {
                     expr.children.clone(),
                 ));
 
-                // Merge join
+                // Merge join. It does not keep the right rows that found no match.
+                if matches!(join.join_type, JoinType::Right | JoinType::Full) {
+                    return Ok(impls);
+                }
+
                 // left_ordering uses indices relative to left schema (child 0)
                 // right_ordering uses indices relative to right schema (child 1)
                 let left_ordering: Vec<_> =
-- 
2.43.0


From e58035d9348a7b1a9e052f138b610af06aca698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 15/52] fix: LIKE escapes and characters, boolean serialization

---
 crates/axmos-db/src/types/blob.rs | 130 ++++++++++++------------------
 crates/axmos-db/src/types/bool.rs |   4 +-
 2 files changed, 55 insertions(+), 79 deletions(-)

diff --git a/crates/axmos-db/src/types/blob.rs b/crates/axmos-db/src/types/blob.rs
index a0f33a0..15e72af 100644
--- a/crates/axmos-db/src/types/blob.rs
+++ b/crates/axmos-db/src/types/blob.rs
@@ -397,93 +397,69 @@ impl<'a> BlobRef<'a> {
 
     /// Internal pattern matching implementation.
     fn match_pattern(data: &[u8], pattern: &[u8]) -> bool {
-        let mut data_idx = 0;
-        let mut pattern_idx = 0;
-        let mut backtrack_data_idx = 0;
-        let mut backtrack_pattern_idx = 0;
-        let mut in_escape = false;
+        enum Symbol {
+            Sequence,
+            Any,
+            Byte(u8),
+        }
+
+        let mut symbols = Vec::with_capacity(pattern.len());
+        let mut bytes = pattern.iter();
+        while let Some(byte) = bytes.next() {
+            symbols.push(match byte {
+                b'%' => Symbol::Sequence,
+                b'_' => Symbol::Any,
+                // The character after the escape stands for itself
+                b'\\' => Symbol::Byte(*bytes.next().unwrap_or(byte)),
+                other => Symbol::Byte(*other),
+            });
+        }
+
+        // Length of the (UTF-8) character at the given position.
+        let char_len = |start: usize| {
+            1 + data[start + 1..]
+                .iter()
+                .take_while(|b| **b & 0xC0 == 0x80)
+                .count()
+        };
+
+        let (mut data_idx, mut symbol_idx) = (0, 0);
+        // Last % seen, and the data position from which the rest of the pattern was tried.
+        let mut backtrack: Option<(usize, usize)> = None;
 
         while data_idx < data.len() {
-            if pattern_idx < pattern.len() {
-                let pattern_char = pattern[pattern_idx];
-
-                if in_escape {
-                    // Escaped character, match literally
-                    if data[data_idx] != pattern_char {
-                        // No match, try backtracking if we have a % to expand
-                        if backtrack_pattern_idx > 0 {
-                            backtrack_data_idx += 1;
-                            data_idx = backtrack_data_idx;
-                            pattern_idx = backtrack_pattern_idx;
-                            continue;
-                        }
-                        return false;
-                    }
-                    data_idx += 1;
-                    pattern_idx += 1;
-                    in_escape = false;
+            match symbols.get(symbol_idx) {
+                Some(Symbol::Sequence) => {
+                    symbol_idx += 1;
+                    backtrack = Some((symbol_idx, data_idx));
                     continue;
                 }
-
-                match pattern_char {
-                    b'\\' => {
-                        // Next character is escaped
-                        in_escape = true;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'%' => {
-                        // % matches any sequence
-                        // Store backtrack positions
-                        backtrack_data_idx = data_idx;
-                        backtrack_pattern_idx = pattern_idx + 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'_' => {
-                        // _ matches any single character
-                        data_idx += 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    _ => {
-                        // Literal character
-                        if data[data_idx] != pattern_char {
-                            // No match, try backtracking if we have a % to expand
-                            if backtrack_pattern_idx > 0 {
-                                backtrack_data_idx += 1;
-                                data_idx = backtrack_data_idx;
-                                pattern_idx = backtrack_pattern_idx;
-                                continue;
-                            }
-                            return false;
-                        }
-                        data_idx += 1;
-                        pattern_idx += 1;
-                    }
+                Some(Symbol::Any) => {
+                    data_idx += char_len(data_idx);
+                    symbol_idx += 1;
+                    continue;
                 }
-            } else if backtrack_pattern_idx > 0 {
-                // Pattern exhausted but we have a % to expand
-                backtrack_data_idx += 1;
-                data_idx = backtrack_data_idx;
-                pattern_idx = backtrack_pattern_idx;
-            } else {
-                // Pattern exhausted but data remains (only OK if trailing %)
-                // Check if pattern ends with %
-                if pattern.last() == Some(&b'%') {
-                    return true;
+                Some(Symbol::Byte(byte)) if *byte == data[data_idx] => {
+                    data_idx += 1;
+                    symbol_idx += 1;
+                    continue;
                 }
-                return false;
+                _ => {}
             }
-        }
 
-        // Skip any trailing % in pattern
-        while pattern_idx < pattern.len() && pattern[pattern_idx] == b'%' {
-            pattern_idx += 1;
+            // No match: let the last % take one more character.
+            let Some((after, tried)) = backtrack else {
+                return false;
+            };
+            data_idx = tried + char_len(tried);
+            symbol_idx = after;
+            backtrack = Some((after, data_idx));
         }
 
-        // Check if we consumed all pattern
-        pattern_idx == pattern.len()
+        // Whatever is left must match the empty sequence
+        symbols[symbol_idx..]
+            .iter()
+            .all(|s| matches!(s, Symbol::Sequence))
     }
 
     /// Case-insensitive LIKE comparison (for text blobs).
diff --git a/crates/axmos-db/src/types/bool.rs b/crates/axmos-db/src/types/bool.rs
index 23d3533..985f521 100644
--- a/crates/axmos-db/src/types/bool.rs
+++ b/crates/axmos-db/src/types/bool.rs
@@ -121,7 +121,7 @@ impl<'a> TypeRef<'a> for BoolRef<'a> {
     }
 
     fn as_bytes(&self) -> &[u8] {
-        &[]
+        self.as_ref()
     }
 }
 
@@ -286,7 +286,7 @@ impl Hashable for Bool {
 
 impl SerializableType for Bool {
     fn write_to(&self, writer: &mut [u8], cursor: usize) -> SerializationResult<usize> {
-        writer[cursor..].copy_from_slice(&[self.0 as u8]);
+        writer[cursor] = self.0 as u8;
         Ok(cursor + 1)
     }
 }
-- 
2.43.0


From d6045589dbd57d1c7ba9393f5bda185fbdaa0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 16/52] fix: scalar functions of a null are null, NULLIF
 compares its arguments

---
 crates/axmos-db/src/runtime/eval.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 09fad92..cfa4b7c 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -222,6 +222,19 @@ impl<'a> ExpressionEvaluator<'a> {
                     let evaluated = self.evaluate(expr)?;
                     arg_list.extend(evaluated);
                 }
+
+                // Functions of a null are null, except for the ones that are about nulls.
+                if arg_list.iter().any(DataType::is_null)
+                    && !matches!(
+                        func,
+                        ScalarFunction::Coalesce
+                            | ScalarFunction::NullIf
+                            | ScalarFunction::Unknown(_)
+                    )
+                {
+                    return Ok(vec![DataType::Null]);
+                }
+
                 match func {
                     ScalarFunction::Abs => {
                         let result = Abs::call(arg_list)?;
@@ -705,18 +718,11 @@ struct NullIf;
 
 impl Callable for NullIf {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !matches!(args[1], DataType::Bool(_)) {
+        if args.len() != 2 {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::NullIf));
         };
 
-        let condition = args[1]
-            .as_bool()
-            .ok_or(EvaluationError::TypeError(
-                TypeSystemError::UnexpectedDataType(args[1].kind()),
-            ))?
-            .value();
-
-        if condition {
+        if args[0] == args[1] {
             return Ok(DataType::Null);
         }
         Ok(args[0].clone())
-- 
2.43.0


From c5741617300bd2bf6574ef8001a273f995d37e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 17/52] fix: constant folding keeps integer division,
 subtraction from zero, LIKE and IN semantics

---
 crates/axmos-db/src/sql/parser/ast.rs | 41 ++++++++-------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/crates/axmos-db/src/sql/parser/ast.rs b/crates/axmos-db/src/sql/parser/ast.rs
index 5ec3666..241a4d5 100644
--- a/crates/axmos-db/src/sql/parser/ast.rs
+++ b/crates/axmos-db/src/sql/parser/ast.rs
@@ -87,9 +87,6 @@ impl Simplify for Expr {
                     (Expr::Number(a), BinaryOperator::Minus, Expr::Number(b)) if *b == 0.0 => {
                         *self = Expr::Number(*a);
                     }
-                    (Expr::Number(a), BinaryOperator::Minus, Expr::Number(b)) if *a == 0.0 => {
-                        *self = Expr::Number(*b);
-                    }
                     (Expr::Number(a), BinaryOperator::Multiply, Expr::Number(b))
                         if *b == 0.0 || *a == 0.0 =>
                     {
@@ -104,12 +101,6 @@ impl Simplify for Expr {
                     (Expr::Number(a), BinaryOperator::Divide, Expr::Number(b)) if *b == 1.0 => {
                         *self = Expr::Number(*a);
                     }
-                    (Expr::Number(a), BinaryOperator::Minus, Expr::Number(b)) if *b == 0.0 => {
-                        *self = Expr::Number(*a);
-                    }
-                    (Expr::Number(a), BinaryOperator::Minus, Expr::Number(b)) if *a == 0.0 => {
-                        *self = Expr::Number(*b);
-                    }
                     (Expr::Number(a), BinaryOperator::Plus, Expr::Number(b)) => {
                         *self = Expr::Number(a + b);
                     }
@@ -119,9 +110,6 @@ impl Simplify for Expr {
                     (Expr::Number(a), BinaryOperator::Multiply, Expr::Number(b)) => {
                         *self = Expr::Number(a * b);
                     }
-                    (Expr::Number(a), BinaryOperator::Divide, Expr::Number(b)) if *b != 0.0 => {
-                        *self = Expr::Number(a / b);
-                    }
                     (Expr::Number(a), BinaryOperator::Eq, Expr::Number(b)) => {
                         *self = Expr::Boolean(a == b)
                     }
@@ -137,9 +125,6 @@ impl Simplify for Expr {
                     (Expr::Number(a), BinaryOperator::Le, Expr::Number(b)) => {
                         *self = Expr::Boolean(a <= b)
                     }
-                    (Expr::Number(a), BinaryOperator::Modulo, Expr::Number(b)) => {
-                        *self = Expr::Number(a % b)
-                    }
                     (Expr::Boolean(a), BinaryOperator::And, Expr::Boolean(b)) => {
                         *self = Expr::Boolean(*a && *b)
                     }
@@ -182,34 +167,32 @@ impl Simplify for Expr {
                     (Expr::String(a), BinaryOperator::Concat, Expr::String(b)) => {
                         *self = Expr::String(format!("{a}{b}"));
                     }
-                    (Expr::String(a), BinaryOperator::Like, Expr::String(pattern)) => {
-                        let regex = pattern.replace('%', ".*").replace('_', ".");
-                        let re = regex::Regex::new(&format!("^{regex}$")).unwrap();
-                        *self = Expr::Boolean(re.is_match(a));
-                    }
-                    (Expr::String(a), BinaryOperator::NotLike, Expr::String(pattern)) => {
-                        let regex = pattern.replace('%', ".*").replace('_', ".");
-                        let re = regex::Regex::new(&format!("^{regex}$")).unwrap();
-                        *self = Expr::Boolean(!re.is_match(a));
-                    }
                     // x IN (x, y, z) → TRUE
-                    (Expr::Number(a), BinaryOperator::In, Expr::List(items)) => {
+                    (Expr::Number(a), BinaryOperator::In, Expr::List(items))
+                        if items.iter().all(|e| matches!(e, Expr::Number(_))) =>
+                    {
                         let result = items
                             .iter()
                             .any(|e| matches!(e, Expr::Number(b) if *a == *b));
                         *self = Expr::Boolean(result);
                     }
-                    (Expr::String(a), BinaryOperator::In, Expr::List(items)) => {
+                    (Expr::String(a), BinaryOperator::In, Expr::List(items))
+                        if items.iter().all(|e| matches!(e, Expr::String(_))) =>
+                    {
                         let result = items
                             .iter()
                             .any(|e| matches!(e, Expr::String(b) if *a == *b));
                         *self = Expr::Boolean(result);
                     }
-                    (Expr::String(a), BinaryOperator::NotIn, Expr::List(items)) => {
+                    (Expr::String(a), BinaryOperator::NotIn, Expr::List(items))
+                        if items.iter().all(|e| matches!(e, Expr::String(_))) =>
+                    {
                         let result = !items.iter().any(|e| matches!(e, Expr::String(b) if a == b));
                         *self = Expr::Boolean(result);
                     }
-                    (Expr::Number(a), BinaryOperator::NotIn, Expr::List(items)) => {
+                    (Expr::Number(a), BinaryOperator::NotIn, Expr::List(items))
+                        if items.iter().all(|e| matches!(e, Expr::Number(_))) =>
+                    {
                         let result = !items.iter().any(|e| matches!(e, Expr::Number(b) if a == b));
                         *self = Expr::Boolean(result);
                     }
-- 
2.43.0


From 197ffab2e3f558ddf9bcefa4a9aaf24a73614bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 18/52] fix: pages are not corrupted by defragmentation or by a
 cell shrinking in place

---
 crates/axmos-db/src/storage/core/buffer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 9bdff50..acd32c9 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -7,7 +7,7 @@ use std::{
     iter,
     mem::{self, ManuallyDrop},
     ops::{Bound, Deref, DerefMut, RangeBounds},
-    ptr::NonNull,
+    ptr::{self, NonNull},
     slice,
 };
 
@@ -826,7 +826,8 @@ where
                 .copy_from_slice(&new_cell.full_data());
             *old_cell.metadata_mut() = *new_cell.metadata();
 
-            self.free_space_pointer_down(free_bytes);
+            // The gained bytes are a hole between cells. Same as in [`Self::remove`],
+            // they are corrected later through defragmentation.
             self.add_free_space(free_bytes);
 
             return Ok(owned_cell);
@@ -894,7 +895,13 @@ where
                 let cell_ref = CellRef::from_raw(cell);
                 let size = cell_ref.total_size();
                 destination_offset -= size as usize;
-                self.write_item_to_offset(destination_offset as u64, cell_ref);
+                // The cell may overlap with its own destination.
+                let destination = self.item_at_offset(destination_offset as u64);
+                ptr::copy(
+                    cell.cast::<u8>().as_ptr(),
+                    destination.cast::<u8>().as_ptr(),
+                    size,
+                );
             }
             self.slot_array_mut()[i] = destination_offset as u16;
         }
-- 
2.43.0


From 7a0743c7ca991f1c8441d25f751166e67f824971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 19/52] fix: stored statistics are read from an aligned copy

---
 crates/axmos-db/src/schema/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/schema/stats.rs b/crates/axmos-db/src/schema/stats.rs
index 0b082eb..108e9f1 100644
--- a/crates/axmos-db/src/schema/stats.rs
+++ b/crates/axmos-db/src/schema/stats.rs
@@ -350,9 +350,9 @@ impl Stats {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<8>::new();
         aligned.extend_from_slice(data);
-        let stats = from_bytes::<Stats, RkyvError>(data)?;
+        let stats = from_bytes::<Stats, RkyvError>(&aligned)?;
         Ok(stats)
     }
 }
-- 
2.43.0


From b925fe5fb1510c0d8eceec11e4018401f6fba428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 20/52] fix: NOT binds tighter than AND

---
 crates/axmos-db/src/sql/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a404639..b8b0833 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -249,12 +249,12 @@ impl Parser {
             // Token::Or => Some((1, 2)),
             // Token::And => Some((3, 4)),
             // ´´´
-            // By giving here the NOT operator a precedence of three, we are making sur it binds tighter than  AND & OR,
+            // By giving here the NOT operator a precedence of four, we are making sur it binds tighter than  AND & OR,
             // but looselier than +, - , * an unary operators.
             // This way, the expression: [NOT a AND b OR c], will be parsed as: (OR (AND (NOT a) b) c)
             Token::Not => {
                 self.next_token();
-                let expr = self.parse_expr_bp(3)?; // NOT precedence
+                let expr = self.parse_expr_bp(4)?; // NOT precedence
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Not,
                     expr: Box::new(expr),
-- 
2.43.0


From 62515d92bb0aceba053d06aa4bb06c7cd9f304b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 21/52] fix: join reordering and predicate pushdown keep the
 columns of every expression

---
 crates/axmos-db/src/sql/planner/mod.rs   |  26 ++
 crates/axmos-db/src/sql/planner/rules.rs | 476 +++++++++++------------
 2 files changed, 254 insertions(+), 248 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/mod.rs b/crates/axmos-db/src/sql/planner/mod.rs
index 7e3977e..c506d0d 100644
--- a/crates/axmos-db/src/sql/planner/mod.rs
+++ b/crates/axmos-db/src/sql/planner/mod.rs
@@ -285,7 +285,9 @@ impl<'a> CascadesOptimizer<'a> {
         // Apply transformation rules
         for rule in self.transformation_rules.iter() {
             if rule.matches(&expr, &memo) {
+                let num_groups = memo.num_groups();
                 let new_exprs = rule.apply(&expr, memo)?;
+                self.derive_new_groups(memo, num_groups);
 
                 for new_expr in new_exprs {
                     if memo
@@ -302,6 +304,30 @@ impl<'a> CascadesOptimizer<'a> {
         Ok(())
     }
 
+    /// Derives the properties of the groups a transformation rule created.
+    fn derive_new_groups(&self, memo: &mut Memo, first: usize) {
+        for idx in first..memo.num_groups() {
+            let Some(expr) = memo
+                .get_logical_expr(ExprId::logical(GroupId(idx), 0))
+                .cloned()
+            else {
+                continue;
+            };
+            let children: Vec<_> = expr
+                .children
+                .iter()
+                .filter_map(|c| memo.get_group(*c).map(|g| g.logical_props.clone()))
+                .collect();
+            let props = self
+                .deriver
+                .derive(&expr.op, &children.iter().collect::<Vec<_>>());
+            if let Some(group) = memo.get_group_mut(GroupId(idx)) {
+                group.logical_props = props.clone();
+                group.logical_exprs[0].properties = props;
+            }
+        }
+    }
+
     /// Implements a group by generating physical operators.
     fn implement_group(
         &self,
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index ee15902..d4edb40 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -77,146 +77,166 @@ pub fn implementation_rules() -> Vec<Box<dyn ImplementationRule>> {
 
 // Helper functions
 
-/// Swaps left/right in a join condition.
-fn swap_join_condition(cond: &BoundExpression) -> BoundExpression {
-    match cond {
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => {
-            let swapped_op = match op {
-                BinaryOperator::Eq => BinaryOperator::Eq,
-                BinaryOperator::Lt => BinaryOperator::Gt,
-                BinaryOperator::Gt => BinaryOperator::Lt,
-                BinaryOperator::Le => BinaryOperator::Ge,
-                BinaryOperator::Ge => BinaryOperator::Le,
-                BinaryOperator::And => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::And,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                BinaryOperator::Or => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::Or,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                _ => *op,
-            };
-            BoundExpression::BinaryOp {
-                left: right.clone(),
-                op: swapped_op,
-                right: left.clone(),
-                result_type: *result_type,
-            }
-        }
-        _ => cond.clone(),
-    }
+/// Returns whether the expression contains a nested query. Its columns cannot be told apart, so it
+/// stays where it is.
+fn has_subquery(expr: &BoundExpression) -> bool {
+    matches!(
+        expr,
+        BoundExpression::Subquery { .. }
+            | BoundExpression::Exists { .. }
+            | BoundExpression::InSubquery { .. }
+    ) || children(expr).into_iter().any(has_subquery)
 }
 
-/// Shifts column indices by offset.
-fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
+/// The direct operands of an expression.
+fn children(expr: &BoundExpression) -> Vec<&BoundExpression> {
     match expr {
-        BoundExpression::ColumnBinding(c) => {
-            let new_idx = c.column_idx as i32 + offset;
-            if new_idx < 0 {
-                None
-            } else {
-                Some(BoundExpression::ColumnBinding(Binding {
-                    column_idx: new_idx as usize,
-                    ..*c
-                }))
-            }
+        BoundExpression::ColumnBinding(_)
+        | BoundExpression::Literal { .. }
+        | BoundExpression::Subquery { .. }
+        | BoundExpression::Exists { .. }
+        | BoundExpression::Star => vec![],
+        BoundExpression::BinaryOp { left, right, .. } => vec![left, right],
+        BoundExpression::UnaryOp { expr, .. }
+        | BoundExpression::IsNull { expr, .. }
+        | BoundExpression::InSubquery { expr, .. } => vec![expr],
+        BoundExpression::Function { args, .. } => args.iter().collect(),
+        BoundExpression::Aggregate { arg, .. } => arg.iter().map(|a| a.as_ref()).collect(),
+        BoundExpression::Case {
+            operand,
+            when_then,
+            else_expr,
+            ..
+        } => operand
+            .iter()
+            .map(|o| o.as_ref())
+            .chain(when_then.iter().flat_map(|(w, t)| [w, t]))
+            .chain(else_expr.iter().map(|e| e.as_ref()))
+            .collect(),
+        BoundExpression::InList { expr, list, .. } => {
+            std::iter::once(expr.as_ref()).chain(list.iter()).collect()
         }
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => Some(BoundExpression::BinaryOp {
-            left: Box::new(shift_columns(left, offset)?),
-            op: *op,
-            right: Box::new(shift_columns(right, offset)?),
-            result_type: *result_type,
-        }),
-        BoundExpression::Literal { .. } => Some(expr.clone()),
-        _ => Some(expr.clone()),
+        BoundExpression::Between {
+            expr, low, high, ..
+        } => vec![expr, low, high],
     }
 }
 
-/// Checks if all columns in expr have index >= min.
-fn all_columns_ge(expr: &BoundExpression, min: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= min,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            all_columns_ge(left, min) && all_columns_ge(right, min)
-        }
-        BoundExpression::Literal { .. } => true,
-        _ => true,
+/// Collects the column indices an expression refers to.
+fn collect_columns(expr: &BoundExpression, out: &mut Vec<usize>) {
+    if let BoundExpression::ColumnBinding(c) = expr {
+        out.push(c.column_idx);
     }
-}
-
-/// Checks if any column in expr is in range [start, end).
-fn any_column_in_range(expr: &BoundExpression, start: usize, end: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= start && c.column_idx < end,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            any_column_in_range(left, start, end) || any_column_in_range(right, start, end)
-        }
-        _ => false,
+    for child in children(expr) {
+        collect_columns(child, out);
     }
 }
 
-/// Combines predicates with AND.
-fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
-    preds.into_iter().reduce(|a, b| BoundExpression::BinaryOp {
-        left: Box::new(a),
-        op: BinaryOperator::And,
-        right: Box::new(b),
-        result_type: DataTypeKind::Bool,
-    })
-}
+/// Rewrites every column index of an expression.
+fn map_columns(expr: &BoundExpression, f: &dyn Fn(usize) -> usize) -> BoundExpression {
+    let map = |e: &BoundExpression| map_columns(e, f);
+    let map_box = |e: &BoundExpression| Box::new(map_columns(e, f));
 
-/// Collects predicates for columns >= offset.
-fn collect_predicates_for_range(
-    expr: &BoundExpression,
-    offset: usize,
-    out: &mut Vec<BoundExpression>,
-) {
     match expr {
+        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
+            column_idx: f(c.column_idx),
+            ..*c
+        }),
+        BoundExpression::Literal { .. }
+        | BoundExpression::Subquery { .. }
+        | BoundExpression::Exists { .. }
+        | BoundExpression::Star => expr.clone(),
         BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
             left,
+            op,
             right,
-            ..
-        } => {
-            collect_predicates_for_range(left, offset, out);
-            collect_predicates_for_range(right, offset, out);
-        }
-        _ => {
-            if all_columns_ge(expr, offset) {
-                if let Some(s) = shift_columns(expr, -(offset as i32)) {
-                    out.push(s);
-                }
-            }
-        }
+            result_type,
+        } => BoundExpression::BinaryOp {
+            left: map_box(left),
+            op: *op,
+            right: map_box(right),
+            result_type: *result_type,
+        },
+        BoundExpression::UnaryOp {
+            op,
+            expr,
+            result_type,
+        } => BoundExpression::UnaryOp {
+            op: *op,
+            expr: map_box(expr),
+            result_type: *result_type,
+        },
+        BoundExpression::Function {
+            func,
+            args,
+            distinct,
+            return_type,
+        } => BoundExpression::Function {
+            func: func.clone(),
+            args: args.iter().map(map).collect(),
+            distinct: *distinct,
+            return_type: *return_type,
+        },
+        BoundExpression::Aggregate {
+            func,
+            arg,
+            distinct,
+            return_type,
+        } => BoundExpression::Aggregate {
+            func: func.clone(),
+            arg: arg.as_ref().map(|a| map_box(a)),
+            distinct: *distinct,
+            return_type: *return_type,
+        },
+        BoundExpression::Case {
+            operand,
+            when_then,
+            else_expr,
+            result_type,
+        } => BoundExpression::Case {
+            operand: operand.as_ref().map(|o| map_box(o)),
+            when_then: when_then.iter().map(|(w, t)| (map(w), map(t))).collect(),
+            else_expr: else_expr.as_ref().map(|e| map_box(e)),
+            result_type: *result_type,
+        },
+        BoundExpression::InList {
+            expr,
+            list,
+            negated,
+        } => BoundExpression::InList {
+            expr: map_box(expr),
+            list: list.iter().map(map).collect(),
+            negated: *negated,
+        },
+        BoundExpression::InSubquery {
+            expr,
+            query,
+            negated,
+        } => BoundExpression::InSubquery {
+            expr: map_box(expr),
+            query: query.clone(),
+            negated: *negated,
+        },
+        BoundExpression::Between {
+            expr,
+            low,
+            high,
+            negated,
+        } => BoundExpression::Between {
+            expr: map_box(expr),
+            low: map_box(low),
+            high: map_box(high),
+            negated: *negated,
+        },
+        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
+            expr: map_box(expr),
+            negated: *negated,
+        },
     }
 }
 
-/// Collects predicates involving columns in range [start, end).
-fn collect_predicates_involving_range(
-    expr: &BoundExpression,
-    start: usize,
-    end: usize,
-    out: &mut Vec<BoundExpression>,
-) {
+/// Splits an expression into its conjuncts.
+fn collect_conjuncts(expr: &BoundExpression, out: &mut Vec<BoundExpression>) {
     match expr {
         BoundExpression::BinaryOp {
             op: BinaryOperator::And,
@@ -224,50 +244,43 @@ fn collect_predicates_involving_range(
             right,
             ..
         } => {
-            collect_predicates_involving_range(left, start, end, out);
-            collect_predicates_involving_range(right, start, end, out);
-        }
-        _ => {
-            if any_column_in_range(expr, start, end) {
-                out.push(expr.clone());
-            }
+            collect_conjuncts(left, out);
+            collect_conjuncts(right, out);
         }
+        _ => out.push(expr.clone()),
     }
 }
 
-/// Extracts the B⋈C condition for associativity transform.
-fn extract_bc_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-    b_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = outer {
-        collect_predicates_for_range(c, a_cols, &mut preds);
-    }
-    if let Some(c) = inner {
-        if let Some(s) = shift_columns(c, -(a_cols as i32)) {
-            preds.push(s);
-        }
-    }
-    combine_predicates(preds)
+/// Combines predicates with AND.
+fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
+    preds.into_iter().reduce(|a, b| BoundExpression::BinaryOp {
+        left: Box::new(a),
+        op: BinaryOperator::And,
+        right: Box::new(b),
+        result_type: DataTypeKind::Bool,
+    })
 }
 
-/// Extracts the A condition for associativity transform.
-fn extract_a_condition(
+/// Splits the conditions of (A⋈B)⋈C for A⋈(B⋈C): what only refers to B and C moves to the inner
+/// join, everything else stays in the outer one.
+fn split_join_conditions(
     outer: &Option<BoundExpression>,
     inner: &Option<BoundExpression>,
     a_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = inner {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    if let Some(c) = outer {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
+) -> (Option<BoundExpression>, Option<BoundExpression>) {
+    let mut conjuncts = Vec::new();
+    for cond in [inner, outer].into_iter().flatten() {
+        collect_conjuncts(cond, &mut conjuncts);
     }
-    combine_predicates(preds)
+
+    let (bc, a): (Vec<_>, Vec<_>) = conjuncts.into_iter().partition(|c| {
+        let mut cols = Vec::new();
+        collect_columns(c, &mut cols);
+        !has_subquery(c) && !cols.is_empty() && cols.iter().all(|&i| i >= a_cols)
+    });
+    let bc = bc.iter().map(|c| map_columns(c, &|i| i - a_cols)).collect();
+
+    (combine_predicates(a), combine_predicates(bc))
 }
 
 /// Classifies a predicate into left-only, right-only, or join predicates.
@@ -303,76 +316,20 @@ fn classify_predicates(
 
 /// Checks if expression uses left/right columns.
 fn check_column_usage(expr: &BoundExpression, left_cols: usize) -> (bool, bool) {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            if c.column_idx < left_cols {
-                (true, false)
-            } else {
-                (false, true)
-            }
-        }
-        BoundExpression::BinaryOp { left, right, .. } => {
-            let (l1, r1) = check_column_usage(left, left_cols);
-            let (l2, r2) = check_column_usage(right, left_cols);
-            (l1 || l2, r1 || r2)
-        }
-        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
-            check_column_usage(expr, left_cols)
-        }
-        BoundExpression::InList { expr, list, .. } => {
-            let (mut l, mut r) = check_column_usage(expr, left_cols);
-            for i in list {
-                let (l2, r2) = check_column_usage(i, left_cols);
-                l = l || l2;
-                r = r || r2;
-            }
-            (l, r)
-        }
-        BoundExpression::Between {
-            expr, low, high, ..
-        } => {
-            let (l1, r1) = check_column_usage(expr, left_cols);
-            let (l2, r2) = check_column_usage(low, left_cols);
-            let (l3, r3) = check_column_usage(high, left_cols);
-            (l1 || l2 || l3, r1 || r2 || r3)
-        }
-        _ => (false, false),
-    }
+    if has_subquery(expr) {
+        return (true, true);
+    }
+    let mut cols = Vec::new();
+    collect_columns(expr, &mut cols);
+    (
+        cols.iter().any(|&i| i < left_cols),
+        cols.iter().any(|&i| i >= left_cols),
+    )
 }
 
 /// Rewrites column references using a mapping.
 fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> BoundExpression {
-    match expr {
-        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
-            column_idx: mapping.get(c.column_idx).copied().unwrap_or(c.column_idx),
-            ..*c
-        }),
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => BoundExpression::BinaryOp {
-            left: Box::new(rewrite_with_mapping(left, mapping)),
-            op: *op,
-            right: Box::new(rewrite_with_mapping(right, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::UnaryOp {
-            op,
-            expr,
-            result_type,
-        } => BoundExpression::UnaryOp {
-            op: *op,
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            negated: *negated,
-        },
-        _ => expr.clone(),
-    }
+    map_columns(expr, &|i| mapping.get(i).copied().unwrap_or(i))
 }
 
 /// Creates a column reference expression.
@@ -413,26 +370,56 @@ impl TransformationRule for JoinCommutativityRule {
         )
     }
 
-    fn apply(&self, expr: &LogicalExpr, _memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
+    fn apply(&self, expr: &LogicalExpr, memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
         let LogicalOperator::Join(join) = &expr.op else {
             return Ok(vec![]);
         };
-        if expr.children.len() != 2 {
+        // The swapped join is not swapped back.
+        if expr.children.len() != 2 || expr.children[0] >= expr.children[1] {
             return Ok(vec![]);
         }
+        if join.condition.as_ref().is_some_and(has_subquery) {
+            return Ok(vec![]);
+        }
+
+        let left_cols = join.left_schema.num_columns();
+        let right_cols = join.right_schema.num_columns();
+        let swap = |i: usize| {
+            if i < left_cols {
+                i + right_cols
+            } else {
+                i - left_cols
+            }
+        };
 
-        let swapped_cond = join.condition.as_ref().map(swap_join_condition);
         let new_join = JoinOp::new(
             join.join_type,
-            swapped_cond,
+            join.condition.as_ref().map(|c| map_columns(c, &swap)),
             join.right_schema.clone(),
             join.left_schema.clone(),
         );
+        let swapped_schema = new_join.output_schema.clone();
+        let swapped = memo.insert_logical_expr(LogicalExpr::new(
+            LogicalOperator::Join(new_join),
+            vec![expr.children[1], expr.children[0]],
+        ));
+
+        // The swapped join produces the columns of the right side first: put them back in order.
+        let expressions = (0..left_cols + right_cols)
+            .map(|i| ProjectExpr {
+                expr: create_column_ref(swap(i), &swapped_schema),
+                alias: None,
+            })
+            .collect();
 
         Ok(vec![
             LogicalExpr::new(
-                LogicalOperator::Join(new_join),
-                vec![expr.children[1], expr.children[0]],
+                LogicalOperator::Project(ProjectOp::new(
+                    expressions,
+                    swapped_schema,
+                    join.output_schema.clone(),
+                )),
+                vec![swapped],
             )
             .with_properties(expr.properties.clone()),
         ])
@@ -510,30 +497,23 @@ impl TransformationRule for JoinAssociativityRule {
             .unwrap_or_default();
 
         let a_cols = a_props.schema.num_columns();
-        let b_cols = b_props.schema.num_columns();
-
-        // Build B⋈C
-        let bc_expr = {
-            let bc_cond = extract_bc_condition(&outer.condition, &inner.condition, a_cols, b_cols);
-            let bc_join = JoinOp::new(
-                JoinType::Inner,
-                bc_cond,
-                b_props.schema.clone(),
-                c_props.schema.clone(),
-            );
-            LogicalExpr::new(LogicalOperator::Join(bc_join), vec![b_group, c_group])
-        };
 
-        let a_cond = extract_a_condition(&outer.condition, &inner.condition, a_cols);
+        let (a_cond, bc_cond) = split_join_conditions(&outer.condition, &inner.condition, a_cols);
 
-        let bc_group = memo.insert_logical_expr(bc_expr);
+        // Build B⋈C
+        let bc_join = JoinOp::new(
+            JoinType::Inner,
+            bc_cond,
+            b_props.schema.clone(),
+            c_props.schema.clone(),
+        );
+        let bc_schema = bc_join.output_schema.clone();
+        let bc_group = memo.insert_logical_expr(LogicalExpr::new(
+            LogicalOperator::Join(bc_join),
+            vec![b_group, c_group],
+        ));
 
         // Build A⋈(B⋈C)
-        let bc_schema = memo
-            .get_group(bc_group)
-            .map(|g| g.logical_props.schema.clone())
-            .ok_or(PlannerError::InvalidState)?;
-
         let a_bc_join = JoinOp::new(JoinType::Inner, a_cond, a_props.schema.clone(), bc_schema);
 
         Ok(vec![
@@ -696,7 +676,7 @@ impl TransformationRule for FilterPushdownJoinRule {
         let new_right = if !right_preds.is_empty() {
             let shifted: Vec<_> = right_preds
                 .into_iter()
-                .filter_map(|p| shift_columns(&p, -(left_cols as i32)))
+                .map(|p| map_columns(&p, &|i| i - left_cols))
                 .collect();
             if let Some(pred) = combine_predicates(shifted) {
                 let f = FilterOp::new(pred, right_schema.clone());
-- 
2.43.0


From 9850e0c9d6b8724b3940a5ce0b7f0b1df5f661b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 22/52] fix: plans that differ only in their predicates or
 expressions are not taken for the same

---
 crates/axmos-db/src/sql/planner/memo.rs | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/memo.rs b/crates/axmos-db/src/sql/planner/memo.rs
index 4617d12..9611e90 100644
--- a/crates/axmos-db/src/sql/planner/memo.rs
+++ b/crates/axmos-db/src/sql/planner/memo.rs
@@ -110,7 +110,8 @@ impl Group {
 /// The memo structure for storing and deduplicating expressions.
 pub struct Memo {
     groups: Vec<Group>,
-    expr_to_group: HashMap<u64, GroupId>,
+    /// Expressions by hash. Different expressions can share one.
+    expr_to_group: HashMap<u64, Vec<ExprId>>,
 }
 
 impl Memo {
@@ -134,13 +135,13 @@ impl Memo {
     pub fn insert_logical_expr(&mut self, expr: LogicalExpr) -> GroupId {
         let hash = self.compute_expr_hash(&expr);
 
-        if let Some(&group_id) = self.expr_to_group.get(&hash) {
+        if let Some(group_id) = self.find_equal(hash, &expr) {
             return group_id;
         }
 
         let group_id = self.new_group(expr.properties.clone());
-        self.expr_to_group.insert(hash, group_id);
-        self.groups[group_id.0].add_logical_expr(expr);
+        let expr_id = self.groups[group_id.0].add_logical_expr(expr);
+        self.expr_to_group.entry(hash).or_default().push(expr_id);
         group_id
     }
 
@@ -153,11 +154,24 @@ impl Memo {
         expr: LogicalExpr,
     ) -> Option<ExprId> {
         let hash = self.compute_expr_hash(&expr);
-        if self.expr_to_group.contains_key(&hash) {
+        if self.find_equal(hash, &expr).is_some() {
             return None;
         }
-        self.expr_to_group.insert(hash, group_id);
-        Some(self.groups[group_id.0].add_logical_expr(expr))
+        let expr_id = self.groups[group_id.0].add_logical_expr(expr);
+        self.expr_to_group.entry(hash).or_default().push(expr_id);
+        Some(expr_id)
+    }
+
+    /// Finds the group of an expression with the same operator and children.
+    fn find_equal(&self, hash: u64, expr: &LogicalExpr) -> Option<GroupId> {
+        self.expr_to_group
+            .get(&hash)?
+            .iter()
+            .find(|id| {
+                self.get_logical_expr(**id)
+                    .is_some_and(|e| e.children == expr.children && e.op == expr.op)
+            })
+            .map(|id| id.group_id)
     }
 
     /// Adds a physical expression to a group.
@@ -220,7 +234,6 @@ impl Memo {
                 scan.table_id.hash(hasher);
                 scan.table_name.hash(hasher);
                 scan.columns.hash(hasher);
-                // Note: predicate not hashed (structural comparison would be complex)
             }
             LogicalOperator::IndexScan(scan) => {
                 scan.table_id.hash(hasher);
@@ -266,7 +279,7 @@ impl Memo {
             | LogicalOperator::Distinct(_)
             | LogicalOperator::Filter(_)
             | LogicalOperator::Materialize(_) => {
-                // These are determined by their children
+                // Told apart by comparison
             }
         }
     }
-- 
2.43.0


From 7c022512c9906f97e99e461f0c2d360d312d5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 23/52] fix: ORDER BY expressions resolve the columns they name

---
 crates/axmos-db/src/sql/binder/binder.rs | 15 +++++++++++++--
 crates/axmos-db/src/sql/binder/mod.rs    | 12 ++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 0785ea3..29d3202 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -157,7 +157,7 @@ impl<'a> Binder<'a> {
         // Register output aliases for ORDER BY resolution
         for (i, item) in columns.iter().enumerate() {
             if let Some(scope) = self.scopes.current_mut() {
-                scope.add_output_alias(output_names[i].clone(), item.expr.data_type());
+                scope.add_output_expr(output_names[i].clone(), item.expr.clone());
             }
         }
 
@@ -755,7 +755,18 @@ impl<'a> Binder<'a> {
             Expr::Star => Ok(BoundExpression::Star),
 
             Expr::Identifier(name) => {
-                let resolved = self.scopes.resolve_column(name, None)?;
+                let resolved = match self.scopes.resolve_column(name, None) {
+                    Ok(resolved) => resolved,
+                    // Not a column of the input: it may name an output column.
+                    Err(e) => {
+                        return self
+                            .scopes
+                            .current()
+                            .and_then(|s| s.get_output_expr(name))
+                            .cloned()
+                            .ok_or(e.into());
+                    }
+                };
                 Ok(BoundExpression::ColumnBinding(Binding {
                     table_id: resolved.table_id,
                     scope_index: resolved.scope_index,
diff --git a/crates/axmos-db/src/sql/binder/mod.rs b/crates/axmos-db/src/sql/binder/mod.rs
index ee7aaac..ca8ce1e 100644
--- a/crates/axmos-db/src/sql/binder/mod.rs
+++ b/crates/axmos-db/src/sql/binder/mod.rs
@@ -1,5 +1,6 @@
 use crate::{
     schema::{DatabaseItem, base::Schema},
+    sql::binder::bounds::BoundExpression,
     types::{DataTypeKind, ObjectId},
 };
 
@@ -41,6 +42,8 @@ pub(crate) struct QueryScope {
     entry_order: Vec<String>,
     /// Output column aliases (for ORDER BY resolution)
     output_aliases: HashMap<String, DataTypeKind>,
+    /// Expressions the output columns stand for
+    output_exprs: HashMap<String, BoundExpression>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
@@ -68,6 +71,7 @@ impl QueryScope {
             entries: HashMap::new(),
             entry_order: Vec::new(),
             output_aliases: HashMap::new(),
+            output_exprs: HashMap::new(),
         }
     }
 
@@ -89,6 +93,14 @@ impl QueryScope {
         self.output_aliases.get(name).copied()
     }
 
+    pub fn add_output_expr(&mut self, name: String, expr: BoundExpression) {
+        self.output_exprs.entry(name).or_insert(expr);
+    }
+
+    pub fn get_output_expr(&self, name: &str) -> Option<&BoundExpression> {
+        self.output_exprs.get(name)
+    }
+
     pub fn get_entry(&self, name: &str) -> Option<&ScopeEntry> {
         self.entries.get(name)
     }
-- 
2.43.0


From 576b11293b6a6a9128ac51744f889a982f6645a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:21 +0000
Subject: [PATCH 24/52] fix: SELECT * keeps the first column of derived tables
 and common table expressions

---
 crates/axmos-db/src/sql/binder/binder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 29d3202..8c5aadd 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -291,14 +291,14 @@ impl<'a> Binder<'a> {
             match item {
                 SelectItem::Star => {
                     // Expand star to all columns from all tables in scope
-                    // Skip column 0 (internal row_id) for each table
+                    // Skip column 0 (internal row_id) for each table. Derived tables do not have it.
                     if let Some(scope) = self.scopes.current() {
                         for entry in scope.iter() {
                             let offset = self.calculate_column_offset(entry.scope_index);
 
                             for (col_idx, col) in entry.schema.iter_columns().enumerate() {
                                 // Skip internal row_id column (always column 0)
-                                if col_idx == 0 {
+                                if col_idx == 0 && entry.table_id.is_some() {
                                     continue;
                                 }
 
-- 
2.43.0


From 8ef44864f8d5e983b612917081e08eed909f8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 25/52] fix: B+tree balancing never leaves empty pages, keeps
 the dividers of interior pages and gives each its own overflow chain

---
 crates/axmos-db/src/tree/bplustree.rs | 471 +++++++++++---------------
 crates/axmos-db/src/tree/cell_ops.rs  |  34 +-
 2 files changed, 228 insertions(+), 277 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 3b8ea81..ed2ee2f 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -4,7 +4,7 @@ use crate::{
     schema::base::Schema,
     storage::{
         BtreeMetadata, BtreeOps, Identifiable,
-        cell::OwnedCell,
+        cell::{CELL_HEADER_SIZE, CellRef, OwnedCell, Slot},
         page::{BtreePage, OverflowPage},
         tuple::{Row, Tuple, TupleError, TupleReader, TupleRef},
     },
@@ -20,8 +20,8 @@ use super::{
 };
 
 use std::{
-    cmp::{Ordering, Reverse},
-    collections::{BTreeMap, BinaryHeap, HashSet, VecDeque},
+    cmp::Ordering,
+    collections::{BTreeMap, HashSet, VecDeque},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult, Write},
     fs,
@@ -32,6 +32,9 @@ use std::{
 
 const MINIMUM_KEYS_PER_PAGE: usize = 3;
 
+/// Dividers of interior pages take as much as a quarter of the page.
+const MIN_DIVIDERS_PER_PAGE: usize = 4;
+
 pub(crate) enum SearchResult {
     Found(BtreePagePosition),
     NotFound(BtreePagePosition),
@@ -432,6 +435,10 @@ where
 
     /// Obtains the right most position in the tree.
     fn get_right_most(&mut self) -> BtreeResult<BtreePagePosition> {
+        if self.is_empty()? {
+            return Err(BtreeError::BtreeEmpty);
+        };
+
         let mut current = self.get_root();
         loop {
             let right_child = self.get_page(current)?.right_child();
@@ -980,7 +987,10 @@ where
 
     /// Splits a mutable slice of cells into two parts, assuming they are sorted by key.
     /// Useful for cell redistribution.
-    fn split_cells(mut cells: Vec<OwnedCell>) -> (Vec<OwnedCell>, Vec<OwnedCell>) {
+    fn split_cells(
+        mut cells: Vec<OwnedCell>,
+        is_leaf: bool,
+    ) -> (Vec<OwnedCell>, Vec<OwnedCell>) {
         // Assumes cells are sorted
         let sizes: Vec<usize> = cells.iter().map(|cell| cell.total_size()).collect();
         let total_size: usize = sizes.iter().sum();
@@ -996,6 +1006,12 @@ where
             })
             .unwrap_or(cells.len().div_ceil(2));
 
+        // Neither side can be left without cells, whatever their sizes are.
+        // On interior nodes the last cell of the left side gets moved to the parent, so it needs an additional one.
+        let split_index = split_index
+            .max(1 + usize::from(!is_leaf))
+            .min(cells.len().saturating_sub(1));
+
         // Divide the vector
         let right = cells.split_off(split_index);
         let left = cells;
@@ -1025,12 +1041,13 @@ where
             .collect::<Vec<OwnedCell>>();
 
         // Split the cell's array.
-        let (mut left_cells, right_cells) = Self::split_cells(cells);
+        let (mut left_cells, right_cells) = Self::split_cells(cells, was_leaf);
 
         // Choose the appropiate cell to propagate based on the type of page.
         // We need to copy  because we also need to insert it on the new leaves (this is a Bplustree, so the data must reside on the leaf pages.)
         let mut propagated_cell = if was_leaf {
-            right_cells.first().unwrap().clone()
+            let free_space = self.get_page_mut(self.root)?.free_space() as usize;
+            self.build_divider(right_cells.first().unwrap().as_cell_ref(), free_space)?
         } else {
             left_cells.last().unwrap().clone()
         };
@@ -1102,60 +1119,81 @@ where
     //
     // It is done once before the actual redistribution in order to know in advance where do we have to put cells on.
     // This way cells are moved only once in memory
+    //
+    // Returns the number of cells that go to each page. On interior nodes there is an additional cell between each pair of pages, which is the one that goes to the parent.
     fn compute_best_cell_distribution(
         cells: &VecDeque<OwnedCell>,
         page_size: usize,
-    ) -> (Vec<usize>, Vec<usize>) {
-        // Obtain the maximum data that we can fit on this page.
-        let usable_space = BtreePage::overflow_threshold(page_size);
-
-        // These two arrays track the redistribution computation of the rebalancing algorithm.
-        let mut total_size_in_each_page = vec![0];
-        let mut number_of_cells_per_page = vec![0];
+        is_leaf: bool,
+    ) -> Vec<usize> {
+        // Obtain the maximum data that we can fit on this page without leaving it on overflow state.
+        let capacity = BtreePage::usable_space(page_size);
+        let usable_space = BtreePage::overflow_threshold(capacity).saturating_sub(
+            std::mem::size_of::<Slot>() + CELL_HEADER_SIZE + std::mem::size_of::<PageId>(),
+        );
+        let min_space = BtreePage::underflow_threshold(capacity);
+        let dividers = usize::from(!is_leaf);
 
-        // We keep pushing cells to the bucket until we exhaust it.
-        // Once done, we create a new bucket an advance the cursor.
-        for cell in cells {
-            let bucket = number_of_cells_per_page.len() - 1;
+        // Range of cells that goes to each page.
+        let mut pages: Vec<(usize, usize)> = Vec::new();
+        let mut start = 0;
 
-            // If we can add the cell, we push it to the current bucket.
-            if total_size_in_each_page[bucket] + cell.storage_size() <= usable_space {
-                number_of_cells_per_page[bucket] += 1;
-                total_size_in_each_page[bucket] += cell.storage_size();
-            } else {
-                // If not, we create a new bucket and append this cell to it.
-                number_of_cells_per_page.push(1);
-                total_size_in_each_page.push(cell.storage_size());
+        // Fill pages from left to right. Every page takes at least one cell.
+        loop {
+            let mut end = start;
+            let mut size = 0;
+            while end < cells.len()
+                && (end == start || size + cells[end].storage_size() <= usable_space)
+            {
+                size += cells[end].storage_size();
+                end += 1;
+            }
+            pages.push((start, end));
+            start = end + dividers;
+            if end >= cells.len() {
+                break;
             };
         }
 
-        // Account for underflow towards the right.
-        // At least two pages are needed in order to be able to account for that underflow.
-        if number_of_cells_per_page.len() >= 2 {
-            // The divider cell will be the first cell of the last page.
-            let mut divider_cell = cells.len() - number_of_cells_per_page.last().unwrap() - 1;
-
-            // Iterate backwards, moving cells towards the right.
-            for i in (1..=(total_size_in_each_page.len() - 1)).rev() {
-                while total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size) {
-                    number_of_cells_per_page[i] += 1;
-                    total_size_in_each_page[i] += &cells[divider_cell].storage_size();
-
-                    number_of_cells_per_page[i - 1] -= 1;
-                    total_size_in_each_page[i - 1] -= &cells[divider_cell - 1].storage_size();
-                    divider_cell -= 1;
-                }
+        // Account for underflow towards the right, as the last pages take whatever is left.
+        // Pages are iterated backwards, moving the frontier between each one and the previous one.
+        for i in (1..pages.len()).rev() {
+            let size_of = |range: (usize, usize)| -> usize {
+                (range.0..range.1).map(|c| cells[c].storage_size()).sum()
+            };
+            while pages[i - 1].1 - pages[i - 1].0 > 1
+                && (pages[i].0 >= pages[i].1 || size_of(pages[i]) < min_space)
+            {
+                let new_frontier = pages[i].0 - 1;
+                if pages[i].0 < pages[i].1 && size_of((new_frontier, pages[i].1)) > usable_space {
+                    break;
+                };
+                pages[i].0 = new_frontier;
+                pages[i - 1].1 -= 1;
             }
+        }
 
-            // Second page has more data than the first one, make a little
-            // adjustment to keep it left biased.
-            if total_size_in_each_page[0] < BtreePage::underflow_threshold(page_size) {
-                number_of_cells_per_page[0] += 1;
-                number_of_cells_per_page[1] -= 1;
-            };
-        };
+        pages.iter().map(|(start, end)| end - start).collect()
+    }
 
-        (total_size_in_each_page, number_of_cells_per_page)
+    /// Builds the copy of a leaf cell that acts as a divider on an interior page.
+    /// The copy does not share the overflow chain with the original and takes at most [budget] bytes.
+    fn build_divider(&self, cell: CellRef<'_>, budget: usize) -> io::Result<OwnedCell> {
+        // An interior page needs room for three cells at least in order to be able to split it.
+        let min_keys = self.min_keys.max(MIN_DIVIDERS_PER_PAGE);
+        let page_size = self.pager.write().page_size();
+        let max_size = BtreePage::ideal_max_payload_size(page_size, min_keys).min(budget);
+        CellBuilder::new(max_size, min_keys, self.pager.clone()).copy_cell(cell)
+    }
+
+    /// Reduces the space that a divider takes if it exceeds [budget].
+    fn shrink_divider(&self, divider: OwnedCell, budget: usize) -> io::Result<OwnedCell> {
+        if divider.storage_size() <= budget {
+            return Ok(divider);
+        };
+        let shrinked = self.build_divider(divider.as_cell_ref(), budget)?;
+        CellDeallocator::new(self.pager.clone()).deallocate_cell(divider)?;
+        Ok(shrinked)
     }
 
     /// Full balance algorithm.
@@ -1193,152 +1231,77 @@ where
         // Internal/Leaf node Overflow/Underflow.
         self.balance_siblings(page_id, &parent_position)?;
 
-        // No need to fuck anything else up.
-        if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
-            return Ok(());
-        };
-
         let parent_page_id = parent_position.entry();
-        let (parent_prev, last_parent_slot, parent_next) = {
-            let parent_page = self.get_page_mut(parent_page_id)?;
 
-            // Get metadata about the parent
-            let parent_prev = parent_page.prev_sibling();
-            let last_parent_slot = parent_page.num_slots();
-            let parent_next = parent_page.next_sibling();
-            (parent_prev, last_parent_slot, parent_next)
+        // No need to fuck anything else up, unless the new divider does not fit on the parent.
+        if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
+            return match self.check_node_status(parent_page_id)? {
+                NodeStatus::Overflow => self.balance(parent_page_id),
+                _ => Ok(()),
+            };
         };
 
         // Check if we are about to rebalance a leaf node (we will need it later).
         let is_leaf = self.get_page_mut(page_id)?.is_leaf();
 
-        // Obtain the right most child of the parent's left sibling (right most cousin)
-        let parent_prev_sibling_last = if let Some(prev_id) = parent_prev {
-            let parent_child_page = self.get_page_mut(prev_id)?;
-            parent_child_page
-                .right_child()
-                .map(|id| BtreePagePosition::new(id, parent_child_page.num_slots()))
-        } else {
-            None
-        };
-
-        // Obtain the first child of the parent's next sibling (left most cousin)
-        let parent_next_sibling_first = if let Some(next_id) = parent_next {
-            let parent_child_page = self.get_page_mut(next_id)?;
-            parent_child_page
-                .cell(0)
-                .left_child()
-                .map(|id| BtreePagePosition::new(id, 0))
-        } else {
-            None
-        };
-
         // Load siblings
         let mut siblings =
             self.load_siblings(page_id, &parent_position, self.num_siblings_per_side)?;
 
-        // Load the frontiers in case it is necessary.
-        let last_loaded_sibling_slot = siblings.iter().last().unwrap().slot();
-        let first_loaded_sibling_slot = siblings.front().unwrap().slot();
-
-        // Load the left and right frontiers from the parent page
-        let (left_frontier_in_parent, right_frontier_in_parent) = {
-            let parent_page = self.get_page(parent_page_id)?;
-
-            // If the first loaded sibling is > 0, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let left = (first_loaded_sibling_slot > 0)
-                .then(|| first_loaded_sibling_slot - 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-
-            // If the last loaded sibling is < last_parent_slot, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let right = (last_loaded_sibling_slot < last_parent_slot)
-                .then(|| last_loaded_sibling_slot + 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-            (left, right)
-        };
+        let first_sibling_slot = siblings.front().unwrap().slot();
+        let first_sibling_id = siblings.front().unwrap().entry();
+        let last_sibling_id = siblings.back().unwrap().entry();
 
-        let mut cells = VecDeque::new();
+        // The pages at both sides of the chain, which might belong to other parents.
+        let left_frontier = self.get_page_mut(first_sibling_id)?.prev_sibling();
+        let right_frontier = self.get_page_mut(last_sibling_id)?.next_sibling();
 
-        // As we remove cells from the parent, slots shrink towards the left.
-        // Therefore we need to always remove the first slot in order to clean up the parent node.
-        let slot_to_remove = siblings[0].slot();
+        // For interior pages this is required in order to unfuck the last pointer.
+        let old_right_child = self.get_page_mut(last_sibling_id)?.right_child();
 
-        // Make copies of cells in order.
-        for (i, sibling) in siblings.iter().enumerate() {
-            // As always, when visiting sibling nodes we need to remember to acquire their corresponding latches, as they might have not been visited before.
-            let sibling_page_id = sibling.entry();
+        // Drain the siblings and remove the dividers between them from the parent.
+        // The divider at the right of the last sibling stays where it is, as it still separates the same keys.
+        let mut cells: VecDeque<OwnedCell> = VecDeque::new();
+        let deallocator = CellDeallocator::new(self.pager.clone());
 
-            let page = self.get_page_mut(sibling_page_id)?;
+        for i in 0..siblings.len() {
+            // As always, when visiting sibling nodes we need to remember to acquire their corresponding latches, as they might have not been visited before.
+            let page = self.get_page_mut(siblings[i].entry())?;
             cells.extend(page.drain(..));
-
-            // Extract this node's cells and return the right child.
             let right_child = page.right_child();
 
-            // If we are not the last sibling we can safely link with the next in the chain.
-            // If we are the last sibling we use the right frontier.
-            // If there is no right frontier we are the parent's right most and there is no [next].
-            let next_sibling = siblings
-                .get(i + 1)
-                .map(|s| s.entry())
-                .or(right_frontier_in_parent.map(|f| f.entry()));
-
-            // If the right child is different from None and the next sibling too,
-            // extract the first cell of the first child on our next sibling and allocate a new cell.
-            // This always happens on interior nodes rebalancing, as right_child is not set on leaf nodes.
-            if let Some(right_most_child_id) = right_child
-                && let Some(next_id) = next_sibling
-            {
-                let next_page = self.get_page_mut(next_id)?;
+            if i + 1 < siblings.len() {
+                // As we remove cells from the parent, slots shrink towards the left.
+                // Therefore we need to always remove the first slot in order to clean up the parent node.
+                let mut divider = self
+                    .get_page_mut(parent_page_id)?
+                    .remove(first_sibling_slot)?;
 
-                // Obtain the first child
-                if let Some(first_child_id) = next_page.child(0) {
-                    let child_page = self.get_page_mut(first_child_id)?;
-                    let mut cell = child_page.owned_cell(0);
-
-                    // Make the copied cell point to our right child and push it to the chain.
-                    cell.set_left_child(Some(right_most_child_id));
-                    cells.push_back(cell);
+                if is_leaf {
+                    // The data resides on the leaf nodes, so we do not need the divider anymore.
+                    deallocator.deallocate_cell(divider)?;
+                } else {
+                    // On interior nodes the divider goes back to the chain and points to our right most child.
+                    divider.set_left_child(right_child);
+                    cells.push_back(divider);
                 };
             };
-
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Remove our entry from the parent node.
-            if slot_to_remove < parent_page.num_slots() {
-                parent_page.remove(slot_to_remove)?;
-            };
         }
 
-        // Take the last right child of the siblings chain.
-        // For interior pages this is required in order to unfuck the last pointer.
-        let old_right_child = siblings.iter().last().and_then(|last| {
-            let page_id = last.entry();
-            let page = self.get_page_mut(page_id).ok()?;
-            page.right_child()
-        });
-
-        let (total_size_in_each_page, number_of_cells_per_page) =
-            Self::compute_best_cell_distribution(&cells, page_size);
+        let number_of_cells_per_page =
+            Self::compute_best_cell_distribution(&cells, page_size, is_leaf);
 
         // Allocate missing pages
         while siblings.len() < number_of_cells_per_page.len() {
             // New allocated pages are added at the end.
-            let new_parent_index = siblings.iter().last().unwrap().slot() + 1;
+            let new_parent_index = siblings.back().unwrap().slot() + 1;
             let new_page = self.pager.write().allocate_page::<BtreePage>()?;
             siblings.push_back(Position::new(new_page, new_parent_index));
         }
 
         // Free unused pages.
         while number_of_cells_per_page.len() < siblings.len() {
-            let deallocated_sibling = siblings.pop_back().unwrap();
-            let deallocated_page_id = deallocated_sibling.entry();
+            let deallocated_page_id = siblings.pop_back().unwrap().entry();
             self.accessor_mut()?.release(deallocated_page_id);
             self.pager
                 .write()
@@ -1346,128 +1309,87 @@ where
         }
 
         // Put pages in ascending order to favor sequential IO where possible.
-        BinaryHeap::from_iter(siblings.iter().map(|s| Reverse(s.entry())))
-            .iter()
-            .enumerate()
-            .for_each(|(i, Reverse(page))| siblings[i].set_entry(*page));
-
-        // Fix the last child pointer.
-        let last_sibling_id = siblings[siblings.len() - 1].entry();
-        let last_sibling_page = self.get_page_mut(last_sibling_id)?;
-        last_sibling_page.set_right_child(old_right_child);
+        let mut page_ids: Vec<PageId> = siblings.iter().map(|s| s.entry()).collect();
+        page_ids.sort_unstable();
+        for (sibling, id) in siblings.iter_mut().zip(page_ids.iter()) {
+            sibling.set_entry(*id);
+        }
 
-        // If there is no right frontier at this point, it means the last sibling in the chain is also the parent's right most.
-        if right_frontier_in_parent.is_none() {
+        // The entry of the parent that pointed to the last page of the chain now points to the new one.
+        let last_sibling_id = siblings.back().unwrap().entry();
+        {
             let parent_page = self.get_page_mut(parent_page_id)?;
-            // Fix pointers in the parent in case we have allocated new pages.
-            parent_page.set_right_child(Some(last_sibling_id));
-        };
-
-        // Obtain the global frontiers considering that if we get out of the bounds of the parent node we need to grab the frontiers from its siblings.
-        let global_left_frontier = left_frontier_in_parent.or(parent_prev_sibling_last);
-        let global_right_frontier = right_frontier_in_parent.or(parent_next_sibling_first);
-
-        // Begin redistribution.
-        for (i, n) in number_of_cells_per_page.iter().enumerate() {
-            let current_iter_id = siblings[i].entry();
-            let current_iter_slot = siblings[i].slot();
-
-            let current_iter_page = self.get_page_mut(current_iter_id)?;
-
-            // Push all the cells to the child.
-            let num_cells = if is_leaf {
-                *n
+            if first_sibling_slot < parent_page.num_slots() {
+                parent_page
+                    .cell_mut(first_sibling_slot)
+                    .set_left_child(Some(last_sibling_id));
             } else {
-                *n - 1 // For interior nodes we reserve the last cell. Which we will propagate to the parent. In leaf nodes we cannot do this since there is where data resides.
+                parent_page.set_right_child(Some(last_sibling_id));
             };
+        }
 
-            for _ in 0..num_cells {
-                current_iter_page.push(cells.pop_front().unwrap())?;
-            }
+        // Begin redistribution.
+        for (i, num_cells) in number_of_cells_per_page.iter().enumerate() {
+            let current_iter_id = siblings[i].entry();
+            let is_last = i + 1 == siblings.len();
 
-            // Get the previous sibling based on the value of [i]
             let prev_sibling = if i > 0 {
                 Some(siblings[i - 1].entry())
             } else {
-                global_left_frontier.map(|p| p.entry())
+                left_frontier
             };
-
-            // Set the previous sibling
-            current_iter_page.set_prev_sibling(prev_sibling);
-
-            // Set the next sibling
-            let next_sibling = if i + 1 < siblings.len() {
-                Some(siblings[i + 1].entry())
+            let next_sibling = if is_last {
+                right_frontier
             } else {
-                global_right_frontier.map(|p| p.entry())
+                Some(siblings[i + 1].entry())
             };
 
-            current_iter_page.set_next_sibling(next_sibling);
+            let current_iter_page = self.get_page_mut(current_iter_id)?;
 
-            // For leaf nodes, we always propagate the first cell of the next node.
-            //
-            // Note that the last node's  next is the right frontier, which gets propagated afterwards.
-            if i < siblings.len() - 1 && is_leaf {
-                // Simply create a copy of the next node's front cell, make it point towards ourselves and propagate.
-                let mut divider = cells.front().unwrap().clone();
-                current_iter_page.set_right_child(divider.left_child());
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // For interior nodes there are two possible cases.
-            // CASE A: We are not the right most of the parent.
-            // On that case we simply propagate our last cell and also use it as our right most.
-            } else if !is_leaf && (i < siblings.len() - 1 || right_frontier_in_parent.is_some()) {
-                let mut divider = cells.pop_front().unwrap();
-                current_iter_page.set_right_child(divider.left_child());
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // CASE B: We are the right most of the parent,
-            // Then there is no cell to propagate upwards, so we push an additional cell to ourselves.
-            } else if !is_leaf {
+            // Push all the cells to the child.
+            for _ in 0..*num_cells {
                 current_iter_page.push(cells.pop_front().unwrap())?;
+            }
+            current_iter_page.set_prev_sibling(prev_sibling);
+            current_iter_page.set_next_sibling(next_sibling);
+
+            // The last page keeps the right most child of the chain and there is no cell to propagate.
+            if is_last {
+                current_iter_page.set_right_child(old_right_child);
+                break;
             };
-        }
 
-        // Fix the right frontier in the parent.
-        // For leaf nodes, we propagate the first child as a divider, as we still have not done it in the redistribute section (see upwards).
-        //
-        // For interior nodes this is not necessary as we use the last child of the previous sibling instead.
-        if is_leaf && let Some(frontier) = right_frontier_in_parent {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            let mut divider_cell = page.owned_cell(0);
-            divider_cell.set_left_child(Some(last_sibling_id));
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            parent_page.insert(last_sibling_slot, divider_cell)?;
+            // Leave room in the parent for the rest of the dividers.
+            let budget = self.get_page_mut(parent_page_id)?.free_space() as usize
+                / (siblings.len() - 1 - i);
+
+            let mut divider = if is_leaf {
+                // For leaf nodes, we always propagate a copy of the first cell of the next node.
+                self.build_divider(cells.front().unwrap().as_cell_ref(), budget)?
+            } else {
+                // For interior nodes we propagate the cell in between and also use it as our right most.
+                let divider = cells.pop_front().unwrap();
+                self.get_page_mut(current_iter_id)?
+                    .set_right_child(divider.left_child());
+                self.shrink_divider(divider, budget)?
+            };
+            divider.set_left_child(Some(current_iter_id));
+            self.get_page_mut(parent_page_id)?
+                .insert(first_sibling_slot + i, divider)?;
         }
 
         // Fix the global frontier links.
         // Right frontier
-        if let Some(frontier) = global_right_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            // Maintain it linked with the last sibling in the chain
-            page.set_prev_sibling(Some(last_sibling_id));
+        if let Some(frontier_id) = right_frontier {
+            self.get_page_mut(frontier_id)?
+                .set_prev_sibling(Some(last_sibling_id));
         }
 
         // Left frontier.
-        if let Some(frontier) = global_left_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let next_sibling = siblings.front().map(|p| p.entry());
-            page.set_next_sibling(next_sibling);
+        if let Some(frontier_id) = left_frontier {
+            let first_sibling_id = siblings.front().unwrap().entry();
+            self.get_page_mut(frontier_id)?
+                .set_next_sibling(Some(first_sibling_id));
         };
 
         // Done, propagate upwards.
@@ -1602,25 +1524,22 @@ where
         // Haha, but now our parent might have fucked up.
         // We need to unfuck him.
         // In order to unfuck the parent, we replace the entry that pointed to left with the right node's first key
-        let divider = match direction {
-            BorrowDirection::RightToLeft => {
-                let mut separator = self.get_page_mut(source_page_id)?.owned_cell(0);
-                separator.set_left_child(Some(target_page_id));
-                separator
-            }
-            BorrowDirection::LeftToRight => {
-                let mut separator = self.get_page_mut(target_page_id)?.owned_cell(0);
-                separator.set_left_child(Some(source_page_id));
-                separator
-            }
+        let (first_page_id, second_page_id) = match direction {
+            BorrowDirection::RightToLeft => (target_page_id, source_page_id),
+            BorrowDirection::LeftToRight => (source_page_id, target_page_id),
         };
+        let first_cell = self.get_page_mut(second_page_id)?.owned_cell(0);
 
         let parent_page = self.get_page_mut(parent_id)?;
-        if parent_page.num_slots() == separator_slot {
-            parent_page.set_right_child(divider.left_child());
-        } else {
-            parent_page.replace(separator_slot, divider)?;
-        };
+        let budget =
+            parent_page.free_space() as usize + parent_page.cell(separator_slot).storage_size();
+        let mut divider = self.build_divider(first_cell.as_cell_ref(), budget)?;
+        divider.set_left_child(Some(first_page_id));
+
+        let old_divider = self
+            .get_page_mut(parent_id)?
+            .replace(separator_slot, divider)?;
+        CellDeallocator::new(self.pager.clone()).deallocate_cell(old_divider)?;
 
         Ok(())
     }
diff --git a/crates/axmos-db/src/tree/cell_ops.rs b/crates/axmos-db/src/tree/cell_ops.rs
index 5c0e73f..69241f8 100644
--- a/crates/axmos-db/src/tree/cell_ops.rs
+++ b/crates/axmos-db/src/tree/cell_ops.rs
@@ -289,8 +289,40 @@ impl CellBuilder {
         }
 
         // At this point we have to split the payload.
-        let payload = data.full_data();
+        self.build_overflow_cell(data.full_data(), max_payload_size)
+    }
+
+    /// Builds a cell that holds a copy of the payload of another one, sharing no overflow page with it.
+    ///
+    /// Interior pages only hold copies of the keys that live on the leaves. Each copy needs a chain of its own, since the one of the original is released or rewritten as soon as its row changes.
+    pub(crate) fn copy_cell(&self, cell: CellRef<'_>) -> io::Result<OwnedCell> {
+        if !cell.is_overflow() && cell.storage_size() <= self.max_cell_storage_size {
+            return Ok(OwnedCell::from_ref(cell));
+        };
+
+        let left_child = cell.left_child();
+        let page_size = self.pager.write().page_size();
+        let max_payload_size = self.compute_available_space_in_first_page(page_size);
+        let mut reassembler = Reassembler::new(self.pager.clone());
+        reassembler.reassemble(cell)?;
+        let payload = reassembler.into_boxed_slice();
 
+        let mut copy = if payload.len() <= max_payload_size {
+            OwnedCell::new(&payload)
+        } else {
+            self.build_overflow_cell(&payload, max_payload_size)?
+        };
+        copy.set_left_child(left_child);
+        Ok(copy)
+    }
+
+    /// Stores the first [max_payload_size] bytes of the payload on the cell and the rest on a new overflow chain.
+    fn build_overflow_cell(
+        &self,
+        payload: &[u8],
+        max_payload_size: usize,
+    ) -> io::Result<OwnedCell> {
+        let page_size = self.pager.write().page_size();
         let mut overflow_page_number = self.pager.write().allocate_page::<OverflowPage>()?;
 
         let cell = OwnedCell::new_overflow(&payload[..max_payload_size], overflow_page_number);
-- 
2.43.0


From 07c31cf91ab3782efc353c1406022d9cb9c75221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:32 +0000
Subject: [PATCH 26/52] fix: a log record of up to the maximum record size fits
 in an empty block

---
 crates/axmos-db/src/storage/wal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/storage/wal.rs b/crates/axmos-db/src/storage/wal.rs
index 24f9bfe..13b7899 100644
--- a/crates/axmos-db/src/storage/wal.rs
+++ b/crates/axmos-db/src/storage/wal.rs
@@ -408,14 +408,15 @@ pub(crate) type WalBlock = MemBlock<BlockHeader>;
 
 impl AvailableSpace for BlockZero {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity())
+        self.capacity()
             .saturating_sub(self.metadata().block_header.used_bytes as usize)
     }
 }
 
 impl AvailableSpace for WalBlock {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity()).saturating_sub(self.metadata().used_bytes as usize)
+        self.capacity()
+            .saturating_sub(self.metadata().used_bytes as usize)
     }
 }
 
-- 
2.43.0


From 9ad0c67c086dc0314b47a3e9cd7e9edbed5f9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:32 +0000
Subject: [PATCH 27/52] fix: VACUUM and ANALYZE do not pin every page of the
 tree they go through

---
 crates/axmos-db/src/schema/catalog.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 65dcd3a..ee635b1 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -8,7 +8,7 @@ use crate::{
     schema::{Schema, base::SchemaError},
     storage::tuple::{Tuple, TupleBuilder, TupleError, TupleReader,Row,  TupleRef},
     tree::{
-        accessor::BtreePagePosition,
+        accessor::{Accessor, BtreePagePosition},
         bplustree::{BtreeError, SearchResult},
     },
     types::{Blob, DataType, DataTypeRef, PageId},
@@ -231,6 +231,8 @@ impl Catalog {
                 }
                 Ok::<(), TupleError>(())
             })??;
+            // Do not keep the whole tree pinned.
+            table.accessor_mut()?.clear();
         }
 
         // Finalize statistics
@@ -296,6 +298,8 @@ impl Catalog {
                         }
                         Ok::<(), TupleError>(())
                     })??;
+                    // Do not keep the whole tree pinned.
+                    meta_table.accessor_mut()?.clear();
                 }
             }
         }
@@ -359,6 +363,8 @@ impl Catalog {
                         }
                         Ok::<(), TupleError>(())
                     })??;
+                    // Do not keep the whole tree pinned.
+                    meta_table.accessor_mut()?.clear();
                 }
             }
 
@@ -447,6 +453,8 @@ impl Catalog {
                         total_freed += freed;
                         Ok::<(), TupleError>(())
                     })??;
+                    // Do not keep the whole tree pinned.
+                    tree.accessor_mut()?.clear();
                 }
             }
         }
-- 
2.43.0


From c866b50203b57f62368804f67ed3509319bfa21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 28/52] fix: recovery redoes the first transaction of the
 database

---
 crates/axmos-db/src/io/pager.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 6d3116b..3293da1 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -539,14 +539,14 @@ impl Pager {
         analysis: &AnalysisResult,
     ) -> BTreeSet<TransactionId> {
         let header = self.header_unchecked_mut();
-        let last_committed = header.last_committed_transaction;
+        let checkpointed = header.last_created_transaction;
         let mut redo = BTreeSet::new();
 
         for tid in analysis.lsn_chains.keys().copied() {
             if !analysis.needs_redo.contains(&tid) {
                 header.mark_transaction_aborted(tid);
-            } else if tid > last_committed || header.is_transaction_aborted(tid) {
-                // Not part of the last checkpoint (or still running at that point).
+            } else if tid >= checkpointed || header.is_transaction_aborted(tid) {
+                // Began after the last checkpoint (or was still running at that point).
                 header.unmark_transaction_aborted(tid);
                 header.last_committed_transaction = header.last_committed_transaction.max(tid);
                 redo.insert(tid);
-- 
2.43.0


From f47259171a070e8cb23311000bde6cc6aaf520a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 29/52] fix: a freed page is not overwritten on disk before the
 next checkpoint

---
 crates/axmos-db/src/io/pager.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 3293da1..f613145 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -517,13 +517,12 @@ impl Pager {
 
         // We need to ensure that the frame is free
         if let Some(mem_page) = self.cache.remove(id) {
-            let page_size = self.page_size();
-
             // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
             let deallocated_page = mem_page.dealloc();
 
-            // Here the write needs to write as an overflow page , regardless of the value of [P]
-            deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
+            // The page on disk keeps its contents until the next checkpoint: after a crash, they are
+            // still part of the database unless the log says otherwise.
+            deallocated_page.mark_dirty();
             self.cache_frame(deallocated_page)?;
         };
 
-- 
2.43.0


From bcbac078bfbe812f037809783245e51a12b600e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 30/52] fix: a log whose truncation was interrupted gets its
 header back when opened

---
 crates/axmos-db/src/io/wal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index 4a751e5..2da3bcd 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -50,13 +50,15 @@ impl FileOperations for WriteAheadLog {
 
         // A log that was being truncated when the process died has no header yet: it is empty.
         if file.seek(SeekFrom::End(0))? < default_block_size as u64 {
-            return Ok(Self {
+            let mut wal = Self {
                 header: BlockZero::alloc(0, default_block_size),
                 current_block: None,
                 flush_queue: VecDeque::new(),
                 file,
                 block_size: default_block_size,
-            });
+            };
+            wal.write_header()?;
+            return Ok(wal);
         }
 
         // Read block 0 (global header)
-- 
2.43.0


From aec7100ed891d0c473073908941b92d3c66dc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 31/52] fix: pages overwritten since the last checkpoint are
 put back when opening after a crash

---
 crates/axmos-db/src/io/journal.rs | 145 ++++++++++++++++++++++++++++++
 crates/axmos-db/src/io/mod.rs     |   1 +
 crates/axmos-db/src/io/pager.rs   |  18 +++-
 3 files changed, 163 insertions(+), 1 deletion(-)
 create mode 100644 crates/axmos-db/src/io/journal.rs

diff --git a/crates/axmos-db/src/io/journal.rs b/crates/axmos-db/src/io/journal.rs
new file mode 100644
index 0000000..d52bcb0
--- /dev/null
+++ b/crates/axmos-db/src/io/journal.rs
@@ -0,0 +1,145 @@
+//! Journal of the pages overwritten since the last checkpoint.
+//!
+//! The log is replayed on top of the pages of the last checkpoint. Pages that are evicted from the
+//! cache, or written by a checkpoint that does not get to its end, would leave a mix of old and new
+//! pages behind. The journal keeps what was there before, so that it can be put back.
+use crate::{
+    MAGIC,
+    io::disk::{DBFile, FileOperations, FileSystem, Open},
+    storage::{core::buffer::MemBlock, page::OverflowPageHeader},
+    types::PageId,
+};
+
+use std::{
+    collections::BTreeSet,
+    fs::{self, File},
+    io::{self, Error as IoError, ErrorKind, Read, Seek, SeekFrom, Write},
+    path::{Path, PathBuf},
+};
+
+const JOURNAL_FILE: &str = "axmos.journal";
+
+/// Each record is: magic (8 bytes), offset (8 bytes), length (8 bytes) and the contents.
+const RECORD_HEADER_SIZE: usize = 24;
+
+pub(crate) struct PageJournal {
+    file: File,
+    saved: BTreeSet<PageId>,
+}
+
+impl PageJournal {
+    fn path(db_path: impl AsRef<Path>) -> PathBuf {
+        db_path
+            .as_ref()
+            .parent()
+            .expect("Not a directory")
+            .join(JOURNAL_FILE)
+    }
+
+    /// Creates an empty journal for the database at the given path.
+    pub(crate) fn create(db_path: impl AsRef<Path>) -> io::Result<Self> {
+        let mut journal = Self::open(db_path)?;
+        journal.clear()?;
+        Ok(journal)
+    }
+
+    /// Opens the journal of the database at the given path.
+    pub(crate) fn open(db_path: impl AsRef<Path>) -> io::Result<Self> {
+        let file = FileSystem::options()
+            .create(true)
+            .read(true)
+            .write(true)
+            .open(Self::path(db_path))?;
+
+        Ok(Self {
+            file,
+            saved: BTreeSet::new(),
+        })
+    }
+
+    pub(crate) fn remove(db_path: impl AsRef<Path>) -> io::Result<()> {
+        match fs::remove_file(Self::path(db_path)) {
+            Err(e) if e.kind() != ErrorKind::NotFound => Err(e),
+            _ => Ok(()),
+        }
+    }
+
+    /// Must be called before a page is written to disk: the first time since the last checkpoint,
+    /// its contents are saved.
+    pub(crate) fn save(
+        &mut self,
+        db_file: &mut DBFile,
+        id: PageId,
+        offset: u64,
+        size: usize,
+    ) -> io::Result<()> {
+        if self.saved.contains(&id) {
+            return Ok(());
+        }
+
+        // A page past the end of the file has no contents to be saved.
+        if db_file.seek(SeekFrom::End(0))? >= offset + size as u64 {
+            let mut block: MemBlock<OverflowPageHeader> = MemBlock::new(size);
+            db_file.seek(SeekFrom::Start(offset))?;
+            db_file.read_exact(block.as_mut())?;
+
+            let mut record = Vec::with_capacity(RECORD_HEADER_SIZE + size);
+            record.extend_from_slice(&(MAGIC as u64).to_le_bytes());
+            record.extend_from_slice(&offset.to_le_bytes());
+            record.extend_from_slice(&(size as u64).to_le_bytes());
+            record.extend_from_slice(block.as_ref());
+
+            self.file.seek(SeekFrom::End(0))?;
+            self.file.write_all(&record)?;
+        }
+
+        self.saved.insert(id);
+        Ok(())
+    }
+
+    /// Puts back the saved pages, then empties the journal.
+    ///
+    /// An incomplete record at the end is ignored: the page it belongs to has not been overwritten.
+    pub(crate) fn restore(&mut self, db_file: &mut DBFile) -> io::Result<()> {
+        let end = self.file.seek(SeekFrom::End(0))?;
+        let mut at = 0;
+
+        while at + RECORD_HEADER_SIZE as u64 <= end {
+            let mut header = [0u8; RECORD_HEADER_SIZE];
+            self.file.seek(SeekFrom::Start(at))?;
+            self.file.read_exact(&mut header)?;
+
+            let [magic, offset, size] = [0, 8, 16]
+                .map(|i| u64::from_le_bytes(header[i..i + 8].try_into().expect("8 byte field")));
+            if magic != MAGIC as u64 {
+                return Err(IoError::new(
+                    ErrorKind::InvalidData,
+                    "invalid record in the page journal",
+                ));
+            }
+
+            at += RECORD_HEADER_SIZE as u64 + size;
+            if at > end {
+                break;
+            }
+
+            let mut block: MemBlock<OverflowPageHeader> = MemBlock::new(size as usize);
+            self.file.read_exact(block.as_mut())?;
+            db_file.seek(SeekFrom::Start(offset))?;
+            db_file.write_all(block.as_ref())?;
+        }
+
+        if end > 0 {
+            db_file.sync_all()?;
+            self.clear()?;
+        }
+        Ok(())
+    }
+
+    /// Empties the journal, once the pages on disk are those of a finished checkpoint.
+    pub(crate) fn clear(&mut self) -> io::Result<()> {
+        self.file.set_len(0)?;
+        self.saved.clear();
+        Ok(())
+    }
+}
diff --git a/crates/axmos-db/src/io/mod.rs b/crates/axmos-db/src/io/mod.rs
index 1c0e0a3..244f4ec 100644
--- a/crates/axmos-db/src/io/mod.rs
+++ b/crates/axmos-db/src/io/mod.rs
@@ -4,6 +4,7 @@
 //! from disk, as well as caching frequently accessed data in memory to improve performance.
 pub mod cache;
 pub mod disk;
+pub(crate) mod journal;
 pub mod logger;
 pub mod recovery;
 
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index f613145..973185b 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -4,6 +4,7 @@ use crate::{
     io::{
         cache::PageCache,
         disk::{DBFile, FileOperations, FileSystem, FileSystemBlockSize},
+        journal::PageJournal,
         logger::Operation,
         wal::{AnalysisResult, WriteAheadLog},
     },
@@ -30,6 +31,7 @@ use std::{
 pub struct Pager {
     file: DBFile,
     wal: WriteAheadLog,
+    journal: PageJournal,
     cache: PageCache,
     db_header: Option<PageZeroHeader>, // Page zero header is always in memory
 }
@@ -43,12 +45,14 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         let wal = WriteAheadLog::create(wal_path)?;
+        let journal = PageJournal::create(&path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE as usize);
 
         Ok(Self {
             file,
             cache,
             wal,
+            journal,
             db_header: None,
         })
     }
@@ -57,7 +61,10 @@ impl<'a> FileOperations for Pager {
     where
         Self: Sized,
     {
-        let file = DBFile::open(&path)?;
+        let mut file = DBFile::open(&path)?;
+        // Get the pages of the last checkpoint back before anything is read.
+        let mut journal = PageJournal::open(&path)?;
+        journal.restore(&mut file)?;
         let block_size = FileSystem::block_size(&path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE);
         let dir = path.as_ref().parent().expect("Not a directory");
@@ -68,6 +75,7 @@ impl<'a> FileOperations for Pager {
             file,
             cache,
             wal,
+            journal,
             db_header: None,
         };
 
@@ -82,6 +90,7 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         WriteAheadLog::remove(&wal_path)?;
+        PageJournal::remove(&path)?;
         Ok(())
     }
 
@@ -94,6 +103,7 @@ impl<'a> FileOperations for Pager {
     fn truncate(&mut self) -> io::Result<()> {
         self.file.truncate()?;
         self.cache.clear();
+        self.journal.clear()?;
         self.wal.truncate()?;
         Ok(())
     }
@@ -134,6 +144,8 @@ impl Pager {
         page_zero.metadata_mut().num_siblings_per_side = config.num_siblings_per_side as u8;
 
         self.write_block(PAGE_ZERO, page_zero.as_ref(), config.page_size as usize)?;
+        // The empty database counts as the first checkpoint.
+        self.journal.clear()?;
 
         Ok(page_zero)
     }
@@ -350,6 +362,9 @@ impl Pager {
         Self::validate_alignment_of(content.as_ptr() as usize, PAGE_ALIGNMENT as usize)?;
         Self::validate_alignment_of(content.len() as usize, PAGE_ALIGNMENT as usize)?;
 
+        self.journal
+            .save(&mut self.file, start_page_number, offset, content.len())?;
+
         // Seek in the file to the targete offset and write the content
         self.file.seek(SeekFrom::Start(offset))?;
         self.file.write_all(content)?;
@@ -577,6 +592,7 @@ impl Pager {
         self.sync_header(running)?;
 
         self.file.flush()?;
+        self.journal.clear()?;
         self.wal.truncate()?;
         self.wal.flush()?;
         Ok(())
-- 
2.43.0


From cde3e612ae2e2b57dc02723cdcee497e5456f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 32/52] fix: an index is scanned only when no row of the result
 can be missing from it

Rows with a NULL in an indexed column have no index entry; a composite index was
used for a predicate on some of its columns (C06).
---
 crates/axmos-db/src/sql/planner/rules.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index d4edb40..acaf6f1 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1420,6 +1420,24 @@ impl FilterToIndexScanRule {
             return None;
         }
 
+        // A row with a NULL in an indexed column has no entry in the index. The scan finds
+        // every row of the result only if the bounds rule out a NULL in each such column.
+        let bounded = |position: usize| {
+            range_start
+                .iter()
+                .chain(range_end.iter())
+                .flatten()
+                .any(|bound| bound.col_idx == position)
+        };
+        let covered = indexed_columns.iter().enumerate().all(|(position, &col)| {
+            bounded(position)
+                || col < scan.schema.num_keys()
+                || scan.schema.column(col).is_some_and(|c| c.is_non_null)
+        });
+        if !covered {
+            return None;
+        }
+
         let mut index_scan = IndexScanOp::new(
             scan.table_id,
             index_handle.id(),
-- 
2.43.0


From 1bb355c684b26863fc4d54201e62e00cff071642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 33/52] fix: the padding of a tuple is not stored in its
 overflow chain

The bytes after the last delta were taken for another one once no version was visible
(panic in VACUUM and in reads, C13/C16/C18).
---
 crates/axmos-db/src/tree/cell_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/tree/cell_ops.rs b/crates/axmos-db/src/tree/cell_ops.rs
index 69241f8..ec44ae4 100644
--- a/crates/axmos-db/src/tree/cell_ops.rs
+++ b/crates/axmos-db/src/tree/cell_ops.rs
@@ -289,7 +289,7 @@ impl CellBuilder {
         }
 
         // At this point we have to split the payload.
-        self.build_overflow_cell(data.full_data(), max_payload_size)
+        self.build_overflow_cell(data.effective_data(), max_payload_size)
     }
 
     /// Builds a cell that holds a copy of the payload of another one, sharing no overflow page with it.
-- 
2.43.0


From e8b24a2c6e38febd9338633e4a6b384fe7eb6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 34/52] fix: a failed CREATE UNIQUE INDEX leaves the table as
 it was

---
 crates/axmos-db/src/runtime/ddl.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 119d567..3007561 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -999,6 +999,19 @@ impl DdlExecutor {
             .catalog()
             .store_relation(index_relation, &tree_builder, snapshot.xid())?;
 
+        // The index is filled before the table refers to it: when the rows do not
+        // allow it, the table is left as it was.
+        self.populate_index(
+            table_root,
+            table_relation.schema(),
+            index_root,
+            &index_schema,
+            indexed_column_ids,
+        )?;
+
+        let snapshot = self.ctx.snapshot();
+        let tree_builder = self.ctx.tree_builder();
+
         {
             let table_schema = table_relation.schema_mut();
 
@@ -1025,14 +1038,6 @@ impl DdlExecutor {
             &snapshot,
         )?;
 
-        self.populate_index(
-            table_root,
-            table_relation.schema(),
-            index_root,
-            &index_schema,
-            indexed_column_ids,
-        )?;
-
         Ok(object_id)
     }
 
-- 
2.43.0


From 2d10ecd638aaeaade4a659d8b106f79a688bfccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 35/52] fix: dropped relations keep their pages until the drop
 is final; schema changes are undone with their transaction

---
 .../src/multithreading/coordinator.rs         |  37 ++++-
 crates/axmos-db/src/runtime/context.rs        | 132 ++++++++++++++++--
 crates/axmos-db/src/runtime/ddl.rs            |  38 ++++-
 crates/axmos-db/src/schema/base.rs            |   6 -
 crates/axmos-db/src/schema/catalog.rs         |  80 ++++++-----
 5 files changed, 238 insertions(+), 55 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index ea197db..45ec357 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -1,9 +1,9 @@
 //! MVCC Transaction System for AxmosDB
 use crate::{
     io::pager::SharedPager,
-    types::{LogicalId, TransactionId},
+    types::{LogicalId, PageId, TransactionId},
 };
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 use std::{
     collections::{HashMap, HashSet},
     error::Error,
@@ -290,6 +290,7 @@ impl Clone for TransactionCoordinator {
             pager: self.pager.clone(),
             commit_counter: Arc::clone(&self.commit_counter),
             tuple_commits: Arc::clone(&self.tuple_commits),
+            retired_trees: Arc::clone(&self.retired_trees),
         }
     }
 }
@@ -307,6 +308,8 @@ pub struct TransactionCoordinator {
     commit_counter: Arc<AtomicU64>,
     /// Last commit timestamp per tuple - tracks when each tuple was last modified
     tuple_commits: TupleCommitLog,
+    /// Trees of dropped relations, with the id of the first transaction that cannot reach them.
+    retired_trees: Arc<Mutex<Vec<(TransactionId, PageId)>>>,
 }
 
 enum ValidationResult {
@@ -321,6 +324,7 @@ impl TransactionCoordinator {
             pager,
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
+            retired_trees: Arc::new(Mutex::new(Vec::new())),
         };
 
         // Load aborted transactions from PageZero into memory
@@ -534,6 +538,35 @@ impl TransactionCoordinator {
         Ok(())
     }
 
+    /// The trees belong to relations whose removal has just been committed. They are kept until
+    /// every transaction that is running now has ended.
+    pub(crate) fn retire_trees(&self, roots: Vec<PageId>) {
+        let next = self.pager.read().get_last_created_transaction();
+        self.retired_trees
+            .lock()
+            .extend(roots.into_iter().map(|root| (next, root)));
+    }
+
+    /// The retired trees that no running transaction can reach.
+    pub(crate) fn take_retired_trees(&self) -> Vec<PageId> {
+        let mut retired = self.retired_trees.lock();
+        if retired.is_empty() {
+            return Vec::new();
+        }
+        let oldest = self
+            .transactions
+            .read()
+            .iter()
+            .filter(|(_, entry)| entry.state == TransactionState::Active)
+            .map(|(id, _)| *id)
+            .min();
+        let (free, keep) = retired
+            .drain(..)
+            .partition::<Vec<_>, _>(|(next, _)| oldest.is_none_or(|id| id >= *next));
+        *retired = keep;
+        free.into_iter().map(|(_, root)| root).collect()
+    }
+
     /// Current state of a transaction, if it is still tracked.
     pub fn transaction_state(&self, txid: TransactionId) -> Option<TransactionState> {
         self.transactions.read().get(&txid).map(|entry| entry.state)
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 423258b..d9d1532 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -1,4 +1,4 @@
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 
 // src/sql/executor/context.rs
 use super::{RuntimeError, RuntimeResult};
@@ -10,14 +10,95 @@ use crate::{
     multithreading::coordinator::{
         Snapshot, TransactionCoordinator, TransactionError, TransactionHandle, TransactionState,
     },
-    schema::catalog::SharedCatalog,
+    schema::{Schema, catalog::SharedCatalog},
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
         bplustree::Btree,
     },
     types::{LogicalId, ObjectId, PageId, RowId, TransactionId},
 };
-use std::sync::Arc;
+use std::{mem, sync::Arc};
+
+/// Object id under which the relations themselves are claimed for schema changes.
+const CATALOG_LOCKS: ObjectId = ObjectId::MAX;
+
+/// Changes to the catalog that only take full effect when their transaction commits, or that have
+/// to be taken back when it does not.
+pub(crate) struct SchemaChanges {
+    pager: SharedPager,
+    catalog: SharedCatalog,
+    snapshot: Snapshot,
+    coordinator: Option<TransactionCoordinator>,
+    /// Trees of the relations that were dropped.
+    dropped: Mutex<Vec<PageId>>,
+    /// Schemas that were replaced.
+    altered: Mutex<Vec<(ObjectId, Schema)>>,
+}
+
+impl SchemaChanges {
+    fn new(pager: SharedPager, catalog: SharedCatalog, handle: &TransactionHandle) -> Self {
+        Self {
+            pager,
+            catalog,
+            snapshot: handle.snapshot().clone(),
+            coordinator: handle.coordinator(),
+            dropped: Mutex::new(Vec::new()),
+            altered: Mutex::new(Vec::new()),
+        }
+    }
+
+    fn builder(&self) -> BtreeBuilder {
+        let pager = self.pager.read();
+        BtreeBuilder::new(pager.min_keys_per_page(), pager.num_siblings_per_side())
+            .with_pager(self.pager.clone())
+    }
+
+    /// The transaction has committed.
+    fn commit(&self) -> RuntimeResult<()> {
+        self.altered.lock().clear();
+        if let Some(coordinator) = &self.coordinator {
+            coordinator.retire_trees(mem::take(&mut *self.dropped.lock()));
+        }
+        self.collect()
+    }
+
+    /// The transaction has not committed, and will not.
+    fn undo(&self) -> RuntimeResult<()> {
+        self.dropped.lock().clear();
+        let altered = mem::take(&mut *self.altered.lock());
+        if !altered.is_empty() {
+            let builder = self.builder();
+            for (id, schema) in altered.into_iter().rev() {
+                self.catalog.update_relation(
+                    id,
+                    None,
+                    Some(schema),
+                    None,
+                    &builder,
+                    &self.snapshot,
+                )?;
+            }
+        }
+        self.collect()
+    }
+
+    /// Gives back the pages of dropped relations that no running transaction can look at.
+    fn collect(&self) -> RuntimeResult<()> {
+        let Some(coordinator) = &self.coordinator else {
+            return Ok(());
+        };
+        for root in coordinator.take_retired_trees() {
+            self.builder().build_tree_mut(root).dealloc()?;
+        }
+        Ok(())
+    }
+}
+
+impl Drop for SchemaChanges {
+    fn drop(&mut self) {
+        let _ = self.undo();
+    }
+}
 
 /// Context of a single thread. Cannot commit transactions by itself.
 #[derive(Clone)]
@@ -27,6 +108,7 @@ pub(crate) struct ThreadContext {
     tid: TransactionId,
     snapshot: Snapshot,
     coordinator: Option<TransactionCoordinator>,
+    changes: Arc<SchemaChanges>,
 }
 
 impl ThreadContext {
@@ -35,6 +117,7 @@ impl ThreadContext {
         snapshot: Snapshot,
         pager: SharedPager,
         catalog: SharedCatalog,
+        changes: Arc<SchemaChanges>,
     ) -> Self {
         Self {
             tid,
@@ -42,6 +125,7 @@ impl ThreadContext {
             pager,
             catalog,
             coordinator: None,
+            changes,
         }
     }
 
@@ -61,6 +145,27 @@ impl ThreadContext {
         Ok(())
     }
 
+    /// Claims a relation before changing its schema.
+    pub(crate) fn lock_relation(&self, id: ObjectId) -> RuntimeResult<()> {
+        self.lock_row(CATALOG_LOCKS, id)
+    }
+
+    /// Fails if `creator`, whose relation we cannot see under a name that we want to use, has not
+    /// rolled back.
+    pub(crate) fn check_name_of(&self, creator: TransactionId) -> RuntimeResult<()> {
+        self.check_no_conflict_with(creator, LogicalId::new(CATALOG_LOCKS, 0))
+    }
+
+    /// The trees at `roots` are no longer needed once the transaction commits.
+    pub(crate) fn drop_trees(&self, roots: Vec<PageId>) {
+        self.changes.dropped.lock().extend(roots);
+    }
+
+    /// The schema of `id` was `schema` before the transaction changed it.
+    pub(crate) fn schema_replaced(&self, id: ObjectId, schema: Schema) {
+        self.changes.altered.lock().push((id, schema));
+    }
+
     /// Fails if `creator`, which wrote something we cannot see at a place where we want to write,
     /// has not rolled back.
     pub(crate) fn check_no_conflict_with(
@@ -124,6 +229,7 @@ pub(crate) struct TransactionContext {
     pager: SharedPager,
     catalog: SharedCatalog,
     handle: Arc<RwLock<TransactionHandle>>,
+    changes: Arc<SchemaChanges>,
 }
 
 // Creates a cloned reference to the context.
@@ -133,6 +239,7 @@ impl Clone for TransactionContext {
             pager: self.pager.clone(),
             catalog: self.catalog.clone(),
             handle: Arc::clone(&self.handle),
+            changes: Arc::clone(&self.changes),
         }
     }
 }
@@ -280,10 +387,12 @@ impl TransactionContext {
         catalog: SharedCatalog,
         handle: TransactionHandle,
     ) -> RuntimeResult<Self> {
+        let changes = SchemaChanges::new(pager.clone(), catalog.clone(), &handle);
         let context = Self {
             pager,
             catalog,
             handle: Arc::new(RwLock::new(handle)),
+            changes: Arc::new(changes),
         };
 
         Ok(context)
@@ -296,6 +405,7 @@ impl TransactionContext {
             self.snapshot(),
             self.pager().clone(),
             self.catalog().clone(),
+            Arc::clone(&self.changes),
         )
         .with_coordinator(self.handle.read().coordinator()))
     }
@@ -348,15 +458,19 @@ impl TransactionContext {
 
     /// Commits the transaction: log commit, commit handle, end.
     pub(crate) fn commit_transaction(&self) -> RuntimeResult<()> {
-        let mut h = self.handle.write();
-        h.commit()?;
-        Ok(())
+        {
+            let mut h = self.handle.write();
+            if let Err(e) = h.commit() {
+                self.changes.undo()?;
+                return Err(e.into());
+            }
+        }
+        self.changes.commit()
     }
 
     /// Aborts the transaction: log commit, commit handle, end.
     pub(crate) fn abort_transaction(&self) -> RuntimeResult<()> {
-        let mut h = self.handle.write();
-        h.abort()?;
-        Ok(())
+        self.handle.write().abort()?;
+        self.changes.undo()
     }
 }
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 3007561..1aebdc2 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -627,6 +627,8 @@ impl DdlExecutor {
             )));
         }
 
+        self.check_name(&instr.table_name)?;
+
         let mut columns: Vec<Column> = Vec::with_capacity(instr.columns.len() + 1);
         columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
         columns.extend(instr.columns.iter().cloned());
@@ -689,9 +691,13 @@ impl DdlExecutor {
 
         let id = relation.object_id();
 
-        self.ctx
+        // The indexes of a table go with it.
+        self.ctx.lock_relation(relation.object_id())?;
+        let roots = self
+            .ctx
             .catalog()
-            .remove_relation(relation, &tree_builder, &snapshot, instr.cascade)?;
+            .remove_relation(relation, &tree_builder, &snapshot, true)?;
+        self.ctx.drop_trees(roots);
 
         let undo_bytes = undo_instr.to_bytes()?;
         let redo_instr = undo_instr.inverse(id);
@@ -757,9 +763,12 @@ impl DdlExecutor {
 
         let index_name = relation.name().to_string();
 
-        self.ctx
+        self.ctx.lock_relation(relation.object_id())?;
+        let roots = self
+            .ctx
             .catalog()
             .remove_relation(relation, &tree_builder, &snapshot, false)?;
+        self.ctx.drop_trees(roots);
 
         Ok(DdlResult::IndexDropped { name: index_name })
     }
@@ -779,7 +788,11 @@ impl DdlExecutor {
             )));
         }
 
+        self.ctx.lock_relation(instr.table_id)?;
+
         let undo_instr = instr.try_inverse_with(relation.schema())?;
+        self.ctx
+            .schema_replaced(instr.table_id, relation.schema().clone());
         let action_desc = self.apply_alter_action(&mut relation, &instr.action)?;
 
         let id = relation.object_id();
@@ -959,6 +972,9 @@ impl DdlExecutor {
         index_name: &str,
         indexed_column_ids: &[usize],
     ) -> RuntimeResult<ObjectId> {
+        self.check_name(index_name)?;
+        self.ctx.lock_relation(table_id)?;
+
         let num_keys = indexed_column_ids.len();
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
@@ -1012,6 +1028,9 @@ impl DdlExecutor {
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
 
+        self.ctx
+            .schema_replaced(table_id, table_relation.schema().clone());
+
         {
             let table_schema = table_relation.schema_mut();
 
@@ -1105,6 +1124,19 @@ impl DdlExecutor {
         Ok(())
     }
 
+    /// Fails if a transaction that may yet commit, or that committed after we started, is using
+    /// the name.
+    fn check_name(&self, name: &str) -> RuntimeResult<()> {
+        let creator = self
+            .ctx
+            .catalog()
+            .creator_of_name(name, &self.ctx.tree_builder())?;
+        match creator {
+            Some(creator) => self.ctx.check_name_of(creator),
+            None => Ok(()),
+        }
+    }
+
     fn relation_exists(&self, name: &str) -> bool {
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index a8c994e..567f257 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -424,12 +424,6 @@ impl Schema {
             return deps;
         };
 
-        for ct in self.table_constraints.as_ref().unwrap() {
-            if let TableConstraint::ForeignKey { info, .. } = ct {
-                deps.push(info.ref_table);
-            };
-        }
-
         deps.extend(self.table_indexes.as_ref().unwrap().keys());
         deps
     }
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index ee635b1..b09c3b1 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -337,6 +337,7 @@ impl Catalog {
 
         // Collect all user relations
         let schema = meta_table_schema();
+        let mut undone: Vec<PageId> = Vec::new();
         let relations_to_vacuum: Vec<(ObjectId, PageId, Schema)> = {
             let mut meta_table = builder.build_tree(self.meta_table);
 
@@ -350,6 +351,14 @@ impl Catalog {
                 if let Ok(pos) = iter_result {
                     meta_table.with_cell_at(pos, |bytes| {
                         let reader = TupleReader::from_schema(&schema);
+                        let last = reader.parse_last_version(bytes)?;
+                        let last = TupleRef::new(bytes, last);
+                        if snapshot.is_transaction_aborted(last.global_xmin()) {
+                            // Nobody will ever see the relation: its pages go with it.
+                            let row = last.to_row_with(&schema)?;
+                            undone.push(Relation::from_meta_table_row(row).root());
+                            return Ok(());
+                        }
                         if let Some(layout) = reader.parse_for_snapshot(bytes, snapshot)? {
                             let tuple = TupleRef::new(bytes, layout);
                             let row = tuple.to_row_with(&schema)?;
@@ -380,6 +389,10 @@ impl Catalog {
             stats.total_bytes_freed += bytes_freed;
         }
 
+        for root in undone {
+            builder.build_tree_mut(root).dealloc()?;
+        }
+
         // vacuum the meta table itself
         stats.meta_table_bytes_freed += self.vacuum_btree(
             self.meta_table,
@@ -533,31 +546,25 @@ impl Catalog {
         Ok(())
     }
 
-    /// Removes a given relation using the provided
-    /// Cascades the removal if required.
+    /// Removes a given relation and, if `cascade` is set, its indexes.
+    ///
+    /// Returns the roots of the trees that nobody needs once the transaction has committed.
     pub(crate) fn remove_relation(
         &self,
         rel: Relation,
         builder: &BtreeBuilder,
         snapshot: &Snapshot,
         cascade: bool,
-    ) -> CatalogResult<()> {
-        if cascade {
-            let schema = rel.schema();
-            let dependants = schema.get_dependants();
+    ) -> CatalogResult<Vec<PageId>> {
+        let mut roots = vec![rel.root()];
 
+        if cascade {
             // Recursively remove object dependants
-            for dep in dependants {
-                let relation = self.get_relation(dep, builder, snapshot)?;
-                self.remove_relation(relation, builder, snapshot, cascade)?;
+            for dep in rel.schema().get_dependants() {
+                if let Ok(relation) = self.get_relation(dep, builder, snapshot) {
+                    roots.extend(self.remove_relation(relation, builder, snapshot, cascade)?);
+                }
             }
-        };
-
-        // First, deallocate the relation.
-        // Deallocate the relation.
-      {
-            let mut tree = builder.build_tree_mut(rel.root());
-            tree.dealloc()?;
         }
 
         // Obtain the relation metadata
@@ -574,7 +581,7 @@ impl Catalog {
 
             let position = match meta_table.search(&relation_id_bytes, &schema)? {
                 SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
+                SearchResult::NotFound(_) => return Ok(roots),
             };
 
             // Read the existing tuple
@@ -590,7 +597,7 @@ impl Catalog {
             })??
         })
         else {
-            return Ok(())
+            return Ok(roots);
         };
 
 
@@ -610,7 +617,7 @@ impl Catalog {
 
             let position = match meta_index.search(&relation_name_bytes, &schema)? {
                 SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
+                SearchResult::NotFound(_) => return Ok(roots),
             };
 
             // Read the existing tuple
@@ -626,7 +633,7 @@ impl Catalog {
             })??
         })
         else {
-            return Ok(())
+            return Ok(roots);
         };
 
 
@@ -637,21 +644,7 @@ impl Catalog {
             meta_index.update(self.meta_index, existing_tuple, &schema)?;
         }
 
-        Ok(())
-    }
-
-    /// Removes a given relation using the provided id
-    /// Cascades the removal if required.
-    pub(crate) fn remove_relation_by_id(
-        &self,
-        relation_id: ObjectId,
-        builder: &BtreeBuilder,
-        snapshot: &Snapshot,
-        cascade: bool,
-        logger: Option<&TransactionLogger>,
-    ) -> CatalogResult<()> {
-        let rel = self.get_relation(relation_id, builder, snapshot)?;
-        self.remove_relation(rel, builder, snapshot, cascade)
+        Ok(roots)
     }
 
     /// Stores a new relation in the meta table.
@@ -716,6 +709,23 @@ impl Catalog {
         };
     }
 
+    /// The transaction that last gave the name to a relation, whether it can be seen or not.
+    pub(crate) fn creator_of_name(
+        &self,
+        name: &str,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<Option<TransactionId>> {
+        let schema = meta_index_schema();
+        let mut meta_index = builder.build_tree(self.meta_index);
+        match meta_index.search(Blob::from(name).as_ref(), &schema)? {
+            SearchResult::Found(pos) => {
+                let tuple = meta_index.get_tuple_at_unchecked(pos, &schema)?;
+                Ok(Some(tuple.xmin()))
+            }
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_next_object_id(&self) -> ObjectId {
         // Atomically get and increment the object ID in PageZero
         let object_id = {
-- 
2.43.0


From e14212d44cad89ae93ed03e60bcdbf76bfc56d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 36/52] fix: a name given away by a transaction that rolled
 back still finds the relation that had it

---
 crates/axmos-db/src/runtime/context.rs | 10 +---
 crates/axmos-db/src/schema/catalog.rs  | 70 ++++++++++++++++++++++----
 2 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index d9d1532..7ce48f5 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -69,14 +69,8 @@ impl SchemaChanges {
         if !altered.is_empty() {
             let builder = self.builder();
             for (id, schema) in altered.into_iter().rev() {
-                self.catalog.update_relation(
-                    id,
-                    None,
-                    Some(schema),
-                    None,
-                    &builder,
-                    &self.snapshot,
-                )?;
+                self.catalog
+                    .restore_schema(id, schema, &builder, self.snapshot.xid())?;
             }
         }
         self.collect()
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index b09c3b1..561cbb6 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -546,6 +546,32 @@ impl Catalog {
         Ok(())
     }
 
+    /// Puts back the schema of a relation that `transaction_id` altered and perhaps dropped
+    /// before it rolled back.
+    pub(crate) fn restore_schema(
+        &self,
+        relation_id: ObjectId,
+        old_schema: Schema,
+        builder: &BtreeBuilder,
+        transaction_id: TransactionId,
+    ) -> CatalogResult<()> {
+        let schema = meta_table_schema();
+        let mut meta_table = builder.build_tree_mut(self.meta_table);
+        let position = match meta_table.search(&UInt64(relation_id).serialize()?, &schema)? {
+            SearchResult::Found(pos) => pos,
+            SearchResult::NotFound(_) => return Ok(()),
+        };
+        let mut tuple = meta_table.with_cell_at(position, Tuple::from_slice_unchecked)??;
+        let changes = std::collections::HashMap::from([(
+            schema.bind_value("schema")?,
+            DataType::Blob(old_schema.to_blob()?),
+        )]);
+        // The new version is not deleted, whoever deleted the one before.
+        tuple.add_version_with(&changes, transaction_id, &schema)?;
+        meta_table.update(self.meta_table, tuple, &schema)?;
+        Ok(())
+    }
+
     /// Removes a given relation and, if `cascade` is set, its indexes.
     ///
     /// Returns the roots of the trees that nobody needs once the transaction has committed.
@@ -690,12 +716,8 @@ impl Catalog {
         let name = Blob::from(name);
         let result = meta_index.search(name.as_ref(), &schema)?;
 
-        match result {
-            SearchResult::Found(pos) => {
-                let row = meta_index
-                    .get_row_at(pos, &schema, snapshot)?
-                    .ok_or(CatalogError::InvalidObjectName(name.to_string()))?;
-
+        if let SearchResult::Found(pos) = result {
+            if let Some(row) = meta_index.get_row_at(pos, &schema, snapshot)? {
                 let object_id = match &row[1] {
                     DataType::BigUInt(v) => v.value() as ObjectId,
                     _ => panic!("Invalid object_id type in meta index row"),
@@ -703,10 +725,40 @@ impl Catalog {
 
                 return Ok(object_id);
             }
-            SearchResult::NotFound(_) => {
-                return Err(CatalogError::InvalidObjectName(name.to_string()));
+        }
+
+        // The index only knows the relation that got the name last. If we do not see that one,
+        // there may be another that had the name before.
+        self.find_relation(&name.to_string(), builder, snapshot)?
+            .ok_or(CatalogError::InvalidObjectName(name.to_string()))
+    }
+
+    /// Looks for a visible relation with the given name in the meta table.
+    fn find_relation(
+        &self,
+        name: &str,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<Option<ObjectId>> {
+        let schema = meta_table_schema();
+        let mut meta_table = builder.build_tree(self.meta_table);
+        if meta_table.is_empty()? {
+            return Ok(None);
+        }
+
+        let mut found = None;
+        for position in meta_table.iter_forward()? {
+            if let Some(row) = meta_table.get_row_at(position?, &schema, snapshot)? {
+                let relation = Relation::from_meta_table_row(row);
+                if relation.name() == name {
+                    found = Some(relation.object_id());
+                    break;
+                }
             }
-        };
+            // Do not keep the whole tree pinned.
+            meta_table.accessor_mut()?.clear();
+        }
+        Ok(found)
     }
 
     /// The transaction that last gave the name to a relation, whether it can be seen or not.
-- 
2.43.0


From 908daea480fa35bdf92cfe7282c405a2a982decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 37/52] hook: views of stored pages and handles on storage
 components

---
 crates/axmos-db/src/verif.rs | 333 +++++++++++++++++++++++++++++++++++
 1 file changed, 333 insertions(+)

diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
index e1d6977..ea637c2 100644
--- a/crates/axmos-db/src/verif.rs
+++ b/crates/axmos-db/src/verif.rs
@@ -35,3 +35,336 @@ pub(crate) fn literal(value: DataType) -> DataType {
     let hook: fn(DataType) -> DataType = unsafe { std::mem::transmute(hook) };
     hook(value)
 }
+
+/// Read-only views of what is stored, and thin handles on the storage components.
+pub mod view {
+    use crate::{
+        DBConfig, Database,
+        io::{
+            disk::FileOperations,
+            pager::{BtreeBuilder, Pager, SharedPager},
+            wal::WriteAheadLog,
+        },
+        multithreading::coordinator::Snapshot,
+        schema::{
+            Schema,
+            base::{Column, Relation},
+            meta_table_schema,
+        },
+        storage::{
+            BtreeMetadata, BtreeOps,
+            page::{BtreePage, OverflowPage},
+            tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef},
+            wal::{OwnedRecord, RecordType},
+        },
+        tree::bplustree::SearchResult,
+        types::{DataType, DataTypeKind},
+    };
+    use std::{collections::HashMap, io::Write, path::Path};
+
+    type Res<T> = Result<T, String>;
+    fn msg<E: std::fmt::Display>(e: E) -> String {
+        e.to_string()
+    }
+
+    /// Free list and size of the database file.
+    #[derive(Debug)]
+    pub struct Head {
+        pub first_free: Option<u64>,
+        pub last_free: Option<u64>,
+        pub total_pages: u64,
+    }
+    pub struct CellView {
+        pub left: Option<u64>,
+        pub overflow: Option<u64>,
+        /// The stored bytes, without those in the overflow chain.
+        pub bytes: Vec<u8>,
+    }
+    pub struct Node {
+        pub page: u64,
+        pub right: Option<u64>,
+        pub next: Option<u64>,
+        pub prev: Option<u64>,
+        pub cells: Vec<CellView>,
+    }
+
+    pub fn head(p: &SharedPager) -> Head {
+        let p = p.read();
+        let h = p.header_unchecked();
+        Head {
+            first_free: h.first_free_page,
+            last_free: h.last_free_page,
+            total_pages: h.total_pages,
+        }
+    }
+    pub fn node(p: &SharedPager, id: u64) -> Res<Node> {
+        p.write()
+            .with_page::<BtreePage, _, _>(id, |n| Node {
+                page: n.metadata().page_number,
+                right: n.right_child(),
+                next: n.next_sibling(),
+                prev: n.prev_sibling(),
+                cells: (0..n.num_slots())
+                    .map(|i| {
+                        let c = n.cell(i);
+                        CellView {
+                            left: c.left_child(),
+                            overflow: c.overflow_page(),
+                            bytes: c.effective_data().to_vec(),
+                        }
+                    })
+                    .collect(),
+            })
+            .map_err(msg)
+    }
+    /// Number and successor of a page in an overflow chain or in the free list.
+    pub fn link(p: &SharedPager, id: u64) -> Res<(u64, Option<u64>)> {
+        p.write()
+            .with_page::<OverflowPage, _, _>(id, |o| (o.page_number(), o.next()))
+            .map_err(msg)
+    }
+
+    /// A row of the meta table, visible or not.
+    pub struct Rel {
+        pub id: u64,
+        pub name: String,
+        pub root: u64,
+        pub index: bool,
+        /// The transaction that created it rolled back.
+        pub undone: bool,
+        /// A transaction that committed dropped it.
+        pub dropped: bool,
+    }
+    pub fn relations(db: &Database) -> Res<Vec<Rel>> {
+        let mut handle = db.coordinator.begin().map_err(msg)?;
+        let snapshot = handle.snapshot().clone();
+        let schema = meta_table_schema();
+        let mut out = vec![];
+        {
+            let p = db.pager.read();
+            let builder = BtreeBuilder::new(p.min_keys_per_page(), p.num_siblings_per_side())
+                .with_pager(db.pager.clone());
+            drop(p);
+            let mut tree = builder.build_tree(1);
+            if !tree.is_empty().map_err(msg)? {
+                for pos in tree.iter_forward().map_err(msg)? {
+                    let pos = pos.map_err(msg)?;
+                    let rel = tree
+                        .with_cell_at(pos, |bytes| {
+                            let layout = TupleReader::from_schema(&schema).parse_last_version(bytes)?;
+                            let t = TupleRef::new(bytes, layout);
+                            let (xmin, xmax) = (t.global_xmin(), t.global_xmax());
+                            let r = Relation::from_meta_table_row(t.to_row_with(&schema)?);
+                            Ok::<_, crate::storage::tuple::TupleError>(Rel {
+                                id: r.object_id(),
+                                name: r.name().to_string(),
+                                root: r.root(),
+                                index: r.is_index(),
+                                undone: snapshot.is_transaction_aborted(xmin),
+                                dropped: xmax.is_some_and(|x| !snapshot.is_transaction_aborted(x)),
+                            })
+                        })
+                        .map_err(msg)?
+                        .map_err(msg)?;
+                    out.push(rel);
+                }
+            }
+        }
+        handle.commit().map_err(msg)?;
+        Ok(out)
+    }
+
+    /// A tree of its own in a file of its own.
+    pub struct Tree {
+        pub pager: SharedPager,
+        pub root: u64,
+        schema: Schema,
+    }
+    fn kinds(kinds: &[DataTypeKind], keys: usize) -> Schema {
+        let cols = kinds
+            .iter()
+            .enumerate()
+            .map(|(i, k)| Column::new_with_defaults(*k, &format!("c{i}")))
+            .collect();
+        Schema::new_table_with_num_keys(cols, keys)
+    }
+    impl Tree {
+        pub fn create(path: impl AsRef<Path>, config: DBConfig, cols: &[DataTypeKind], keys: usize) -> Res<Tree> {
+            let pager = SharedPager::from(Pager::from_config(config, path).map_err(msg)?);
+            let root = pager.write().allocate_page::<BtreePage>().map_err(msg)?;
+            Ok(Tree { pager, root, schema: kinds(cols, keys) })
+        }
+        fn builder(&self) -> BtreeBuilder {
+            let p = self.pager.read();
+            BtreeBuilder::new(p.min_keys_per_page(), p.num_siblings_per_side()).with_pager(self.pager.clone())
+        }
+        fn tuple(&self, row: &[DataType]) -> Res<Tuple> {
+            TupleBuilder::from_schema(&self.schema).build(&Row::from(row), 1).map_err(msg)
+        }
+        pub fn insert(&self, row: &[DataType]) -> Res<()> {
+            self.builder().build_tree_mut(self.root).insert(self.root, self.tuple(row)?, &self.schema).map_err(msg)
+        }
+        pub fn upsert(&self, row: &[DataType]) -> Res<()> {
+            self.builder().build_tree_mut(self.root).upsert(self.root, self.tuple(row)?, &self.schema).map_err(msg)
+        }
+        pub fn update(&self, row: &[DataType]) -> Res<()> {
+            self.builder().build_tree_mut(self.root).update(self.root, self.tuple(row)?, &self.schema).map_err(msg)
+        }
+        pub fn remove(&self, row: &[DataType]) -> Res<()> {
+            self.builder().build_tree_mut(self.root).remove_tuple(self.root, &self.tuple(row)?, &self.schema).map_err(msg)
+        }
+        fn row(&self, bytes: &[u8]) -> Res<Vec<DataType>> {
+            let layout = TupleReader::from_schema(&self.schema).parse_last_version(bytes).map_err(msg)?;
+            let row = TupleRef::new(bytes, layout).to_row_with(&self.schema).map_err(msg)?;
+            Ok(row.as_slice().to_vec())
+        }
+        /// The row with the keys of `row`.
+        pub fn get(&self, row: &[DataType]) -> Res<Option<Vec<DataType>>> {
+            let mut tree = self.builder().build_tree(self.root);
+            match tree.search_tuple(&self.tuple(row)?, &self.schema).map_err(msg)? {
+                SearchResult::Found(pos) => tree.with_cell_at(pos, |b| self.row(b)).map_err(msg)?.map(Some),
+                SearchResult::NotFound(_) => Ok(None),
+            }
+        }
+        pub fn scan(&self, backward: bool) -> Res<Vec<Vec<DataType>>> {
+            let mut tree = self.builder().build_tree(self.root);
+            if tree.is_empty().map_err(msg)? {
+                return Ok(vec![]);
+            }
+            let it = if backward {
+                self.builder().build_tree(self.root).into_iter_backward().map_err(msg)?.rev().collect::<Vec<_>>()
+            } else {
+                tree.iter_forward().map_err(msg)?.collect::<Vec<_>>()
+            };
+            it.into_iter()
+                .map(|pos| tree.with_cell_at(pos.map_err(msg)?, |b| self.row(b)).map_err(msg)?)
+                .collect()
+        }
+        /// First key of a stored cell.
+        pub fn key(&self, bytes: &[u8]) -> Res<DataType> {
+            let layout = TupleReader::from_schema(&self.schema).parse_last_version(bytes).map_err(msg)?;
+            let key = TupleRef::new(bytes, layout).key_with(0, &self.schema).map_err(msg)?.to_owned();
+            key.ok_or_else(|| "no key".into())
+        }
+        /// Gives all pages back.
+        pub fn dealloc(&self) -> Res<()> {
+            self.builder().build_tree_mut(self.root).dealloc().map_err(msg)
+        }
+        pub fn flush(&self) -> Res<()> {
+            self.pager.write().flush().map_err(msg)
+        }
+    }
+
+    /// A stored row with its history.
+    pub struct Versions {
+        schema: Schema,
+        tuple: Tuple,
+    }
+    impl Versions {
+        pub fn build(cols: &[DataTypeKind], keys: usize, row: &[DataType], xmin: u64) -> Res<Versions> {
+            let schema = kinds(cols, keys);
+            let tuple = TupleBuilder::from_schema(&schema).build(&Row::from(row), xmin).map_err(msg)?;
+            Ok(Versions { schema, tuple })
+        }
+        /// Sets the given columns after the keys.
+        pub fn update(&mut self, values: &[(usize, DataType)], xid: u64) -> Res<()> {
+            let m: HashMap<usize, DataType> = values.iter().cloned().collect();
+            self.tuple.add_version_with(&m, xid, &self.schema).map_err(msg)
+        }
+        pub fn delete(&mut self, xid: u64) -> Res<()> {
+            self.tuple.delete(xid).map_err(msg)
+        }
+        pub fn undelete(&mut self) {
+            self.tuple.undelete()
+        }
+        pub fn vacuum(&mut self, oldest: u64) -> Res<usize> {
+            self.tuple.vaccum_with(oldest, &self.schema).map_err(msg)
+        }
+        pub fn reload(&mut self) -> Res<()> {
+            self.tuple = Tuple::from_slice_unchecked(self.tuple.effective_data()).map_err(msg)?;
+            Ok(())
+        }
+        pub fn num_versions(&self) -> Res<usize> {
+            self.tuple.num_versions_with(&self.schema).map_err(msg)
+        }
+        pub fn last(&self) -> Res<Vec<DataType>> {
+            let bytes = self.tuple.effective_data();
+            let layout = TupleReader::from_schema(&self.schema).parse_last_version(bytes).map_err(msg)?;
+            Ok(TupleRef::new(bytes, layout).to_row_with(&self.schema).map_err(msg)?.as_slice().to_vec())
+        }
+        /// What the reader with this snapshot gets.
+        pub fn read(&self, s: &Reader) -> Res<Option<Vec<DataType>>> {
+            let snapshot = Snapshot::new(s.xid, s.xmin, s.xmax, s.active.iter().copied().collect(), s.aborted.iter().copied().collect());
+            let bytes = self.tuple.effective_data();
+            match TupleReader::from_schema(&self.schema).parse_for_snapshot(bytes, &snapshot).map_err(msg)? {
+                Some(layout) => Ok(Some(TupleRef::new(bytes, layout).to_row_with(&self.schema).map_err(msg)?.as_slice().to_vec())),
+                None => Ok(None),
+            }
+        }
+    }
+    pub struct Reader {
+        pub xid: u64,
+        pub xmin: u64,
+        pub xmax: Option<u64>,
+        pub active: Vec<u64>,
+        pub aborted: Vec<u64>,
+    }
+
+    /// The log by itself.
+    pub struct Log(WriteAheadLog);
+    #[derive(Clone, Debug)]
+    pub struct Rec {
+        pub lsn: u64,
+        pub tid: u64,
+        pub prev: Option<u64>,
+        pub object: Option<u64>,
+        pub row: Option<u64>,
+        pub kind: u8,
+        pub undo: Vec<u8>,
+        pub redo: Vec<u8>,
+    }
+    impl Log {
+        pub fn create(path: impl AsRef<Path>) -> Res<Log> {
+            WriteAheadLog::create(path).map(Log).map_err(msg)
+        }
+        pub fn open(path: impl AsRef<Path>) -> Res<Log> {
+            WriteAheadLog::open(path).map(Log).map_err(msg)
+        }
+        /// Appends the record under the next sequence number.
+        pub fn push(&mut self, r: &Rec) -> Res<u64> {
+            use RecordType::*;
+            let lsn = self.0.last_lsn().map(|l| l + 1).unwrap_or(0);
+            let kind = [Begin, Commit, Abort, End, Update, Delete, Insert, Create, Drop, Alter][r.kind as usize];
+            let rec = OwnedRecord::new(lsn, r.tid, r.prev, r.object, r.row, kind, &r.undo, &r.redo);
+            self.0.push(rec).map(|_| lsn).map_err(msg)
+        }
+        pub fn force(&mut self) -> Res<()> {
+            self.0.flush().map_err(msg)
+        }
+        pub fn truncate(&mut self) -> Res<()> {
+            self.0.truncate().map_err(msg)
+        }
+        pub fn max_record(&self) -> usize {
+            self.0.max_record_size()
+        }
+        /// Bytes a record takes in the log.
+        pub fn record_size(undo: usize, redo: usize) -> usize {
+            crate::storage::wal::RECORD_HEADER_SIZE + OwnedRecord::compute_padded_size(undo + redo)
+        }
+        pub fn read(&mut self, read_ahead: usize) -> Res<Vec<Rec>> {
+            use RecordType::*;
+            let mut out = vec![];
+            let mut reader = self.0.reader(read_ahead).map_err(msg)?;
+            while let Some(r) = reader.next_ref().map_err(msg)? {
+                let m = r.metadata();
+                let kind = [Begin, Commit, Abort, End, Update, Delete, Insert, Create, Drop, Alter].iter().position(|k| *k == r.log_type()).unwrap_or(99) as u8;
+                out.push(Rec { lsn: r.lsn(), tid: r.tid(), prev: m.prev_lsn, object: m.object_id, row: m.row_id, kind, undo: r.undo_payload().to_vec(), redo: r.redo_payload().to_vec() });
+            }
+            Ok(out)
+        }
+        /// The process ends without closing the log.
+        pub fn lose(self) {
+            std::mem::forget(self.0)
+        }
+    }
+}
-- 
2.43.0


From 50aadc35de0180104ae8bf2f4c643578e388b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 38/52] fix: a log read before its first force, with no
 read-ahead or after dying in a force yields what was forced

---
 crates/axmos-db/src/io/wal.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index 2da3bcd..7411ef5 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -68,6 +68,12 @@ impl FileOperations for WriteAheadLog {
 
         // Usar el block_size del archivo, o el default si es 0
         let block_size = header_buf.metadata().wal_header.block_size as usize;
+
+        // Nor has one whose first force after the truncation did not get to it.
+        if header_buf.metadata().wal_header.total_blocks == 0 {
+            header_buf = BlockZero::alloc(0, default_block_size);
+        }
+
         let block_size = if block_size == 0 {
             default_block_size
         } else {
@@ -80,6 +86,10 @@ impl FileOperations for WriteAheadLog {
             let mut block = WalBlock::new(block_size);
             file.seek(SeekFrom::Start((total_blocks - 1) * block_size as u64))?;
             file.read_exact(block.as_mut())?;
+
+            // The block may hold more than the header knows of, as it is written before it.
+            let last_lsn = &mut header_buf.metadata_mut().wal_header.global_last_lsn;
+            *last_lsn = (*last_lsn).max(block.metadata().block_last_lsn);
             Some(block)
         } else {
             None
@@ -465,15 +475,20 @@ impl<'a> WalReader<'a> {
         block_size: usize,
         total_blocks: u64,
     ) -> io::Result<Self> {
-        // Read block zero (header)
-        let mut header = BlockZero::new(block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header.as_mut())?;
+        // Read block zero (header). Before the first flush there is none, and nothing to read.
+        let header = if file.seek(SeekFrom::End(0))? < block_size as u64 {
+            BlockZero::alloc(0, block_size)
+        } else {
+            let mut header = BlockZero::new(block_size);
+            file.seek(SeekFrom::Start(0))?;
+            file.read_exact(header.as_mut())?;
+            header
+        };
 
         // Blocks that were not flushed yet are not in the file
         let total_blocks = total_blocks.min(header.metadata().wal_header.total_blocks);
 
-        let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
+        let read_ahead_size = read_ahead_size.max(1).next_multiple_of(block_size);
         let num_blocks_to_read =
             (read_ahead_size / block_size).min(total_blocks.saturating_sub(1) as usize);
 
-- 
2.43.0


From 31f113cf369629f6bb637db456c1e3774b895b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 39/52] hook: the views behind a flag of their own

---
 crates/axmos-db/src/verif.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
index ea637c2..fe9d707 100644
--- a/crates/axmos-db/src/verif.rs
+++ b/crates/axmos-db/src/verif.rs
@@ -37,6 +37,7 @@ pub(crate) fn literal(value: DataType) -> DataType {
 }
 
 /// Read-only views of what is stored, and thin handles on the storage components.
+#[cfg(axmos_view)]
 pub mod view {
     use crate::{
         DBConfig, Database,
-- 
2.43.0


From e7f4b4b4b85302e244b7b82161706708867c588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 40/52] fix: the wire protocol rejects what is not an encoded
 message, bounds what it reserves, and the server answers instead of hanging
 up

---
 crates/axmos-db/src/bin/axmos_server.rs | 17 ++++++-
 crates/axmos-db/src/tcp/mod.rs          | 66 +++++++++++++++++++------
 2 files changed, 66 insertions(+), 17 deletions(-)

diff --git a/crates/axmos-db/src/bin/axmos_server.rs b/crates/axmos-db/src/bin/axmos_server.rs
index db28659..351095e 100644
--- a/crates/axmos-db/src/bin/axmos_server.rs
+++ b/crates/axmos-db/src/bin/axmos_server.rs
@@ -303,10 +303,17 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             Ok(req) => req,
             Err(TcpError::ConnectionClosed) => break,
             Err(TcpError::Io(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
-            Err(e) => {
+            Err(e @ (TcpError::Io(_) | TcpError::MessageTooLarge(_))) => {
+                // Where the next message starts is not known
                 eprintln!("Request error: {}", e);
+                send_response(&mut writer, &Response::Error(e.to_string()))?;
                 break;
             }
+            Err(e) => {
+                eprintln!("Request error: {}", e);
+                send_response(&mut writer, &Response::Error(e.to_string()))?;
+                continue;
+            }
         };
 
         let response = process_request(request, state, &mut ctx);
@@ -316,7 +323,13 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             break;
         }
 
-        send_response(&mut writer, &response)?;
+        match send_response(&mut writer, &response) {
+            Err(e @ TcpError::MessageTooLarge(_)) => {
+                // Nothing was written yet
+                send_response(&mut writer, &Response::Error(e.to_string()))?;
+            }
+            sent => sent?,
+        }
     }
 
     if let Some(mut session) = ctx.session.take() {
diff --git a/crates/axmos-db/src/tcp/mod.rs b/crates/axmos-db/src/tcp/mod.rs
index c092253..e01aed2 100644
--- a/crates/axmos-db/src/tcp/mod.rs
+++ b/crates/axmos-db/src/tcp/mod.rs
@@ -131,18 +131,19 @@ impl Request {
                 let sample_rate = f64::from_le_bytes(payload[0..8].try_into().unwrap());
                 let max_sample_rows =
                     u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
+                expect_end(&payload[16..])?;
                 Ok(Self::Analyze {
                     sample_rate,
                     max_sample_rows,
                 })
             }
-            0x06 => Ok(Self::Close),
-            0x07 => Ok(Self::Ping),
-            0x09 => Ok(Self::Vacuum),
-            0x0A => Ok(Self::Begin),
-            0x0B => Ok(Self::Commit),
-            0x0C => Ok(Self::Rollback),
-            0xFF => Ok(Self::Shutdown),
+            0x06 => expect_end(payload).map(|_| Self::Close),
+            0x07 => expect_end(payload).map(|_| Self::Ping),
+            0x09 => expect_end(payload).map(|_| Self::Vacuum),
+            0x0A => expect_end(payload).map(|_| Self::Begin),
+            0x0B => expect_end(payload).map(|_| Self::Commit),
+            0x0C => expect_end(payload).map(|_| Self::Rollback),
+            0xFF => expect_end(payload).map(|_| Self::Shutdown),
             _ => Err(TcpError::UnknownCommand(cmd)),
         }
     }
@@ -232,6 +233,10 @@ impl Response {
                 }
                 buf.extend_from_slice(&(data.len() as u32).to_le_bytes());
                 for row in data {
+                    // A row without columns still takes some space in the message
+                    if columns.is_empty() {
+                        buf.push(0);
+                    }
                     for value in row {
                         write_string(&mut buf, value);
                     }
@@ -313,7 +318,8 @@ impl Response {
                 let col_count = u32::from_le_bytes(payload[0..4].try_into().unwrap()) as usize;
                 offset += 4;
 
-                let mut columns = Vec::with_capacity(col_count);
+                // The counts come from the message: do not reserve more than it can hold.
+                let mut columns = Vec::with_capacity(col_count.min((payload.len() - offset) / 4));
 
                 for _ in 0..col_count {
                     let (col, len) = read_string_with_len(&payload[offset..])?;
@@ -328,8 +334,20 @@ impl Response {
                     u32::from_le_bytes(payload[offset..offset + 4].try_into().unwrap()) as usize;
                 offset += 4;
 
+                // A row takes at least the lengths of its values, or a byte if it has none.
+                let min_row_size = (col_count * 4).max(1);
+                if row_count > (payload.len() - offset) / min_row_size {
+                    return Err(TcpError::InvalidMessage("Row data truncated".into()));
+                }
+
                 let mut data = Vec::with_capacity(row_count);
                 for _ in 0..row_count {
+                    if col_count == 0 {
+                        if payload[offset] != 0 {
+                            return Err(TcpError::InvalidMessage("Invalid row".into()));
+                        }
+                        offset += 1;
+                    }
                     let mut row = Vec::with_capacity(col_count);
                     for _ in 0..col_count {
                         let (value, len) = read_string_with_len(&payload[offset..])?;
@@ -338,6 +356,7 @@ impl Response {
                     }
                     data.push(row);
                 }
+                expect_end(&payload[offset..])?;
 
                 Ok(Self::Rows { columns, data })
             }
@@ -346,6 +365,7 @@ impl Response {
                     return Err(TcpError::InvalidMessage("Missing count".into()));
                 }
                 let count = u64::from_le_bytes(payload[0..8].try_into().unwrap());
+                expect_end(&payload[8..])?;
                 Ok(Self::RowsAffected(count))
             }
             StatusCode::Ddl => {
@@ -365,17 +385,18 @@ impl Response {
                 let bytes_freed = u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
                 let transactions_cleaned =
                     u64::from_le_bytes(payload[16..24].try_into().unwrap()) as usize;
+                expect_end(&payload[24..])?;
                 Ok(Self::VacuumComplete {
                     tables_vacuumed,
                     bytes_freed,
                     transactions_cleaned,
                 })
             }
-            StatusCode::Pong => Ok(Self::Pong),
-            StatusCode::Goodbye => Ok(Self::Goodbye),
-            StatusCode::ShuttingDown => Ok(Self::ShuttingDown),
-            StatusCode::Begin => Ok(Self::SessionStarted),
-            StatusCode::End => Ok(Self::SessionEnd),
+            StatusCode::Pong => expect_end(payload).map(|_| Self::Pong),
+            StatusCode::Goodbye => expect_end(payload).map(|_| Self::Goodbye),
+            StatusCode::ShuttingDown => expect_end(payload).map(|_| Self::ShuttingDown),
+            StatusCode::Begin => expect_end(payload).map(|_| Self::SessionStarted),
+            StatusCode::End => expect_end(payload).map(|_| Self::SessionEnd),
         }
     }
 
@@ -435,11 +456,25 @@ fn write_string(buf: &mut Vec<u8>, s: &str) {
     buf.extend_from_slice(bytes);
 }
 
+/// Reads a string that takes all of the payload.
 fn read_string(data: &[u8]) -> Result<String, TcpError> {
-    let (s, _) = read_string_with_len(data)?;
+    let (s, len) = read_string_with_len(data)?;
+    expect_end(&data[len..])?;
     Ok(s)
 }
 
+/// Fails if there is anything left in the payload.
+fn expect_end(rest: &[u8]) -> Result<(), TcpError> {
+    if rest.is_empty() {
+        Ok(())
+    } else {
+        Err(TcpError::InvalidMessage(format!(
+            "{} unexpected bytes after the message",
+            rest.len()
+        )))
+    }
+}
+
 fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
     if data.len() < 4 {
         return Err(TcpError::InvalidMessage("String length missing".into()));
@@ -455,7 +490,8 @@ fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
         )));
     }
 
-    let s = String::from_utf8_lossy(&data[4..4 + len]).into_owned();
+    let s = String::from_utf8(data[4..4 + len].to_vec())
+        .map_err(|_| TcpError::InvalidMessage("String is not valid UTF-8".into()))?;
     Ok((s, 4 + len))
 }
 
-- 
2.43.0


From fb63f53fc946f1245863b4de9e7208a6fac55377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 41/52] fix: writing to a relation that was dropped meanwhile
 does not bring it back

---
 crates/axmos-db/src/schema/catalog.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 561cbb6..88d4cde 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -540,7 +540,12 @@ impl Catalog {
             return Ok(());
         };
 
+        // Someone this snapshot does not see dropped the relation meanwhile: it stays dropped.
+        let dropped_by = tuple.xmax().filter(|x| !snapshot.is_transaction_aborted(*x));
         tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+        if let Some(xid) = dropped_by {
+            tuple.delete(xid)?;
+        }
         let result = meta_table.update(self.meta_table, tuple, &schema)?;
 
         Ok(())
-- 
2.43.0


From da6ac49a374a55955d9e8fa47c8bea956ca385d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 42/52] fix: the hash kept in statistics agrees with equality

---
 crates/axmos-db/src/types/core.rs            | 21 ++++++++++++++++++++
 crates/axmos-db/src/types/macros/datatype.rs | 16 +++++++++++++++
 crates/axmos-db/src/types/mod.rs             | 19 ------------------
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/crates/axmos-db/src/types/core.rs b/crates/axmos-db/src/types/core.rs
index 48ab869..59dffb9 100644
--- a/crates/axmos-db/src/types/core.rs
+++ b/crates/axmos-db/src/types/core.rs
@@ -2,6 +2,7 @@ use bytemuck::{Pod, Zeroable};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Display, Formatter, Result as FmtResult},
+    hash::Hasher,
     ops::{Add, Deref, Div, Mul, Rem, Sub},
 };
 
@@ -452,6 +453,26 @@ impl<T: AsRef<[u8]>> Hashable for T {
     }
 }
 
+/// Collects what a value feeds to a hasher.
+#[derive(Default)]
+pub(crate) struct HashedBytes(Vec<u8>);
+
+impl AsRef<[u8]> for HashedBytes {
+    fn as_ref(&self) -> &[u8] {
+        &self.0
+    }
+}
+
+impl Hasher for HashedBytes {
+    fn finish(&self) -> u64 {
+        self.hash64()
+    }
+
+    fn write(&mut self, bytes: &[u8]) {
+        self.0.extend_from_slice(bytes);
+    }
+}
+
 pub trait NumericAbs {
     fn numeric_abs(self) -> Self;
 }
diff --git a/crates/axmos-db/src/types/macros/datatype.rs b/crates/axmos-db/src/types/macros/datatype.rs
index 4d098c6..0b5c410 100644
--- a/crates/axmos-db/src/types/macros/datatype.rs
+++ b/crates/axmos-db/src/types/macros/datatype.rs
@@ -137,5 +137,21 @@ macro_rules! impl_datatype_hash {
                 }
             }
         }
+
+        impl $($type_name)+ {
+            /// Hash that stays the same across runs. Values that compare equal share it.
+            pub fn hash128(&self) -> u128 {
+                if self.is_null() {
+                    return 0;
+                }
+                let mut bytes = $crate::types::core::HashedBytes::default();
+                self.hash(&mut bytes);
+                $crate::types::core::Hashable::hash128(&bytes)
+            }
+
+            pub fn hash64(&self) -> u64 {
+                self.hash128() as u64
+            }
+        }
     };
 }
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index cc3595f..122c383 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -110,25 +110,6 @@ pub type TypeSystemResult<T> = Result<T, TypeSystemError>;
 pub type SerializationResult<T> = Result<T, SerializationError>;
 
 #[derive(Debug, Clone, AutogeneratedDataType)]
-#[delegate(
-    trait = "crate::types::core::Hashable",
-    method = "hash128",
-    return_type = "u128",
-    default = "0"
-)]
-#[delegate(
-    trait = "crate::types::core::Hashable",
-    method = "hash128",
-    target = "ref",
-    return_type = "u128",
-    default = "0"
-)]
-#[delegate(
-    trait = "crate::types::core::Hashable",
-    method = "hash64",
-    return_type = "u64",
-    default = "0"
-)]
 #[delegate(
     trait = "crate::types::core::RuntimeSized",
     method = "runtime_size",
-- 
2.43.0


From cf38f968a7d09747cd68fdc3a8929c1a4fd51979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 43/52] fix: row versions carry their own creator, and trimming
 keeps the version the oldest reader needs

---
 crates/axmos-db/src/runtime/context.rs |  2 +-
 crates/axmos-db/src/runtime/dml.rs     |  4 +-
 crates/axmos-db/src/schema/catalog.rs  | 14 ++--
 crates/axmos-db/src/storage/tuple.rs   | 94 ++++++++++++++------------
 4 files changed, 64 insertions(+), 50 deletions(-)

diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 7ce48f5..304286c 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -70,7 +70,7 @@ impl SchemaChanges {
             let builder = self.builder();
             for (id, schema) in altered.into_iter().rev() {
                 self.catalog
-                    .restore_schema(id, schema, &builder, self.snapshot.xid())?;
+                    .restore_schema(id, schema, &builder)?;
             }
         }
         self.collect()
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 7157edf..6d0e406 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -329,7 +329,9 @@ impl DmlExecutor {
 
         // Apply the update
         let mut updated_tuple = tuple.clone();
-        updated_tuple.add_version_with(&assignments, tid, &schema)?;
+        // An update stays when its transaction rolls back, so that it belongs to whoever
+        // created the row.
+        updated_tuple.add_version_with(&assignments, tuple.xmin(), &schema)?;
 
         // Log the update
         self.logger.log_update(
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 88d4cde..283ff7a 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -453,7 +453,11 @@ impl Catalog {
                             tuples_to_remove.push(tuple);
                             freed
                         } else {
-                            let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
+                            let freed = tuple.vaccum_with(
+                                oldest_active_xid,
+                                |xid| snapshot.is_transaction_aborted(xid),
+                                schema,
+                            )?;
                             if delete_aborted {
                                 tuple.undelete();
                             }
@@ -542,7 +546,8 @@ impl Catalog {
 
         // Someone this snapshot does not see dropped the relation meanwhile: it stays dropped.
         let dropped_by = tuple.xmax().filter(|x| !snapshot.is_transaction_aborted(*x));
-        tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+        // What the catalog says of a relation holds for everybody who sees the relation.
+        tuple.add_version_with(&changes, tuple.xmin(), &schema)?;
         if let Some(xid) = dropped_by {
             tuple.delete(xid)?;
         }
@@ -551,14 +556,13 @@ impl Catalog {
         Ok(())
     }
 
-    /// Puts back the schema of a relation that `transaction_id` altered and perhaps dropped
+    /// Puts back the schema of a relation that a transaction altered and perhaps dropped
     /// before it rolled back.
     pub(crate) fn restore_schema(
         &self,
         relation_id: ObjectId,
         old_schema: Schema,
         builder: &BtreeBuilder,
-        transaction_id: TransactionId,
     ) -> CatalogResult<()> {
         let schema = meta_table_schema();
         let mut meta_table = builder.build_tree_mut(self.meta_table);
@@ -572,7 +576,7 @@ impl Catalog {
             DataType::Blob(old_schema.to_blob()?),
         )]);
         // The new version is not deleted, whoever deleted the one before.
-        tuple.add_version_with(&changes, transaction_id, &schema)?;
+        tuple.add_version_with(&changes, tuple.xmin(), &schema)?;
         meta_table.update(self.meta_table, tuple, &schema)?;
         Ok(())
     }
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 7b0c53f..8ff0962 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -646,7 +646,9 @@ impl<'a> TupleReader<'a> {
                 // If null, the offset doesn't matter - null check happens first
             }
 
-            if snapshot.is_committed_before_snapshot(layout.version_xmin) {
+            if layout.version_xmin == snapshot.xid()
+                || snapshot.is_committed_before_snapshot(layout.version_xmin)
+            {
                 return Ok(Some(layout));
             }
         }
@@ -926,7 +928,7 @@ impl Tuple {
         schema: &Schema,
         snapshot: &Snapshot,
     ) -> TupleResult<usize> {
-        self.vaccum_with(snapshot.xmin(), schema)
+        self.vaccum_with(snapshot.xmin(), |xid| snapshot.is_transaction_aborted(xid), schema)
     }
 
     pub(crate) fn xmin(&self) -> TransactionId {
@@ -1016,8 +1018,7 @@ impl Tuple {
         let mut cursor = 0;
 
         // Write header
-        let original_xmin = self.xmin();
-        let header = TupleHeader::new(old_version.wrapping_add(1), original_xmin, None);
+        let header = TupleHeader::new(old_version.wrapping_add(1), new_xmin, None);
         cursor = header.write_to(buffer, cursor);
 
         // Write null bitmap for new values
@@ -1288,13 +1289,14 @@ impl Tuple {
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-    /// A delta is no longer needed if its xmin is less than the oldest active
-    /// transaction ID, meaning no transaction can ever need to see that version.
+    /// A version is no longer needed once there is a newer one that everybody sees: one whose
+    /// creator is older than the oldest active transaction and did not roll back.
     ///
     /// Returns the number of bytes freed.
     pub(crate) fn vaccum_with(
         &mut self,
         oldest_active_xid: TransactionId,
+        is_aborted: impl Fn(TransactionId) -> bool,
         schema: &Schema,
     ) -> TupleResult<usize> {
         let reader = TupleReader::from_schema(schema);
@@ -1309,48 +1311,45 @@ impl Tuple {
         let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
         let mut last_needed_end = layout.delta_start();
+        let seen_by_all = |xmin: TransactionId| xmin < oldest_active_xid && !is_aborted(xmin);
+        let mut reached = seen_by_all(layout.version_xmin);
 
-        while cursor < self.data.len() {
+        while cursor < self.data.len() && !reached {
             let (delta_header, header_end) =
                 DeltaHeader::read_from(self.data.effective_data(), cursor);
+            reached = seen_by_all(delta_header.xmin());
 
-            // If this delta's xmin >= oldest_active_xid, some transaction might still need it
-            if delta_header.xmin() >= oldest_active_xid {
-                let num_changes = self.data.effective_data()[header_end] as usize;
-
-                // Skip: num_changes byte + full bitmap
-                let delta_bitmap_start = header_end + 1;
-                let delta_bitmap = &self.data.effective_data()
-                    [delta_bitmap_start..delta_bitmap_start + bitmap_size];
-                let mut skip_cursor = delta_bitmap_start + bitmap_size;
-
-                // Skip each change entry
-                for _ in 0..num_changes {
-                    let field_idx = self.data.effective_data()[skip_cursor] as usize;
-                    skip_cursor += 1;
-
-                    // Check if this field is NULL using the delta's bitmap
-                    let is_null = TupleReader::check_null(delta_bitmap, field_idx);
-
-                    if !is_null {
-                        let dtype = schema
-                            .value(field_idx)
-                            .ok_or(TupleError::ValueError(field_idx))?
-                            .datatype();
-
-                        let (_, new_cursor) =
-                            dtype.deserialize(self.data.effective_data(), skip_cursor)?;
-                        skip_cursor = new_cursor;
-                    }
-                    // If null, no data was written, so don't advance cursor
-                }
+            let num_changes = self.data.effective_data()[header_end] as usize;
 
-                last_needed_end = skip_cursor;
-                cursor = skip_cursor;
-            } else {
-                // This delta and all subsequent ones are too old - stop here
-                break;
+            // Skip: num_changes byte + full bitmap
+            let delta_bitmap_start = header_end + 1;
+            let delta_bitmap = &self.data.effective_data()
+                [delta_bitmap_start..delta_bitmap_start + bitmap_size];
+            let mut skip_cursor = delta_bitmap_start + bitmap_size;
+
+            // Skip each change entry
+            for _ in 0..num_changes {
+                let field_idx = self.data.effective_data()[skip_cursor] as usize;
+                skip_cursor += 1;
+
+                // Check if this field is NULL using the delta's bitmap
+                let is_null = TupleReader::check_null(delta_bitmap, field_idx);
+
+                if !is_null {
+                    let dtype = schema
+                        .value(field_idx)
+                        .ok_or(TupleError::ValueError(field_idx))?
+                        .datatype();
+
+                    let (_, new_cursor) =
+                        dtype.deserialize(self.data.effective_data(), skip_cursor)?;
+                    skip_cursor = new_cursor;
+                }
+                // If null, no data was written, so don't advance cursor
             }
+
+            last_needed_end = skip_cursor;
+            cursor = skip_cursor;
         }
 
         let freed = self.data.len() - last_needed_end;
@@ -1392,12 +1391,21 @@ impl Tuple {
         while cursor < self.data.len() {
             let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
             let num_changes = self.data.effective_data()[header_end] as usize;
-            cursor = header_end + 1 + bitmap_size;
+            let delta_bitmap = header_end + 1..header_end + 1 + bitmap_size;
+            cursor = delta_bitmap.end;
 
             for _ in 0..num_changes {
                 let field_idx = self.data.effective_data()[cursor] as usize;
                 cursor += 1;
 
+                // Nothing is stored for a null.
+                if TupleReader::check_null(
+                    &self.data.effective_data()[delta_bitmap.clone()],
+                    field_idx,
+                ) {
+                    continue;
+                }
+
                 let dtype = schema
                     .value(field_idx)
                     .ok_or(TupleError::ValueError(field_idx))?
-- 
2.43.0


From d3061bbbdb71317bb58bf15ad0d6ed1c05193505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 44/52] hook: the view of row versions takes the rolled-back
 transactions when trimming

---
 crates/axmos-db/src/verif.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
index fe9d707..8542c5a 100644
--- a/crates/axmos-db/src/verif.rs
+++ b/crates/axmos-db/src/verif.rs
@@ -278,8 +278,8 @@ pub mod view {
         pub fn undelete(&mut self) {
             self.tuple.undelete()
         }
-        pub fn vacuum(&mut self, oldest: u64) -> Res<usize> {
-            self.tuple.vaccum_with(oldest, &self.schema).map_err(msg)
+        pub fn vacuum(&mut self, oldest: u64, aborted: &[u64]) -> Res<usize> {
+            self.tuple.vaccum_with(oldest, |x| aborted.contains(&x), &self.schema).map_err(msg)
         }
         pub fn reload(&mut self) -> Res<()> {
             self.tuple = Tuple::from_slice_unchecked(self.tuple.effective_data()).map_err(msg)?;
-- 
2.43.0


From e0cd08387c1cd5a1ae6b1780271cc713db433d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 45/52] verif: expose the pager of a database to checks (cfg
 verif)

---
 crates/axmos-db/src/verif.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/axmos-db/src/verif.rs b/crates/axmos-db/src/verif.rs
index 8542c5a..fdcd991 100644
--- a/crates/axmos-db/src/verif.rs
+++ b/crates/axmos-db/src/verif.rs
@@ -64,6 +64,11 @@ pub mod view {
     use std::{collections::HashMap, io::Write, path::Path};
 
     type Res<T> = Result<T, String>;
+
+    /// The pager under a database, for checks that build trees of their own in its file.
+    pub fn pager(db: &Database) -> SharedPager {
+        db.pager.clone()
+    }
     fn msg<E: std::fmt::Display>(e: E) -> String {
         e.to_string()
     }
-- 
2.43.0


From 0f247666cd16c217968e38709be96da0a2777307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 46/52] fix: statements that write to an index by name find no
 table instead of panicking

---
 crates/axmos-db/src/sql/binder/binder.rs | 43 ++++++++++--------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 8c5aadd..5c4ae50 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -5,7 +5,7 @@ use crate::{
     multithreading::coordinator::Snapshot,
     schema::{
         SharedCatalog,
-        base::{Column, Schema, SchemaError, SchemaResult},
+        base::{Column, Relation, Schema, SchemaError, SchemaResult},
     },
     sql::parser::ast::{
         AlterAction, AlterColumnAction, AlterTableStatement, BinaryOperator, ColumnDefExpr,
@@ -390,12 +390,19 @@ impl<'a> Binder<'a> {
         })
     }
 
+    /// Looks up the table that a statement writes to or changes. Indexes share the namespace of the tables but
+    /// they are only changed through their tables, so an index is not found here.
+    fn get_table(&self, name: &str) -> BinderResult<Relation> {
+        self.catalog
+            .get_relation_by_name(name, &self.tree_builder, &self.snapshot)
+            .ok()
+            .filter(|relation| relation.is_table())
+            .ok_or_else(|| BinderError::TableNotFound(name.to_string()))
+    }
+
     /// Entry point to bind [InsertStatement]. Produces [BoundInsert] statements.
     fn bind_insert(&mut self, stmt: &InsertStatement) -> BinderResult<BoundInsert> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.get_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -460,10 +467,7 @@ impl<'a> Binder<'a> {
 
     /// Binds an [UpdateStatement] producing a [BoundUpdate] statement.
     fn bind_update(&mut self, stmt: &UpdateStatement) -> BinderResult<BoundUpdate> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.get_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -514,10 +518,7 @@ impl<'a> Binder<'a> {
 
     /// Binds a [DeleteStatement] producing a [BoundDelete] statement
     fn bind_delete(&mut self, stmt: &DeleteStatement) -> BinderResult<BoundDelete> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.get_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -639,10 +640,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [CreateIndexStatement], producing [BoundCreateIndex]
     fn bind_create_index(&mut self, stmt: &CreateIndexStatement) -> BinderResult<BoundCreateIndex> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.get_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let schema = relation.schema();
@@ -663,10 +661,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [AlterTableStatement], producing [BoundAlterTable]
     fn bind_alter_table(&mut self, stmt: &AlterTableStatement) -> BinderResult<BoundAlterTable> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.get_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let schema = relation.schema();
@@ -713,11 +708,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [DropTableStatement], producing [BoundDropTable]
     fn bind_drop_table(&mut self, stmt: &DropTableStatement) -> BinderResult<BoundDropTable> {
-        let table_id = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .ok()
-            .map(|r| r.object_id());
+        let table_id = self.get_table(&stmt.table).ok().map(|r| r.object_id());
 
         if table_id.is_none() && !stmt.if_exists {
             return Err(BinderError::TableNotFound(stmt.table.clone()));
-- 
2.43.0


From 59a56ba5b47e7e66648ec1f8d7fad56b2634b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 47/52] fix: deeply nested statements are refused instead of
 overflowing the stack

---
 .../axmos-db/src/multithreading/threadpool.rs | 11 +++++--
 crates/axmos-db/src/sql/parser/mod.rs         | 29 +++++++++++++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 212d72b..667de65 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -115,6 +115,9 @@ pub(crate) enum Job {
     Shutdown,
 }
 
+/// Room for the deepest statement that the parser accepts.
+const WORKER_STACK_SIZE: usize = 64 * 1024 * 1024;
+
 struct Worker {
     id: ThreadId,
     thread: Option<JoinHandle<()>>,
@@ -122,7 +125,7 @@ struct Worker {
 
 impl Worker {
     fn new(job_queue: Arc<JobQueue<Job>>, running: Arc<AtomicBool>) -> Worker {
-        let thread = thread::spawn(move || {
+        let body = move || {
             while let Some(job) = job_queue.pop_interruptible(Duration::from_millis(100), &running)
             {
                 match job {
@@ -133,7 +136,11 @@ impl Worker {
                     Job::Shutdown => break,
                 }
             }
-        });
+        };
+        let thread = thread::Builder::new()
+            .stack_size(WORKER_STACK_SIZE)
+            .spawn(body)
+            .expect("failed to spawn worker thread");
 
         Worker {
             id: thread::current_id(),
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index b8b0833..2b6d76f 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -19,6 +19,7 @@ pub enum ParserError {
     InvalidExpression(String),
     UnexpectedToken(String),
     UnexpectedEof,
+    NestedTooDeeply,
 }
 
 impl Display for ParserError {
@@ -27,6 +28,7 @@ impl Display for ParserError {
             Self::InvalidExpression(s) => write!(f, "Invalid expression: {}", s),
             Self::UnexpectedToken(s) => write!(f, "Unexpected token: {}", s),
             Self::UnexpectedEof => write!(f, "Unexpected end of input"),
+            Self::NestedTooDeeply => write!(f, "Statement nested too deeply"),
         }
     }
 }
@@ -34,11 +36,16 @@ impl Display for ParserError {
 impl Error for ParserError {}
 pub type ParseResult<T> = Result<T, ParserError>;
 
+/// Levels of nested expressions and queries that a statement can have.
+/// Every step from parsing to evaluation takes stack space for each of them.
+const MAX_NESTING: usize = 500;
+
 /// Main parser implementation.
 /// Uses a pratt parsing approach to parse sql expressions into AST nodes.
 pub struct Parser {
     lexer: Lexer,
     current_token: Token,
+    nesting: usize,
 }
 
 impl Parser {
@@ -48,6 +55,7 @@ impl Parser {
         Parser {
             lexer,
             current_token,
+            nesting: 0,
         }
     }
 
@@ -88,6 +96,8 @@ impl Parser {
     /// Obtains the expression binding power using a Pratt Parsing approach.
     /// I recommend this read on Pratt Parsing: https://matklad.github.io/2020/04/13/simple-but-powerful-pratt-parsing.html
     fn parse_expr_bp(&mut self, min_bp: u8) -> ParseResult<Expr> {
+        let nesting = self.nesting;
+        self.nest()?;
         let mut lhs = self.parse_prefix()?;
 
         while let Some((l_bp, r_bp)) = self.infix_binding_power() {
@@ -95,12 +105,24 @@ impl Parser {
                 break;
             }
 
+            // What has been parsed so far becomes the left side of another level.
+            self.nest()?;
             lhs = self.parse_infix(lhs, r_bp)?;
         }
 
+        self.nesting = nesting;
         Ok(lhs)
     }
 
+    /// Goes one level down.
+    fn nest(&mut self) -> ParseResult<()> {
+        self.nesting += 1;
+        if self.nesting > MAX_NESTING {
+            return Err(ParserError::NestedTooDeeply);
+        }
+        Ok(())
+    }
+
     /// Given the current token, obtains the parsed prefix of the expression.
     fn parse_prefix(&mut self) -> ParseResult<Expr> {
         match &self.current_token {
@@ -1172,6 +1194,8 @@ impl Parser {
     /// LIMIT n;
     /// ```
     fn parse_select_statement(&mut self) -> ParseResult<SelectStatement> {
+        let nesting = self.nesting;
+        self.nest()?;
         self.expect(Token::Select)?;
 
         let distinct = self.consume_if(&Token::Distinct);
@@ -1261,6 +1285,7 @@ impl Parser {
             None
         };
 
+        self.nesting = nesting;
         Ok(SelectStatement {
             distinct,
             columns,
@@ -1332,10 +1357,13 @@ impl Parser {
     /// FROM table1, table2, table3
     /// ```
     fn parse_table_ref(&mut self) -> ParseResult<TableReference> {
+        let nesting = self.nesting;
         let mut table_ref = self.parse_single_table_ref()?;
 
         // Parse optional JOINs and comma-separated tables
         loop {
+            self.nest()?;
+
             // Check for comma first (implicit cross join)
             if self.consume_if(&Token::Comma) {
                 let right = self.parse_single_table_ref()?;
@@ -1399,6 +1427,7 @@ impl Parser {
             };
         }
 
+        self.nesting = nesting;
         Ok(table_ref)
     }
 
-- 
2.43.0


From 95fd6957eb2a93c34c4fe79dd2c629e366ded9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 48/52] fix: statements that change trees run alone, so that
 concurrent ones neither lose rows nor deadlock

---
 crates/axmos-db/src/lib.rs                    |  5 +++++
 .../src/multithreading/coordinator.rs         | 17 ++++++++++++++-
 crates/axmos-db/src/runtime/context.rs        | 20 ++++++++++++++++--
 crates/axmos-db/src/runtime/mod.rs            | 21 +++++++++++++++----
 4 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 18b3653..7360f14 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -426,6 +426,7 @@ impl Database {
 
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
+        let _latch = self.coordinator.latch_exclusive();
         let mut pager = self.pager.write();
         let running: Vec<TransactionId> = self
             .coordinator
@@ -483,6 +484,7 @@ impl Database {
             let tree_builder = tx_ctx.tree_builder();
             let snapshot = tx_ctx.snapshot();
 
+            let latch = coordinator.latch_exclusive();
             catalog
                 .analyze(
                     &tree_builder,
@@ -492,6 +494,7 @@ impl Database {
                     max_sample_rows,
                 )
                 .map_err(box_err)?;
+            drop(latch);
 
             tx_ctx.commit_transaction().map_err(box_err)?;
             Ok(())
@@ -529,9 +532,11 @@ impl Database {
             let tree_builder = tx_ctx.tree_builder();
             let vacuum_snapshot = tx_ctx.snapshot();
 
+            let latch = coordinator.latch_exclusive();
             let mut stats = catalog
                 .vacuum(&tree_builder, &vacuum_snapshot, oldest_active_xid)
                 .map_err(box_err)?;
+            drop(latch);
 
             // Clean up transaction coordinator
             stats.transactions_cleaned = coordinator.vacuum_transactions();
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 45ec357..c4b6da9 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -3,7 +3,7 @@ use crate::{
     io::pager::SharedPager,
     types::{LogicalId, PageId, TransactionId},
 };
-use parking_lot::{Mutex, RwLock};
+use parking_lot::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
 use std::{
     collections::{HashMap, HashSet},
     error::Error,
@@ -291,6 +291,7 @@ impl Clone for TransactionCoordinator {
             commit_counter: Arc::clone(&self.commit_counter),
             tuple_commits: Arc::clone(&self.tuple_commits),
             retired_trees: Arc::clone(&self.retired_trees),
+            statements: Arc::clone(&self.statements),
         }
     }
 }
@@ -310,6 +311,9 @@ pub struct TransactionCoordinator {
     tuple_commits: TupleCommitLog,
     /// Trees of dropped relations, with the id of the first transaction that cannot reach them.
     retired_trees: Arc<Mutex<Vec<(TransactionId, PageId)>>>,
+    /// Statements that only read run side by side, those that change trees run alone: a tree is
+    /// not latched as a whole while its pages are split, merged or looked for.
+    statements: Arc<RwLock<()>>,
 }
 
 enum ValidationResult {
@@ -325,6 +329,7 @@ impl TransactionCoordinator {
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
             retired_trees: Arc::new(Mutex::new(Vec::new())),
+            statements: Arc::new(RwLock::new(())),
         };
 
         // Load aborted transactions from PageZero into memory
@@ -333,6 +338,16 @@ impl TransactionCoordinator {
         coordinator
     }
 
+    /// Taken while trees are read.
+    pub(crate) fn latch_shared(&self) -> RwLockReadGuard<'_, ()> {
+        self.statements.read()
+    }
+
+    /// Taken while trees are changed.
+    pub(crate) fn latch_exclusive(&self) -> RwLockWriteGuard<'_, ()> {
+        self.statements.write()
+    }
+
     /// Returns the last committed transaction ID from PageZero header
     pub fn get_last_committed(&self) -> TransactionId {
         self.pager.read().get_last_committed_transaction()
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 304286c..0eaf4ba 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -1,4 +1,4 @@
-use parking_lot::{Mutex, RwLock};
+use parking_lot::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
 
 // src/sql/executor/context.rs
 use super::{RuntimeError, RuntimeResult};
@@ -67,6 +67,7 @@ impl SchemaChanges {
         self.dropped.lock().clear();
         let altered = mem::take(&mut *self.altered.lock());
         if !altered.is_empty() {
+            let _latch = self.coordinator.as_ref().map(|c| c.latch_exclusive());
             let builder = self.builder();
             for (id, schema) in altered.into_iter().rev() {
                 self.catalog
@@ -81,7 +82,12 @@ impl SchemaChanges {
         let Some(coordinator) = &self.coordinator else {
             return Ok(());
         };
-        for root in coordinator.take_retired_trees() {
+        let roots = coordinator.take_retired_trees();
+        if roots.is_empty() {
+            return Ok(());
+        }
+        let _latch = coordinator.latch_exclusive();
+        for root in roots {
             self.builder().build_tree_mut(root).dealloc()?;
         }
         Ok(())
@@ -182,6 +188,16 @@ impl ThreadContext {
         ))
     }
 
+    /// Held by a statement that only reads.
+    pub(crate) fn latch_shared(&self) -> Option<RwLockReadGuard<'_, ()>> {
+        self.coordinator.as_ref().map(|c| c.latch_shared())
+    }
+
+    /// Held by a statement that changes trees.
+    pub(crate) fn latch_exclusive(&self) -> Option<RwLockWriteGuard<'_, ()>> {
+        self.coordinator.as_ref().map(|c| c.latch_exclusive())
+    }
+
     pub(crate) fn pager(&self) -> &SharedPager {
         &self.pager
     }
diff --git a/crates/axmos-db/src/runtime/mod.rs b/crates/axmos-db/src/runtime/mod.rs
index 413e73e..86d8bf5 100644
--- a/crates/axmos-db/src/runtime/mod.rs
+++ b/crates/axmos-db/src/runtime/mod.rs
@@ -426,10 +426,13 @@ impl QueryRunner {
 
     /// Prepare an sql statement
     pub fn prepare(&self, sql: &str) -> QueryRunnerResult<BoundStatement> {
-        let ast = parse(sql)?;
+        self.bind(&parse(sql)?)
+    }
+
+    fn bind(&self, ast: &Statement) -> QueryRunnerResult<BoundStatement> {
         let builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot();
-        let bound = bind(&ast, &self.ctx.catalog(), &builder, &snapshot)?;
+        let bound = bind(ast, &self.ctx.catalog(), &builder, &snapshot)?;
         Ok(bound)
     }
 
@@ -446,11 +449,21 @@ impl QueryRunner {
     }
 
     pub(crate) fn prepare_and_run(&self, sql: &str) -> QueryRunnerResult<QueryResult> {
-        let bound = self.prepare(sql)?;
-        self.execute_statement(bound)
+        let ast = parse(sql)?;
+        if matches!(
+            ast,
+            Statement::Select(_) | Statement::With(_) | Statement::Transaction(_)
+        ) {
+            let _latch = self.ctx.latch_shared();
+            self.execute_statement(self.bind(&ast)?)
+        } else {
+            let _latch = self.ctx.latch_exclusive();
+            self.execute_statement(self.bind(&ast)?)
+        }
     }
 
     pub(crate) fn prepare_and_explain(&self, sql: &str) -> QueryRunnerResult<String> {
+        let _latch = self.ctx.latch_shared();
         let bound = self.prepare(sql)?;
         self.explain(bound)
     }
-- 
2.43.0


From 9ae5c5c615093e8a9ec3d1d72dddfca5bbd56e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 49/52] fix: transactions begin and commit one at a time, so
 that a snapshot cannot fall inside a commit

---
 crates/axmos-db/src/multithreading/coordinator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index c4b6da9..67c3877 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -292,6 +292,7 @@ impl Clone for TransactionCoordinator {
             tuple_commits: Arc::clone(&self.tuple_commits),
             retired_trees: Arc::clone(&self.retired_trees),
             statements: Arc::clone(&self.statements),
+            boundary: Arc::clone(&self.boundary),
         }
     }
 }
@@ -314,6 +315,9 @@ pub struct TransactionCoordinator {
     /// Statements that only read run side by side, those that change trees run alone: a tree is
     /// not latched as a whole while its pages are split, merged or looked for.
     statements: Arc<RwLock<()>>,
+    /// Held while a transaction begins and while one commits: a snapshot is taken either before
+    /// or after a commit, never halfway through it.
+    boundary: Arc<Mutex<()>>,
 }
 
 enum ValidationResult {
@@ -330,6 +334,7 @@ impl TransactionCoordinator {
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
             retired_trees: Arc::new(Mutex::new(Vec::new())),
             statements: Arc::new(RwLock::new(())),
+            boundary: Arc::new(Mutex::new(())),
         };
 
         // Load aborted transactions from PageZero into memory
@@ -403,6 +408,8 @@ impl TransactionCoordinator {
     /// Begin a new transaction.
     /// Returns a [TransactionHandle] to the thread that requested the begin operation.
     pub fn begin(&self) -> TransactionResult<TransactionHandle> {
+        let _boundary = self.boundary.lock();
+
         // Atomically get and increment the transaction ID in PageZero
         let txid = {
             let mut pager = self.pager.write();
@@ -436,6 +443,8 @@ impl TransactionCoordinator {
     /// Checks that no tuple in write set was modified by another committed transaction
     /// If validation passes, marks the transaction as committed
     pub fn commit(&self, txid: TransactionId) -> TransactionResult<()> {
+        let _boundary = self.boundary.lock();
+
         // Perform validation
         match self.validate_write_set(txid)? {
             ValidationResult::Allowed => {
-- 
2.43.0


From 9f3b8c7a3d29ce942afd3e3c8e7bed4cec59432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:19 +0000
Subject: [PATCH 50/52] fix: the key searched in a composite index is aligned
 as its entries are

A UNIQUE constraint over columns of different size panicked on insert, or missed duplicates.
---
 crates/axmos-db/src/runtime/validator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 0e1a0c3..1f69fd9 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -236,6 +236,9 @@ impl<'a> ConstraintValidator<'a> {
                     has_null = true;
                     break;
                 }
+                // The keys of an entry are aligned.
+                let start = key_bytes.len().next_multiple_of(values[col_idx].align());
+                key_bytes.resize(start, 0);
                 let serialized = values[col_idx].serialize()?;
                 key_bytes.extend_from_slice(&serialized);
             }
-- 
2.43.0


From 22b7efc0e89f95e263cc7da209f0a90062005c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 51/52] fix: arithmetic that mixes FLOAT or unsigned columns
 with others keeps its value in a result column

---
 crates/axmos-db/src/sql/binder/binder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 5c4ae50..97beac2 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -1136,8 +1136,16 @@ impl<'a> Binder<'a> {
     fn wider_numeric(&self, a: DataTypeKind, b: DataTypeKind) -> DataTypeKind {
         match (a, b) {
             (DataTypeKind::Double, _) | (_, DataTypeKind::Double) => DataTypeKind::Double,
+            (DataTypeKind::Float, DataTypeKind::Float) => DataTypeKind::Float,
+            (DataTypeKind::Float, _) | (_, DataTypeKind::Float) => DataTypeKind::Double,
             (DataTypeKind::BigInt, _) | (_, DataTypeKind::BigInt) => DataTypeKind::BigInt,
+            // Signed and unsigned operands are computed as signed 64 bit integers.
+            (DataTypeKind::Int, DataTypeKind::UInt | DataTypeKind::BigUInt)
+            | (DataTypeKind::UInt | DataTypeKind::BigUInt, DataTypeKind::Int) => {
+                DataTypeKind::BigInt
+            }
             (DataTypeKind::Int, _) | (_, DataTypeKind::Int) => DataTypeKind::Int,
+            (DataTypeKind::BigUInt, _) | (_, DataTypeKind::BigUInt) => DataTypeKind::BigUInt,
             _ => a,
         }
     }
-- 
2.43.0


From 207902a81f2bbf1eada1522955f9e5ed2ef3f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:11 +0000
Subject: [PATCH 52/52] fix: a transaction that VACUUM aborted executes no
 further statement

---
 crates/axmos-db/src/runtime/context.rs | 12 ++++++++++++
 crates/axmos-db/src/runtime/mod.rs     |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 0eaf4ba..1b1d5fb 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -198,6 +198,18 @@ impl ThreadContext {
         self.coordinator.as_ref().map(|c| c.latch_exclusive())
     }
 
+    /// Fails if the transaction has ended: VACUUM aborts those it finds open.
+    pub(crate) fn check_active(&self) -> RuntimeResult<()> {
+        if let Some(coordinator) = &self.coordinator
+            && coordinator.transaction_state(self.tid) != Some(TransactionState::Active)
+        {
+            return Err(RuntimeError::TransactionalError(TransactionError::Aborted(
+                self.tid,
+            )));
+        }
+        Ok(())
+    }
+
     pub(crate) fn pager(&self) -> &SharedPager {
         &self.pager
     }
diff --git a/crates/axmos-db/src/runtime/mod.rs b/crates/axmos-db/src/runtime/mod.rs
index 86d8bf5..f944287 100644
--- a/crates/axmos-db/src/runtime/mod.rs
+++ b/crates/axmos-db/src/runtime/mod.rs
@@ -455,9 +455,11 @@ impl QueryRunner {
             Statement::Select(_) | Statement::With(_) | Statement::Transaction(_)
         ) {
             let _latch = self.ctx.latch_shared();
+            self.ctx.check_active()?;
             self.execute_statement(self.bind(&ast)?)
         } else {
             let _latch = self.ctx.latch_exclusive();
+            self.ctx.check_active()?;
             self.execute_statement(self.bind(&ast)?)
         }
     }
-- 
2.43.0

