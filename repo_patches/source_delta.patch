From c76a050702405c76a18a918abbb08f10ffba1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 01/42] verif: I/O tap behind --cfg axmos_verif

---
 crates/axmos-db/src/io/disk/mod.rs | 33 +++++++++++++++++++++---
 crates/axmos-db/src/lib.rs         |  4 +++
 crates/axmos-db/src/verif/mod.rs   |  4 +++
 crates/axmos-db/src/verif/tap.rs   | 41 ++++++++++++++++++++++++++++++
 4 files changed, 79 insertions(+), 3 deletions(-)
 create mode 100644 crates/axmos-db/src/verif/mod.rs
 create mode 100644 crates/axmos-db/src/verif/tap.rs

diff --git a/crates/axmos-db/src/io/disk/mod.rs b/crates/axmos-db/src/io/disk/mod.rs
index 014a576..b23be20 100644
--- a/crates/axmos-db/src/io/disk/mod.rs
+++ b/crates/axmos-db/src/io/disk/mod.rs
@@ -154,7 +154,16 @@ impl Write for DBFile {
     }
 
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.f.write(buf)
+        #[cfg(axmos_verif)]
+        let offset = self.f.stream_position()?;
+        let written = self.f.write(buf)?;
+        #[cfg(axmos_verif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::Write {
+            path: &self.p,
+            offset,
+            data: &buf[..written],
+        });
+        Ok(written)
     }
 }
 
@@ -181,6 +190,11 @@ impl FileOperations for DBFile {
             .sync_on_write(false) // This is O_DSYNC (not used for now)
             .open(&path)?;
 
+        #[cfg(axmos_verif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::Create {
+            path: path.as_ref(),
+        });
+
         Ok(Self {
             f,
             p: path.as_ref().to_path_buf(),
@@ -203,16 +217,29 @@ impl FileOperations for DBFile {
 
     // Forcefully remove he file
     fn remove(path: impl AsRef<Path>) -> io::Result<()> {
+        #[cfg(axmos_verif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::Remove {
+            path: path.as_ref(),
+        });
         fs::remove_file(path)
     }
 
     // truncate the file to 0 len
     fn truncate(&mut self) -> io::Result<()> {
-        self.f.set_len(0)
+        self.f.set_len(0)?;
+        #[cfg(axmos_verif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::SetLen {
+            path: &self.p,
+            len: 0,
+        });
+        Ok(())
     }
 
     // sync the file to disk
     fn sync_all(&self) -> io::Result<()> {
-        File::sync_all(&self.f)
+        File::sync_all(&self.f)?;
+        #[cfg(axmos_verif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::Sync { path: &self.p });
+        Ok(())
     }
 }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index e17afb4..7b33e85 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -12,6 +12,7 @@
 #![feature(negative_impls)]
 #![feature(current_thread_id)]
 #![feature(box_vec_non_null)]
+#![allow(unexpected_cfgs)]
 pub mod common;
 pub mod io;
 mod macros;
@@ -23,6 +24,9 @@ mod storage;
 pub mod tcp;
 mod tree;
 pub mod types;
+/// Observation points for the external verification harness (built with `--cfg axmos_verif`).
+#[cfg(axmos_verif)]
+pub mod verif;
 
 pub use common::*;
 /// Jemalloc apparently has better alignment guarantees than rust's standard allocator.
diff --git a/crates/axmos-db/src/verif/mod.rs b/crates/axmos-db/src/verif/mod.rs
new file mode 100644
index 0000000..aaf9938
--- /dev/null
+++ b/crates/axmos-db/src/verif/mod.rs
@@ -0,0 +1,4 @@
+//! Observation points used by the external verification harness.
+//!
+//! This module only exists when the crate is built with `--cfg axmos_verif`.
+pub mod tap;
diff --git a/crates/axmos-db/src/verif/tap.rs b/crates/axmos-db/src/verif/tap.rs
new file mode 100644
index 0000000..92e851f
--- /dev/null
+++ b/crates/axmos-db/src/verif/tap.rs
@@ -0,0 +1,41 @@
+//! Reports every mutation of the database files to a sink installed by the harness.
+use std::{path::Path, sync::RwLock};
+
+/// A mutation of one of the files of the database, reported after it happened.
+#[derive(Debug)]
+pub enum IoEvent<'a> {
+    Create {
+        path: &'a Path,
+    },
+    Write {
+        path: &'a Path,
+        offset: u64,
+        data: &'a [u8],
+    },
+    SetLen {
+        path: &'a Path,
+        len: u64,
+    },
+    Sync {
+        path: &'a Path,
+    },
+    Remove {
+        path: &'a Path,
+    },
+}
+
+pub type Sink = Box<dyn Fn(&IoEvent<'_>) + Send + Sync>;
+
+static SINK: RwLock<Option<Sink>> = RwLock::new(None);
+
+/// Installs (or removes) the sink.
+pub fn set_sink(sink: Option<Sink>) {
+    *SINK.write().unwrap_or_else(|e| e.into_inner()) = sink;
+}
+
+pub(crate) fn emit(event: IoEvent<'_>) {
+    let guard = SINK.read().unwrap_or_else(|e| e.into_inner());
+    if let Some(sink) = guard.as_ref() {
+        sink(&event);
+    }
+}
-- 
2.43.0


From 9639059c7daed407b90ddbc6d46effa8ea44aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 02/42] fix: compare and hash numeric values exactly, whatever
 their types

Equality and ordering went through f64, so distinct integers above 2^53 were equal,
-0.0 and 0.0 were equal with different hashes, and NaN was not equal to itself.
---
 crates/axmos-db/src/types/macros/datatype.rs | 65 ++++++++++----------
 crates/axmos-db/src/types/mod.rs             | 45 ++++++++++++++
 2 files changed, 79 insertions(+), 31 deletions(-)

diff --git a/crates/axmos-db/src/types/macros/datatype.rs b/crates/axmos-db/src/types/macros/datatype.rs
index 5241034..f22081d 100644
--- a/crates/axmos-db/src/types/macros/datatype.rs
+++ b/crates/axmos-db/src/types/macros/datatype.rs
@@ -13,10 +13,10 @@ macro_rules! impl_datatype_partial_eq {
                     (Self::Bool(a), Self::Bool(b)) => a == b,
                     (Self::Blob(a), Self::Blob(b)) => a == b,
 
-                    // Numeric types are promoted to f64 to compare
+                    // Numeric types are compared by their exact mathematical value
                     (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x == y,
+                        match (a.numeric_value(), b.numeric_value()) {
+                            (Some(x), Some(y)) => x.compare(&y) == Ordering::Equal,
                             _ => false,
                         }
                     }
@@ -44,10 +44,10 @@ macro_rules! impl_datatype_partial_ord {
                     // Blob uses lexicographic ordering
                     (Self::Blob(a), Self::Blob(b)) => a.partial_cmp(b),
 
-                    // Numeric types are promoted to f64 and compared
+                    // Numeric types are compared by their exact mathematical value
                     (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x.partial_cmp(&y),
+                        match (a.numeric_value(), b.numeric_value()) {
+                            (Some(x), Some(y)) => Some(x.compare(&y)),
                             _ => None,
                         }
                     }
@@ -82,35 +82,38 @@ macro_rules! impl_datatype_hash {
                         1u8.hash(state);
                         (b.value() as u8).hash(state);
                     }
-                    // Numerics are converted to bits using the same discriminant
-                    Self::Int(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::UInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigUInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Float(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Double(v) => {
-                        2u8.hash(state);
-                        v.0.to_bits().hash(state);
-                    }
                     Self::Blob(b) => {
                         3u8.hash(state);
                         b.as_ref().hash(state);
                     }
+                    // Numerics that compare equal must hash equal, whatever their type is.
+                    numeric => {
+                        2u8.hash(state);
+                        if let Some(value) = numeric.numeric_value() {
+                            value.hash(state);
+                        }
+                    }
+                }
+            }
+        }
+    };
+}
+
+/// Macro to extract the exact numeric value of a datatype
+#[macro_export]
+macro_rules! impl_datatype_numeric_value {
+    ($($type_name:tt)+) => {
+        impl $($type_name)+ {
+            /// Exact value of a numeric type, [None] if it is not numeric.
+            fn numeric_value(&self) -> Option<NumericValue> {
+                match self {
+                    Self::Int(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::BigInt(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::UInt(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::BigUInt(v) => Some(NumericValue::Integer(v.0 as i128)),
+                    Self::Float(v) => Some(NumericValue::Real(v.0 as f64)),
+                    Self::Double(v) => Some(NumericValue::Real(v.0)),
+                    _ => None,
                 }
             }
         }
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index d41262f..fcb991d 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -288,6 +288,51 @@ impl Eq for DataTypeRef<'_> {}
 crate::impl_datatype_hash!(DataType);
 crate::impl_datatype_hash!(DataTypeRef<'_>);
 
+crate::impl_datatype_numeric_value!(DataType);
+crate::impl_datatype_numeric_value!(DataTypeRef<'_>);
+
+/// Value of a numeric type without any loss of precision.
+enum NumericValue {
+    Integer(i128),
+    Real(f64),
+}
+
+impl NumericValue {
+    /// Total order by mathematical value: -0.0 equals 0.0, and NaN equals itself and sorts last.
+    fn compare(&self, other: &Self) -> Ordering {
+        match (self, other) {
+            (Self::Integer(a), Self::Integer(b)) => a.cmp(b),
+            (Self::Real(a), Self::Real(b)) => a
+                .partial_cmp(b)
+                .unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())),
+            (Self::Integer(a), Self::Real(b)) => Self::compare_mixed(*a, *b),
+            (Self::Real(a), Self::Integer(b)) => Self::compare_mixed(*b, *a).reverse(),
+        }
+    }
+
+    fn compare_mixed(int: i128, real: f64) -> Ordering {
+        if real.is_nan() {
+            return Ordering::Less;
+        }
+        // The cast saturates, and no 64 bit integer is anywhere near the limits of an i128.
+        let truncated = real.trunc();
+        int.cmp(&(truncated as i128))
+            .then_with(|| truncated.total_cmp(&real))
+    }
+}
+
+impl Hash for NumericValue {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        match self {
+            Self::Integer(v) => v.hash(state),
+            // Reals with an integral value hash as the integer they are equal to.
+            Self::Real(v) if v.trunc() == *v => (*v as i128).hash(state),
+            Self::Real(v) if v.is_nan() => f64::NAN.to_bits().hash(state),
+            Self::Real(v) => v.to_bits().hash(state),
+        }
+    }
+}
+
 impl DataType {
     arithmetic_op!(add, promoted_add);
     arithmetic_op!(sub, promoted_sub);
-- 
2.43.0


From 28123f0e58ac077eb6ffa874957ca95114dda6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 03/42] fix: reject float to 64 bit integer casts that are out
 of range

---
 crates/axmos-db/src/types/numeric.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/types/numeric.rs b/crates/axmos-db/src/types/numeric.rs
index 4cf3281..f6c3a50 100644
--- a/crates/axmos-db/src/types/numeric.rs
+++ b/crates/axmos-db/src/types/numeric.rs
@@ -83,7 +83,8 @@ fn f64_to_signed<T>(value: f64, min: f64, max: f64, convert: fn(i64) -> T) -> Op
         return None;
     }
     let t = value.trunc();
-    if t < min || t > max {
+    // [max] may have been rounded up when it was converted to f64, -min is always exact.
+    if t < min || t > max || t >= -min {
         return None;
     }
     Some(convert(t as i64))
@@ -95,7 +96,8 @@ fn f64_to_unsigned<T>(value: f64, max: f64, convert: fn(u64) -> T) -> Option<T>
         return None;
     }
     let t = value.trunc();
-    if t > max {
+    // [max] is rounded up to 2^64 when it is u64::MAX.
+    if t >= max + 1.0 {
         return None;
     }
     Some(convert(t as u64))
-- 
2.43.0


From 8b585510a7f3127e8add5daf6cc6fd96db239c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 04/42] fix: report integer overflow and division by zero
 instead of panicking

---
 crates/axmos-db/src/types/macros/numeric.rs | 72 ++++++---------------
 crates/axmos-db/src/types/mod.rs            | 27 ++++++--
 2 files changed, 41 insertions(+), 58 deletions(-)

diff --git a/crates/axmos-db/src/types/macros/numeric.rs b/crates/axmos-db/src/types/macros/numeric.rs
index c64b163..b8f6510 100644
--- a/crates/axmos-db/src/types/macros/numeric.rs
+++ b/crates/axmos-db/src/types/macros/numeric.rs
@@ -133,7 +133,7 @@ macro_rules! promote_symmetric {
 
 #[macro_export]
 macro_rules! arithmetic_op {
-    ($method:ident, $trait_method:ident) => {
+    ($method:ident, $trait_method:ident, $checked_method:ident) => {
         pub fn $method(&self, other: &DataType) -> TypeSystemResult<DataType> {
             use crate::types::core::*;
 
@@ -202,58 +202,24 @@ macro_rules! arithmetic_op {
                     Ok(DataType::Double(Float64(a.$trait_method(*b))))
                 }
 
-                // Signed int combinations
-                (DataType::BigInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-
-                // Signed + Unsigned
-                (DataType::BigInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::BigInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::Int(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::Int(b)) => {
-                    Ok(DataType::BigInt(Int64(a.$trait_method(*b))))
-                }
-
-                // Unsigned combinations
-                (DataType::BigUInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::BigUInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::BigUInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
-                }
-                (DataType::UInt(a), DataType::UInt(b)) => {
-                    Ok(DataType::BigUInt(UInt64(a.$trait_method(*b))))
+                // Integer combinations. Two unsigned operands give an unsigned result.
+                (a, b) if a.is_integer() && b.is_integer() => {
+                    let (Some(x), Some(y)) = (a.integer_value(), b.integer_value()) else {
+                        return Err(TypeSystemError::ArithmeticError);
+                    };
+                    let result = x
+                        .$checked_method(y)
+                        .ok_or(TypeSystemError::ArithmeticError)?;
+
+                    if a.is_unsigned() && b.is_unsigned() {
+                        u64::try_from(result)
+                            .map(|v| DataType::BigUInt(UInt64(v)))
+                            .map_err(|_| TypeSystemError::ArithmeticError)
+                    } else {
+                        i64::try_from(result)
+                            .map(|v| DataType::BigInt(Int64(v)))
+                            .map_err(|_| TypeSystemError::ArithmeticError)
+                    }
                 }
 
                 // Non-numeric
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index fcb991d..03ec703 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -78,6 +78,7 @@ pub enum TypeSystemError {
     Utf8Error(Utf8Error),
     UnexpectedDataType(DataTypeKind),
     SerializationError(SerializationError),
+    ArithmeticError,
 }
 
 impl Error for TypeSystemError {}
@@ -88,6 +89,7 @@ impl Display for TypeSystemError {
             Self::Utf8Error(e) => write!(f, "utf8 error: {e}"),
             Self::SerializationError(e) => write!(f, "deserialization error: {e}"),
             Self::UnexpectedDataType(dt) => write!(f, "unexpected data type: {dt}"),
+            Self::ArithmeticError => f.write_str("arithmetic overflow or division by zero"),
         }
     }
 }
@@ -334,11 +336,26 @@ impl Hash for NumericValue {
 }
 
 impl DataType {
-    arithmetic_op!(add, promoted_add);
-    arithmetic_op!(sub, promoted_sub);
-    arithmetic_op!(mul, promoted_mul);
-    arithmetic_op!(div, promoted_div);
-    arithmetic_op!(rem, promoted_rem);
+    arithmetic_op!(add, promoted_add, checked_add);
+    arithmetic_op!(sub, promoted_sub, checked_sub);
+    arithmetic_op!(mul, promoted_mul, checked_mul);
+    arithmetic_op!(div, promoted_div, checked_div);
+    arithmetic_op!(rem, promoted_rem, checked_rem);
+
+    fn is_unsigned(&self) -> bool {
+        matches!(self, DataType::UInt(_) | DataType::BigUInt(_))
+    }
+
+    fn is_integer(&self) -> bool {
+        self.is_unsigned() || matches!(self, DataType::Int(_) | DataType::BigInt(_))
+    }
+
+    fn integer_value(&self) -> Option<i128> {
+        match self.numeric_value() {
+            Some(NumericValue::Integer(v)) => Some(v),
+            _ => None,
+        }
+    }
 
     /// Try to cast this DataType to a different DataTypeKind
     pub fn try_cast(&self, target: DataTypeKind) -> TypeSystemResult<DataType> {
-- 
2.43.0


From d791ea77d5af807ece6d52bfc13a31d9b804c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 05/42] fix: follow SQL semantics when evaluating expressions

IS NOT NULL, NOT BETWEEN, NOT IN and NOT LIKE ignored their negation, BETWEEN and IN ignored
NULLs, CASE and subquery expressions panicked, scalar functions failed on NULL.
---
 crates/axmos-db/src/runtime/eval.rs | 263 +++++++++++++++++++---------
 1 file changed, 184 insertions(+), 79 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 7455be8..488c5da 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -14,7 +14,7 @@ use crate::{
     types::{Blob, DataType, DataTypeKind, bool::Bool},
 };
 use std::{
-    collections::HashSet,
+    cmp::Ordering,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
 };
@@ -119,7 +119,7 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
                 Ok(vec![DataType::Bool(Bool(
-                    matches!(evaluated[0], DataType::Null) || *negated,
+                    matches!(evaluated[0], DataType::Null) != *negated,
                 ))])
             }
             BoundExpression::Between {
@@ -137,45 +137,69 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
 
-                Ok(vec![DataType::Bool(Bool(
-                    (inner[0] >= low[0] && inner[0] <= high[0]) || *negated,
-                ))])
-            }
-            BoundExpression::Exists { query, negated } => {
-                todo!("Subquery evaluation is not yet implemented")
+                // [x BETWEEN a AND b] is [x >= a AND x <= b], including its behaviour with nulls.
+                let above = Self::compare(&inner[0], &low[0], |ord| ord.is_ge());
+                let below = Self::compare(&inner[0], &high[0], |ord| ord.is_le());
+                let result = Self::logical_and(&above, &below)?;
+                Ok(vec![Self::negate_if(result, *negated)])
             }
+            BoundExpression::Exists { .. } => Err(EvaluationError::InvalidExpression(
+                "EXISTS subqueries are not supported".to_string(),
+            )),
             BoundExpression::InList {
                 expr,
                 list,
                 negated,
             } => {
-                let mut set: HashSet<DataType> = HashSet::new();
-                for exp in list {
-                    let eval = self.evaluate(exp)?;
-                    for item in eval {
-                        set.insert(item);
-                    }
-                }
-
                 let evaluated = self.evaluate(expr)?;
                 if evaluated.len() > 1 {
                     return Err(EvaluationError::InvalidExpression(
                         "cannot apply unary operators to lists of values!".to_string(),
                     ));
                 };
-                Ok(vec![DataType::Bool(Bool(
-                    set.contains(&evaluated[0]) || *negated,
-                ))])
+
+                let mut items = Vec::with_capacity(list.len());
+                for exp in list {
+                    items.extend(self.evaluate(exp)?);
+                }
+
+                let result = Self::contained_in(&evaluated[0], &items);
+                Ok(vec![Self::negate_if(result, *negated)])
             }
-            BoundExpression::Subquery { query, result_type } => {
-                todo!("Subquery evaluation is not yet implemented")
+            BoundExpression::Subquery { .. } | BoundExpression::InSubquery { .. } => {
+                Err(EvaluationError::InvalidExpression(
+                    "subqueries are not supported as expressions".to_string(),
+                ))
             }
-            BoundExpression::InSubquery {
-                expr,
-                query,
-                negated,
+            BoundExpression::Case {
+                operand,
+                when_then,
+                else_expr,
+                ..
             } => {
-                todo!("Subquery evaluation is not yet implemented")
+                let operand = operand
+                    .as_ref()
+                    .map(|op| self.evaluate_as_single_value(op))
+                    .transpose()?;
+
+                for (when, then) in when_then {
+                    let matches = match &operand {
+                        Some(value) => {
+                            let candidate = self.evaluate_as_single_value(when)?;
+                            !value.is_null() && !candidate.is_null() && *value == candidate
+                        }
+                        None => self.evaluate_as_bool(when)?,
+                    };
+
+                    if matches {
+                        return self.evaluate(then);
+                    }
+                }
+
+                match else_expr {
+                    Some(expr) => self.evaluate(expr),
+                    None => Ok(vec![DataType::Null]),
+                }
             }
             BoundExpression::Function {
                 func,
@@ -191,7 +215,7 @@ impl<'a> ExpressionEvaluator<'a> {
                 match func {
                     ScalarFunction::Abs => {
                         let result = Abs::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Cast => {
@@ -204,63 +228,63 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                     ScalarFunction::Ceil => {
                         let result = Ceil::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Coalesce => {
                         let result = Coalesce::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Concat => {
                         let result = Concat::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
 
                     ScalarFunction::Floor => {
                         let result = Floor::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::NullIf => {
                         let result = NullIf::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Round => {
                         let result = Round::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::LTrim => {
                         let result = LTrim::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::RTrim => {
                         let result = RTrim::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Length => {
                         let result = Length::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Lower => {
                         let result = Lower::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Upper => {
                         let result = Upper::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
                     ScalarFunction::Sqrt => {
                         let result = Sqrt::call(arg_list)?;
-                        let result = result.try_cast(*return_type)?;
+                        let result = Self::cast_result(result, *return_type)?;
                         Ok(vec![result])
                     }
 
@@ -269,7 +293,12 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                 }
             }
-            _ => unreachable!("Should not reach here when calling the evaluator"),
+            BoundExpression::Aggregate { func, .. } => Err(EvaluationError::InvalidExpression(
+                format!("aggregate function {} is not allowed here", func.name()),
+            )),
+            BoundExpression::Star => Err(EvaluationError::InvalidExpression(
+                "* is not allowed here".to_string(),
+            )),
         }
     }
 
@@ -300,10 +329,58 @@ impl<'a> ExpressionEvaluator<'a> {
         Ok(self.row[idx].clone())
     }
 
+    /// Compares two values, yielding NULL if any of them is NULL.
+    fn compare(left: &DataType, right: &DataType, accept: fn(Ordering) -> bool) -> DataType {
+        if left.is_null() || right.is_null() {
+            return DataType::Null;
+        }
+        DataType::Bool(Bool(left.partial_cmp(right).is_some_and(accept)))
+    }
+
+    /// Evaluates [value IN (items)]: NULL unless the value is found or there are no nulls involved.
+    fn contained_in(value: &DataType, items: &[DataType]) -> DataType {
+        if items.is_empty() {
+            return DataType::Bool(Bool(false));
+        }
+        if value.is_null() {
+            return DataType::Null;
+        }
+        if items.contains(value) {
+            return DataType::Bool(Bool(true));
+        }
+        if items.iter().any(|item| item.is_null()) {
+            return DataType::Null;
+        }
+        DataType::Bool(Bool(false))
+    }
+
+    /// Negates a boolean value if required. The negation of NULL is NULL.
+    fn negate_if(value: DataType, negated: bool) -> DataType {
+        match value {
+            DataType::Bool(Bool(b)) => DataType::Bool(Bool(b != negated)),
+            other => other,
+        }
+    }
+
+    /// Casts the result of a function to the type the binder inferred (if any) for it.
+    fn cast_result(result: DataType, return_type: DataTypeKind) -> TypeSystemResult<DataType> {
+        if matches!(return_type, DataTypeKind::Null) {
+            return Ok(result);
+        }
+        result.try_cast(return_type)
+    }
+
     fn logical_and(left: &DataType, right: &DataType) -> TypeSystemResult<DataType> {
-        // Handle NULL semantics first (ANSI SQL logic)
+        // Handle NULL semantics first (ANSI SQL logic): FALSE AND NULL = FALSE
         if matches!(left, DataType::Null) || matches!(right, DataType::Null) {
-            return Ok(DataType::Null);
+            let any_false = [left, right]
+                .iter()
+                .any(|value| matches!(value, DataType::Bool(Bool(false))));
+            return Ok(if any_false {
+                DataType::Bool(Bool(false))
+            } else {
+                DataType::Null
+            });
         }
 
         // Extract bool values
@@ -356,7 +433,7 @@ impl<'a> ExpressionEvaluator<'a> {
 
         // Convert back to Blob and wrap as Text
         Ok(DataType::Bool(Bool(
-            !negated && lhs_blob.like(pattern_blob.as_str()?)?,
+            negated != lhs_blob.like(pattern_blob.as_str()?)?,
         )))
     }
 
@@ -416,6 +493,8 @@ impl<'a> ExpressionEvaluator<'a> {
                             return Ok(vec![DataType::Bool(Bool(true))]);
                         };
                     }
+                    // IS and IS NOT never yield NULL.
+                    BinaryOperator::Is | BinaryOperator::IsNot => {}
                     _ => return Ok(vec![DataType::Null]),
                 }
             }
@@ -476,12 +555,11 @@ impl<'a> ExpressionEvaluator<'a> {
             }
         } else if right.len() > 1 {
             match bin_op {
-                BinaryOperator::In => {
-                    return Ok(vec![DataType::Bool(Bool(right.contains(&left[0])))]);
-                }
-                BinaryOperator::NotIn => {
-                    return Ok(vec![DataType::Bool(Bool(!right.contains(&left[0])))]);
-                }
+                BinaryOperator::In => Ok(vec![Self::contained_in(&left[0], &right)]),
+                BinaryOperator::NotIn => Ok(vec![Self::negate_if(
+                    Self::contained_in(&left[0], &right),
+                    true,
+                )]),
                 _ => Err(EvaluationError::InvalidExpression(
                     "only in and not in operators can be applied to lists".to_string(),
                 )),
@@ -511,8 +589,14 @@ impl<'a> ExpressionEvaluator<'a> {
                 )),
             },
             UnaryOperator::Minus => match operand {
-                DataType::BigInt(i) => Ok(DataType::BigInt((-i.0).into())),
-                DataType::Int(i) => Ok(DataType::Int((-i.0).into())),
+                DataType::BigInt(_) | DataType::UInt(_) | DataType::BigUInt(_) => {
+                    Ok(DataType::BigInt(0.into()).sub(&operand)?)
+                }
+                // Same width as the operand unless the result does not fit.
+                DataType::Int(i) => Ok(match i.0.checked_neg() {
+                    Some(negated) => DataType::Int(negated.into()),
+                    None => DataType::BigInt((-(i.0 as i64)).into()),
+                }),
                 DataType::Double(f) => Ok(DataType::Double((-f.0).into())),
                 DataType::Float(f) => Ok(DataType::Float((-f.0).into())),
                 _ => Err(EvaluationError::TypeError(
@@ -532,12 +616,16 @@ struct Abs;
 
 impl Callable for Abs {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
+        if args.len() != 1 || !(args[0].is_numeric() || args[0].is_null()) {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Abs));
         };
 
-        let first = &args[0];
-        Ok(first.abs())
+        match &args[0] {
+            // The smallest integers have no positive counterpart of the same width.
+            DataType::Int(i) => Ok(DataType::BigInt((i.0 as i64).abs().into())),
+            DataType::BigInt(i) => Ok(DataType::BigUInt(i.0.unsigned_abs().into())),
+            other => Ok(other.abs()),
+        }
     }
 }
 
@@ -545,7 +633,7 @@ struct Ceil;
 
 impl Callable for Ceil {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
+        if args.len() != 1 || !(args[0].is_numeric() || args[0].is_null()) {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
         };
 
@@ -558,8 +646,8 @@ struct Floor;
 
 impl Callable for Floor {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
+        if args.len() != 1 || !(args[0].is_numeric() || args[0].is_null()) {
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Floor));
         };
 
         let first = &args[0];
@@ -571,8 +659,8 @@ struct Round;
 
 impl Callable for Round {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
+        if args.len() != 1 || !(args[0].is_numeric() || args[0].is_null()) {
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Round));
         };
 
         let first = &args[0];
@@ -584,11 +672,12 @@ struct Sqrt;
 
 impl Callable for Sqrt {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !args[0].is_numeric() {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
+        if args.len() != 1 || !(args[0].is_numeric() || args[0].is_null()) {
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Sqrt));
         };
 
-        let first = &args[0];
+        // The square root of an integer is not an integer.
+        let first = args[0].try_cast(DataTypeKind::Double)?;
         Ok(first.sqrt())
     }
 }
@@ -597,14 +686,12 @@ struct Coalesce;
 
 impl Callable for Coalesce {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 2 {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
+        if args.is_empty() {
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Coalesce));
         };
 
-        if args[0].is_null() {
-            return Ok(args[1].clone());
-        }
-        Ok(args[0].clone())
+        let first_non_null = args.into_iter().find(|arg| !arg.is_null());
+        Ok(first_non_null.unwrap_or(DataType::Null))
     }
 }
 
@@ -616,8 +703,12 @@ impl Callable for Concat {
             return Ok(DataType::Blob(Blob::from("")));
         }
 
+        if args.iter().any(|p| p.is_null()) {
+            return Ok(DataType::Null);
+        }
+
         if !args.iter().all(|p| p.is_blob()) {
-            return Err(EvaluationError::InvalidArguments(ScalarFunction::Ceil));
+            return Err(EvaluationError::InvalidArguments(ScalarFunction::Concat));
         };
 
         let mut result = String::new();
@@ -644,21 +735,14 @@ struct NullIf;
 
 impl Callable for NullIf {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !matches!(args[1], DataType::Bool(_)) {
+        let [value, other] = args.as_slice() else {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::NullIf));
         };
 
-        let condition = args[1]
-            .as_bool()
-            .ok_or(EvaluationError::TypeError(
-                TypeSystemError::UnexpectedDataType(args[1].kind()),
-            ))?
-            .value();
-
-        if condition {
+        if !other.is_null() && value == other {
             return Ok(DataType::Null);
         }
-        Ok(args[0].clone())
+        Ok(value.clone())
     }
 }
 
@@ -674,6 +758,10 @@ impl Callable for LTrim {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::LTrim));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -690,6 +778,10 @@ impl Callable for RTrim {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::RTrim));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -705,6 +797,10 @@ impl Callable for Lower {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Lower));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -719,6 +815,11 @@ impl Callable for Upper {
         if args.len() != 1 {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Upper));
         }
+
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
@@ -734,6 +835,10 @@ impl Callable for Length {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::Length));
         }
 
+        if args[0].is_null() {
+            return Ok(DataType::Null);
+        }
+
         let blob = args[0].as_blob().ok_or(EvaluationError::TypeError(
             TypeSystemError::UnexpectedDataType(args[0].kind()),
         ))?;
-- 
2.43.0


From 7c12dd45e29f67436afd5fd0259c286dade89f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 06/42] fix: NOT binds tighter than AND, as documented

NOT a AND b was parsed as NOT (a AND b).
---
 crates/axmos-db/src/sql/parser/mod.rs | 94 +++++++++++++++++++++------
 1 file changed, 74 insertions(+), 20 deletions(-)

diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a404639..1b5b280 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -39,8 +39,17 @@ pub type ParseResult<T> = Result<T, ParserError>;
 pub struct Parser {
     lexer: Lexer,
     current_token: Token,
+    /// Number of expressions and queries that are being parsed, one inside another.
+    depth: usize,
+    /// Height of the tree built so far for the innermost of them.
+    height: usize,
 }
 
+/// Statements are processed recursively, so their nesting must be bounded.
+const MAX_NESTING_DEPTH: usize = 64;
+/// Bound for the height of the trees. Chains of operators are not nested, but they add up here.
+const MAX_TREE_HEIGHT: usize = 400;
+
 impl Parser {
     pub fn new(sql: &str) -> Self {
         let mut lexer = Lexer::new(sql);
@@ -48,7 +57,26 @@ impl Parser {
         Parser {
             lexer,
             current_token,
+            depth: 0,
+            height: 0,
+        }
+    }
+
+    fn nesting_error() -> ParserError {
+        ParserError::InvalidExpression("statement is nested too deeply".to_string())
+    }
+
+    /// Runs a parsing function one nesting level below the current one.
+    fn nested<T>(&mut self, parse: impl FnOnce(&mut Self) -> ParseResult<T>) -> ParseResult<T> {
+        if self.depth >= MAX_NESTING_DEPTH {
+            return Err(Self::nesting_error());
         }
+        self.depth += 1;
+        let siblings_height = mem::take(&mut self.height);
+        let result = parse(self);
+        self.height = siblings_height.max(self.height + 1);
+        self.depth -= 1;
+        result
     }
 
     fn next_token(&mut self) {
@@ -88,6 +116,10 @@ impl Parser {
     /// Obtains the expression binding power using a Pratt Parsing approach.
     /// I recommend this read on Pratt Parsing: https://matklad.github.io/2020/04/13/simple-but-powerful-pratt-parsing.html
     fn parse_expr_bp(&mut self, min_bp: u8) -> ParseResult<Expr> {
+        self.nested(|parser| parser.parse_operators(min_bp))
+    }
+
+    fn parse_operators(&mut self, min_bp: u8) -> ParseResult<Expr> {
         let mut lhs = self.parse_prefix()?;
 
         while let Some((l_bp, r_bp)) = self.infix_binding_power() {
@@ -96,6 +128,12 @@ impl Parser {
             }
 
             lhs = self.parse_infix(lhs, r_bp)?;
+
+            // Each operator of a chain makes the expression one level deeper.
+            self.height += 1;
+            if self.height > MAX_TREE_HEIGHT {
+                return Err(Self::nesting_error());
+            }
         }
 
         Ok(lhs)
@@ -109,6 +147,11 @@ impl Parser {
                 self.next_token();
                 Ok(Expr::Number(num))
             }
+            Token::IntegerLiteral(n) => {
+                let num = *n as i128;
+                self.next_token();
+                Ok(Expr::Integer(num))
+            }
             Token::StringLiteral(s) => {
                 let string = s.clone();
                 self.next_token();
@@ -235,6 +278,9 @@ impl Parser {
                     let num = -n;
                     self.next_token();
                     Ok(Expr::Number(num))
+                } else if let Token::IntegerLiteral(n) = self.current_token {
+                    self.next_token();
+                    Ok(Expr::Integer(-(n as i128)))
                 } else {
                     // Regular unary minus for expressions
                     let expr = self.parse_expr_bp(9)?;
@@ -249,12 +295,12 @@ impl Parser {
             // Token::Or => Some((1, 2)),
             // Token::And => Some((3, 4)),
             // ´´´
-            // By giving here the NOT operator a precedence of three, we are making sur it binds tighter than  AND & OR,
+            // By giving here the NOT operator a precedence of five, we are making sur it binds tighter than  AND & OR,
             // but looselier than +, - , * an unary operators.
             // This way, the expression: [NOT a AND b OR c], will be parsed as: (OR (AND (NOT a) b) c)
             Token::Not => {
                 self.next_token();
-                let expr = self.parse_expr_bp(3)?; // NOT precedence
+                let expr = self.parse_expr_bp(5)?; // NOT precedence
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Not,
                     expr: Box::new(expr),
@@ -1172,6 +1218,10 @@ impl Parser {
     /// LIMIT n;
     /// ```
     fn parse_select_statement(&mut self) -> ParseResult<SelectStatement> {
+        self.nested(Self::parse_select)
+    }
+
+    fn parse_select(&mut self) -> ParseResult<SelectStatement> {
         self.expect(Token::Select)?;
 
         let distinct = self.consume_if(&Token::Distinct);
@@ -1233,30 +1283,34 @@ impl Parser {
 
         // Parse LIMIT clause
         let limit = if self.consume_if(&Token::Limit) {
-            if let Token::NumberLiteral(n) = self.current_token {
-                let limit_val = n as usize;
-                self.next_token();
-                Some(limit_val)
-            } else {
-                return Err(ParserError::InvalidExpression(
-                    "expected number after LIMIT".to_string(),
-                ));
-            }
+            let limit_val = match self.current_token {
+                Token::NumberLiteral(n) => n as usize,
+                Token::IntegerLiteral(n) => n as usize,
+                _ => {
+                    return Err(ParserError::InvalidExpression(
+                        "expected number after LIMIT".to_string(),
+                    ));
+                }
+            };
+            self.next_token();
+            Some(limit_val)
         } else {
             None
         };
 
         // Parse OFFSET clause
         let offset = if self.consume_if(&Token::Offset) {
-            if let Token::NumberLiteral(n) = self.current_token {
-                let offset_val = n as usize;
-                self.next_token();
-                Some(offset_val)
-            } else {
-                return Err(ParserError::InvalidExpression(
-                    "expected number after OFFSET".to_string(),
-                ));
-            }
+            let offset_val = match self.current_token {
+                Token::NumberLiteral(n) => n as usize,
+                Token::IntegerLiteral(n) => n as usize,
+                _ => {
+                    return Err(ParserError::InvalidExpression(
+                        "expected number after OFFSET".to_string(),
+                    ));
+                }
+            };
+            self.next_token();
+            Some(offset_val)
         } else {
             None
         };
-- 
2.43.0


From f1244d6b3f7653a75e87191e223ba3e60ca571f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 07/42] fix: keep every digit of integer literals and bound the
 nesting of statements

Integers above 2^53 were rounded through f64. Deeply nested expressions and long runs of
ignored characters overflowed the stack, which aborts the process.
---
 crates/axmos-db/src/sql/binder/analyzer.rs | 15 +++++++--
 crates/axmos-db/src/sql/binder/binder.rs   | 16 +++++++++-
 crates/axmos-db/src/sql/parser/ast.rs      |  3 ++
 crates/axmos-db/src/sql/parser/lexer.rs    | 36 +++++++++++++++++-----
 4 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index 34f6f04..0c982f5 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -291,7 +291,12 @@ impl Analyzer {
                 Ok(())
             }
             // Literals don't need validation
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null | Expr::Star => {
+            Expr::Number(_)
+            | Expr::Integer(_)
+            | Expr::String(_)
+            | Expr::Boolean(_)
+            | Expr::Null
+            | Expr::Star => {
                 Ok(())
             }
         }
@@ -401,7 +406,7 @@ impl Analyzer {
     /// Infers the data type of an expression.
     fn infer_expr_type(&self, expr: &Expr) -> AnalyzerResult<DataTypeKind> {
         match expr {
-            Expr::Number(_) => Ok(DataTypeKind::Double),
+            Expr::Number(_) | Expr::Integer(_) => Ok(DataTypeKind::Double),
             Expr::String(_) => Ok(DataTypeKind::Blob),
             Expr::Boolean(_) => Ok(DataTypeKind::Bool),
             Expr::Null => Ok(DataTypeKind::Null),
@@ -871,7 +876,11 @@ impl Analyzer {
     /// Validates expressions that don't require table scope (literals, simple expressions)
     fn validate_literal_expr(&self, expr: &Expr) -> AnalyzerResult<()> {
         match expr {
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null => Ok(()),
+            Expr::Number(_)
+            | Expr::Integer(_)
+            | Expr::String(_)
+            | Expr::Boolean(_)
+            | Expr::Null => Ok(()),
             Expr::UnaryOp { expr, .. } => self.validate_literal_expr(expr),
             Expr::BinaryOp { left, right, .. } => {
                 self.validate_literal_expr(left)?;
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 71a13a8..0240f55 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -743,6 +743,7 @@ impl<'a> Binder<'a> {
     fn bind_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -974,6 +975,7 @@ impl<'a> Binder<'a> {
     fn bind_literal_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -1015,7 +1017,7 @@ impl<'a> Binder<'a> {
 
         let value = if is_int && n >= i32::MIN as f64 && n <= i32::MAX as f64 {
             DataType::Int((n as i32).into())
-        } else if is_int && n >= i64::MIN as f64 && n <= i64::MAX as f64 {
+        } else if is_int && n >= i64::MIN as f64 && n < i64::MAX as f64 {
             DataType::BigInt((n as i64).into())
         } else {
             DataType::Double(n.into())
@@ -1024,6 +1026,18 @@ impl<'a> Binder<'a> {
         BoundExpression::Literal { value }
     }
 
+    fn bind_integer(&self, n: i128) -> BoundExpression {
+        let value = if let Ok(signed) = i64::try_from(n) {
+            DataType::BigInt(signed.into())
+        } else if let Ok(unsigned) = u64::try_from(n) {
+            DataType::BigUInt(unsigned.into())
+        } else {
+            DataType::Double((n as f64).into())
+        };
+
+        BoundExpression::Literal { value }
+    }
+
     fn try_parse_aggregate(&self, name: &str) -> Option<AggregateFunction> {
         match name {
             "COUNT" => Some(AggregateFunction::Count),
diff --git a/crates/axmos-db/src/sql/parser/ast.rs b/crates/axmos-db/src/sql/parser/ast.rs
index 5ec3666..ccc21d8 100644
--- a/crates/axmos-db/src/sql/parser/ast.rs
+++ b/crates/axmos-db/src/sql/parser/ast.rs
@@ -9,6 +9,8 @@ pub(crate) trait Simplify {
 pub(crate) enum Expr {
     // Literals
     Number(f64),
+    /// Integer that cannot be represented exactly as f64
+    Integer(i128),
     String(String),
     Boolean(bool),
     Null,
@@ -783,6 +785,7 @@ impl Display for Expr {
     fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
         match self {
             Expr::Number(n) => write!(f, "{n}"),
+            Expr::Integer(n) => write!(f, "{n}"),
             Expr::String(s) => write!(f, "'{s}'"),
             Expr::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),
             Expr::Null => write!(f, "NULL"),
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index e4bfb20..8ee873b 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -123,6 +123,8 @@ pub enum Token {
     Identifier(String),
     StringLiteral(String),
     NumberLiteral(f64),
+    /// Integers that cannot be represented exactly as f64
+    IntegerLiteral(u64),
 
     // Symbols and operators
     Star,      // *
@@ -153,6 +155,7 @@ impl fmt::Display for Token {
             Token::Identifier(s) => write!(f, "{s}"),
             Token::StringLiteral(s) => write!(f, "'{s}'"),
             Token::NumberLiteral(n) => write!(f, "{n}"),
+            Token::IntegerLiteral(n) => write!(f, "{n}"),
             Token::Star => write!(f, "*"),
             Token::Comma => write!(f, ","),
             Token::Dot => write!(f, "."),
@@ -180,6 +183,8 @@ impl fmt::Display for Token {
 const ESCAPE_QUOTE: char = '\'';
 const DOUBLE_QUOTE: char = '"';
 const DECIMAL_MARKER: char = '.';
+/// Largest integer such that all the integers up to it are representable as f64
+const MAX_EXACT_INTEGER: u64 = 1 << f64::MANTISSA_DIGITS;
 const UNDERSCORE: char = '_';
 const STAR: char = '*';
 const COMMA: char = ',';
@@ -282,7 +287,8 @@ impl Lexer {
 
     // Read a number from the input buffer.
     // On my implementation, decimals are represented with dots.
-    fn read_number(&mut self) -> f64 {
+    // Integers that do not fit in the mantissa of a f64 keep all of their digits.
+    fn read_number(&mut self) -> Token {
         let mut num_str = String::new();
 
         while let Some(ch) = self.current_char {
@@ -294,7 +300,10 @@ impl Lexer {
             }
         }
 
-        num_str.parse().unwrap_or(0.0)
+        match num_str.parse::<u64>() {
+            Ok(int) if int > MAX_EXACT_INTEGER => Token::IntegerLiteral(int),
+            _ => Token::NumberLiteral(num_str.parse().unwrap_or(0.0)),
+        }
     }
 
     /// Read an identifier from the input buffer.
@@ -321,9 +330,18 @@ impl Lexer {
     /// If the next char is a [DOUBLE_QUOTE] tries to interpret anything until the next  [DOUBLE_QUOTE] as an identifier.
     /// Single-char tokens are pretty easy to peek any other way.
     pub fn next_token(&mut self) -> Token {
+        loop {
+            if let Some(token) = self.scan_token() {
+                return token;
+            }
+        }
+    }
+
+    /// Consumes the next item of the input. Comments and unknown characters do not produce a token.
+    fn scan_token(&mut self) -> Option<Token> {
         self.skip_whitespace();
 
-        match self.current_char {
+        let token = match self.current_char {
             None => Token::Eof,
             Some(ESCAPE_QUOTE) => Token::StringLiteral(self.read_string()),
             Some(DOUBLE_QUOTE) => {
@@ -339,7 +357,7 @@ impl Lexer {
                 }
                 Token::Identifier(ident)
             }
-            Some(ch) if ch.is_ascii_digit() => Token::NumberLiteral(self.read_number()),
+            Some(ch) if ch.is_ascii_digit() => self.read_number(),
             Some(ch) if ch.is_alphabetic() || ch == '_' => {
                 let ident = self.read_identifier();
                 keyword_to_token(&ident)
@@ -419,7 +437,7 @@ impl Lexer {
                         }
                         self.advance();
                     }
-                    self.next_token()
+                    return None;
                 } else {
                     Token::Minus
                 }
@@ -439,14 +457,16 @@ impl Lexer {
                     Token::Concat
                 } else {
                     // Single | is not a valid SQL operator, treat as unknown
-                    self.next_token()
+                    return None;
                 }
             }
             _ => {
                 self.advance();
-                self.next_token()
+                return None;
             }
-        }
+        };
+
+        Some(token)
     }
 
     /// Peek the next token, without advancing the cursor.
-- 
2.43.0


From 2e33567458670ff9b014a58b14de11a604764dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 08/42] fix: reject malformed wire messages and answer bad
 requests with an error

---
 crates/axmos-db/src/bin/axmos_server.rs | 29 +++++---
 crates/axmos-db/src/tcp/mod.rs          | 90 +++++++++++++++++--------
 2 files changed, 83 insertions(+), 36 deletions(-)

diff --git a/crates/axmos-db/src/bin/axmos_server.rs b/crates/axmos-db/src/bin/axmos_server.rs
index db28659..ae9d239 100644
--- a/crates/axmos-db/src/bin/axmos_server.rs
+++ b/crates/axmos-db/src/bin/axmos_server.rs
@@ -303,10 +303,19 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             Ok(req) => req,
             Err(TcpError::ConnectionClosed) => break,
             Err(TcpError::Io(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
-            Err(e) => {
+            Err(TcpError::Io(e)) => {
                 eprintln!("Request error: {}", e);
                 break;
             }
+            Err(e) => {
+                eprintln!("Request error: {}", e);
+                send_response(&mut writer, &Response::Error(format!("Bad request: {}", e)))?;
+                // The body of an oversized frame was not read, there is no way to find the next one.
+                if matches!(e, TcpError::MessageTooLarge(_)) {
+                    break;
+                }
+                continue;
+            }
         };
 
         let response = process_request(request, state, &mut ctx);
@@ -316,7 +325,13 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             break;
         }
 
-        send_response(&mut writer, &response)?;
+        match send_response(&mut writer, &response) {
+            // Nothing was sent yet, so the client can still get an answer.
+            Err(e @ TcpError::MessageTooLarge(_)) => {
+                send_response(&mut writer, &Response::Error(e.to_string()))?
+            }
+            other => other?,
+        }
     }
 
     if let Some(mut session) = ctx.session.take() {
@@ -506,13 +521,9 @@ fn handle_close(state: &SharedState) -> Response {
 fn query_result_to_response(result: QueryResult) -> Response {
     match result {
         QueryResult::Rows(rows) => {
-            let columns = if rows.is_empty() {
-                vec![]
-            } else {
-                (0..rows.num_columns())
-                    .map(|i| rows.column(i).expect("Column not found").to_string())
-                    .collect()
-            };
+            let columns = (0..rows.num_columns())
+                .map(|i| rows.column(i).expect("Column not found").to_string())
+                .collect();
 
             let data: Vec<Vec<String>> = rows
                 .iterrows()
diff --git a/crates/axmos-db/src/tcp/mod.rs b/crates/axmos-db/src/tcp/mod.rs
index c092253..40c04ca 100644
--- a/crates/axmos-db/src/tcp/mod.rs
+++ b/crates/axmos-db/src/tcp/mod.rs
@@ -109,25 +109,26 @@ impl Request {
 
         match cmd {
             0x01 => {
-                let path = read_string(payload)?;
+                let path = read_only_string(payload)?;
                 Ok(Self::Create(path))
             }
             0x02 => {
-                let path = read_string(payload)?;
+                let path = read_only_string(payload)?;
                 Ok(Self::Open(path))
             }
             0x03 => {
-                let sql = read_string(payload)?;
+                let sql = read_only_string(payload)?;
                 Ok(Self::Sql(sql))
             }
             0x04 => {
-                let sql = read_string(payload)?;
+                let sql = read_only_string(payload)?;
                 Ok(Self::Explain(sql))
             }
             0x05 => {
                 if payload.len() < 16 {
                     return Err(TcpError::InvalidMessage("Analyze payload too short".into()));
                 }
+                expect_end(payload, 16)?;
                 let sample_rate = f64::from_le_bytes(payload[0..8].try_into().unwrap());
                 let max_sample_rows =
                     u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
@@ -136,13 +137,13 @@ impl Request {
                     max_sample_rows,
                 })
             }
-            0x06 => Ok(Self::Close),
-            0x07 => Ok(Self::Ping),
-            0x09 => Ok(Self::Vacuum),
-            0x0A => Ok(Self::Begin),
-            0x0B => Ok(Self::Commit),
-            0x0C => Ok(Self::Rollback),
-            0xFF => Ok(Self::Shutdown),
+            0x06 => expect_end(payload, 0).map(|_| Self::Close),
+            0x07 => expect_end(payload, 0).map(|_| Self::Ping),
+            0x09 => expect_end(payload, 0).map(|_| Self::Vacuum),
+            0x0A => expect_end(payload, 0).map(|_| Self::Begin),
+            0x0B => expect_end(payload, 0).map(|_| Self::Commit),
+            0x0C => expect_end(payload, 0).map(|_| Self::Rollback),
+            0xFF => expect_end(payload, 0).map(|_| Self::Shutdown),
             _ => Err(TcpError::UnknownCommand(cmd)),
         }
     }
@@ -235,6 +236,11 @@ impl Response {
                     for value in row {
                         write_string(&mut buf, value);
                     }
+                    // A row without columns still takes space on the wire, so that the number of
+                    // rows a message can announce is bounded by its size.
+                    if columns.is_empty() {
+                        write_string(&mut buf, "");
+                    }
                 }
             }
             Self::RowsAffected(count) => {
@@ -297,11 +303,11 @@ impl Response {
 
         match status {
             StatusCode::Ok => {
-                let msg = read_string(payload)?;
+                let msg = read_only_string(payload)?;
                 Ok(Self::Ok(msg))
             }
             StatusCode::Error => {
-                let msg = read_string(payload)?;
+                let msg = read_only_string(payload)?;
                 Ok(Self::Error(msg))
             }
             StatusCode::Rows => {
@@ -313,7 +319,7 @@ impl Response {
                 let col_count = u32::from_le_bytes(payload[0..4].try_into().unwrap()) as usize;
                 offset += 4;
 
-                let mut columns = Vec::with_capacity(col_count);
+                let mut columns = Vec::with_capacity(bounded_capacity(col_count, payload));
 
                 for _ in 0..col_count {
                     let (col, len) = read_string_with_len(&payload[offset..])?;
@@ -328,16 +334,25 @@ impl Response {
                     u32::from_le_bytes(payload[offset..offset + 4].try_into().unwrap()) as usize;
                 offset += 4;
 
-                let mut data = Vec::with_capacity(row_count);
+                let mut data = Vec::with_capacity(bounded_capacity(row_count, payload));
                 for _ in 0..row_count {
-                    let mut row = Vec::with_capacity(col_count);
+                    let mut row =
+                        Vec::with_capacity(bounded_capacity(col_count, &payload[offset..]));
                     for _ in 0..col_count {
                         let (value, len) = read_string_with_len(&payload[offset..])?;
                         row.push(value);
                         offset += len;
                     }
+                    if col_count == 0 {
+                        let (marker, len) = read_string_with_len(&payload[offset..])?;
+                        if !marker.is_empty() {
+                            return Err(TcpError::InvalidMessage("Malformed empty row".into()));
+                        }
+                        offset += len;
+                    }
                     data.push(row);
                 }
+                expect_end(payload, offset)?;
 
                 Ok(Self::Rows { columns, data })
             }
@@ -345,21 +360,23 @@ impl Response {
                 if payload.len() < 8 {
                     return Err(TcpError::InvalidMessage("Missing count".into()));
                 }
+                expect_end(payload, 8)?;
                 let count = u64::from_le_bytes(payload[0..8].try_into().unwrap());
                 Ok(Self::RowsAffected(count))
             }
             StatusCode::Ddl => {
-                let msg = read_string(payload)?;
+                let msg = read_only_string(payload)?;
                 Ok(Self::Ddl(msg))
             }
             StatusCode::Explain => {
-                let plan = read_string(payload)?;
+                let plan = read_only_string(payload)?;
                 Ok(Self::Explain(plan))
             }
             StatusCode::VacuumComplete => {
                 if payload.len() < 24 {
                     return Err(TcpError::InvalidMessage("Vacuum payload too short".into()));
                 }
+                expect_end(payload, 24)?;
                 let tables_vacuumed =
                     u64::from_le_bytes(payload[0..8].try_into().unwrap()) as usize;
                 let bytes_freed = u64::from_le_bytes(payload[8..16].try_into().unwrap()) as usize;
@@ -371,11 +388,11 @@ impl Response {
                     transactions_cleaned,
                 })
             }
-            StatusCode::Pong => Ok(Self::Pong),
-            StatusCode::Goodbye => Ok(Self::Goodbye),
-            StatusCode::ShuttingDown => Ok(Self::ShuttingDown),
-            StatusCode::Begin => Ok(Self::SessionStarted),
-            StatusCode::End => Ok(Self::SessionEnd),
+            StatusCode::Pong => expect_end(payload, 0).map(|_| Self::Pong),
+            StatusCode::Goodbye => expect_end(payload, 0).map(|_| Self::Goodbye),
+            StatusCode::ShuttingDown => expect_end(payload, 0).map(|_| Self::ShuttingDown),
+            StatusCode::Begin => expect_end(payload, 0).map(|_| Self::SessionStarted),
+            StatusCode::End => expect_end(payload, 0).map(|_| Self::SessionEnd),
         }
     }
 
@@ -435,11 +452,29 @@ fn write_string(buf: &mut Vec<u8>, s: &str) {
     buf.extend_from_slice(bytes);
 }
 
-fn read_string(data: &[u8]) -> Result<String, TcpError> {
-    let (s, _) = read_string_with_len(data)?;
+/// Reads a payload that consists of a single string.
+fn read_only_string(data: &[u8]) -> Result<String, TcpError> {
+    let (s, len) = read_string_with_len(data)?;
+    expect_end(data, len)?;
     Ok(s)
 }
 
+/// Fails if there is anything left in the payload after the decoded part.
+fn expect_end(data: &[u8], decoded: usize) -> Result<(), TcpError> {
+    if data.len() != decoded {
+        return Err(TcpError::InvalidMessage(format!(
+            "{} unexpected bytes after the message",
+            data.len().saturating_sub(decoded)
+        )));
+    }
+    Ok(())
+}
+
+/// Number of strings to reserve space for: never more than the data can possibly hold.
+fn bounded_capacity(count: usize, data: &[u8]) -> usize {
+    count.min(data.len() / size_of::<u32>())
+}
+
 fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
     if data.len() < 4 {
         return Err(TcpError::InvalidMessage("String length missing".into()));
@@ -455,8 +490,9 @@ fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
         )));
     }
 
-    let s = String::from_utf8_lossy(&data[4..4 + len]).into_owned();
-    Ok((s, 4 + len))
+    let s = str::from_utf8(&data[4..4 + len])
+        .map_err(|e| TcpError::InvalidMessage(format!("String is not valid utf8: {e}")))?;
+    Ok((s.to_owned(), 4 + len))
 }
 
 pub fn read_message<R: Read>(reader: &mut R) -> Result<Vec<u8>, TcpError> {
-- 
2.43.0


From b909b3c21b3e5859c559171432f5dad8cb991c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 09/42] fix: keep the cells of a page intact when it is
 defragmented, drained or a cell is replaced

---
 crates/axmos-db/src/storage/cell.rs        | 18 +++--
 crates/axmos-db/src/storage/core/buffer.rs | 90 ++++++++++++----------
 2 files changed, 61 insertions(+), 47 deletions(-)

diff --git a/crates/axmos-db/src/storage/cell.rs b/crates/axmos-db/src/storage/cell.rs
index dd2bb7a..7a0c29c 100644
--- a/crates/axmos-db/src/storage/cell.rs
+++ b/crates/axmos-db/src/storage/cell.rs
@@ -379,10 +379,11 @@ impl OwnedCell {
         let mut payload = Payload::alloc_aligned(cell.len()).unwrap();
         payload.effective_data_mut()[..cell.len()].copy_from_slice(cell.effective_data());
 
-        Self {
-            header: *cell.metadata(),
-            payload,
-        }
+        // The copy only has the padding it needs.
+        let mut header = *cell.metadata();
+        header.size = payload.capacity() as u64;
+
+        Self { header, payload }
     }
 
     /// Creates an OwnedCell from a CellMut by copying its data.
@@ -390,10 +391,11 @@ impl OwnedCell {
         let mut payload = Payload::alloc_aligned(cell.len()).unwrap();
         payload.effective_data_mut()[..cell.len()].copy_from_slice(cell.effective_data());
 
-        Self {
-            header: *cell.metadata(),
-            payload,
-        }
+        // The copy only has the padding it needs.
+        let mut header = *cell.metadata();
+        header.size = payload.capacity() as u64;
+
+        Self { header, payload }
     }
 
     #[inline]
diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 9bdff50..b063ed6 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -7,7 +7,7 @@ use std::{
     iter,
     mem::{self, ManuallyDrop},
     ops::{Bound, Deref, DerefMut, RangeBounds},
-    ptr::NonNull,
+    ptr::{self, NonNull},
     slice,
 };
 
@@ -25,6 +25,9 @@ use crate::{
     types::{Lsn, PageId},
 };
 
+/// Part of the payload of a cell that is stored in the page itself, at least.
+const MIN_PAYLOAD_SIZE: usize = 64;
+
 pub struct MemBlock<M> {
     /// Total size of the buffer (size of header + size of data).
     size: u32, // We need four bytes to store the max size of a page (2^32) which would not fit in 2 bytes.
@@ -590,8 +593,10 @@ where
             "if you're not gonna store any cells then why are you even calling this function?"
         );
 
-        let ideal_size =
-            Self::max_payload_size_in(Self::usable_space(page_size) as usize / min_cells);
+        // No matter how many cells are asked for, each one needs some space.
+        let min_cell_space = CELL_HEADER_SIZE + mem::size_of::<Slot>() + MIN_PAYLOAD_SIZE;
+        let cell_space = (Self::usable_space(page_size) / min_cells).max(min_cell_space);
+        let ideal_size = Self::max_payload_size_in(cell_space);
 
         debug_assert!(
             ideal_size > 0,
@@ -820,13 +825,11 @@ where
             // Copy the old cell to return it.
             let owned_cell = self.owned_cell(index);
 
-            // Overwrite the datas of the old cell.
-            let mut old_cell = self.cell_mut(index);
-            old_cell.full_data_mut()[..new_cell.full_data().len()]
-                .copy_from_slice(&new_cell.full_data());
-            *old_cell.metadata_mut() = *new_cell.metadata();
+            // Overwrite the old cell. The bytes it no longer needs stay behind it as a hole
+            // which is recovered by the next defragmentation.
+            let offset = self.slot_array()[index] as u64;
+            unsafe { self.write_item_to_offset(offset, new_cell.as_cell_ref()) };
 
-            self.free_space_pointer_down(free_bytes);
             self.add_free_space(free_bytes);
 
             return Ok(owned_cell);
@@ -845,7 +848,7 @@ where
     fn remove(&mut self, index: usize) -> io::Result<OwnedCell> {
         let len = self.num_slots();
 
-        if index > self.num_slots() {
+        if index >= self.num_slots() {
             return Err(IoError::new(
                 ErrorKind::InvalidInput,
                 format!(
@@ -891,10 +894,15 @@ where
             // dereferencing the cell pointer should be safe as well.
             unsafe {
                 let cell = self.item_at_offset(offset as u64);
-                let cell_ref = CellRef::from_raw(cell);
-                let size = cell_ref.total_size();
+                let size = CellRef::from_raw(cell).total_size();
                 destination_offset -= size as usize;
-                self.write_item_to_offset(destination_offset as u64, cell_ref);
+                // The old and the new place of a cell can overlap.
+                let destination = self.item_at_offset(destination_offset as u64);
+                ptr::copy(
+                    cell.cast::<u8>().as_ptr(),
+                    destination.cast::<u8>().as_ptr(),
+                    size,
+                );
             }
             self.slot_array_mut()[i] = destination_offset as u16;
         }
@@ -917,36 +925,39 @@ where
             Bound::Included(i) => i + 1,
         };
 
-        let mut drain_index = start;
         let mut slot_index = start;
+        let mut finished = false;
 
         iter::from_fn(move || {
+            if finished {
+                return None;
+            };
+
             // Copy cells until we reach the end.
-            if drain_index < end {
-                let cell = self.owned_cell(slot_index as _);
+            if slot_index < end {
+                let cell = self.owned_cell(slot_index);
                 slot_index += 1;
-                drain_index += 1;
-                Some(cell)
-            } else {
-                // Now compute gained space and shift slots towards the left.
-                self.add_free_space(
-                    (start..slot_index)
-                        .map(|slot| self.cell(slot).storage_size())
-                        .sum::<usize>() as u32,
-                );
-
-                self.free_space_pointer_down(
-                    (start..slot_index)
-                        .map(|slot| self.cell(slot).total_size())
-                        .sum::<usize>() as u32,
-                );
-
-                self.slot_array_mut().copy_within(slot_index.., start);
-
-                self.remove_slots(slot_index - start);
-
-                None
-            }
+                return Some(cell);
+            };
+
+            // Now compute gained space and shift slots towards the left.
+            finished = true;
+            let gained_space = (start..slot_index)
+                .map(|slot| self.cell(slot).storage_size())
+                .sum::<usize>();
+            self.add_free_space(gained_space as u32);
+
+            self.slot_array_mut().copy_within(slot_index.., start);
+            self.remove_slots(slot_index - start);
+
+            // The drained cells can be anywhere in the page, so the free space pointer can
+            // only be moved if none is left. Otherwise the next defragmentation does it.
+            if self.is_empty() {
+                let capacity = self.capacity() as u32;
+                self.reset_free_space_pointer(capacity);
+            };
+
+            None
         })
     }
 }
@@ -1074,8 +1085,9 @@ impl AsRef<[u8]> for Payload {
 
 impl Clone for Payload {
     fn clone(&self) -> Self {
-        let mut new = Self::alloc_aligned(self.effective_size).unwrap();
+        let mut new = Self::alloc_aligned(self.capacity()).unwrap();
         new.full_data_mut().copy_from_slice(self.full_data());
+        new.effective_size = self.effective_size;
         new
     }
 }
-- 
2.43.0


From 62debcd335611b33359949f499a7f9ec193e5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 10/42] fix: page cache keeps working when full or after a
 flush, and free pages are never lost

---
 crates/axmos-db/src/io/cache.rs              | 40 ++++-----
 crates/axmos-db/src/io/pager.rs              | 91 ++++++++++++--------
 crates/axmos-db/src/lib.rs                   |  1 +
 crates/axmos-db/src/multithreading/frames.rs |  5 +-
 crates/axmos-db/src/storage/page.rs          |  6 +-
 5 files changed, 82 insertions(+), 61 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index a71fb24..1aa8b05 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -18,17 +18,17 @@ pub(crate) struct MemoryStats {
 impl MemoryStats {
     fn cache_hit(&self) {
         let current = self.cache_hits.get();
-        self.cache_hits.set(current + 1);
+        self.cache_hits.set(current.saturating_add(1));
     }
 
     fn cache_miss(&self) {
         let current = self.cache_misses.get();
-        self.cache_misses.set(current + 1);
+        self.cache_misses.set(current.saturating_add(1));
     }
 
     fn eviction(&self) {
         let current = self.frames_evicted.get();
-        self.frames_evicted.set(current + 1);
+        self.frames_evicted.set(current.saturating_add(1));
     }
 }
 impl Display for MemoryStats {
@@ -115,7 +115,10 @@ impl PageCache {
 
     /// Removes a frame from the cache for deallocation.
     pub(crate) fn remove(&mut self, id: PageId) -> Option<MemFrame> {
-        self.frames.swap_remove(&id).filter(|frame| frame.is_free())
+        if !self.frames.get(&id)?.is_free() {
+            return None;
+        };
+        self.frames.swap_remove(&id)
     }
 
     pub fn evict(&mut self) -> io::Result<Option<MemFrame>> {
@@ -123,28 +126,26 @@ impl PageCache {
             return Ok(None);
         };
 
-        let mut found_victim = None;
-        // Attempt to iterate over all the frames.
-        while self.cursor <= self.frames.len() && found_victim.is_none() {
-            if let Some((pid, frame)) = self.frames.get_index(self.cursor) {
-                if frame.is_free() {
-                    self.stats.eviction();
-
-                    let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+        // Iterate over all the frames once, starting where the last victim was found.
+        for _ in 0..self.frames.len() {
+            if self.cursor >= self.frames.len() {
+                self.cursor = 0;
+            };
 
-                    found_victim = Some(victim);
-                    break;
-                }
+            if let Some((_, frame)) = self.frames.get_index(self.cursor)
+                && frame.is_free()
+            {
+                self.stats.eviction();
+                return Ok(self
+                    .frames
+                    .swap_remove_index(self.cursor)
+                    .map(|(_, victim)| victim));
             };
 
             // Not evictable.
             self.cursor += 1;
         }
 
-        if found_victim.is_some() {
-            return Ok(found_victim);
-        };
-
         Err(IoError::new(
             ErrorKind::OutOfMemory,
             "Buffer pool got out of memory for new frames.",
@@ -180,7 +181,6 @@ impl PageCache {
         }
 
         self.cursor = 0;
-        self.capacity = 0;
         remaining_frames
     }
 }
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index d797bad..801d167 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -128,9 +128,10 @@ impl Pager {
 
         let mut page_zero: PageZero = PageZero::from_config(config);
         page_zero.metadata_mut().page_size = config.page_size as u32;
-        page_zero.metadata_mut().min_keys = config.min_keys_per_page as u8;
-        page_zero.metadata_mut().cache_size = config.cache_size as u16;
-        page_zero.metadata_mut().num_siblings_per_side = config.num_siblings_per_side as u8;
+        page_zero.metadata_mut().min_keys = config.min_keys_per_page.min(u8::MAX as usize) as u8;
+        page_zero.metadata_mut().cache_size = config.cache_size.min(u16::MAX as usize) as u16;
+        page_zero.metadata_mut().num_siblings_per_side = 
+            config.num_siblings_per_side.min(u8::MAX as usize) as u8;
 
         self.write_block(PAGE_ZERO, page_zero.as_ref(), config.page_size as usize)?;
 
@@ -166,6 +167,11 @@ impl Pager {
         Ok(block)
     }
 
+    /// Sets the maximum number of pages to keep in the cache.
+    pub(crate) fn set_cache_size(&mut self, cache_size: usize) {
+        self.cache.set_capacity(cache_size);
+    }
+
     pub(crate) fn mark_transaction_aborted(&mut self, txid: TransactionId) {
         self.header_unchecked_mut().mark_transaction_aborted(txid);
     }
@@ -375,15 +381,6 @@ impl Pager {
         let mem_page = if let Some(page_id) = self.first_free_page() {
             let next = self.with_page::<OverflowPage, _, _>(page_id, |overflow| overflow.next())?;
 
-            self.set_first_free_page(next);
-
-            // If we have reinit the last free page, the list of deallocated pages is empty, which means we can unset it.
-            if let Some(last_id) = self.last_free_page()
-                && last_id == page_id
-            {
-                self.set_last_free_page(None);
-            }
-
             // We need to make sure that we hold the only reference to the page in order to be able to dealloc or reinit the page. Take a look at [MemFrame::dealloc] if you want to figure out why.
             // To do so, the page must not be on the cache.
             // The easiest way to do it is to simply load the page into the cache first (in case it was on disk, the [Pager::ensure_cached] method takes care of that, and later remove it)
@@ -392,8 +389,18 @@ impl Pager {
                 ErrorKind::NotFound,
                 "Page not found on the cache",
             ))?;
+
+            self.set_first_free_page(next);
+
+            // If we have reinit the last free page, the list of deallocated pages is empty, which means we can unset it.
+            if next.is_none() {
+                self.set_last_free_page(None);
+            }
+
             page.reinit_as::<P::Header>()
         } else {
+            // Do not take a page from the file if there is no room for it in the cache.
+            self.make_room_for_frame()?;
             let id = self.get_next_page();
             let page = P::alloc(id, self.page_size() as usize);
 
@@ -415,16 +422,31 @@ impl Pager {
     fn cache_frame(&mut self, frame: MemFrame) -> io::Result<PageId> {
         let id = frame.page_number();
         if let Some(evicted) = self.cache.insert(frame)? {
-            let evicted_id = evicted.page_number();
-
-            if evicted.is_dirty() {
-                let page_size = self.page_size();
-                evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
-            };
+            self.write_evicted(evicted)?;
         };
         Ok(id)
     }
 
+    /// Writes to disk the contents of a frame that is not in the cache anymore.
+    fn write_evicted(&mut self, evicted: MemFrame) -> io::Result<()> {
+        if evicted.is_dirty() {
+            let page_size = self.page_size();
+            let id = evicted.page_number();
+            evicted.with_bytes_mut(|bytes| self.write_block(id, &bytes, page_size))?;
+        };
+        Ok(())
+    }
+
+    /// Makes sure that a new frame can be added to the cache.
+    fn make_room_for_frame(&mut self) -> io::Result<()> {
+        if self.cache.num_frames() >= self.cache.get_capacity()
+            && let Some(evicted) = self.cache.evict()?
+        {
+            self.write_evicted(evicted)?;
+        };
+        Ok(())
+    }
+
     /// Reads a page from the cache, if it is not found there it goes to the disk to get its contents
     ///
     /// The marker [H] indicates the type of page that is going to be read.
@@ -488,37 +510,32 @@ impl Pager {
             ));
         };
 
-        let first_free_page = self.first_free_page();
+        self.ensure_cached::<P>(id)?;
 
-        // Set the first free page in the header
-        if first_free_page.is_none() {
-            self.set_first_free_page(Some(id));
-        };
+        // We need to ensure that the frame is free
+        let mem_page = self.cache.remove(id).ok_or(IoError::new(
+            ErrorKind::ResourceBusy,
+            format!("cannot deallocate page {id}: it is being used"),
+        ))?;
+
+        // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
+        // It is written to disk as any other page that has been modified.
+        let deallocated_page = mem_page.dealloc();
+        deallocated_page.mark_dirty();
+        self.cache_frame(deallocated_page)?;
 
         if let Some(last_free_id) = self.last_free_page() {
             // Read the free page and set the next page with the id of the page we have just deallocated.
             self.with_page_mut::<OverflowPage, _, _>(last_free_id, |overflow| {
                 overflow.metadata_mut().next = Some(id);
             })?;
+        } else {
+            self.set_first_free_page(Some(id));
         };
 
         // The new last free page must be the one we have deallocated.
         self.set_last_free_page(Some(id));
 
-        self.ensure_cached::<P>(id)?;
-
-        // We need to ensure that the frame is free
-        if let Some(mem_page) = self.cache.remove(id) {
-            let page_size = self.page_size();
-
-            // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
-            let deallocated_page = mem_page.dealloc();
-
-            // Here the write needs to write as an overflow page , regardless of the value of [P]
-            deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
-            self.cache_frame(deallocated_page)?;
-        };
-
         Ok(())
     }
 
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 7b33e85..68bdc44 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -225,6 +225,7 @@ impl Database {
 
         // Open pager
         let mut pager = Pager::open(&path)?;
+        pager.set_cache_size(config.cache_size);
 
         let total_pages = pager.total_allocated_pages();
 
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 2e36692..4fe550f 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -3,7 +3,7 @@ use crate::{
     storage::{
         Allocatable, Identifiable,
         core::{buffer::MemBlock, traits::Buffer},
-        page::{BtreePage, OverflowPage, PageZero},
+        page::{BtreePage, OverflowPage, OverflowPageHeader, PageZero},
     },
     types::PageId,
 };
@@ -233,6 +233,9 @@ impl MemFrame {
                 let lock = Arc::try_unwrap(arc.inner)
                     .expect("Cannot dealloc: other references to this page exist");
                 let mut page = lock.into_inner();
+                let (id, size) = (page.id(), page.size());
+                // Reinitialize the header, as the page could be part of a chain.
+                *page.metadata_mut() = OverflowPageHeader::alloc(id, size);
                 page.data_mut().fill(0);
                 Self::from(Frame::new(page))
             }
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index 544012f..cc7e23c 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -128,9 +128,9 @@ impl PageZeroHeader {
         Self::new(
             PAGE_ZERO,
             config.page_size as u32,
-            config.min_keys_per_page as u8,
-            config.num_siblings_per_side as u8,
-            config.cache_size as u16,
+            config.min_keys_per_page.min(u8::MAX as usize) as u8,
+            config.num_siblings_per_side.min(u8::MAX as usize) as u8,
+            config.cache_size.min(u16::MAX as usize) as u16,
         )
     }
 
-- 
2.43.0


From b5a072ce47cac7ab6fe598cab2c26066e40d9127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 11/42] fix: rebalance B+trees without sharing overflow chains
 or losing cells

---
 crates/axmos-db/src/tree/bplustree.rs | 1290 ++++++++-----------------
 crates/axmos-db/src/tree/cell_ops.rs  |   49 +-
 2 files changed, 431 insertions(+), 908 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 3b8ea81..31bb884 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -4,7 +4,7 @@ use crate::{
     schema::base::Schema,
     storage::{
         BtreeMetadata, BtreeOps, Identifiable,
-        cell::OwnedCell,
+        cell::{CELL_HEADER_SIZE, OwnedCell, Slot},
         page::{BtreePage, OverflowPage},
         tuple::{Row, Tuple, TupleError, TupleReader, TupleRef},
     },
@@ -20,12 +20,13 @@ use super::{
 };
 
 use std::{
-    cmp::{Ordering, Reverse},
-    collections::{BTreeMap, BinaryHeap, HashSet, VecDeque},
+    cmp::{Ordering, max, min},
+    collections::{BTreeMap, HashSet, VecDeque},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult, Write},
     fs,
     io::{self, Error as IoError, ErrorKind},
+    mem,
     path::Path,
     usize,
 };
@@ -639,7 +640,7 @@ where
             self.cloned_shared(),
             right_most_position.entry(),
             right_most_position.slot() as isize,
-            IterDirection::Forward,
+            IterDirection::Backward,
         )
     }
 
@@ -681,9 +682,43 @@ where
     }
 }
 
-enum BorrowDirection {
-    RightToLeft,
-    LeftToRight,
+/// In memory content of a node of the tree.
+///
+/// It can be bigger than a page while the tree is being balanced.
+#[derive(Debug, Default)]
+struct NodeContent {
+    cells: Vec<OwnedCell>,
+    right_child: Option<PageId>,
+}
+
+impl NodeContent {
+    /// Maximum size of the cells of a node that does not need to be split.
+    fn max_size(page_size: usize) -> usize {
+        BtreePage::overflow_threshold(BtreePage::usable_space(page_size))
+            - (mem::size_of::<Slot>() + CELL_HEADER_SIZE + mem::size_of::<PageId>())
+    }
+
+    /// Minimum size of the cells of a node that does not need to be merged.
+    fn min_size(page_size: usize) -> usize {
+        BtreePage::underflow_threshold(BtreePage::usable_space(page_size)) + mem::size_of::<Slot>()
+    }
+
+    fn is_leaf(&self) -> bool {
+        self.right_child.is_none()
+    }
+
+    /// Size that the cells take in a page.
+    fn size(&self) -> usize {
+        self.cells.iter().map(|cell| cell.storage_size()).sum()
+    }
+
+    /// Returns the child at the given position.
+    fn child(&self, index: usize) -> Option<PageId> {
+        match self.cells.get(index) {
+            Some(cell) => cell.left_child(),
+            None => self.right_child,
+        }
+    }
 }
 
 /// Mutable / Write only accessor.
@@ -708,102 +743,12 @@ where
         data: Tuple,
         schema: &Schema,
     ) -> BtreeResult<()> {
-        let target_cursor = Tuple::keys_offset(schema.num_values());
-        let search_result = self.page_search(
-            self.get_root(),
-            &data.effective_data(),
-            target_cursor,
-            schema,
-        )?;
-
-        match search_result {
-            SearchResult::Found(pos) => Err(IoError::new(
-                ErrorKind::AlreadyExists,
-                format!("The key already exists  at position {pos}",),
-            )),
-
-            SearchResult::NotFound(pos) => {
-                let page_id = pos.entry();
-                self.insert_cell(page_id, data, target_cursor, schema)?;
-                Ok(())
-            }
-        }?;
-
-        // Cleanup traversal here.
+        let result = self.write_tuple(data, schema, |found| match found {
+            true => Err(IoError::new(ErrorKind::AlreadyExists, "The key already exists").into()),
+            false => Ok(()),
+        });
         self.accessor_mut()?.clear();
-
-        Ok(())
-    }
-
-    /// Inserts a cell at the corresponding slot on a given page.
-    /// Uses the [find_slot] function in order to find the best fit slot for the cell given its key.
-    /// Assumes the page is a leaf page.
-    /// This method must not be called on interior nodes.
-    pub(crate) fn insert_cell(
-        &mut self,
-        page_id: PageId,
-        data: Tuple,
-        target_cursor: usize,
-        schema: &Schema,
-    ) -> BtreeResult<()> {
-        let max_cell_storage_size = {
-            let page = self.get_page(page_id)?;
-            std::cmp::min(page.max_allowed_payload_size(), page.free_space() as u16) as usize
-        };
-
-        let builder = CellBuilder::new(max_cell_storage_size, self.min_keys, self.pager.clone());
-
-        let key = &data.effective_data();
-        // Find the corresponding slot in the leaf page.
-        let slot_result = self.find_slot(page_id, key, target_cursor, schema)?;
-
-        let cell = builder.build_cell(data, schema)?;
-        let page = self.get_page_mut(page_id)?;
-        match slot_result {
-            // Slot not found so we just append the cell at the end of the page.
-            SearchResult::NotFound(_) => {
-                page.push(cell)?;
-            }
-            // Best fit slot is found between two existing slots.
-            SearchResult::Found(pos) => {
-                let slot = pos.slot();
-                page.insert(slot, cell)?;
-            }
-        };
-
-        // Check the current page status and call balance if required.
-        self.balance(page_id)?;
-        Ok(())
-    }
-
-    /// Updates the cell content on a given leaf page at the given [Position].
-    /// Assumes the position pointer is valid and the page is a leaf page.
-    fn update_cell(
-        &mut self,
-        pos: BtreePagePosition,
-        data: Tuple,
-        schema: &Schema,
-    ) -> BtreeResult<()> {
-        let page_id = pos.entry();
-        let slot = pos.slot();
-
-        let max_cell_storage_size = {
-            let page = self.get_page_mut(page_id)?;
-            std::cmp::min(page.max_allowed_payload_size(), page.free_space() as u16) as usize
-        };
-
-        let builder = CellBuilder::new(max_cell_storage_size, self.min_keys, self.pager.clone());
-        let cell = builder.build_cell(data, schema)?;
-        let page = self.get_page_mut(page_id)?;
-        let old_cell = page.replace(slot, cell)?;
-
-        let deallocator = CellDeallocator::new(self.pager.clone());
-        // Deallocate the cell
-        deallocator.deallocate_cell(old_cell)?;
-
-        self.balance(page_id)?;
-
-        Ok(())
+        result
     }
 
     /// Inserts a key at the corresponding position in the Btree.
@@ -814,25 +759,9 @@ where
         data: Tuple,
         schema: &Schema,
     ) -> BtreeResult<()> {
-        let target_cursor = Tuple::keys_offset(schema.num_values());
-        let search_result = self.page_search(
-            self.get_root(),
-            &data.effective_data(),
-            target_cursor,
-            schema,
-        )?;
-
-        match search_result {
-            SearchResult::Found(pos) => self.update_cell(pos, data, schema)?, // This logic is similar to [self.insert]
-            SearchResult::NotFound(pos) => {
-                let page_id = pos.entry();
-                self.insert_cell(page_id, data, target_cursor, schema)?;
-            }
-        };
-
-        // Cleanup traversal here.
+        let result = self.write_tuple(data, schema, |_| Ok(()));
         self.accessor_mut()?.clear();
-        Ok(())
+        result
     }
 
     /// Updates a key at the corresponding position in the Btree.
@@ -843,22 +772,12 @@ where
         data: Tuple,
         schema: &Schema,
     ) -> BtreeResult<()> {
-        let target_cursor = Tuple::keys_offset(schema.num_values());
-        let search_result = self.page_search(
-            self.get_root(),
-            &data.effective_data(),
-            target_cursor,
-            schema,
-        )?;
-
-        match search_result {
-            SearchResult::Found(pos) => self.update_cell(pos, data, schema),
-            SearchResult::NotFound(_) => Err(BtreeError::NonExistentKey),
-        }?;
-
-        // Cleanup traversal here.
+        let result = self.write_tuple(data, schema, |found| match found {
+            true => Ok(()),
+            false => Err(BtreeError::NonExistentKey),
+        });
         self.accessor_mut()?.clear();
-        Ok(())
+        result
     }
 
     /// Removes the entry corresponding to the given key if it exists.
@@ -869,34 +788,12 @@ where
         tuple: &Tuple,
         schema: &Schema,
     ) -> BtreeResult<()> {
-        let target_cursor = Tuple::keys_offset(schema.num_values());
-        let search_result = self.page_search(
-            self.get_root(),
-            &tuple.effective_data(),
-            target_cursor,
-            schema,
-        )?;
-
-        match search_result {
+        let result = self.search_tuple(tuple, schema).and_then(|found| match found {
             SearchResult::NotFound(_) => Err(BtreeError::NonExistentKey),
-            SearchResult::Found(pos) => {
-                let page_id = pos.entry();
-                let slot = pos.slot();
-                let page = self.get_page_mut(page_id)?;
-                let cell = page.remove(slot)?;
-
-                let deallocator = CellDeallocator::new(self.pager.clone());
-                deallocator.deallocate_cell(cell)?;
-
-                self.balance(page_id)?;
-
-                Ok(())
-            }
-        }?;
-
-        // Cleanup traversal here.
+            SearchResult::Found(pos) => self.take_cell(pos, schema),
+        });
         self.accessor_mut()?.clear();
-        Ok(())
+        result
     }
 
     /// Removes the entry corresponding to the given key if it exists.
@@ -907,280 +804,137 @@ where
         key: &[u8],
         schema: &Schema,
     ) -> BtreeResult<()> {
-        let start_pos: BtreePagePosition = Position::start_pos(page_id);
-        let search = self.search(key, schema)?;
-
-        match search {
+        let result = self.search(key, schema).and_then(|found| match found {
             SearchResult::NotFound(_) => Err(BtreeError::NonExistentKey),
-            SearchResult::Found(pos) => {
-                let page_id = pos.entry();
-                let slot = pos.slot();
-                let page = self.get_page_mut(page_id)?;
-                let cell = page.remove(slot)?;
-
-                let deallocator = CellDeallocator::new(self.pager.clone());
-                deallocator.deallocate_cell(cell)?;
-
-                self.balance(page_id)?;
-
-                Ok(())
-            }
-        }?;
-
-        // Cleanup traversal here.
+            SearchResult::Found(pos) => self.take_cell(pos, schema),
+        });
         self.accessor_mut()?.clear();
-        Ok(())
+        result
     }
 
-    /// Balance shallower algorithm inspired by SQLite (balance shallower)
-    /// https://sqlite.org/btreemodule.html
-    /// The balance shallower algorithm decreases the height of the tree when the root node has only one child.
-    /// [root] -----|
-    ///         [right child] ----|
-    ///                          [right grandchild]
+    /// Looks for the place of a tuple in the tree and writes it there, replacing the one with the same key if there is one.
     ///
-    /// 1. Drains the right child cells.
-    /// 2. Pushes them to the root node.
-    /// 3. The right child gets deallocated.
-    /// 4. The right grandchild becomes the new right-child.
-    fn balance_shallower(&mut self) -> BtreeResult<()> {
-        let is_empty = self.get_page_mut(self.root)?.is_empty();
-        let is_leaf = self.get_page_mut(self.root)?.is_leaf();
-
-        // Check if the root has actually underflown.
-        if !is_empty || is_leaf {
-            return Ok(());
-        };
-
-        // Safe to unwrap since we already checked that we are not at a leaf node.
-        let right_child_id = self.get_page_mut(self.root)?.right_child().unwrap();
-        let child_page = self.get_page_mut(right_child_id)?;
-
-        // Get the right child of the child (can be None).
-        let optional_grand_child_id = child_page.right_child();
-        let cells = child_page.drain(..).collect::<Vec<OwnedCell>>();
-
-        // Release the child's latch and deallocate.
-        self.accessor_mut()?.release(right_child_id);
-        self.pager
-            .write()
-            .dealloc_page::<BtreePage>(right_child_id)?;
-
-        let root_page = self.get_page_mut(self.root)?;
-        // Refill the old root (we have checked at the beginning that it was empty)
-        for cell in cells {
-            root_page.push(cell)?;
-        }
-
-        // Re-set the root to point to the old grand child , a we have removed the node in the middle.
-        root_page.set_right_child(optional_grand_child_id);
-
-        Ok(())
-    }
-
-    /// Splits a mutable slice of cells into two parts, assuming they are sorted by key.
-    /// Useful for cell redistribution.
-    fn split_cells(mut cells: Vec<OwnedCell>) -> (Vec<OwnedCell>, Vec<OwnedCell>) {
-        // Assumes cells are sorted
-        let sizes: Vec<usize> = cells.iter().map(|cell| cell.total_size()).collect();
-        let total_size: usize = sizes.iter().sum();
-        let half_size = total_size.div_ceil(2);
-
-        // Look for the point where the accumulated result crosses the mid point.
-        let mut acc = 0;
-        let split_index = sizes
-            .iter()
-            .position(|&s| {
-                acc += s;
-                acc >= half_size
-            })
-            .unwrap_or(cells.len().div_ceil(2));
-
-        // Divide the vector
-        let right = cells.split_off(split_index);
-        let left = cells;
-
-        (left, right)
-    }
-
-    /// Balance deeper algorithm inspired by SQLite [balance deeper].
-    /// Balance deeper is the opposite of balance shallower in the sense that it will allocate two new nodes when the root becomes full, increasing the depth of the tree by one.
-    /// The cell in the middle gets propagated upwards.
-    /// We also need to fix the pointers in the frontiers between the two new nodes to maintain the leaf node's linked list.
-    fn balance_deeper(&mut self) -> BtreeResult<()> {
-        let page_size = self.pager.write().page_size();
-        // Allocate new left and right childs
-        let new_left = self.pager.write().allocate_page::<BtreePage>()?;
-        let new_right = self.pager.write().allocate_page::<BtreePage>()?;
-
-        // Obtain root page metadata
-
-        let optional_old_right_id = self.get_page_mut(self.root)?.right_child();
-        let was_leaf = self.get_page_mut(self.root)?.is_leaf();
-
-        // drain the root node.
-        let cells = self
-            .get_page_mut(self.root)?
-            .drain(..)
-            .collect::<Vec<OwnedCell>>();
-
-        // Split the cell's array.
-        let (mut left_cells, right_cells) = Self::split_cells(cells);
+    /// The given callback decides whether to go on or not, depending on the key being already in the tree.
+    fn write_tuple(
+        &mut self,
+        data: Tuple,
+        schema: &Schema,
+        check: impl FnOnce(bool) -> BtreeResult<()>,
+    ) -> BtreeResult<()> {
+        let target_cursor = Tuple::keys_offset(schema.num_values());
 
-        // Choose the appropiate cell to propagate based on the type of page.
-        // We need to copy  because we also need to insert it on the new leaves (this is a Bplustree, so the data must reside on the leaf pages.)
-        let mut propagated_cell = if was_leaf {
-            right_cells.first().unwrap().clone()
-        } else {
-            left_cells.last().unwrap().clone()
+        let (page_id, replace) = match self.search_tuple(&data, schema)? {
+            SearchResult::Found(pos) => (pos.entry(), true),
+            SearchResult::NotFound(pos) => (pos.entry(), false),
         };
-        propagated_cell.set_left_child(Some(new_left));
-
-        {
-            let current_root_page = self.get_page_mut(self.root)?;
-            // Now we move part of the cells to one node and the other part to the other node.
-            current_root_page.set_right_child(Some(new_right));
-            current_root_page.push(propagated_cell)?;
-        }
-
-        // In case we were splitting an interior node we need to account that the last cell must be used as the right child of the new allocated pages.
+        check(replace)?;
 
-        let (cells_for_left, right_child) = if was_leaf {
-            (left_cells, None)
-        } else if let Some(last) = left_cells.pop() {
-            (left_cells, last.left_child())
-        } else {
-            (left_cells, None)
+        // Find the corresponding slot in the leaf page.
+        let slot = match self.find_slot(page_id, data.effective_data(), target_cursor, schema)? {
+            SearchResult::Found(pos) | SearchResult::NotFound(pos) => pos.slot(),
         };
 
-        {
-            let left_page = self.get_page_mut(new_left)?;
-
-            // Push the owned cells to the left page.
-            for cell in cells_for_left {
-                left_page.push(cell)?;
-            }
-
-            left_page.set_right_child(right_child);
-            left_page.set_next_sibling(Some(new_right));
-            left_page.set_prev_sibling(None);
-        }
+        let max_payload_size = self.get_page(page_id)?.max_allowed_payload_size() as usize;
+        let builder = CellBuilder::new(max_payload_size, self.min_keys, self.pager.clone());
+        let cell = builder.build_cell(data, schema)?;
 
-        {
-            let right_page = self.get_page_mut(new_right)?;
-            // Now do the same with the other page.
-            for cell in right_cells {
-                right_page.push(cell)?;
-            }
+        if replace {
+            let old_cell = self.get_page_mut(page_id)?.remove(slot)?;
+            CellDeallocator::new(self.pager.clone()).deallocate_cell(old_cell)?;
+        };
 
-            right_page.set_prev_sibling(Some(new_left));
-            right_page.set_next_sibling(None);
-            right_page.set_right_child(optional_old_right_id);
-        }
+        self.put_cell(page_id, slot, cell, schema)
+    }
 
-        // Fix the frontier links.
-        // The right child of the left page must be linked with the left most child of the right page to maintain proper ordering.
-        let left_right_most = self.get_page_mut(new_left)?.right_child();
-        let right_left_most = self.get_page_mut(new_right)?.cell(0).left_child();
+    /// Puts a cell at the given slot of a leaf page, rebalancing the tree if required.
+    fn put_cell(
+        &mut self,
+        page_id: PageId,
+        slot: usize,
+        cell: OwnedCell,
+        schema: &Schema,
+    ) -> BtreeResult<()> {
+        let page = self.get_page_mut(page_id)?;
 
-        if let Some(page_id) = left_right_most {
-            let page = self.get_page_mut(page_id)?;
-            page.set_next_sibling(right_left_most);
+        if page.free_space() as usize >= cell.storage_size() {
+            page.insert(slot, cell)?;
+            return self.rebalance(page_id, schema);
         };
 
-        if let Some(page_id) = right_left_most {
-            let page = self.get_page_mut(page_id)?;
-            page.set_prev_sibling(left_right_most);
-        };
+        // There is no room for the cell in the page, so the content has to be spread.
+        let mut content = self.page_content(page_id)?;
+        content.cells.insert(slot, cell);
+        self.balance(page_id, content, schema)
+    }
 
-        Ok(())
+    /// Takes a cell out of a leaf page and releases the overflow pages it owns.
+    fn take_cell(&mut self, pos: BtreePagePosition, schema: &Schema) -> BtreeResult<()> {
+        let cell = self.get_page_mut(pos.entry())?.remove(pos.slot())?;
+        CellDeallocator::new(self.pager.clone()).deallocate_cell(cell)?;
+        self.rebalance(pos.entry(), schema)
     }
 
-    // Computes the best cell distribution given a list of cells.
-    //
-    // The cell distribution computation is part of the rebalance algorithm.
-    //
-    // It is done once before the actual redistribution in order to know in advance where do we have to put cells on.
-    // This way cells are moved only once in memory
-    fn compute_best_cell_distribution(
-        cells: &VecDeque<OwnedCell>,
-        page_size: usize,
-    ) -> (Vec<usize>, Vec<usize>) {
-        // Obtain the maximum data that we can fit on this page.
-        let usable_space = BtreePage::overflow_threshold(page_size);
-
-        // These two arrays track the redistribution computation of the rebalancing algorithm.
-        let mut total_size_in_each_page = vec![0];
-        let mut number_of_cells_per_page = vec![0];
-
-        // We keep pushing cells to the bucket until we exhaust it.
-        // Once done, we create a new bucket an advance the cursor.
-        for cell in cells {
-            let bucket = number_of_cells_per_page.len() - 1;
+    /// Copies the content of a page into memory.
+    fn page_content(&mut self, page_id: PageId) -> BtreeResult<NodeContent> {
+        let page = self.get_page_mut(page_id)?;
+        Ok(NodeContent {
+            cells: (0..page.num_slots()).map(|i| page.owned_cell(i)).collect(),
+            right_child: page.right_child(),
+        })
+    }
 
-            // If we can add the cell, we push it to the current bucket.
-            if total_size_in_each_page[bucket] + cell.storage_size() <= usable_space {
-                number_of_cells_per_page[bucket] += 1;
-                total_size_in_each_page[bucket] += cell.storage_size();
-            } else {
-                // If not, we create a new bucket and append this cell to it.
-                number_of_cells_per_page.push(1);
-                total_size_in_each_page.push(cell.storage_size());
-            };
+    /// Replaces the content of a page.
+    fn set_page_content(&mut self, page_id: PageId, content: NodeContent) -> BtreeResult<()> {
+        let page = self.get_page_mut(page_id)?;
+        page.drain(..).for_each(drop);
+        for cell in content.cells {
+            page.push(cell)?;
         }
+        page.set_right_child(content.right_child);
+        Ok(())
+    }
 
-        // Account for underflow towards the right.
-        // At least two pages are needed in order to be able to account for that underflow.
-        if number_of_cells_per_page.len() >= 2 {
-            // The divider cell will be the first cell of the last page.
-            let mut divider_cell = cells.len() - number_of_cells_per_page.last().unwrap() - 1;
-
-            // Iterate backwards, moving cells towards the right.
-            for i in (1..=(total_size_in_each_page.len() - 1)).rev() {
-                while total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size) {
-                    number_of_cells_per_page[i] += 1;
-                    total_size_in_each_page[i] += &cells[divider_cell].storage_size();
-
-                    number_of_cells_per_page[i - 1] -= 1;
-                    total_size_in_each_page[i - 1] -= &cells[divider_cell - 1].storage_size();
-                    divider_cell -= 1;
-                }
-            }
-
-            // Second page has more data than the first one, make a little
-            // adjustment to keep it left biased.
-            if total_size_in_each_page[0] < BtreePage::underflow_threshold(page_size) {
-                number_of_cells_per_page[0] += 1;
-                number_of_cells_per_page[1] -= 1;
-            };
+    /// Checks the status of a page that has just been modified, and balances the tree if required.
+    fn rebalance(&mut self, page_id: PageId, schema: &Schema) -> BtreeResult<()> {
+        if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
+            return Ok(());
         };
 
-        (total_size_in_each_page, number_of_cells_per_page)
+        let content = self.page_content(page_id)?;
+        self.balance(page_id, content, schema)
     }
 
     /// Full balance algorithm.
-    /// The description of this algorithm can be found on original SQLite docs: https://sqlite.org/btreemodule.html
+    /// The description of the algorithm this is based on can be found on SQLite docs: https://sqlite.org/btreemodule.html
     /// The main idea is that you have to take as many pages as specified, recompute a balanced distribution, and redistribute the cells accordingly.
-    /// Afterwards, propagate the pointers as required.
-    fn balance(&mut self, page_id: PageId) -> BtreeResult<()> {
-        let is_root = self.is_root(page_id);
-        // Read the page size from the pager.
+    /// Afterwards, the separators are updated in the parent, which is balanced in turn.
+    ///
+    /// The content of the node being balanced is given apart from its page as it might not fit in it.
+    fn balance(
+        &mut self,
+        page_id: PageId,
+        content: NodeContent,
+        schema: &Schema,
+    ) -> BtreeResult<()> {
         let page_size = self.pager.write().page_size();
-        let status = self.check_node_status(page_id)?;
+        let max_size = NodeContent::max_size(page_size);
 
-        // Nothing to do, the node is balanced.
-        if matches!(status, NodeStatus::Balanced) {
-            return Ok(());
-        };
+        if self.is_root(page_id) {
+            if let Some(child) = content.right_child
+                && content.cells.is_empty()
+            {
+                return self.balance_shallower(child, schema);
+            };
+
+            if content.size() <= max_size {
+                return self.set_page_content(page_id, content);
+            };
 
-        // Root underflow.
-        if is_root && matches!(status, NodeStatus::Underflow) {
-            return self.balance_shallower();
+            return self.balance_deeper(content, schema);
         };
 
-        // Root overflow.
-        if is_root && matches!(status, NodeStatus::Overflow) {
-            return self.balance_deeper();
+        if (NodeContent::min_size(page_size)..=max_size).contains(&content.size()) {
+            return self.set_page_content(page_id, content);
         };
 
         // Pop the last visited position from the stack.
@@ -1190,363 +944,276 @@ where
             .pop_position()
             .ok_or(BtreeError::TraversalEmpty)?;
 
-        // Internal/Leaf node Overflow/Underflow.
-        self.balance_siblings(page_id, &parent_position)?;
-
-        // No need to fuck anything else up.
-        if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
-            return Ok(());
-        };
-
-        let parent_page_id = parent_position.entry();
-        let (parent_prev, last_parent_slot, parent_next) = {
-            let parent_page = self.get_page_mut(parent_page_id)?;
-
-            // Get metadata about the parent
-            let parent_prev = parent_page.prev_sibling();
-            let last_parent_slot = parent_page.num_slots();
-            let parent_next = parent_page.next_sibling();
-            (parent_prev, last_parent_slot, parent_next)
-        };
-
-        // Check if we are about to rebalance a leaf node (we will need it later).
-        let is_leaf = self.get_page_mut(page_id)?.is_leaf();
-
-        // Obtain the right most child of the parent's left sibling (right most cousin)
-        let parent_prev_sibling_last = if let Some(prev_id) = parent_prev {
-            let parent_child_page = self.get_page_mut(prev_id)?;
-            parent_child_page
-                .right_child()
-                .map(|id| BtreePagePosition::new(id, parent_child_page.num_slots()))
-        } else {
-            None
-        };
-
-        // Obtain the first child of the parent's next sibling (left most cousin)
-        let parent_next_sibling_first = if let Some(next_id) = parent_next {
-            let parent_child_page = self.get_page_mut(next_id)?;
-            parent_child_page
-                .cell(0)
-                .left_child()
-                .map(|id| BtreePagePosition::new(id, 0))
-        } else {
-            None
-        };
-
-        // Load siblings
-        let mut siblings =
-            self.load_siblings(page_id, &parent_position, self.num_siblings_per_side)?;
-
-        // Load the frontiers in case it is necessary.
-        let last_loaded_sibling_slot = siblings.iter().last().unwrap().slot();
-        let first_loaded_sibling_slot = siblings.front().unwrap().slot();
-
-        // Load the left and right frontiers from the parent page
-        let (left_frontier_in_parent, right_frontier_in_parent) = {
-            let parent_page = self.get_page(parent_page_id)?;
-
-            // If the first loaded sibling is > 0, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let left = (first_loaded_sibling_slot > 0)
-                .then(|| first_loaded_sibling_slot - 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-
-            // If the last loaded sibling is < last_parent_slot, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let right = (last_loaded_sibling_slot < last_parent_slot)
-                .then(|| last_loaded_sibling_slot + 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-            (left, right)
-        };
-
-        let mut cells = VecDeque::new();
-
-        // As we remove cells from the parent, slots shrink towards the left.
-        // Therefore we need to always remove the first slot in order to clean up the parent node.
-        let slot_to_remove = siblings[0].slot();
-
-        // Make copies of cells in order.
-        for (i, sibling) in siblings.iter().enumerate() {
-            // As always, when visiting sibling nodes we need to remember to acquire their corresponding latches, as they might have not been visited before.
-            let sibling_page_id = sibling.entry();
+        self.balance_siblings(page_id, content, &parent_position, schema)
+    }
 
-            let page = self.get_page_mut(sibling_page_id)?;
-            cells.extend(page.drain(..));
+    /// Balance shallower algorithm inspired by SQLite (balance shallower)
+    /// https://sqlite.org/btreemodule.html
+    /// The balance shallower algorithm decreases the height of the tree when the root node has only one child.
+    ///
+    /// The content of the child is moved to the root and the page of the child is deallocated.
+    fn balance_shallower(&mut self, child: PageId, schema: &Schema) -> BtreeResult<()> {
+        let content = self.page_content(child)?;
+        self.accessor_mut()?.release(child);
+        self.pager.write().dealloc_page::<BtreePage>(child)?;
+        self.balance(self.root, content, schema)
+    }
 
-            // Extract this node's cells and return the right child.
-            let right_child = page.right_child();
+    /// Balance deeper algorithm inspired by SQLite [balance deeper].
+    /// Balance deeper is the opposite of balance shallower in the sense that the content of the root, which has become too big, is moved to new nodes, increasing the depth of the tree by one.
+    fn balance_deeper(&mut self, content: NodeContent, schema: &Schema) -> BtreeResult<()> {
+        let content = self.spread_content(Vec::new(), content, None, None, schema)?;
+        self.balance(self.root, content, schema)
+    }
 
-            // If we are not the last sibling we can safely link with the next in the chain.
-            // If we are the last sibling we use the right frontier.
-            // If there is no right frontier we are the parent's right most and there is no [next].
-            let next_sibling = siblings
-                .get(i + 1)
-                .map(|s| s.entry())
-                .or(right_frontier_in_parent.map(|f| f.entry()));
+    /// Redistributes the content of a node and of its closest siblings.
+    fn balance_siblings(
+        &mut self,
+        page_id: PageId,
+        content: NodeContent,
+        parent_position: &BtreePagePosition,
+        schema: &Schema,
+    ) -> BtreeResult<()> {
+        let parent_id = parent_position.entry();
+        let slot = parent_position.slot();
+        let is_leaf = content.is_leaf();
+        let mut parent = self.page_content(parent_id)?;
+
+        // The siblings are the children of the parent between these two positions.
+        let first = slot.saturating_sub(self.num_siblings_per_side);
+        let last = min(slot + self.num_siblings_per_side, parent.cells.len());
+
+        let siblings = (first..=last)
+            .map(|i| {
+                parent.child(i).ok_or_else(|| {
+                    BtreeError::InvalidPointer(format!("page {parent_id} has no child at {i}"))
+                })
+            })
+            .collect::<BtreeResult<Vec<PageId>>>()?;
+
+        // Pages at both sides of the chain, which can be children of other nodes.
+        let left_frontier = self.get_page_mut(siblings[0])?.prev_sibling();
+        let right_frontier = self
+            .get_page_mut(siblings[siblings.len() - 1])?
+            .next_sibling();
+
+        // Put together the content of all the siblings. The separators between interior nodes become part of it, as they have the right child of the sibling at their left. The ones between leaves are not needed anymore.
+        let mut node_content = Some(content);
+        let mut separators = parent.cells.drain(first..last).collect::<VecDeque<_>>();
+        let mut unused_separators = Vec::new();
+        let mut merged = NodeContent::default();
+
+        for (i, &sibling) in siblings.iter().enumerate() {
+            let content = match node_content.take_if(|_| sibling == page_id) {
+                Some(content) => content,
+                None => self.page_content(sibling)?,
+            };
 
-            // If the right child is different from None and the next sibling too,
-            // extract the first cell of the first child on our next sibling and allocate a new cell.
-            // This always happens on interior nodes rebalancing, as right_child is not set on leaf nodes.
-            if let Some(right_most_child_id) = right_child
-                && let Some(next_id) = next_sibling
+            if i > 0
+                && let Some(mut separator) = separators.pop_front()
             {
-                let next_page = self.get_page_mut(next_id)?;
-
-                // Obtain the first child
-                if let Some(first_child_id) = next_page.child(0) {
-                    let child_page = self.get_page_mut(first_child_id)?;
-                    let mut cell = child_page.owned_cell(0);
-
-                    // Make the copied cell point to our right child and push it to the chain.
-                    cell.set_left_child(Some(right_most_child_id));
-                    cells.push_back(cell);
+                if is_leaf {
+                    unused_separators.push(separator);
+                } else {
+                    separator.set_left_child(merged.right_child);
+                    merged.cells.push(separator);
                 };
             };
 
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Remove our entry from the parent node.
-            if slot_to_remove < parent_page.num_slots() {
-                parent_page.remove(slot_to_remove)?;
-            };
+            merged.cells.extend(content.cells);
+            merged.right_child = content.right_child;
         }
 
-        // Take the last right child of the siblings chain.
-        // For interior pages this is required in order to unfuck the last pointer.
-        let old_right_child = siblings.iter().last().and_then(|last| {
-            let page_id = last.entry();
-            let page = self.get_page_mut(page_id).ok()?;
-            page.right_child()
-        });
+        let spread = self.spread_content(siblings, merged, left_frontier, right_frontier, schema)?;
 
-        let (total_size_in_each_page, number_of_cells_per_page) =
-            Self::compute_best_cell_distribution(&cells, page_size);
+        // The separator at the right of the siblings (if there is one) is still valid, but it now has another page at its left.
+        match parent.cells.get_mut(first) {
+            Some(separator) => separator.set_left_child(spread.right_child),
+            None => parent.right_child = spread.right_child,
+        };
+        parent.cells.splice(first..first, spread.cells);
 
-        // Allocate missing pages
-        while siblings.len() < number_of_cells_per_page.len() {
-            // New allocated pages are added at the end.
-            let new_parent_index = siblings.iter().last().unwrap().slot() + 1;
-            let new_page = self.pager.write().allocate_page::<BtreePage>()?;
-            siblings.push_back(Position::new(new_page, new_parent_index));
+        let deallocator = CellDeallocator::new(self.pager.clone());
+        for separator in unused_separators {
+            deallocator.deallocate_cell(separator)?;
         }
 
-        // Free unused pages.
-        while number_of_cells_per_page.len() < siblings.len() {
-            let deallocated_sibling = siblings.pop_back().unwrap();
-            let deallocated_page_id = deallocated_sibling.entry();
-            self.accessor_mut()?.release(deallocated_page_id);
-            self.pager
-                .write()
-                .dealloc_page::<BtreePage>(deallocated_page_id)?;
+        // Done, propagate upwards.
+        self.balance(parent_id, parent, schema)
+    }
+
+    /// Spreads the content of a node over as many pages as required, using first the ones provided and deallocating the ones that are not needed.
+    ///
+    /// The pages get linked between them and with the ones at both sides.
+    ///
+    /// Returns what the parent needs to have in order to reach them: the separators between them, with the last of the pages as the right child.
+    fn spread_content(
+        &mut self,
+        mut pages: Vec<PageId>,
+        content: NodeContent,
+        left_frontier: Option<PageId>,
+        right_frontier: Option<PageId>,
+        schema: &Schema,
+    ) -> BtreeResult<NodeContent> {
+        let page_size = self.pager.write().page_size();
+        let is_leaf = content.is_leaf();
+        let groups = Self::compute_best_cell_distribution(
+            &content.cells,
+            NodeContent::max_size(page_size),
+            is_leaf,
+        );
+
+        // Make sure that all the pages that have to be modified are available before doing so.
+        while pages.len() < groups.len() {
+            pages.push(self.pager.write().allocate_page::<BtreePage>()?);
         }
 
         // Put pages in ascending order to favor sequential IO where possible.
-        BinaryHeap::from_iter(siblings.iter().map(|s| Reverse(s.entry())))
-            .iter()
-            .enumerate()
-            .for_each(|(i, Reverse(page))| siblings[i].set_entry(*page));
-
-        // Fix the last child pointer.
-        let last_sibling_id = siblings[siblings.len() - 1].entry();
-        let last_sibling_page = self.get_page_mut(last_sibling_id)?;
-        last_sibling_page.set_right_child(old_right_child);
-
-        // If there is no right frontier at this point, it means the last sibling in the chain is also the parent's right most.
-        if right_frontier_in_parent.is_none() {
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Fix pointers in the parent in case we have allocated new pages.
-            parent_page.set_right_child(Some(last_sibling_id));
-        };
+        pages.sort_unstable();
 
-        // Obtain the global frontiers considering that if we get out of the bounds of the parent node we need to grab the frontiers from its siblings.
-        let global_left_frontier = left_frontier_in_parent.or(parent_prev_sibling_last);
-        let global_right_frontier = right_frontier_in_parent.or(parent_next_sibling_first);
+        for page_id in pages
+            .iter()
+            .copied()
+            .chain(left_frontier)
+            .chain(right_frontier)
+        {
+            self.acquire_with_accessor(page_id)?;
+        }
 
-        // Begin redistribution.
-        for (i, n) in number_of_cells_per_page.iter().enumerate() {
-            let current_iter_id = siblings[i].entry();
-            let current_iter_slot = siblings[i].slot();
+        let builder = CellBuilder::new(
+            self.get_page(pages[0])?.max_allowed_payload_size() as usize,
+            self.min_keys,
+            self.pager.clone(),
+        );
 
-            let current_iter_page = self.get_page_mut(current_iter_id)?;
+        let mut parent = NodeContent::default();
+        let mut cells = content.cells.into_iter();
+        let unused_pages = pages.split_off(groups.len());
+        let last = pages.len() - 1;
 
-            // Push all the cells to the child.
-            let num_cells = if is_leaf {
-                *n
-            } else {
-                *n - 1 // For interior nodes we reserve the last cell. Which we will propagate to the parent. In leaf nodes we cannot do this since there is where data resides.
+        for (i, &num_cells) in groups.iter().enumerate() {
+            let page_id = pages[i];
+            let mut group = NodeContent {
+                cells: cells.by_ref().take(num_cells).collect(),
+                right_child: content.right_child,
             };
 
-            for _ in 0..num_cells {
-                current_iter_page.push(cells.pop_front().unwrap())?;
-            }
-
-            // Get the previous sibling based on the value of [i]
-            let prev_sibling = if i > 0 {
-                Some(siblings[i - 1].entry())
-            } else {
-                global_left_frontier.map(|p| p.entry())
-            };
+            if i < last {
+                // In leaf nodes the data has to stay there, so the separator is built from the first key of the next page. In interior nodes the separator is moved to the parent.
+                let mut separator = match cells.as_slice().first() {
+                    Some(next) if is_leaf => builder.build_separator(next, schema)?,
+                    _ => cells.next().ok_or(BtreeError::BtreeEmpty)?,
+                };
 
-            // Set the previous sibling
-            current_iter_page.set_prev_sibling(prev_sibling);
+                if !is_leaf {
+                    group.right_child = separator.left_child();
+                };
 
-            // Set the next sibling
-            let next_sibling = if i + 1 < siblings.len() {
-                Some(siblings[i + 1].entry())
-            } else {
-                global_right_frontier.map(|p| p.entry())
+                separator.set_left_child(Some(page_id));
+                parent.cells.push(separator);
             };
 
-            current_iter_page.set_next_sibling(next_sibling);
-
-            // For leaf nodes, we always propagate the first cell of the next node.
-            //
-            // Note that the last node's  next is the right frontier, which gets propagated afterwards.
-            if i < siblings.len() - 1 && is_leaf {
-                // Simply create a copy of the next node's front cell, make it point towards ourselves and propagate.
-                let mut divider = cells.front().unwrap().clone();
-                current_iter_page.set_right_child(divider.left_child());
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // For interior nodes there are two possible cases.
-            // CASE A: We are not the right most of the parent.
-            // On that case we simply propagate our last cell and also use it as our right most.
-            } else if !is_leaf && (i < siblings.len() - 1 || right_frontier_in_parent.is_some()) {
-                let mut divider = cells.pop_front().unwrap();
-                current_iter_page.set_right_child(divider.left_child());
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // CASE B: We are the right most of the parent,
-            // Then there is no cell to propagate upwards, so we push an additional cell to ourselves.
-            } else if !is_leaf {
-                current_iter_page.push(cells.pop_front().unwrap())?;
-            };
-        }
+            self.set_page_content(page_id, group)?;
 
-        // Fix the right frontier in the parent.
-        // For leaf nodes, we propagate the first child as a divider, as we still have not done it in the redistribute section (see upwards).
-        //
-        // For interior nodes this is not necessary as we use the last child of the previous sibling instead.
-        if is_leaf && let Some(frontier) = right_frontier_in_parent {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            let mut divider_cell = page.owned_cell(0);
-            divider_cell.set_left_child(Some(last_sibling_id));
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            parent_page.insert(last_sibling_slot, divider_cell)?;
+            let previous = if i > 0 { Some(pages[i - 1]) } else { left_frontier };
+            let next = if i < last { Some(pages[i + 1]) } else { right_frontier };
+            let page = self.get_page_mut(page_id)?;
+            page.set_prev_sibling(previous);
+            page.set_next_sibling(next);
         }
 
-        // Fix the global frontier links.
-        // Right frontier
-        if let Some(frontier) = global_right_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            // Maintain it linked with the last sibling in the chain
-            page.set_prev_sibling(Some(last_sibling_id));
-        }
+        if let Some(frontier) = left_frontier {
+            self.get_page_mut(frontier)?
+                .set_next_sibling(Some(pages[0]));
+        };
 
-        // Left frontier.
-        if let Some(frontier) = global_left_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let next_sibling = siblings.front().map(|p| p.entry());
-            page.set_next_sibling(next_sibling);
+        if let Some(frontier) = right_frontier {
+            self.get_page_mut(frontier)?
+                .set_prev_sibling(Some(pages[last]));
         };
 
-        // Done, propagate upwards.
-        self.balance(parent_page_id)?;
+        // These pages are not visited again, while their parents might be.
+        for &page_id in pages
+            .iter()
+            .chain(&unused_pages)
+            .chain(&left_frontier)
+            .chain(&right_frontier)
+        {
+            self.accessor_mut()?.release(page_id);
+        }
 
-        Ok(())
-    }
+        for page_id in unused_pages {
+            self.pager.write().dealloc_page::<BtreePage>(page_id)?;
+        }
 
-    /// Clears the pointers on every page that will be modified on rebalance.
-    pub(crate) fn clear_ptrs_on_page(&mut self, page_id: PageId) -> BtreeResult<()> {
-        let page_mut = self.get_page_mut(page_id)?;
-        page_mut.set_prev_sibling(None);
-        page_mut.set_next_sibling(None);
-        Ok(())
+        parent.right_child = Some(pages[last]);
+        Ok(parent)
     }
 
-    /// Loads the closest [num_siblings_per_side] positions at each side of the node with page [page_id].
-    /// located at the [parent_position] on its parent.
-    fn load_siblings(
-        &mut self,
-        page: PageId,
-        parent_position: &BtreePagePosition,
-        num_siblings_per_side: usize,
-    ) -> BtreeResult<VecDeque<BtreePagePosition>> {
-        let slot = parent_position.slot();
-        let parent_id = parent_position.entry();
-        let parent_page = self.get_page_mut(parent_id)?;
-
-        let total_cells_in_parent = parent_page.num_slots();
-
-        // Keep track of loaded pages to avoid duplicates.
-        let mut loaded: HashSet<PageId> = HashSet::new();
-        let mut siblings = VecDeque::new();
+    /// Computes the best cell distribution given a list of cells: the number of cells to put in each page.
+    ///
+    /// On interior nodes there is an additional cell between each two pages, which goes to the parent.
+    ///
+    /// The number of pages is the minimum and the cells are evenly distributed between them.
+    fn compute_best_cell_distribution(
+        cells: &[OwnedCell],
+        max_size: usize,
+        is_leaf: bool,
+    ) -> Vec<usize> {
+        let separators = usize::from(!is_leaf);
+        let total = cells.len();
+
+        // Size of the cells before each one.
+        let mut offsets = vec![0];
+        for cell in cells {
+            offsets.push(offsets[offsets.len() - 1] + cell.storage_size());
+        }
+        let fits = |start: usize, end: usize| offsets[end] - offsets[start] <= max_size;
 
-        // Push ourselves into the queue.
-        siblings.push_back(Position::new(page, slot));
-        loaded.insert(page);
+        // Fill the pages from right to left, which gives the minimum number of pages and the first cell that each page can have if the ones at its right must not be more than those.
+        let mut first_cells = Vec::new();
+        let mut end = total;
+        loop {
+            let mut start = end.saturating_sub(1);
+            while start > 0 && fits(start - 1, end) {
+                start -= 1;
+            }
 
-        let mut next = slot + 1;
-        let mut added_count = 0;
+            // There must be cells at the left of the separator.
+            if start > 0 && start <= separators && end - start > 1 {
+                start += 1;
+            };
 
-        // Load positions at the right side until we exhaust the parent
-        while next <= total_cells_in_parent && added_count < num_siblings_per_side {
-            if let Some(child) = parent_page.child(next).map(|id| Position::new(id, next)) {
-                if !loaded.contains(&child.entry()) {
-                    siblings.push_back(child);
-                    loaded.insert(child.entry());
-                } else {
-                    break;
-                };
-            } else {
+            first_cells.push(start);
+            if start == 0 {
                 break;
             };
-            next += 1;
-            added_count += 1;
+            end = start - separators;
         }
+        first_cells.reverse();
+
+        // Now distribute them from left to right.
+        let num_pages = first_cells.len();
+        let mut groups = Vec::with_capacity(num_pages);
+        let mut start = 0;
+
+        for page in 1..num_pages {
+            let ideal = offsets[total] * page / num_pages;
+            let lowest = first_cells[page] - separators;
+            let pages_left = num_pages - page;
+            let highest = total - pages_left - pages_left * separators;
+
+            let mut end = max(lowest, start + 1);
+            while end < highest && fits(start, end + 1) && offsets[end + 1] <= ideal {
+                end += 1;
+            }
 
-        added_count = 0;
-
-        // As we use saturating sub, when we reach slot = 0 we risk loading the same position multiple times, that is why we keep track of loaded pages in order to avoid duplicates.
-        next = slot.saturating_sub(1);
-
-        // Load slots at the left side.
-        while added_count < num_siblings_per_side {
-            if let Some(child) = parent_page.child(next).map(|id| Position::new(id, next)) {
-                if !loaded.contains(&child.entry()) {
-                    siblings.push_front(child);
-                    loaded.insert(child.entry());
-                } else {
-                    break;
-                };
-            } else {
-                break;
-            };
-            next = next.saturating_sub(1);
-            added_count += 1;
+            groups.push(end - start);
+            start = end + separators;
         }
 
-        Ok(siblings)
+        groups.push(total - start);
+        groups
     }
 
     fn check_node_status(&mut self, page_id: PageId) -> BtreeResult<NodeStatus> {
@@ -1562,191 +1229,6 @@ where
         }
     }
 
-    /// Grabs the cell one page to another and fix the pointer in the parent.
-    /// Does nothing if the target page does not have enough space to fit the borrowed cell.
-    fn take_cell_checked(
-        &mut self,
-        source_page_id: PageId,
-        target_page_id: PageId,
-        parent_id: PageId,
-        borrowed_slot: usize,
-        target_slot: usize,
-        separator_slot: usize,
-        direction: BorrowDirection,
-    ) -> BtreeResult<()> {
-        // Size occupied by the cell that would go to the target node.
-        let cell_size = self
-            .get_page_mut(source_page_id)?
-            .cell(borrowed_slot)
-            .storage_size();
-
-        let can_borrow = self
-            .get_page_mut(source_page_id)?
-            .can_release_space(cell_size);
-
-        let has_space = self
-            .get_page_mut(target_page_id)?
-            .has_space_for(cell_size as usize);
-
-        // Cannot release
-        if !has_space || !can_borrow {
-            return Ok(());
-        };
-
-        // Fantastic! our friend has space for us.
-        // Lets push our cell there.
-        let removed_cell = self.get_page_mut(source_page_id)?.remove(borrowed_slot)?;
-        let left = self.get_page_mut(target_page_id)?;
-        left.insert(target_slot, removed_cell)?;
-
-        // Haha, but now our parent might have fucked up.
-        // We need to unfuck him.
-        // In order to unfuck the parent, we replace the entry that pointed to left with the right node's first key
-        let divider = match direction {
-            BorrowDirection::RightToLeft => {
-                let mut separator = self.get_page_mut(source_page_id)?.owned_cell(0);
-                separator.set_left_child(Some(target_page_id));
-                separator
-            }
-            BorrowDirection::LeftToRight => {
-                let mut separator = self.get_page_mut(target_page_id)?.owned_cell(0);
-                separator.set_left_child(Some(source_page_id));
-                separator
-            }
-        };
-
-        let parent_page = self.get_page_mut(parent_id)?;
-        if parent_page.num_slots() == separator_slot {
-            parent_page.set_right_child(divider.left_child());
-        } else {
-            parent_page.replace(separator_slot, divider)?;
-        };
-
-        Ok(())
-    }
-
-    // This should be only called on leaf nodes. on interior nodes it is a brainfuck to also be fixing pointers to right most children every time we borrow a single cell.
-    // See SQLite 3.0 balance siblings algorithm: https://sqlite.org/btreemodule.html
-    fn balance_siblings(
-        &mut self,
-        page_id: PageId,
-        parent_pos: &BtreePagePosition,
-    ) -> BtreeResult<()> {
-        let is_leaf = self.get_page_mut(page_id)?.is_leaf();
-
-        if !is_leaf {
-            return Ok(());
-        };
-
-        let status = self.check_node_status(page_id)?;
-
-        let mut siblings = self.load_siblings(page_id, parent_pos, 1)?; // One sibling per side
-
-        if siblings.is_empty() || siblings.len() == 1 {
-            return Ok(());
-        };
-
-        let parent_id = parent_pos.entry();
-        match status {
-            NodeStatus::Balanced => Ok(()),
-            NodeStatus::Overflow => {
-                let source_page_id = page_id;
-                // Okey, we are on overflow state and our left sibling is valid. Then we can ask him if it has space for us.
-                if let Some(sibling_left) = siblings.pop_front()
-                    && sibling_left.entry() != source_page_id
-                {
-                    let target_page_id = sibling_left.entry();
-                    let separator_slot = sibling_left.slot();
-
-                    let target_slot = self.get_page_mut(target_page_id)?.num_slots();
-
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        0,
-                        target_slot,
-                        separator_slot,
-                        BorrowDirection::RightToLeft,
-                    )?;
-                };
-
-                let status = self.check_node_status(page_id)?;
-
-                if let Some(sibling_right) = siblings.pop_back()
-                    && sibling_right.entry() != source_page_id
-                    && matches!(status, NodeStatus::Overflow)
-                {
-                    let borrowed_slot = self.get_page_mut(source_page_id)?.num_slots() - 1;
-
-                    let target_page_id = sibling_right.entry();
-                    let separator_slot = sibling_right.slot() - 1;
-
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        borrowed_slot,
-                        0,
-                        separator_slot,
-                        BorrowDirection::LeftToRight,
-                    )?;
-                };
-                Ok(())
-            }
-            NodeStatus::Underflow => {
-                let target_page_id = page_id;
-
-                // Okey, we are on underflow state and our right sibling is valid. Then we can ask him if it has cells for us.
-                if let Some(sibling_right) = siblings.pop_back()
-                    && sibling_right.entry() != target_page_id
-                {
-                    let source_page_id = sibling_right.entry();
-                    let separator_slot = sibling_right.slot() - 1;
-
-                    let target_slot = self.get_page_mut(target_page_id)?.num_slots();
-
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        0,
-                        target_slot,
-                        separator_slot,
-                        BorrowDirection::RightToLeft,
-                    )?;
-                };
-
-                // Borrow from the left side
-                if let Some(sibling_left) = siblings.pop_front()
-                    && sibling_left.entry() != page_id
-                    && matches!(
-                        self.check_node_status(target_page_id)?,
-                        NodeStatus::Underflow
-                    )
-                {
-                    let source_page_id = sibling_left.entry();
-                    let borrowed_slot = self.get_page_mut(source_page_id)?.num_slots() - 1;
-                    let separator_slot = sibling_left.slot();
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        borrowed_slot,
-                        0,
-                        separator_slot,
-                        BorrowDirection::LeftToRight,
-                    )?;
-                };
-
-                Ok(())
-            }
-        }
-
-        // This algorithm is more efficient than reasseambling everyting in the tree. However, it has the disadvantage that it can fuck up the pointers in the parent nodes.
-        // We are responsible from unfucking them.
-    }
-
     /// Deallocates the entire tree using BFS traversal.
     /// More efficient than position iterator since we only need page IDs.
     /// The intuition is the following:
@@ -1754,10 +1236,7 @@ where
     pub(crate) fn dealloc(&mut self) -> BtreeResult<()> {
         let mut queue: VecDeque<PageId> = VecDeque::new();
         let mut visited: HashSet<PageId> = HashSet::new();
-        let mut overflow_chains: HashSet<PageId> = HashSet::new(); // Use HashSet to deduplicate.
-        // During the balancing algorithm, some cells get copied to interior nodes.
-        // When this cells have overflow pages linked to them, we do not copy the entire overflow chain, but just the first cell and create a pointer alias on the copied cell. The problem is that this caused duplicate overflow pages to appear in the list of pages to deallocate, generating an infinite deallocation loop.
-        // I fixed it out using a [Set] instead of a [Vec] here.
+        let mut overflow_chains: Vec<PageId> = Vec::new(); // Each chain belongs to a single cell.
 
         queue.push_back(self.get_root());
 
@@ -1784,13 +1263,10 @@ where
                 }
             }
 
-            // Insert into HashSet automatically deduplicates
-            for ovf in overflows {
-                overflow_chains.insert(ovf);
-            }
+            overflow_chains.extend(overflows);
         }
 
-        // Deallocate overflow chains (now deduplicated)
+        // Deallocate overflow chains
         for overflow_start in overflow_chains {
             self.dealloc_overflow_chain(overflow_start)?;
         }
diff --git a/crates/axmos-db/src/tree/cell_ops.rs b/crates/axmos-db/src/tree/cell_ops.rs
index 5c0e73f..e492726 100644
--- a/crates/axmos-db/src/tree/cell_ops.rs
+++ b/crates/axmos-db/src/tree/cell_ops.rs
@@ -32,6 +32,10 @@ pub(crate) struct CellBuilder {
     /// Shared access to the pager.
     pager: SharedPager,
 }
+
+/// Interior pages should be able to hold several separators, no matter how long the keys are.
+const MINIMUM_SEPARATORS_PER_PAGE: usize = 16;
+
 /// Cell comparator
 pub(crate) struct CellComparator<'a> {
     schema: &'a Schema,
@@ -289,7 +293,50 @@ impl CellBuilder {
         }
 
         // At this point we have to split the payload.
-        let payload = data.full_data();
+        self.build_overflow_cell(data.effective_data(), max_payload_size)
+    }
+
+    /// Builds the cell that separates two leaf pages in their parent, given the first cell of the page at the right.
+    ///
+    /// It only has the keys, so that it does not share the overflow pages of the cell it was built from.
+    pub fn build_separator(&self, cell: &OwnedCell, schema: &Schema) -> io::Result<OwnedCell> {
+        let mut reassembler = Reassembler::new(self.pager.clone());
+        reassembler.reassemble(cell.as_cell_ref())?;
+        let mut data = reassembler.into_boxed_slice().into_vec();
+
+        let keys_start = Tuple::keys_offset(schema.num_values());
+        let mut keys_end = keys_start;
+        for key_col in schema.iter_keys() {
+            let (_, next) = key_col
+                .datatype()
+                .deserialize(&data, keys_end)
+                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e.to_string()))?;
+            keys_end = next;
+        }
+        data.truncate(keys_end);
+
+        // There are no values and no other versions.
+        let header = TupleHeader::new(0, 0, None);
+        header.write_to(&mut data, 0);
+        data[TupleHeader::SIZE..keys_start].fill(u8::MAX);
+
+        let page_size = self.pager.write().page_size();
+        let max_payload_size =
+            BtreePage::ideal_max_payload_size(page_size, MINIMUM_SEPARATORS_PER_PAGE);
+
+        if data.len() <= max_payload_size {
+            return Ok(OwnedCell::new(&data));
+        };
+        self.build_overflow_cell(&data, max_payload_size)
+    }
+
+    /// Builds a cell with the first part of the payload, storing the rest of it in a chain of overflow pages.
+    fn build_overflow_cell(
+        &self,
+        payload: &[u8],
+        max_payload_size: usize,
+    ) -> io::Result<OwnedCell> {
+        let page_size = self.pager.write().page_size();
 
         let mut overflow_page_number = self.pager.write().allocate_page::<OverflowPage>()?;
 
-- 
2.43.0


From 6d2a55c90af472a4cbccc3691dc6b6f17e0be295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 12/42] fix: write-ahead log keeps every forced record across
 forces, reopens and truncations

---
 crates/axmos-db/src/io/disk/mod.rs |   8 +++
 crates/axmos-db/src/io/wal.rs      | 108 ++++++++++++++++-------------
 crates/axmos-db/src/storage/wal.rs |   5 +-
 3 files changed, 72 insertions(+), 49 deletions(-)

diff --git a/crates/axmos-db/src/io/disk/mod.rs b/crates/axmos-db/src/io/disk/mod.rs
index b23be20..d2298cf 100644
--- a/crates/axmos-db/src/io/disk/mod.rs
+++ b/crates/axmos-db/src/io/disk/mod.rs
@@ -134,6 +134,14 @@ impl DBFile {
     pub fn metadata(&self) -> io::Result<Metadata> {
         self.f.metadata()
     }
+
+    /// Cut or extend the file to the given length.
+    pub fn set_len(&mut self, len: u64) -> io::Result<()> {
+        self.f.set_len(len)?;
+        #[cfg(axmos_verif)]
+        crate::verif::tap::emit(crate::verif::tap::IoEvent::SetLen { path: &self.p, len });
+        Ok(())
+    }
 }
 
 impl Seek for DBFile {
diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ecb5422..a4a932f 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -5,7 +5,7 @@ use crate::{
         logger::{Alter, Create, Delete, DropOp, Insert, Update},
     },
     storage::{
-        Allocatable, AvailableSpace, WalMetadata, WalOps, Writable,
+        Allocatable, AvailableSpace, Identifiable, WalMetadata, WalOps, Writable,
         wal::{BlockZero, OwnedRecord, RecordRef, RecordType, WAL_BLOCK_SIZE, WalBlock},
     },
     types::{BlockId, Lsn},
@@ -48,6 +48,17 @@ impl FileOperations for WriteAheadLog {
         let fs_block_size = FileSystem::block_size(&path)?;
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
+        // A log that was never forced has no header yet, so it holds no records.
+        if file.metadata()?.len() < default_block_size as u64 {
+            return Ok(Self {
+                header: BlockZero::alloc(0, default_block_size),
+                current_block: None,
+                flush_queue: VecDeque::new(),
+                file,
+                block_size: default_block_size,
+            });
+        }
+
         // Read block 0 (global header)
         let mut header_buf: BlockZero = BlockZero::new(default_block_size);
         file.seek(SeekFrom::Start(0))?;
@@ -61,9 +72,24 @@ impl FileOperations for WriteAheadLog {
             block_size
         };
 
+        // Keep appending to the last block, so that what it already holds is not lost.
+        let total_blocks = header_buf.metadata().wal_header.total_blocks;
+        let current_block = if total_blocks > 1 {
+            let mut block = WalBlock::new(block_size);
+            file.seek(SeekFrom::Start((total_blocks - 1) * block_size as u64))?;
+            file.read_exact(block.as_mut())?;
+
+            // The block may have reached the disk without the header that goes with it.
+            let wal_header = &mut header_buf.metadata_mut().wal_header;
+            wal_header.global_last_lsn = wal_header.global_last_lsn.max(block.last_lsn());
+            Some(block)
+        } else {
+            None
+        };
+
         Ok(Self {
             header: header_buf,
-            current_block: None, // If needed, will be allocated on push.
+            current_block,
             flush_queue: VecDeque::new(),
             file,
             block_size,
@@ -79,11 +105,17 @@ impl FileOperations for WriteAheadLog {
     }
 
     fn truncate(&mut self) -> io::Result<()> {
-        self.file.truncate()?;
+        // Sequence numbers keep growing after a truncation.
+        let last_lsn = self.last_lsn();
         self.header = BlockZero::alloc(0, self.block_size);
+        self.header.metadata_mut().wal_header.global_last_lsn = last_lsn;
         self.current_block = None;
         self.flush_queue.clear();
-        Ok(())
+
+        // An empty block zero is enough to discard every block that follows it.
+        self.write_header()?;
+        self.file.set_len(self.block_size as u64)?;
+        self.file.sync_all()
     }
 }
 
@@ -147,23 +179,17 @@ impl WriteAheadLog {
     }
 
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
-        self.header.last_lsn()
+        self.header.metadata().wal_header.global_last_lsn
     }
 
     /// Runs the analysis phase of the ARIES recovery protocol.
     pub(crate) fn run_analysis(&mut self) -> io::Result<AnalysisResult> {
         let mut result = AnalysisResult::default();
 
-        let total_blocks = self.header.metadata().wal_header.total_blocks;
-        if total_blocks == 0 {
-            return Ok(result);
-        }
-
         let mut reader = WalReader::new(
             &mut self.file,
             self.block_size * 4, // Read ahead 4 blocks
             self.block_size,
-            total_blocks,
         )?;
 
         while let Some(record) = reader.next_ref()? {
@@ -277,7 +303,6 @@ impl WriteAheadLog {
     }
 
     pub(crate) fn push(&mut self, record: OwnedRecord) -> io::Result<()> {
-        let lsn = record.lsn();
         let record_size = record.total_size();
 
         // Check if record can ever fit in a block
@@ -308,7 +333,7 @@ impl WriteAheadLog {
                 return Ok(());
             }
             // Block zero is full, create first current_block
-            self.current_block = Some(WalBlock::new(self.block_size));
+            self.rotate_block()?;
         }
 
         // Write to current_block
@@ -355,37 +380,24 @@ impl WriteAheadLog {
     }
 
     pub fn perform_flush(&mut self) -> io::Result<()> {
-        // Block 0 always exists, additional blocks start at index 1
-        let mut block_number: u64 = 1;
-        let mut write_offset = self.block_size as u64;
-
-        // Flush queued blocks
-        while let Some(block) = self.flush_queue.pop_front() {
-            self.file.seek(SeekFrom::Start(write_offset))?;
+        // Flush queued blocks, each one to its own place in the file.
+        while let Some(block) = self.flush_queue.front() {
+            self.file
+                .seek(SeekFrom::Start(block.id() * self.block_size as u64))?;
             self.file.write_all(block.as_ref())?;
-            block_number += 1;
-            write_offset += self.block_size as u64;
-        }
-
-        // Flush current block if it has data
-        if let Some(ref block) = self.current_block {
-            if block.metadata().used_bytes > 0 {
-                self.file.seek(SeekFrom::Start(write_offset))?;
-                self.file.write_all(block.as_ref())?;
-                block_number += 1;
-            }
+            self.flush_queue.pop_front();
         }
 
-        // Update header metadata
-        self.header.metadata_mut().wal_header.total_blocks = block_number;
-
-        if let Some(block) = self.current_block.take() {
-            self.header.metadata_mut().wal_header.last_block_used =
-                block.metadata().used_bytes as u32;
+        // Flush the current block. It is kept, since later records continue in it.
+        let last_block_used = if let Some(block) = &self.current_block {
+            self.file
+                .seek(SeekFrom::Start(block.id() * self.block_size as u64))?;
+            self.file.write_all(block.as_ref())?;
+            block.metadata().used_bytes
         } else {
-            self.header.metadata_mut().wal_header.last_block_used =
-                self.header.metadata().block_header.used_bytes as u32;
-        }
+            self.header.metadata().block_header.used_bytes
+        };
+        self.header.metadata_mut().wal_header.last_block_used = last_block_used as u32;
 
         // Write block zero (siempre al principio)
         self.file.seek(SeekFrom::Start(0))?;
@@ -417,7 +429,6 @@ impl WriteAheadLog {
             &mut self.file,
             self.block_size * read_ahead_amount, // Small read-ahead to test reloading
             self.block_size,
-            self.header.metadata().wal_header.total_blocks,
         )
     }
 }
@@ -449,14 +460,17 @@ impl<'a> WalReader<'a> {
         file: &'a mut DBFile,
         read_ahead_size: usize,
         block_size: usize,
-        total_blocks: u64,
     ) -> io::Result<Self> {
-        // Read block zero (header)
-        let mut header = BlockZero::new(block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header.as_mut())?;
+        // Read block zero (header). Until the first force there is none.
+        let mut header = BlockZero::alloc(0, block_size);
+        if file.metadata()?.len() >= block_size as u64 {
+            file.seek(SeekFrom::Start(0))?;
+            file.read_exact(header.as_mut())?;
+        }
+        // Only the blocks that have been forced can be read back.
+        let total_blocks = header.metadata().wal_header.total_blocks;
 
-        let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
+        let read_ahead_size = read_ahead_size.max(1).next_multiple_of(block_size);
         let num_blocks_to_read =
             (read_ahead_size / block_size).min(total_blocks.saturating_sub(1) as usize);
 
diff --git a/crates/axmos-db/src/storage/wal.rs b/crates/axmos-db/src/storage/wal.rs
index 24f9bfe..13b7899 100644
--- a/crates/axmos-db/src/storage/wal.rs
+++ b/crates/axmos-db/src/storage/wal.rs
@@ -408,14 +408,15 @@ pub(crate) type WalBlock = MemBlock<BlockHeader>;
 
 impl AvailableSpace for BlockZero {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity())
+        self.capacity()
             .saturating_sub(self.metadata().block_header.used_bytes as usize)
     }
 }
 
 impl AvailableSpace for WalBlock {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity()).saturating_sub(self.metadata().used_bytes as usize)
+        self.capacity()
+            .saturating_sub(self.metadata().used_bytes as usize)
     }
 }
 
-- 
2.43.0


From 43ac7b394b2f304bc172e4ab69a1db716c5c9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 13/42] fix: row versions keep their creator, their alignment
 and the history every snapshot needs

---
 crates/axmos-db/src/runtime/dml.rs    |   4 +-
 crates/axmos-db/src/schema/catalog.rs |   2 +-
 crates/axmos-db/src/storage/tuple.rs  | 159 +++++++++++++-------------
 3 files changed, 80 insertions(+), 85 deletions(-)

diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 28a9ef9..34e9be1 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -309,7 +309,7 @@ impl DmlExecutor {
 
         // Apply the update
         let mut updated_tuple = tuple.clone();
-        updated_tuple.add_version_with(&assignments, tid, &schema)?;
+        updated_tuple.add_version_with(&assignments, tuple.xmin(), &schema)?;
 
         // Get the new row for index maintenance
         let new_row = updated_tuple
@@ -587,7 +587,7 @@ impl DmlExecutor {
                         if let Some(mut tuple) = updated {
                             tuple.add_version_with(
                                 &index_assignments,
-                                snapshot.xid(),
+                                tuple.xmin(),
                                 index_schema,
                             )?;
                             index_btree.update(index_root, tuple, index_schema)?;
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 92aa7a1..30bc725 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -509,7 +509,7 @@ impl Catalog {
             return Ok(());
         };
 
-        tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+        tuple.add_version_with(&changes, tuple.xmin(), &schema)?;
         let result = meta_table.update(self.meta_table, tuple, &schema)?;
 
         Ok(())
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 555b247..a2636f8 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -592,9 +592,9 @@ impl<'a> TupleReader<'a> {
     ) -> TupleResult<Option<TupleLayout>> {
         let mut layout = self.parse_last_version(data)?;
 
-        // Check if tuple was deleted before our snapshot
+        // Check if the tuple was deleted before our snapshot, or by ourselves
         if let Some(xmax) = layout.version_xmax {
-            if snapshot.is_committed_before_snapshot(xmax) {
+            if xmax == snapshot.xid() || snapshot.is_committed_before_snapshot(xmax) {
                 return Ok(None);
             }
         }
@@ -646,7 +646,9 @@ impl<'a> TupleReader<'a> {
                 // If null, the offset doesn't matter - null check happens first
             }
 
-            if snapshot.is_committed_before_snapshot(layout.version_xmin) {
+            if layout.version_xmin == snapshot.xid()
+                || snapshot.is_committed_before_snapshot(layout.version_xmin)
+            {
                 return Ok(Some(layout));
             }
         }
@@ -701,7 +703,8 @@ impl TupleLayout {
     }
 
     pub fn key_size(&self) -> usize {
-        self.value_offsets[0].saturating_sub(self.key_start())
+        let keys_end = self.value_offsets.first().copied().unwrap_or(self.data_end);
+        keys_end.saturating_sub(self.key_start())
     }
 }
 
@@ -926,7 +929,9 @@ impl Tuple {
         schema: &Schema,
         snapshot: &Snapshot,
     ) -> TupleResult<usize> {
-        self.vaccum_with(snapshot.xmin(), schema)
+        self.vaccum_until(schema, |xmin| {
+            xmin < snapshot.xmin() && !snapshot.is_transaction_aborted(xmin)
+        })
     }
 
     pub(crate) fn xmin(&self) -> TransactionId {
@@ -1015,9 +1020,8 @@ impl Tuple {
 
         let mut cursor = 0;
 
-        // Write header
-        let original_xmin = self.xmin();
-        let header = TupleHeader::new(old_version + 1, original_xmin, None);
+        // Write header. The version number only tells neighbouring versions apart, so it can wrap.
+        let header = TupleHeader::new(old_version.wrapping_add(1), new_xmin, None);
         cursor = header.write_to(buffer, cursor);
 
         // Write null bitmap for new values
@@ -1042,6 +1046,8 @@ impl Tuple {
 
         // Copy existing deltas
         if existing_deltas_size > 0 {
+            // Offsets inside the deltas are relative to their (aligned) start.
+            cursor = DeltaHeader::aligned_offset(cursor);
             let existing_deltas = &self.data.effective_data()[existing_deltas_start..];
             buffer[cursor..cursor + existing_deltas_size].copy_from_slice(existing_deltas);
         }
@@ -1160,7 +1166,10 @@ impl Tuple {
         }
 
         // Existing deltas
-        size += existing_deltas_size;
+        if existing_deltas_size > 0 {
+            size = DeltaHeader::aligned_offset(size);
+            size += existing_deltas_size;
+        }
 
         size
     }
@@ -1263,10 +1272,7 @@ impl Tuple {
     }
 
     pub(crate) fn delete(&mut self, xid: TransactionId) -> TupleResult<()> {
-        if self.is_deleted() {
-            return Ok(());
-        }
-
+        // A previous deleter may have been rolled back, so the last one wins.
         let buffer = self.data.effective_data_mut();
         let (mut header, _) = TupleHeader::read_from(buffer, 0);
         header.xmax = xid as i64;
@@ -1278,14 +1284,23 @@ impl Tuple {
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-    /// A delta is no longer needed if its xmin is less than the oldest active
-    /// transaction ID, meaning no transaction can ever need to see that version.
+    /// Every transaction at or above the horizon sees the newest version created below it
+    /// (or a newer one), so only the versions older than that one can go.
     ///
     /// Returns the number of bytes freed.
     pub(crate) fn vaccum_with(
         &mut self,
         oldest_active_xid: TransactionId,
         schema: &Schema,
+    ) -> TupleResult<usize> {
+        self.vaccum_until(schema, |xmin| xmin < oldest_active_xid)
+    }
+
+    /// Drops the versions that are older than the newest one for which [visible_to_all] holds.
+    fn vaccum_until(
+        &mut self,
+        schema: &Schema,
+        visible_to_all: impl Fn(TransactionId) -> bool,
     ) -> TupleResult<usize> {
         let reader = TupleReader::from_schema(schema);
         let layout = reader.parse_last_version(self.data.effective_data())?;
@@ -1295,62 +1310,59 @@ impl Tuple {
             return Ok(0);
         }
 
-        let num_values = schema.num_values();
-        let bitmap_size = null_bitmap_size(num_values);
-        let mut cursor = layout.delta_start();
-        let mut last_needed_end = layout.delta_start();
-
-        while cursor < self.data.len() {
-            let (delta_header, header_end) =
-                DeltaHeader::read_from(self.data.effective_data(), cursor);
-
-            // If this delta's xmin >= oldest_active_xid, some transaction might still need it
-            if delta_header.xmin() >= oldest_active_xid {
-                let num_changes = self.data.effective_data()[header_end] as usize;
-
-                // Skip: num_changes byte + full bitmap
-                let delta_bitmap_start = header_end + 1;
-                let delta_bitmap = &self.data.effective_data()
-                    [delta_bitmap_start..delta_bitmap_start + bitmap_size];
-                let mut skip_cursor = delta_bitmap_start + bitmap_size;
-
-                // Skip each change entry
-                for _ in 0..num_changes {
-                    let field_idx = self.data.effective_data()[skip_cursor] as usize;
-                    skip_cursor += 1;
-
-                    // Check if this field is NULL using the delta's bitmap
-                    let is_null = TupleReader::check_null(delta_bitmap, field_idx);
-
-                    if !is_null {
-                        let dtype = schema
-                            .value(field_idx)
-                            .ok_or(TupleError::ValueError(field_idx))?
-                            .datatype();
-
-                        let (_, new_cursor) =
-                            dtype.deserialize(self.data.effective_data(), skip_cursor)?;
-                        skip_cursor = new_cursor;
-                    }
-                    // If null, no data was written, so don't advance cursor
-                }
-
-                last_needed_end = skip_cursor;
-                cursor = skip_cursor;
-            } else {
-                // This delta and all subsequent ones are too old - stop here
-                break;
-            }
+        let mut needed_end = layout.data_end;
+        let mut visible = visible_to_all(layout.version_xmin);
+
+        while !visible && DeltaHeader::aligned_offset(needed_end) < self.data.len() {
+            let (xmin, delta_end) = Self::skip_delta(
+                self.data.effective_data(),
+                DeltaHeader::aligned_offset(needed_end),
+                schema,
+            )?;
+            needed_end = delta_end;
+            visible = visible_to_all(xmin);
         }
 
-        let freed = self.data.len() - last_needed_end;
+        let freed = self.data.len() - needed_end;
         if freed > 0 {
-            self.data.realloc(last_needed_end)?;
+            self.data.realloc(needed_end)?;
         }
 
         Ok(freed)
     }
 
+    /// Returns the creator of the delta that starts at [cursor] and the offset where it ends.
+    fn skip_delta(
+        data: &[u8],
+        cursor: usize,
+        schema: &Schema,
+    ) -> TupleResult<(TransactionId, usize)> {
+        let bitmap_size = null_bitmap_size(schema.num_values());
+        let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
+
+        let num_changes = data[header_end] as usize;
+        let bitmap_start = header_end + 1;
+        let bitmap = &data[bitmap_start..bitmap_start + bitmap_size];
+        let mut cursor = bitmap_start + bitmap_size;
+
+        for _ in 0..num_changes {
+            let field_idx = data[cursor] as usize;
+            cursor += 1;
+
+            // Nulls have no data
+            if !TupleReader::check_null(bitmap, field_idx) {
+                let dtype = schema
+                    .value(field_idx)
+                    .ok_or(TupleError::ValueError(field_idx))?
+                    .datatype();
+                let (_, new_cursor) = dtype.deserialize(data, cursor)?;
+                cursor = new_cursor;
+            }
+        }
+
+        Ok((delta_header.xmin(), cursor))
+    }
+
     pub(crate) fn has_history_with(&self, schema: &Schema) -> bool {
         let reader = TupleReader::from_schema(schema);
         let layout = reader
@@ -1374,29 +1386,12 @@ impl Tuple {
             return Ok(1);
         }
 
-        let num_values = schema.num_values();
-        let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
         let mut count = 1;
 
         while cursor < self.data.len() {
-            let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
-            let num_changes = self.data.effective_data()[header_end] as usize;
-            cursor = header_end + 1 + bitmap_size;
-
-            for _ in 0..num_changes {
-                let field_idx = self.data.effective_data()[cursor] as usize;
-                cursor += 1;
-
-                let dtype = schema
-                    .value(field_idx)
-                    .ok_or(TupleError::ValueError(field_idx))?
-                    .datatype();
-
-                let (_, new_cursor) = dtype.deserialize(self.data.effective_data(), cursor)?;
-                cursor = new_cursor;
-            }
-
+            let (_, delta_end) = Self::skip_delta(self.data.effective_data(), cursor, schema)?;
+            cursor = DeltaHeader::aligned_offset(delta_end);
             count += 1;
         }
 
-- 
2.43.0


From e7b5b2dea68a0e566b81b710041f2d7e78862210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 14/42] verif: row, log, page and tree access behind --cfg
 axmos_verif

---
 crates/axmos-db/src/verif/log.rs    |  98 +++++++++++
 crates/axmos-db/src/verif/mod.rs    |   3 +
 crates/axmos-db/src/verif/store.rs  | 261 ++++++++++++++++++++++++++++
 crates/axmos-db/src/verif/tuples.rs | 139 +++++++++++++++
 4 files changed, 501 insertions(+)
 create mode 100644 crates/axmos-db/src/verif/log.rs
 create mode 100644 crates/axmos-db/src/verif/store.rs
 create mode 100644 crates/axmos-db/src/verif/tuples.rs

diff --git a/crates/axmos-db/src/verif/log.rs b/crates/axmos-db/src/verif/log.rs
new file mode 100644
index 0000000..24d5cf8
--- /dev/null
+++ b/crates/axmos-db/src/verif/log.rs
@@ -0,0 +1,98 @@
+//! The write ahead log on its own.
+use crate::{
+    io::{disk::FileOperations, wal::WriteAheadLog},
+    storage::wal::{OwnedRecord, RecordType},
+};
+use std::{io, io::Write, path::Path};
+
+pub struct Log(Option<WriteAheadLog>);
+
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub struct Entry {
+    pub lsn: u64,
+    pub tid: u64,
+    pub prev: Option<u64>,
+    pub object: Option<u64>,
+    pub row: Option<u64>,
+    pub kind: u8,
+    pub undo: Vec<u8>,
+    pub redo: Vec<u8>,
+}
+
+pub const KINDS: [u8; 10] = [0, 1, 2, 3, 6, 7, 8, 9, 10, 11];
+
+fn kind(k: u8) -> RecordType {
+    match k {
+        0 => RecordType::Begin,
+        1 => RecordType::Commit,
+        2 => RecordType::Abort,
+        3 => RecordType::End,
+        6 => RecordType::Update,
+        7 => RecordType::Delete,
+        8 => RecordType::Insert,
+        9 => RecordType::Create,
+        10 => RecordType::Drop,
+        _ => RecordType::Alter,
+    }
+}
+
+impl Log {
+    pub fn create(path: &Path) -> io::Result<Self> {
+        WriteAheadLog::create(path).map(|w| Self(Some(w)))
+    }
+
+    pub fn open(path: &Path) -> io::Result<Self> {
+        WriteAheadLog::open(path).map(|w| Self(Some(w)))
+    }
+
+    fn wal(&mut self) -> &mut WriteAheadLog {
+        self.0.as_mut().expect("log in use")
+    }
+
+    pub fn max_record_size(&mut self) -> usize {
+        self.wal().max_record_size()
+    }
+
+    pub fn last_lsn(&mut self) -> Option<u64> {
+        self.wal().last_lsn()
+    }
+
+    pub fn push(&mut self, e: &Entry) -> io::Result<()> {
+        let record = OwnedRecord::new(
+            e.lsn, e.tid, e.prev, e.object, e.row, kind(e.kind), &e.undo, &e.redo,
+        );
+        self.wal().push(record)
+    }
+
+    pub fn force(&mut self) -> io::Result<()> {
+        self.wal().flush()
+    }
+
+    pub fn truncate(&mut self) -> io::Result<()> {
+        self.wal().truncate()
+    }
+
+    /// Everything the reader returns.
+    pub fn read(&mut self, read_ahead: usize) -> io::Result<Vec<Entry>> {
+        let mut out = Vec::new();
+        let mut reader = self.wal().reader(read_ahead)?;
+        while let Some(r) = reader.next_ref()? {
+            out.push(Entry {
+                lsn: r.lsn(),
+                tid: r.tid(),
+                prev: r.metadata().prev_lsn,
+                object: r.metadata().object_id,
+                row: r.metadata().row_id,
+                kind: r.log_type() as u8,
+                undo: r.undo_payload().to_vec(),
+                redo: r.redo_payload().to_vec(),
+            });
+        }
+        Ok(out)
+    }
+
+    /// Drops the log without letting it force what it holds in memory.
+    pub fn abandon(mut self) {
+        std::mem::forget(self.0.take());
+    }
+}
diff --git a/crates/axmos-db/src/verif/mod.rs b/crates/axmos-db/src/verif/mod.rs
index aaf9938..ea8446f 100644
--- a/crates/axmos-db/src/verif/mod.rs
+++ b/crates/axmos-db/src/verif/mod.rs
@@ -1,4 +1,7 @@
 //! Observation points used by the external verification harness.
 //!
 //! This module only exists when the crate is built with `--cfg axmos_verif`.
+pub mod log;
+pub mod store;
 pub mod tap;
+pub mod tuples;
diff --git a/crates/axmos-db/src/verif/store.rs b/crates/axmos-db/src/verif/store.rs
new file mode 100644
index 0000000..2e00197
--- /dev/null
+++ b/crates/axmos-db/src/verif/store.rs
@@ -0,0 +1,261 @@
+//! Pages and trees.
+use super::tuples::{Shape, Versions, last};
+use crate::{
+    DBConfig, Database,
+    io::{
+        disk::FileOperations,
+        pager::{BtreeBuilder, Pager, SharedPager},
+    },
+    schema::{meta_index_schema, meta_table_schema},
+    storage::{
+        Identifiable,
+        core::traits::{BtreeMetadata, BtreeOps},
+        page::{BtreePage, OverflowPage},
+    },
+    tree::bplustree::{BtreeError, SearchResult},
+    tree::accessor::BtreePagePosition,
+    types::{DataType, DataTypeKind},
+};
+use std::{io, io::Write, path::Path};
+
+#[derive(Clone)]
+pub struct Store(SharedPager);
+
+#[derive(Clone, Debug)]
+pub struct Header {
+    pub page_size: usize,
+    pub total_pages: u64,
+    pub first_free: Option<u64>,
+    pub last_free: Option<u64>,
+}
+
+#[derive(Clone, Debug)]
+pub struct Cell {
+    pub left_child: Option<u64>,
+    pub chain: Option<u64>,
+    /// the bytes kept in the page itself
+    pub local: Vec<u8>,
+    pub storage_size: usize,
+}
+
+#[derive(Clone, Debug)]
+pub struct Node {
+    pub number: u64,
+    pub leaf: bool,
+    pub right_child: Option<u64>,
+    pub next: Option<u64>,
+    pub prev: Option<u64>,
+    pub cells: Vec<Cell>,
+}
+
+#[derive(Clone, Debug)]
+pub struct Link {
+    pub number: u64,
+    pub next: Option<u64>,
+    pub bytes: usize,
+}
+
+fn text<E: std::fmt::Display>(e: E) -> String {
+    e.to_string()
+}
+
+impl Store {
+    pub fn create(path: &Path, config: DBConfig) -> io::Result<Self> {
+        Pager::from_config(config, path).map(|p| Self(SharedPager::from(p)))
+    }
+
+    pub fn open(path: &Path, cache: usize) -> io::Result<Self> {
+        let mut pager = Pager::open(path)?;
+        pager.set_cache_size(cache);
+        Ok(Self(SharedPager::from(pager)))
+    }
+
+    pub fn of(db: &Database) -> Self {
+        Self(db.pager().clone())
+    }
+
+    pub fn flush(&self) -> io::Result<()> {
+        self.0.write().flush()
+    }
+
+    pub fn header(&self) -> Header {
+        let pager = self.0.read();
+        let h = pager.header_unchecked();
+        Header {
+            page_size: h.page_size as usize,
+            total_pages: h.total_pages,
+            first_free: h.first_free_page,
+            last_free: h.last_free_page,
+        }
+    }
+
+    pub fn node(&self, id: u64) -> io::Result<Node> {
+        self.0.write().with_page::<BtreePage, _, _>(id, |p| Node {
+            number: p.id(),
+            leaf: p.is_leaf(),
+            right_child: p.right_child(),
+            next: p.next_sibling(),
+            prev: p.prev_sibling(),
+            cells: (0..p.num_slots())
+                .map(|i| {
+                    let c = p.cell(i);
+                    Cell {
+                        left_child: c.left_child(),
+                        chain: c.overflow_page(),
+                        local: c.effective_data().to_vec(),
+                        storage_size: c.storage_size(),
+                    }
+                })
+                .collect(),
+        })
+    }
+
+    pub fn link(&self, id: u64) -> io::Result<Link> {
+        self.0.write().with_page::<OverflowPage, _, _>(id, |p| Link {
+            number: p.page_number(),
+            next: p.next(),
+            bytes: p.effective_data().len(),
+        })
+    }
+
+    pub fn new_tree(&self, min_keys: usize, siblings: usize) -> io::Result<Tree> {
+        let root = self.0.write().allocate_page::<BtreePage>()?;
+        Ok(self.tree(root, min_keys, siblings))
+    }
+
+    pub fn tree(&self, root: u64, min_keys: usize, siblings: usize) -> Tree {
+        Tree {
+            root,
+            store: self.clone(),
+            builder: BtreeBuilder::new(min_keys, siblings).with_pager(self.0.clone()),
+        }
+    }
+
+    /// Root pages of the trees of the database the catalog knows, as (what, root, creator, deleter).
+    pub fn roots(&self) -> Result<Vec<(String, u64, u64, Option<u64>)>, String> {
+        let mut out = vec![
+            ("meta table".to_string(), 1, 0, None),
+            ("meta index".to_string(), 2, 0, None),
+        ];
+        let shape = Shape(meta_table_schema());
+        for v in self.tree(1, 3, 1).scan_raw(true)? {
+            let row = last(v.bytes(), &shape.0)?;
+            let root = shape.0.bind_column("root_page").map_err(text)?;
+            let name = shape.0.bind_column("name").map_err(text)?;
+            let DataType::BigUInt(root) = row[root] else {
+                return Err("root page is not a number".into());
+            };
+            out.push((format!("{}", row[name]), root.value(), v.xmin(), v.xmax()));
+        }
+        Ok(out)
+    }
+
+    /// Shapes of the two catalog trees.
+    pub fn catalog_shapes() -> (Shape, Shape) {
+        (Shape(meta_table_schema()), Shape(meta_index_schema()))
+    }
+}
+
+pub struct Tree {
+    root: u64,
+    store: Store,
+    builder: BtreeBuilder,
+}
+
+impl Tree {
+    pub fn root(&self) -> u64 {
+        self.root
+    }
+
+    pub fn insert(&self, v: &Versions, shape: &Shape) -> Result<(), String> {
+        let mut t = self.builder.build_tree_mut(self.root);
+        t.insert(self.root, v.0.clone(), &shape.0).map_err(text)
+    }
+
+    pub fn upsert(&self, v: &Versions, shape: &Shape) -> Result<(), String> {
+        let mut t = self.builder.build_tree_mut(self.root);
+        t.upsert(self.root, v.0.clone(), &shape.0).map_err(text)
+    }
+
+    pub fn update(&self, v: &Versions, shape: &Shape) -> Result<(), String> {
+        let mut t = self.builder.build_tree_mut(self.root);
+        t.update(self.root, v.0.clone(), &shape.0).map_err(text)
+    }
+
+    pub fn remove(&self, v: &Versions, shape: &Shape) -> Result<(), String> {
+        let mut t = self.builder.build_tree_mut(self.root);
+        t.remove_tuple(self.root, &v.0, &shape.0).map_err(text)
+    }
+
+    /// Removes by the serialized keys.
+    pub fn remove_key(&self, key: &[u8], shape: &Shape) -> Result<(), String> {
+        let mut t = self.builder.build_tree_mut(self.root);
+        t.remove(self.root, key, &shape.0).map_err(text)
+    }
+
+    /// Looks a row up by the serialized keys.
+    pub fn get(&self, key: &[u8], shape: &Shape) -> Result<Option<Versions>, String> {
+        let mut t = self.builder.build_tree(self.root);
+        match t.search(key, &shape.0).map_err(text)? {
+            SearchResult::Found(pos) => t
+                .get_tuple_at_unchecked(pos, &shape.0)
+                .map(|v| Some(Versions(v)))
+                .map_err(text),
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+
+    /// Every stored row in the order an iterator returns them.
+    pub fn scan_raw(&self, forward: bool) -> Result<Vec<Versions>, String> {
+        let mut t = self.builder.build_tree(self.root);
+        let iter = if forward {
+            t.iter_forward()
+        } else {
+            t.into_iter_backward()
+        };
+        let iter = match iter {
+            Err(BtreeError::BtreeEmpty) => return Ok(Vec::new()),
+            other => other.map_err(text)?,
+        };
+        let mut reader = iter.get_tree();
+        let mut out = Vec::new();
+        for pos in iter {
+            let v = reader
+                .with_cell_at(pos.map_err(text)?, |b| Versions::from_bytes(b))
+                .map_err(text)??;
+            out.push(v);
+        }
+        Ok(out)
+    }
+
+    pub fn scan(&self, shape: &Shape, forward: bool) -> Result<Vec<Vec<DataType>>, String> {
+        self.scan_raw(forward)?.iter().map(|v| v.last(shape)).collect()
+    }
+
+    pub fn height(&self) -> Result<usize, String> {
+        self.builder.build_tree(self.root).height().map_err(text)
+    }
+
+    pub fn dealloc(&self) -> Result<(), String> {
+        self.builder.build_tree_mut(self.root).dealloc().map_err(text)
+    }
+
+    /// The full row stored in a cell of a node (its overflow chain included).
+    pub fn cell_row(&self, page: u64, slot: usize, shape: &Shape) -> Result<Vec<DataType>, String> {
+        let mut t = self.builder.build_tree(self.root);
+        t.with_cell_at(BtreePagePosition::new(page, slot), |b| last(b, &shape.0))
+            .map_err(text)?
+    }
+}
+
+/// Kinds usable in a [Shape].
+pub const KINDS: [DataTypeKind; 8] = [
+    DataTypeKind::Bool,
+    DataTypeKind::Int,
+    DataTypeKind::BigInt,
+    DataTypeKind::UInt,
+    DataTypeKind::BigUInt,
+    DataTypeKind::Float,
+    DataTypeKind::Double,
+    DataTypeKind::Blob,
+];
diff --git a/crates/axmos-db/src/verif/tuples.rs b/crates/axmos-db/src/verif/tuples.rs
new file mode 100644
index 0000000..c24aa6b
--- /dev/null
+++ b/crates/axmos-db/src/verif/tuples.rs
@@ -0,0 +1,139 @@
+//! Row encoding, row versions and snapshots.
+use crate::{
+    multithreading::coordinator::Snapshot,
+    schema::base::{Column, Schema},
+    storage::tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef},
+    types::{DataType, DataTypeKind},
+};
+use std::collections::{HashMap, HashSet};
+
+/// The shape of a row: the first `keys` columns are the key.
+pub struct Shape(pub(crate) Schema);
+
+impl Shape {
+    pub fn table(kinds: &[DataTypeKind], keys: usize) -> Self {
+        Self(Schema::new_table_with_num_keys(Self::columns(kinds), keys))
+    }
+
+    pub fn index(kinds: &[DataTypeKind], keys: usize) -> Self {
+        Self(Schema::new_index(Self::columns(kinds), keys))
+    }
+
+    fn columns(kinds: &[DataTypeKind]) -> Vec<Column> {
+        kinds
+            .iter()
+            .enumerate()
+            .map(|(i, k)| Column::new_with_defaults(*k, &format!("c{i}")))
+            .collect()
+    }
+}
+
+#[derive(Clone, Debug)]
+pub struct View {
+    pub xid: u64,
+    pub xmin: u64,
+    pub xmax: Option<u64>,
+    pub active: HashSet<u64>,
+    pub aborted: HashSet<u64>,
+}
+
+impl View {
+    pub(crate) fn snapshot(&self) -> Snapshot {
+        Snapshot::new(
+            self.xid,
+            self.xmin,
+            self.xmax,
+            self.active.clone(),
+            self.aborted.clone(),
+        )
+    }
+}
+
+/// A stored row with its versions.
+#[derive(Clone)]
+pub struct Versions(pub(crate) Tuple);
+
+fn text<E: std::fmt::Display>(e: E) -> String {
+    e.to_string()
+}
+
+impl Versions {
+    pub fn build(shape: &Shape, row: &[DataType], xid: u64) -> Result<Self, String> {
+        TupleBuilder::from_schema(&shape.0)
+            .build(&Row::from(row), xid)
+            .map(Self)
+            .map_err(text)
+    }
+
+    /// A copy made from the stored bytes.
+    pub fn reload(&self) -> Result<Self, String> {
+        Self::from_bytes(self.0.effective_data())
+    }
+
+    pub fn from_bytes(bytes: &[u8]) -> Result<Self, String> {
+        Tuple::from_slice_unchecked(bytes).map(Self).map_err(text)
+    }
+
+    pub fn bytes(&self) -> &[u8] {
+        self.0.effective_data()
+    }
+
+    pub fn update(
+        &mut self,
+        shape: &Shape,
+        changes: &HashMap<usize, DataType>,
+        xid: u64,
+    ) -> Result<(), String> {
+        self.0.add_version_with(changes, xid, &shape.0).map_err(text)
+    }
+
+    pub fn delete(&mut self, xid: u64) -> Result<(), String> {
+        self.0.delete(xid).map_err(text)
+    }
+
+    pub fn trim(&mut self, shape: &Shape, horizon: u64) -> Result<usize, String> {
+        self.0.vaccum_with(horizon, &shape.0).map_err(text)
+    }
+
+    pub fn trim_for(&mut self, shape: &Shape, view: &View) -> Result<usize, String> {
+        self.0
+            .vaccum_for_snapshot(&shape.0, &view.snapshot())
+            .map_err(text)
+    }
+
+    pub fn versions(&self, shape: &Shape) -> Result<usize, String> {
+        self.0.num_versions_with(&shape.0).map_err(text)
+    }
+
+    pub fn last(&self, shape: &Shape) -> Result<Vec<DataType>, String> {
+        last(self.0.effective_data(), &shape.0)
+    }
+
+    pub fn seen_by(&self, shape: &Shape, view: &View) -> Result<Option<Vec<DataType>>, String> {
+        Row::from_bytes_checked_with_snapshot(
+            self.0.effective_data(),
+            &shape.0,
+            &view.snapshot(),
+        )
+        .map(|r| r.map(|r| r.into_inner().into_vec()))
+        .map_err(text)
+    }
+
+    pub fn xmin(&self) -> u64 {
+        self.0.xmin()
+    }
+
+    pub fn xmax(&self) -> Option<u64> {
+        self.0.xmax()
+    }
+}
+
+pub(crate) fn last(bytes: &[u8], schema: &Schema) -> Result<Vec<DataType>, String> {
+    let layout = TupleReader::from_schema(schema)
+        .parse_last_version(bytes)
+        .map_err(text)?;
+    TupleRef::new(bytes, layout)
+        .to_row_with(schema)
+        .map(|r| r.into_inner().into_vec())
+        .map_err(text)
+}
-- 
2.43.0


From a3a55d3296a25a9921e7c448496e54c16bbbab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 15/42] fix: a boolean can be stored before the end of a row

---
 crates/axmos-db/src/types/bool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/types/bool.rs b/crates/axmos-db/src/types/bool.rs
index 23d3533..fbc118e 100644
--- a/crates/axmos-db/src/types/bool.rs
+++ b/crates/axmos-db/src/types/bool.rs
@@ -286,7 +286,7 @@ impl Hashable for Bool {
 
 impl SerializableType for Bool {
     fn write_to(&self, writer: &mut [u8], cursor: usize) -> SerializationResult<usize> {
-        writer[cursor..].copy_from_slice(&[self.0 as u8]);
+        writer[cursor] = self.0 as u8;
         Ok(cursor + 1)
     }
 }
-- 
2.43.0


From b950a11fc5e5c06e1b2f86ba47399a1f1fb0e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 16/42] verif: look rows up by the keys of another one

---
 crates/axmos-db/src/verif/store.rs  | 17 +++++++++++++++--
 crates/axmos-db/src/verif/tuples.rs | 11 +++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/verif/store.rs b/crates/axmos-db/src/verif/store.rs
index 2e00197..f1b6f18 100644
--- a/crates/axmos-db/src/verif/store.rs
+++ b/crates/axmos-db/src/verif/store.rs
@@ -205,6 +205,18 @@ impl Tree {
         }
     }
 
+    /// Looks a row up by the keys of another one.
+    pub fn find(&self, v: &Versions, shape: &Shape) -> Result<Option<Versions>, String> {
+        let mut t = self.builder.build_tree(self.root);
+        match t.search_tuple(&v.0, &shape.0).map_err(text)? {
+            SearchResult::Found(pos) => t
+                .get_tuple_at_unchecked(pos, &shape.0)
+                .map(|v| Some(Versions(v)))
+                .map_err(text),
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+
     /// Every stored row in the order an iterator returns them.
     pub fn scan_raw(&self, forward: bool) -> Result<Vec<Versions>, String> {
         let mut t = self.builder.build_tree(self.root);
@@ -217,11 +229,12 @@ impl Tree {
             Err(BtreeError::BtreeEmpty) => return Ok(Vec::new()),
             other => other.map_err(text)?,
         };
-        let mut reader = iter.get_tree();
         let mut out = Vec::new();
         for pos in iter {
+            // A new one each time, so that no page stays pinned.
+            let mut reader = self.builder.build_tree(self.root);
             let v = reader
-                .with_cell_at(pos.map_err(text)?, |b| Versions::from_bytes(b))
+                .with_cell_at(pos.map_err(text)?, Versions::from_bytes)
                 .map_err(text)??;
             out.push(v);
         }
diff --git a/crates/axmos-db/src/verif/tuples.rs b/crates/axmos-db/src/verif/tuples.rs
index c24aa6b..d3f8ff9 100644
--- a/crates/axmos-db/src/verif/tuples.rs
+++ b/crates/axmos-db/src/verif/tuples.rs
@@ -137,3 +137,14 @@ pub(crate) fn last(bytes: &[u8], schema: &Schema) -> Result<Vec<DataType>, Strin
         .map(|r| r.into_inner().into_vec())
         .map_err(text)
 }
+
+/// Serializes keys the way lookups expect them.
+pub fn key_bytes(keys: &[DataType]) -> Result<Vec<u8>, String> {
+    let mut buffer = vec![0u8; keys.iter().map(|k| k.runtime_size() + 16).sum()];
+    let mut cursor = 0;
+    for key in keys {
+        cursor = key.write_to(&mut buffer, cursor).map_err(text)?;
+    }
+    buffer.truncate(cursor);
+    Ok(buffer)
+}
-- 
2.43.0


From a79203e9c0eac395dde93557eceeed8ca09c3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 17/42] fix: the database file only changes at checkpoints,
 which are journaled

---
 crates/axmos-db/src/io/cache.rs              |  13 +
 crates/axmos-db/src/io/pager.rs              | 378 +++++++++++++++++--
 crates/axmos-db/src/io/wal.rs                |   7 +
 crates/axmos-db/src/multithreading/frames.rs |  13 +
 4 files changed, 384 insertions(+), 27 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index 1aa8b05..8800929 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -163,6 +163,19 @@ impl PageCache {
         None
     }
 
+    /// Gets a frame without counting it as an access.
+    pub(crate) fn peek(&self, id: &PageId) -> Option<MemFrame> {
+        self.frames.get(id).cloned()
+    }
+
+    /// Iterates over the ids of the frames that have been modified.
+    pub(crate) fn dirty_pages(&self) -> impl Iterator<Item = PageId> + '_ {
+        self.frames
+            .iter()
+            .filter(|(_, frame)| frame.is_dirty())
+            .map(|(id, _)| *id)
+    }
+
     /// Drains all frames from the cache, returning an iterator over the frames.
     ///
     /// Unlike `clear`, this does not allocate a `Vec` and allows the caller
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 801d167..fb9f149 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -21,16 +21,38 @@ use crate::{
 };
 
 use std::{
+    collections::{BTreeSet, HashMap},
+    ffi::OsString,
     io::{self, Error as IoError, ErrorKind, Read, Seek, SeekFrom, Write},
-    path::Path,
+    path::{Path, PathBuf},
 };
 
+/// Identifies a complete checkpoint journal.
+const JOURNAL_MAGIC: u64 = u64::from_le_bytes(*b"AXMJRNL1");
+
+/// Number of 64 bit fields at the beginning of the journal.
+const JOURNAL_FIELDS: usize = 6;
+
+/// Bytes that a log record takes apart from its contents, at most.
+const MAX_RECORD_OVERHEAD: usize = 256;
+
+/// Pages that have been evicted since the last checkpoint.
+///
+/// The database file must not receive them until then, as it always has to match a checkpoint for the log to be replayed on top of it.
+struct Spill {
+    file: DBFile,
+    slots: HashMap<PageId, u64>,
+}
+
 /// Implementation of a pager.
 pub struct Pager {
     file: DBFile,
     wal: WriteAheadLog,
     cache: PageCache,
     db_header: Option<PageZeroHeader>, // Page zero header is always in memory
+    stored_header: Option<PageZeroHeader>, // Page zero header, as it is on the disk.
+    path: PathBuf,
+    spill: Option<Spill>,
 }
 
 impl<'a> FileOperations for Pager {
@@ -44,11 +66,18 @@ impl<'a> FileOperations for Pager {
         let wal = WriteAheadLog::create(wal_path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE as usize);
 
+        // Whatever an older database left here does not belong to this one.
+        Self::remove_if_exists(&Self::journal_path(&path))?;
+        Self::remove_if_exists(&Self::spill_path(&path))?;
+
         Ok(Self {
             file,
             cache,
             wal,
             db_header: None,
+            stored_header: None,
+            path: path.as_ref().to_path_buf(),
+            spill: None,
         })
     }
 
@@ -61,17 +90,30 @@ impl<'a> FileOperations for Pager {
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE);
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
-        let wal = WriteAheadLog::open(wal_path)?;
+        // Nothing has been logged if the log was never created.
+        let wal = if wal_path.exists() {
+            WriteAheadLog::open(wal_path)?
+        } else {
+            WriteAheadLog::create(wal_path)?
+        };
 
         let mut pager = Self {
             file,
             cache,
             wal,
             db_header: None,
+            stored_header: None,
+            path: path.as_ref().to_path_buf(),
+            spill: None,
         };
 
+        Self::remove_if_exists(&Self::spill_path(&path))?;
+        pager.finish_checkpoint(block_size)?;
+
         let page_zero = pager.load_page_zero(block_size)?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.stored_header = pager.db_header;
+        pager.validate_header()?;
 
         Ok(pager)
     }
@@ -81,6 +123,8 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         WriteAheadLog::remove(&wal_path)?;
+        Self::remove_if_exists(&Self::journal_path(&path))?;
+        Self::remove_if_exists(&Self::spill_path(&path))?;
         Ok(())
     }
 
@@ -93,6 +137,7 @@ impl<'a> FileOperations for Pager {
     fn truncate(&mut self) -> io::Result<()> {
         self.file.truncate()?;
         self.cache.clear();
+        self.discard_spill()?;
         self.wal.truncate()?;
         Ok(())
     }
@@ -115,10 +160,34 @@ impl Pager {
         u64::from(page_id) * page_size
     }
 
+    fn sibling_path(path: impl AsRef<Path>, suffix: &str) -> PathBuf {
+        let mut name = OsString::from(path.as_ref());
+        name.push(suffix);
+        PathBuf::from(name)
+    }
+
+    /// Where the pages of a checkpoint are kept until all of them are in the database file.
+    fn journal_path(path: impl AsRef<Path>) -> PathBuf {
+        Self::sibling_path(path, "-journal")
+    }
+
+    /// Where the pages that are evicted between two checkpoints go.
+    fn spill_path(path: impl AsRef<Path>) -> PathBuf {
+        Self::sibling_path(path, "-spill")
+    }
+
+    fn remove_if_exists(path: &Path) -> io::Result<()> {
+        if path.exists() {
+            DBFile::remove(path)?;
+        }
+        Ok(())
+    }
+
     pub(crate) fn from_config(config: DBConfig, path: impl AsRef<Path>) -> io::Result<Self> {
         let mut pager = Pager::create(path)?;
         let page_zero = pager.alloc_page_zero(config)?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.stored_header = pager.db_header;
         Ok(pager)
     }
 
@@ -138,13 +207,12 @@ impl Pager {
         Ok(page_zero)
     }
 
-    /// Syncs the header to the disk.
-    fn sync_header(&mut self) -> io::Result<()> {
-        let page_size = self.page_size();
-        let mut zero_from_disk = self.load_page_zero(page_size)?;
-        *zero_from_disk.metadata_mut() = *self.header_unchecked();
-        self.write_block(PAGE_ZERO, zero_from_disk.as_ref(), page_size)?;
-        Ok(())
+    /// Page zero, as it has to be written to the disk.
+    fn header_page(&self) -> PageZero {
+        let mut page_zero: PageZero = MemBlock::new(self.page_size());
+        page_zero.as_mut().fill(0);
+        *page_zero.metadata_mut() = *self.header_unchecked();
+        page_zero
     }
 
     /// Push a record to the write ahead log (implementation is not complete)
@@ -315,7 +383,10 @@ impl Pager {
         if self.header_unchecked().magic != MAGIC {
             return Err(IoError::new(
                 ErrorKind::InvalidData,
-                "Invalid magic string found on header {self.db_header.magic}",
+                format!(
+                    "Invalid magic string found on header {}",
+                    self.header_unchecked().magic
+                ),
             ));
         }
         Ok(())
@@ -432,11 +503,255 @@ impl Pager {
         if evicted.is_dirty() {
             let page_size = self.page_size();
             let id = evicted.page_number();
-            evicted.with_bytes_mut(|bytes| self.write_block(id, &bytes, page_size))?;
+            evicted.with_bytes(|bytes| self.write_spilled(id, bytes, page_size))?;
         };
         Ok(())
     }
 
+    /// Writes a page to the spill file.
+    fn write_spilled(&mut self, id: PageId, content: &[u8], page_size: usize) -> io::Result<()> {
+        if self.spill.is_none() {
+            self.spill = Some(Spill {
+                file: DBFile::create(Self::spill_path(&self.path))?,
+                slots: HashMap::new(),
+            });
+        };
+
+        let spill = self.spill.as_mut().expect("the spill file is open");
+        let next = spill.slots.len() as u64;
+        let slot = spill.slots.get(&id).copied().unwrap_or(next);
+        spill
+            .file
+            .seek(SeekFrom::Start(slot * page_size as u64))?;
+        spill.file.write_all(content)?;
+        spill.slots.insert(id, slot);
+        Ok(())
+    }
+
+    /// Reads a page back from the spill file, if it is there.
+    fn read_spilled(
+        &mut self,
+        id: PageId,
+        buffer: &mut [u8],
+        page_size: usize,
+    ) -> io::Result<bool> {
+        let Some(spill) = self.spill.as_mut() else {
+            return Ok(false);
+        };
+        let Some(slot) = spill.slots.get(&id).copied() else {
+            return Ok(false);
+        };
+        spill
+            .file
+            .seek(SeekFrom::Start(slot * page_size as u64))?;
+        spill.file.read_exact(buffer)?;
+        Ok(true)
+    }
+
+    /// Forgets all the pages in the spill file.
+    fn discard_spill(&mut self) -> io::Result<()> {
+        if let Some(spill) = self.spill.take() {
+            drop(spill);
+            Self::remove_if_exists(&Self::spill_path(&self.path))?;
+        };
+        Ok(())
+    }
+
+    fn checksum(sum: u64, bytes: &[u8]) -> u64 {
+        bytes.chunks(8).fold(sum, |sum, chunk| {
+            let mut word = [0u8; 8];
+            word[..chunk.len()].copy_from_slice(chunk);
+            (sum.rotate_left(7) ^ u64::from_le_bytes(word)).wrapping_mul(0x9E37_79B9_7F4A_7C15)
+        })
+    }
+
+    /// Gives every page that has changed since the last checkpoint to a callback, page zero included.
+    fn for_each_changed<F>(&mut self, ids: &[PageId], mut f: F) -> io::Result<()>
+    where
+        F: FnMut(&mut DBFile, PageId, &[u8]) -> io::Result<()>,
+    {
+        let page_size = self.page_size();
+        let header = self.header_page();
+        let mut block: MemBlock<PageZeroHeader> = MemBlock::new(page_size);
+
+        for id in ids {
+            if *id == PAGE_ZERO {
+                f(&mut self.file, PAGE_ZERO, header.as_ref())?;
+            } else if let Some(frame) = self.cache.peek(id) {
+                frame.with_bytes(|bytes| f(&mut self.file, *id, bytes))?;
+            } else if self.read_spilled(*id, block.as_mut(), page_size)? {
+                f(&mut self.file, *id, block.as_ref())?;
+            };
+        }
+        Ok(())
+    }
+
+    /// Writes the changes made since the last checkpoint to the database file, and empties the log, which is not needed for them anymore.
+    ///
+    /// All the pages are first written to the journal. Once it is complete the checkpoint has happened: if it gets interrupted later, it is finished by the next open (see [Pager::finish_checkpoint]).
+    fn checkpoint(&mut self) -> io::Result<()> {
+        self.wal.flush()?;
+
+        let mut changed: BTreeSet<PageId> = self.cache.dirty_pages().collect();
+        if let Some(spill) = self.spill.as_ref() {
+            changed.extend(spill.slots.keys());
+        };
+        let header_changed = match (&self.stored_header, &self.db_header) {
+            (Some(stored), Some(current)) => {
+                bytemuck::bytes_of(stored) != bytemuck::bytes_of(current)
+            }
+            _ => true,
+        };
+        if header_changed || !changed.is_empty() {
+            changed.insert(PAGE_ZERO);
+        }
+
+        if !changed.is_empty() {
+            let ids: Vec<PageId> = changed.into_iter().collect();
+            self.write_journal(&ids)?;
+
+            let page_size = self.page_size() as u64;
+            self.for_each_changed(&ids, |file, id, bytes| {
+                file.seek(SeekFrom::Start(Self::page_offset(id, page_size)))?;
+                file.write_all(bytes)
+            })?;
+            self.file.flush()?;
+            self.file.sync_all()?;
+
+            self.stored_header = self.db_header;
+            for frame in self.cache.clear() {
+                if !frame.is_free() {
+                    // Someone is still using it.
+                    frame.mark_clean();
+                    self.cache.insert(frame)?;
+                }
+            }
+            self.discard_spill()?;
+        }
+
+        if !self.wal.is_empty() {
+            self.wal.truncate()?;
+        }
+        Self::remove_if_exists(&Self::journal_path(&self.path))
+    }
+
+    /// Writes the journal of a checkpoint.
+    ///
+    /// The images of the pages come first, then their identifiers, and the block that makes the journal valid is the last one to be written.
+    fn write_journal(&mut self, ids: &[PageId]) -> io::Result<()> {
+        let page_size = self.page_size();
+        let mut journal = DBFile::create(Self::journal_path(&self.path))?;
+        let mut block: MemBlock<PageZeroHeader> = MemBlock::new(page_size);
+        let mut sum = 0u64;
+
+        journal.seek(SeekFrom::Start(page_size as u64))?;
+        self.for_each_changed(ids, |_, _, bytes| {
+            sum = Self::checksum(sum, bytes);
+            journal.write_all(bytes)
+        })?;
+
+        for chunk in ids.chunks(page_size / size_of::<PageId>()) {
+            block.as_mut().fill(0);
+            block.as_mut()[..size_of_val(chunk)].copy_from_slice(bytemuck::cast_slice(chunk));
+            sum = Self::checksum(sum, block.as_ref());
+            journal.write_all(block.as_ref())?;
+        }
+        journal.sync_all()?;
+
+        let fields: [u64; JOURNAL_FIELDS] = [
+            JOURNAL_MAGIC,
+            page_size as u64,
+            ids.len() as u64,
+            self.wal.last_lsn().map(|lsn| lsn + 1).unwrap_or(0),
+            sum,
+            0,
+        ];
+        block.as_mut().fill(0);
+        block.as_mut()[..size_of_val(&fields)].copy_from_slice(bytemuck::cast_slice(&fields));
+        let sealed = Self::checksum(0, &block.as_ref()[..size_of_val(&fields)]);
+        block.as_mut()[size_of_val(&fields)..size_of_val(&fields) + size_of::<u64>()]
+            .copy_from_slice(&sealed.to_le_bytes());
+        journal.seek(SeekFrom::Start(0))?;
+        journal.write_all(block.as_ref())?;
+        journal.sync_all()
+    }
+
+    /// Finishes the checkpoint that was being done when the database stopped, if there was any.
+    fn finish_checkpoint(&mut self, block_size: usize) -> io::Result<()> {
+        let path = Self::journal_path(&self.path);
+        if !path.exists() {
+            return Ok(());
+        }
+
+        if let Some((mut journal, page_size, count, next_lsn)) =
+            Self::open_journal(&path, block_size)?
+        {
+            let mut ids: Vec<PageId> = Vec::with_capacity(count);
+            let mut block: MemBlock<PageZeroHeader> = MemBlock::new(page_size);
+            journal.seek(SeekFrom::Start((1 + count as u64) * page_size as u64))?;
+            while ids.len() < count {
+                journal.read_exact(block.as_mut())?;
+                let stored: &[PageId] = bytemuck::cast_slice(block.as_ref());
+                let missing = (count - ids.len()).min(stored.len());
+                ids.extend_from_slice(&stored[..missing]);
+            }
+
+            journal.seek(SeekFrom::Start(page_size as u64))?;
+            for id in ids {
+                journal.read_exact(block.as_mut())?;
+                self.write_block(id, block.as_ref(), page_size)?;
+            }
+            self.file.flush()?;
+            self.file.sync_all()?;
+
+            // The records in the log are older than the checkpoint.
+            let logged = self.wal.last_lsn().map(|lsn| lsn + 1).unwrap_or(0);
+            if logged <= next_lsn && !self.wal.is_empty() {
+                self.wal.truncate()?;
+            }
+        }
+
+        Self::remove_if_exists(&path)
+    }
+
+    /// Opens a journal and checks that it is complete.
+    fn open_journal(
+        path: &Path,
+        block_size: usize,
+    ) -> io::Result<Option<(DBFile, usize, usize, Lsn)>> {
+        let mut journal = DBFile::open(path)?;
+        let len = journal.metadata()?.len();
+        if len < block_size as u64 {
+            return Ok(None);
+        }
+
+        let mut head: MemBlock<PageZeroHeader> = MemBlock::new(block_size);
+        journal.seek(SeekFrom::Start(0))?;
+        journal.read_exact(head.as_mut())?;
+        let stored: &[u64] = bytemuck::cast_slice(head.as_ref());
+        let fields = &stored[..JOURNAL_FIELDS];
+        let sealed = Self::checksum(0, bytemuck::cast_slice(fields));
+        if fields[0] != JOURNAL_MAGIC || stored[JOURNAL_FIELDS] != sealed {
+            return Ok(None);
+        }
+
+        let (page_size, count, next_lsn, expected) =
+            (fields[1] as usize, fields[2] as usize, fields[3], fields[4]);
+        let blocks = count + count.div_ceil(page_size / size_of::<PageId>());
+        if len < (1 + blocks as u64) * page_size as u64 {
+            return Ok(None);
+        }
+
+        let mut sum = 0u64;
+        let mut block: MemBlock<PageZeroHeader> = MemBlock::new(page_size);
+        journal.seek(SeekFrom::Start(page_size as u64))?;
+        for _ in 0..blocks {
+            journal.read_exact(block.as_mut())?;
+            sum = Self::checksum(sum, block.as_ref());
+        }
+        Ok((sum == expected).then_some((journal, page_size, count, next_lsn)))
+    }
+
     /// Makes sure that a new frame can be added to the cache.
     fn make_room_for_frame(&mut self) -> io::Result<()> {
         if self.cache.num_frames() >= self.cache.get_capacity()
@@ -477,9 +792,16 @@ impl Pager {
         // That was a cache miss.
         // we need to go to the disk to find the page.
         let mut buffer: MemBlock<P::Header> = MemBlock::new(page_size);
-        self.read_block(id, buffer.as_mut(), page_size)?;
+        let spilled = self.read_spilled(id, buffer.as_mut(), page_size)?;
+        if !spilled {
+            self.read_block(id, buffer.as_mut(), page_size)?;
+        }
 
         let mem_page = MemFrame::from(Frame::new(buffer));
+        if spilled {
+            // The database file does not have these contents yet.
+            mem_page.mark_dirty();
+        }
         self.cache_frame(mem_page)?;
 
         Ok(self.cache.get(&id).unwrap())
@@ -543,6 +865,16 @@ impl Pager {
         self.wal.run_analysis()
     }
 
+    /// Whether a record fits in the log, given the size of its contents.
+    pub(crate) fn fits_in_log(&self, payload: usize) -> bool {
+        payload + MAX_RECORD_OVERHEAD <= self.wal.max_record_size()
+    }
+
+    /// Whether there are no records in the log.
+    pub(crate) fn is_log_empty(&self) -> bool {
+        self.wal.is_empty()
+    }
+
     pub fn truncate_wal(&mut self) -> io::Result<()> {
         self.wal.truncate()
     }
@@ -560,22 +892,14 @@ impl Write for Pager {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        let block_size = self.page_size();
-        self.wal.flush()?;
-        let pages = self.cache.clear();
-        for page in pages {
-            let page_number = page.page_number();
-            if page.is_dirty() {
-                page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, block_size))?;
-            };
-        }
-
-        self.sync_header()?;
+        self.checkpoint()
+    }
+}
 
-        self.file.flush()?;
-        self.wal.truncate()?;
-        self.wal.flush()?;
-        Ok(())
+impl Drop for Pager {
+    fn drop(&mut self) {
+        // Best effort, the next open ignores it anyway.
+        let _ = self.discard_spill();
     }
 }
 
diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index a4a932f..6a092bd 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -178,6 +178,13 @@ impl WriteAheadLog {
         WalBlock::usable_space(self.block_size as usize) as usize
     }
 
+    /// Whether there are no records in the log.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.header.metadata().wal_header.total_entries == 0
+            && self.header.metadata().block_header.used_bytes == 0
+            && self.current_block.is_none()
+    }
+
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
         self.header.metadata().wal_header.global_last_lsn
     }
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 4fe550f..08ac05c 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -126,6 +126,10 @@ where
     pub(crate) fn mark_dirty(&self) {
         self.is_dirty.store(true, Ordering::SeqCst);
     }
+
+    pub(crate) fn mark_clean(&self) {
+        self.is_dirty.store(false, Ordering::SeqCst);
+    }
 }
 
 impl<P> Frame<P>
@@ -287,6 +291,15 @@ impl MemFrame {
         }
     }
 
+    #[inline]
+    pub(crate) fn mark_clean(&self) {
+        match self {
+            MemFrame::Btree(f) => f.mark_clean(),
+            MemFrame::Overflow(f) => f.mark_clean(),
+            MemFrame::Zero(f) => f.mark_clean(),
+        }
+    }
+
     /// Execute a callback on the raw bytes of the inner frame.
     ///
     /// Be aware that this function grabs the write lock inside of itself.
-- 
2.43.0


From 765fd618042fe07ecb19015570f9e236cf6a9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 18/42] fix: transactions are atomic and isolated, statements
 too, and recovery redoes the log in order

The changes of a transaction get to the log when it commits and are taken back when it does not, rows are
protected by first-updater-wins, indexes keep the entries of every version, definitions of relations are
versioned, and VACUUM keeps what running transactions need.
---
 crates/axmos-db/src/io/logger.rs              |   18 +
 crates/axmos-db/src/io/pager.rs               |   19 +-
 crates/axmos-db/src/io/recovery.rs            |  619 ++++----
 crates/axmos-db/src/lib.rs                    |  231 ++-
 .../src/multithreading/coordinator.rs         |  217 +--
 .../axmos-db/src/multithreading/threadpool.rs |    5 +-
 crates/axmos-db/src/runtime/context.rs        |  324 +++-
 crates/axmos-db/src/runtime/ddl.rs            | 1325 ++++++-----------
 crates/axmos-db/src/runtime/dml.rs            |  682 +++------
 crates/axmos-db/src/runtime/mod.rs            |   36 +-
 crates/axmos-db/src/runtime/ops/delete.rs     |   17 +-
 crates/axmos-db/src/runtime/ops/index_scan.rs |   54 +-
 crates/axmos-db/src/runtime/ops/insert.rs     |   13 +-
 crates/axmos-db/src/runtime/ops/seq_scan.rs   |   17 +-
 crates/axmos-db/src/runtime/ops/update.rs     |   38 +-
 crates/axmos-db/src/runtime/validator.rs      |  302 ++--
 crates/axmos-db/src/schema/base.rs            |  185 ++-
 crates/axmos-db/src/schema/catalog.rs         |  901 +++++++----
 crates/axmos-db/src/storage/tuple.rs          |   42 +-
 crates/axmos-db/src/tcp/session.rs            |   37 +-
 20 files changed, 2525 insertions(+), 2557 deletions(-)

diff --git a/crates/axmos-db/src/io/logger.rs b/crates/axmos-db/src/io/logger.rs
index fa56803..b0deccb 100644
--- a/crates/axmos-db/src/io/logger.rs
+++ b/crates/axmos-db/src/io/logger.rs
@@ -34,6 +34,24 @@ pub trait Operation {
     }
 }
 
+impl<T: Operation + ?Sized> Operation for Box<T> {
+    fn op_type(&self) -> RecordType {
+        (**self).op_type()
+    }
+    fn object_id(&self) -> Option<ObjectId> {
+        (**self).object_id()
+    }
+    fn row_id(&self) -> Option<RowId> {
+        (**self).row_id()
+    }
+    fn undo(&self) -> &[u8] {
+        (**self).undo()
+    }
+    fn redo(&self) -> &[u8] {
+        (**self).redo()
+    }
+}
+
 pub struct Begin;
 
 impl Operation for Begin {
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index fb9f149..3c17778 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -11,7 +11,7 @@ use crate::{
     multithreading::frames::{AsReadLatch, AsWriteLatch, Frame, MemFrame},
     storage::{
         core::{buffer::MemBlock, traits::Buffer},
-        page::{OverflowPage, PageZero, PageZeroHeader},
+        page::{OverflowPage, PAGE_ZERO_HEADER_SIZE, PageZero, PageZeroHeader},
     },
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor, TreeReader, TreeWriter},
@@ -207,6 +207,12 @@ impl Pager {
         Ok(page_zero)
     }
 
+    /// Whether the file of a database was created, but nothing has been written to it yet.
+    pub(crate) fn was_never_written(path: impl AsRef<Path>) -> io::Result<bool> {
+        let size = std::fs::metadata(&path)?.len();
+        Ok(size < PAGE_ZERO_HEADER_SIZE as u64 && !Self::journal_path(&path).exists())
+    }
+
     /// Page zero, as it has to be written to the disk.
     fn header_page(&self) -> PageZero {
         let mut page_zero: PageZero = MemBlock::new(self.page_size());
@@ -886,6 +892,17 @@ impl Pager {
 
 make_shared! {SharedPager, Pager}
 
+impl SharedPager {
+    /// A builder of trees with the configuration of the database.
+    pub(crate) fn tree_builder(&self) -> BtreeBuilder {
+        let (min_keys, siblings) = {
+            let pager = self.read();
+            (pager.min_keys_per_page(), pager.num_siblings_per_side())
+        };
+        BtreeBuilder::new(min_keys, siblings).with_pager(self.clone())
+    }
+}
+
 impl Write for Pager {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
         self.file.write(buf)
diff --git a/crates/axmos-db/src/io/recovery.rs b/crates/axmos-db/src/io/recovery.rs
index e1638f6..a1c8fc2 100644
--- a/crates/axmos-db/src/io/recovery.rs
+++ b/crates/axmos-db/src/io/recovery.rs
@@ -1,425 +1,354 @@
 use crate::{
     UInt64,
+    core::SerializableType,
     io::{
-        logger::{Alter, Create, Delete, DropOp, Insert, Operation, Update},
+        logger::{Alter, Create, Delete, DropOp, Operation},
+        pager::{BtreeBuilder, SharedPager},
         wal::AnalysisResult,
     },
-    runtime::{
-        RuntimeResult,
-        context::{ThreadContext, TransactionLogger},
-        ddl::{
-            AlterTableInstr, CreateIndexInstr, CreateTableInstr, DdlExecutor, DdlInstruction,
-            DropIndexInstr, DropTableInstr,
-        },
-        dml::DmlExecutor,
+    runtime::RuntimeResult,
+    schema::{
+        Schema,
+        base::{IndexHandle, Relation},
+        catalog::{Catalog, SharedCatalog},
+        meta_index_schema, meta_table_schema,
     },
-    storage::tuple::Row,
+    storage::{
+        page::BtreePage,
+        tuple::{Row, Tuple, TupleBuilder},
+    },
+    tree::bplustree::SearchResult,
+    types::{Blob, Lsn, ObjectId, PageId, TransactionId},
 };
+use std::{collections::HashMap, sync::Arc};
+
+/// An index, as it has to be maintained during the recovery.
+struct RecoveredIndex {
+    handle: IndexHandle,
+    root: PageId,
+    schema: Schema,
+}
 
-use std::io::{Error as IoError, ErrorKind};
+/// A table, as it has to be maintained during the recovery.
+struct RecoveredTable {
+    root: PageId,
+    schema: Schema,
+    indexes: Vec<RecoveredIndex>,
+}
 
+/// Brings the database to the state described by the log.
+///
+/// The contents of the database file never include changes of the transactions that are in the log (see [`Pager::flush`]),
+/// so there is nothing to undo: the ones that did not commit are just ignored.
+///
+/// [`Pager::flush`]: crate::io::pager::Pager::flush
 pub struct WalRecuperator {
-    dml_executor: DmlExecutor,
-    ddl_executor: DdlExecutor,
+    pager: SharedPager,
+    catalog: SharedCatalog,
+    builder: BtreeBuilder,
+    tables: HashMap<ObjectId, Arc<RecoveredTable>>,
 }
 
 impl WalRecuperator {
-    pub(crate) fn new(ctx: ThreadContext, logger: TransactionLogger) -> Self {
+    pub(crate) fn new(pager: SharedPager, catalog: SharedCatalog) -> Self {
+        let builder = pager.tree_builder();
         Self {
-            dml_executor: DmlExecutor::new(ctx.clone(), logger.clone()),
-            ddl_executor: DdlExecutor::new(ctx, logger),
+            pager,
+            catalog,
+            builder,
+            tables: HashMap::new(),
         }
     }
 
     /// Runs the recovery
     pub(crate) fn run_recovery(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        self.run_undo(&analysis)?;
-        self.run_redo(&analysis)?;
-
-        Ok(())
+        self.reserve_identifiers(analysis);
+        self.run_redo(analysis)
     }
 
-    /// Run all the undo.
-    pub(crate) fn run_undo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_undo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.undo_delete(delete_operation)?;
-                }
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.undo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.undo_insert(insert_operation)?;
-                }
-
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.undo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.undo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.undo_drop(drop_operation)?;
-                }
-            }
+    /// The identifiers that appear in the log cannot be used again.
+    fn reserve_identifiers(&mut self, analysis: &AnalysisResult) {
+        let last_transaction = analysis.lsn_chains.keys().next_back();
+        let last_committed = analysis.needs_redo.iter().next_back();
+        let last_object = analysis
+            .create_ops
+            .values()
+            .filter_map(|operation| operation.row_id())
+            .max();
+
+        let mut pager = self.pager.write();
+        if let Some(tid) = last_transaction {
+            let next = pager.get_last_created_transaction().max(tid + 1);
+            pager.set_last_created_transaction(next);
+        }
+        if let Some(tid) = last_committed {
+            let last = pager.get_last_committed_transaction().max(*tid);
+            pager.set_last_committed_transaction(last);
+        }
+        if let Some(object_id) = last_object {
+            let next = pager.get_last_stored_object().max(object_id + 1);
+            pager.set_last_stored_object(next);
         }
-
-        Ok(())
     }
 
     /// Run all the redo.
-    pub(crate) fn run_redo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_redo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.redo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.redo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.redo_drop(drop_operation)?;
-                }
-
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.redo_delete(delete_operation)?;
-                }
-
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.redo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.redo_insert(insert_operation)?;
-                }
+    ///
+    /// The operations have to be applied in the order in which they got to the log.
+    fn run_redo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
+        let mut pending: Vec<(Lsn, TransactionId)> = Vec::new();
+        for tid in &analysis.needs_redo {
+            if let Some(chain) = analysis.try_iter_lsn(tid) {
+                pending.extend(chain.map(|lsn| (*lsn, *tid)));
+            }
+        }
+        pending.sort_unstable();
+
+        for (lsn, tid) in pending {
+            if let Some(operation) = analysis.create_ops.get(&lsn) {
+                self.redo_create(operation, tid)?;
+            } else if let Some(operation) = analysis.alter_ops.get(&lsn) {
+                self.redo_alter(operation, tid)?;
+            } else if let Some(operation) = analysis.drop_ops.get(&lsn) {
+                self.redo_drop(operation)?;
+            } else if let Some(operation) = analysis.insert_ops.get(&lsn) {
+                self.redo_row(operation)?;
+            } else if let Some(operation) = analysis.update_ops.get(&lsn) {
+                self.redo_row(operation)?;
+            } else if let Some(operation) = analysis.delete_ops.get(&lsn) {
+                self.redo_delete(operation)?;
             }
         }
-
         Ok(())
     }
 
-    /// Recovers a CREATE operation during redo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the redo
-    /// payload and executes it to recreate the table/index.
-    fn redo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let redo_bytes = create_op.redo();
+    /// Recovers a CREATE operation.
+    fn redo_create(&mut self, operation: &Create, tid: TransactionId) -> RuntimeResult<()> {
+        let mut relation = self.decode_relation(operation.redo())?;
+        self.remove(relation.object_id())?;
+        relation.set_root_page(self.new_root()?);
+
+        // A dropped relation may have had the same name.
+        let root = self.catalog.meta_index();
+        let tuple = Catalog::relation_as_meta_index_tuple(&relation, tid)?;
+        self.builder
+            .build_tree_mut(root)
+            .upsert(root, tuple, &meta_index_schema())?;
+        self.store(&relation, tid)
+    }
 
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
+    /// Recovers an ALTER operation.
+    fn redo_alter(&mut self, operation: &Alter, tid: TransactionId) -> RuntimeResult<()> {
+        let mut relation = self.decode_relation(operation.redo())?;
+        let has_new_root = operation.undo().first() == Some(&1);
 
-        // Try to deserialize as CreateTableInstr first
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        // Try CreateIndexInstr
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
+        let Some(tuple) = self.find(relation.object_id())? else {
             return Ok(());
+        };
+        let previous = self.decode_relation(tuple.full_data())?;
+        let root = if has_new_root {
+            self.new_root()?
+        } else {
+            previous.root()
+        };
+        relation.set_root_page(root);
+        self.store(&relation, tid)?;
+        for root in Catalog::roots_of(&tuple, &meta_table_schema())? {
+            if root != relation.root() {
+                self.builder.build_tree_mut(root).dealloc()?;
+            }
         }
 
-        // Fallback: try generic DdlInstruction
-        if let Ok(instruction) = DdlInstruction::from_bytes(redo_bytes) {
-            self.ddl_executor.execute_instruction(&instruction)?;
+        // The contents of the new indexes are not in the log.
+        let previous = previous.get_indexes();
+        for handle in relation.get_indexes() {
+            if !previous.iter().any(|index| index.id() == handle.id()) {
+                self.populate_index(&relation, handle, tid)?;
+            }
         }
-
         Ok(())
     }
 
-    /// Recovers a CREATE operation during undo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the undo
-    /// payload and executes it to remove the created table/index.
-    fn undo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let object_id = create_op
-            .row_id()
-            .expect("Object ID must be set for CREATE logs");
-
-        // The undo of CREATE is DROP
-        // We need to get the redo bytes to know what type of object was created
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
+    /// Recovers a DROP operation.
+    fn redo_drop(&mut self, operation: &DropOp) -> RuntimeResult<()> {
+        match operation.row_id() {
+            Some(object_id) => self.remove(object_id),
+            None => Ok(()),
         }
+    }
 
-        // Determine if it's a table or index and execute the inverse
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_table_instr.inverse(object_id);
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
+    /// Recovers an INSERT or an UPDATE operation.
+    fn redo_row(&mut self, operation: &impl Operation) -> RuntimeResult<()> {
+        let Some(table) = self.table(operation.object_id())? else {
             return Ok(());
+        };
+        let tuple = Tuple::from_slice_unchecked(operation.redo())?;
+        let xmin = tuple.xmin();
+        let row = tuple
+            .as_tuple_ref_with(&table.schema)
+            .to_row_with(&table.schema)?;
+
+        self.builder
+            .build_tree_mut(table.root)
+            .upsert(table.root, tuple, &table.schema)?;
+        for index in &table.indexes {
+            self.add_index_entry(index, &row, xmin)?;
         }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_index_instr.inverse(object_id);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
         Ok(())
     }
 
-    /// Recovers a DROP operation during redo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the redo
-    /// payload and executes it to remove the table/index.
-    fn redo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let object_id = drop_op
-            .row_id()
-            .expect("Object ID must be set for DROP logs");
-
-        // The undo bytes contain the CreateTableInstr needed to restore
-        // But for redo, we just need to drop by object_id
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Get the table/index name from the undo instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropTableInstr::new(
-                create_table_instr.table_name,
-                object_id,
-                true,
-                true, // if_exists = true for recovery
-            );
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
+    /// Recovers a DELETE operation.
+    fn redo_delete(&mut self, operation: &Delete) -> RuntimeResult<()> {
+        let Some(table) = self.table(operation.object_id())? else {
             return Ok(());
+        };
+        if let Some(row_id) = operation.row_id() {
+            self.remove_key(table.root, &UInt64(row_id).serialize()?, &table.schema)?;
         }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropIndexInstr::new(create_index_instr.index_name, object_id, true);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
         Ok(())
     }
 
-    /// Recovers a DROP operation during undo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the undo
-    /// payload and executes it to restore the dropped table/index.
-    fn undo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
+    /// Reads a relation from its row in the meta table.
+    fn decode_relation(&self, image: &[u8]) -> RuntimeResult<Relation> {
+        let schema = meta_table_schema();
+        let tuple = Tuple::from_slice_unchecked(image)?;
+        let row = tuple.as_tuple_ref_with(&schema).to_row_with(&schema)?;
+        Ok(Relation::from_meta_table_row(row))
+    }
 
-        // The undo of DROP is CREATE - restore from the saved instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
+    /// Finds the row of a relation in the meta table.
+    fn find(&self, object_id: ObjectId) -> RuntimeResult<Option<Tuple>> {
+        let schema = meta_table_schema();
+        let mut tree = self.builder.build_tree(self.catalog.meta_table());
+        match tree.search(&UInt64(object_id).serialize()?, &schema)? {
+            SearchResult::Found(position) => {
+                Ok(Some(tree.get_tuple_at_unchecked(position, &schema)?))
+            }
+            SearchResult::NotFound(_) => Ok(None),
         }
+    }
 
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
+    fn new_root(&self) -> RuntimeResult<PageId> {
+        Ok(self.pager.write().allocate_page::<BtreePage>()?)
+    }
 
+    /// Stores the definition of a relation.
+    fn store(&mut self, relation: &Relation, tid: TransactionId) -> RuntimeResult<()> {
+        self.tables.clear();
+        let root = self.catalog.meta_table();
+        let tuple = Catalog::relation_as_meta_table_tuple(relation, tid)?;
+        self.builder
+            .build_tree_mut(root)
+            .upsert(root, tuple, &meta_table_schema())?;
         Ok(())
     }
 
-    /// Recovers an ALTER operation during redo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the redo payload and applies
-    /// the alteration to the table.
-    fn redo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let redo_bytes = alter_op.redo();
-
-        if redo_bytes.is_empty() {
+    /// Removes a relation, if it is there.
+    fn remove(&mut self, object_id: ObjectId) -> RuntimeResult<()> {
+        let Some(tuple) = self.find(object_id)? else {
             return Ok(());
+        };
+        self.tables.clear();
+        let schema = meta_table_schema();
+        let relation = self.decode_relation(tuple.full_data())?;
+        for root in Catalog::roots_of(&tuple, &schema)? {
+            self.builder.build_tree_mut(root).dealloc()?;
         }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
+        let key = UInt64(object_id).serialize()?;
+        self.remove_key(self.catalog.meta_table(), &key, &schema)?;
+        let name = Blob::from(relation.name()).serialize()?;
+        self.remove_key(self.catalog.meta_index(), &name, &meta_index_schema())
     }
 
-    /// Recovers an ALTER operation during undo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the undo payload (which contains
-    /// the inverse operation) and applies it to restore the previous state.
-    fn undo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let undo_bytes = alter_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
+    /// Gets a table from its definition.
+    fn table(&mut self, object_id: Option<ObjectId>) -> RuntimeResult<Option<Arc<RecoveredTable>>> {
+        let Some(object_id) = object_id else {
+            return Ok(None);
+        };
+        if let Some(table) = self.tables.get(&object_id) {
+            return Ok(Some(Arc::clone(table)));
         }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
+        let Some(tuple) = self.find(object_id)? else {
+            return Ok(None);
+        };
+        let relation = self.decode_relation(tuple.full_data())?;
+        let mut indexes = Vec::new();
+        for handle in relation.get_indexes() {
+            indexes.extend(self.index(handle)?);
         }
-
-        Ok(())
+        let table = Arc::new(RecoveredTable {
+            root: relation.root(),
+            schema: relation.into_schema(),
+            indexes,
+        });
+        self.tables.insert(object_id, Arc::clone(&table));
+        Ok(Some(table))
     }
 
-    // DML Undo operations
-    fn undo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(delete_op.undo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
-        Ok(())
+    /// Gets an index from its definition.
+    fn index(&self, handle: IndexHandle) -> RuntimeResult<Option<RecoveredIndex>> {
+        let Some(tuple) = self.find(handle.id())? else {
+            return Ok(None);
+        };
+        let relation = self.decode_relation(tuple.full_data())?;
+        Ok(Some(RecoveredIndex {
+            handle,
+            root: relation.root(),
+            schema: relation.into_schema(),
+        }))
     }
 
-    fn undo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                self.dml_executor
-                    .update_row(table_id, &row_id, &redo_row, &undo_row)?;
+    /// Adds the rows of a table to an index.
+    fn populate_index(
+        &self,
+        table: &Relation,
+        handle: IndexHandle,
+        tid: TransactionId,
+    ) -> RuntimeResult<()> {
+        let Some(index) = self.index(handle)? else {
+            return Ok(());
+        };
+        let mut tree = self.builder.build_tree(table.root());
+        if tree.is_empty()? {
+            return Ok(());
+        }
+        let mut rows = Vec::new();
+        for position in tree.iter_forward()? {
+            let tuple = tree.with_cell_at(position?, Tuple::from_slice_unchecked)??;
+            if !tuple.is_deleted() {
+                let tuple = tuple.as_tuple_ref_with(table.schema());
+                rows.push(tuple.to_row_with(table.schema())?);
             }
         }
+        for row in &rows {
+            self.add_index_entry(&index, row, tid)?;
+        }
         Ok(())
     }
 
-    fn undo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = insert_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
-    }
-
-    // DML Redo operations
-
-    fn redo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = delete_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
-        Ok(())
-    }
-
-    fn redo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                // Redo: apply new state
-                self.dml_executor
-                    .update_row(table_id, &row_id, &undo_row, &redo_row)?;
-            }
+    /// Adds a row to an index, unless it is already there.
+    fn add_index_entry(
+        &self,
+        index: &RecoveredIndex,
+        row: &Row,
+        tid: TransactionId,
+    ) -> RuntimeResult<()> {
+        let Some(entry) = index.handle.entry(row.as_slice()) else {
+            return Ok(());
+        };
+        let tuple = TupleBuilder::from_schema(&index.schema).build(&entry, tid)?;
+        let mut tree = self.builder.build_tree_mut(index.root);
+        if let SearchResult::NotFound(_) = tree.search_tuple(&tuple, &index.schema)? {
+            tree.insert(index.root, tuple, &index.schema)?;
         }
         Ok(())
     }
 
-    fn redo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(insert_op.redo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
+    /// Removes a tuple, if it is there.
+    fn remove_key(&self, root: PageId, key: &[u8], schema: &Schema) -> RuntimeResult<()> {
+        let mut tree = self.builder.build_tree_mut(root);
+        if let SearchResult::Found(position) = tree.search(key, schema)? {
+            let tuple = tree.get_tuple_at_unchecked(position, schema)?;
+            tree.remove_tuple(root, &tuple, schema)?;
         }
         Ok(())
     }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 68bdc44..566ec20 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -49,7 +49,6 @@ use crate::{
 
     io::{
         disk::FileOperations,
-        logger::Begin,
         pager::{Pager, SharedPager},
         recovery::WalRecuperator,
     },
@@ -59,7 +58,8 @@ use crate::{
     },
     runtime::{
         MultiQueryRunner, QueryError, QueryResult, QueryRunner, RuntimeError,
-        context::{TransactionContext, TransactionLogger},
+        context::{ThreadContext, TransactionContext, TransactionLogger},
+        is_read_only,
     },
     schema::catalog::{Catalog, SharedCatalog, VacuumStats},
     storage::page::BtreePage,
@@ -223,8 +223,13 @@ impl Database {
             return Err(DatabaseError::NotFound(path));
         }
 
-        // Open pager
-        let mut pager = Pager::open(&path)?;
+        // Open pager. The file of a database that was never written has not even a header: it starts again from
+        // scratch, and whatever was committed is in the log.
+        let mut pager = if Pager::was_never_written(&path)? {
+            Pager::from_config(config, &path)?
+        } else {
+            Pager::open(&path)?
+        };
         pager.set_cache_size(config.cache_size);
 
         let total_pages = pager.total_allocated_pages();
@@ -246,8 +251,6 @@ impl Database {
 
         // Create transaction coordinator with last transaction
         let coordinator = TransactionCoordinator::new(pager.clone());
-        // Load persisted aborted transactions from page zero
-        coordinator.load_aborted_transactions();
 
         // Create task runner
         let task_runner =
@@ -275,9 +278,8 @@ impl Database {
     ) -> DatabaseResult<(TransactionContext, TransactionLogger)> {
         let handle = coordinator.begin()?;
         let tid = handle.id();
-        let first_lsn = pager.write().push_to_log(Begin, tid, None)?;
         let ctx = TransactionContext::new(pager.clone(), catalog.clone(), handle)?;
-        let logger = TransactionLogger::new(tid, pager.clone(), first_lsn);
+        let logger = TransactionLogger::new(tid, pager.clone(), 0);
         Ok((ctx, logger))
     }
 
@@ -292,7 +294,12 @@ impl Database {
             self.catalog.clone(),
         )?;
 
-        Ok(Session::new(ctx, logger, self.task_runner.clone()))
+        Ok(Session::new(
+            ctx,
+            logger,
+            self.task_runner.clone(),
+            self.coordinator.clone(),
+        ))
     }
 
     /// Opens or creates a database at the specified path.
@@ -309,28 +316,22 @@ impl Database {
 
     /// Runs WAL recovery to restore database to consistent state.
     fn run_recovery(&self) -> DatabaseResult<()> {
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-        let child = tx_ctx.create_child()?;
-        let pager = self.pager.clone();
-        // Begin a recovery transaction
-        self.task_runner.run(move |ctx| {
-            let mut recuperator = WalRecuperator::new(child, logger.clone());
+        if self.pager.read().is_log_empty() {
+            // The database was closed properly: there is nothing to do.
+            return Ok(());
+        }
 
-            // Run analysis INSIDE the closure using the cloned pager
+        let _access = self.coordinator.write_statement();
+        let pager = self.pager.clone();
+        let catalog = self.catalog.clone();
+        self.task_runner.run(move |_ctx| {
             let analysis = pager.write().run_analysis().map_err(box_err)?;
 
-            // Run recovery through recuperator
+            let mut recuperator = WalRecuperator::new(pager.clone(), catalog);
             recuperator.run_recovery(&analysis).map_err(box_err)?;
 
-            // Truncate WAL
-            pager.write().truncate_wal().map_err(box_err)?;
-
-            // Commit recovery transaction
-            tx_ctx.commit_transaction().map_err(box_err)?;
+            // Everything in the log gets to the database, which is the point where the log is emptied.
+            pager.write().flush().map_err(box_err)?;
 
             Ok(())
         })?;
@@ -338,9 +339,13 @@ impl Database {
         Ok(())
     }
 
-    /// Executes a SQL query and returns the result.
-    pub fn execute(&self, sql: &str) -> DatabaseResult<QueryResult> {
-        let sql = sql.to_string();
+    /// Runs something inside of its own transaction.
+    fn run_in_transaction<F, T>(&self, read_only: bool, work: F) -> DatabaseResult<T>
+    where
+        F: FnOnce(ThreadContext, TransactionLogger) -> Result<T, BoxError> + Send + 'static,
+        T: Send + 'static,
+    {
+        let access = self.coordinator.statement(read_only);
         let (tx_ctx, logger) = Self::begin_transaction(
             self.coordinator.clone(),
             self.pager.clone(),
@@ -348,75 +353,72 @@ impl Database {
         )?;
 
         let child = tx_ctx.create_child()?;
-        let result = self.task_runner.run_with_result(move |_ctx| {
-            let runner = QueryRunner::new(child, logger.clone());
-            let result_guard = runner.prepare_and_run(&sql).map_err(box_err)?;
-
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
-
-            Ok(result_guard)
-        })?;
-
-        Ok(result)
+        let worker_logger = logger.clone();
+        let result = self
+            .task_runner
+            .run_with_result(move |_ctx| work(child, worker_logger));
+
+        let result = match result {
+            Ok(value) => tx_ctx
+                .commit(&logger)
+                .map(|_| value)
+                .map_err(DatabaseError::from),
+            Err(e) => {
+                tx_ctx.rollback(&logger)?;
+                Err(e.into())
+            }
+        };
+        self.coordinator.reclaim(&self.catalog, &access);
+        result
     }
 
-
     /// Executes a SQL query and returns the result.
-    pub fn explain(&self, sql: &str) -> DatabaseResult<String> {
+    pub fn execute(&self, sql: &str) -> DatabaseResult<QueryResult> {
         let sql = sql.to_string();
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-
-        let child = tx_ctx.create_child()?;
-        let result = self.task_runner.run_with_result(move |_ctx| {
-            let runner = QueryRunner::new(child, logger.clone());
-            let result = runner.prepare_and_explain(&sql).map_err(box_err)?;
-
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
-
-            Ok(result)
-        })?;
+        self.run_in_transaction(is_read_only(&sql), move |ctx, logger| {
+            QueryRunner::new(ctx, logger)
+                .prepare_and_run(&sql)
+                .map_err(box_err)
+        })
+    }
 
-        Ok(result)
+    /// Explains how a SQL query would be executed.
+    pub fn explain(&self, sql: &str) -> DatabaseResult<String> {
+        let sql = sql.to_string();
+        self.run_in_transaction(true, move |ctx, logger| {
+            QueryRunner::new(ctx, logger)
+                .prepare_and_explain(&sql)
+                .map_err(box_err)
+        })
     }
 
     /// Executes multiple SQL statements in a single transaction.
     pub fn execute_batch(&self, statements: &[&str]) -> DatabaseResult<Vec<QueryResult>> {
         let statements: Vec<String> = statements.iter().map(|s| s.to_string()).collect();
-        // Begin transaction
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-
-        let child = tx_ctx.create_child()?;
-        let results = self.task_runner.run_with_result(move |_ctx| {
+        let read_only = statements.iter().all(|s| is_read_only(s));
+        self.run_in_transaction(read_only, move |ctx, logger| {
             // Use BatchQueryRunner for atomic execution
-            let runner = MultiQueryRunner::new(child, logger.clone());
-
-            let results = runner.execute_all(&statements).map_err(box_err)?;
-
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
-
-            Ok(results)
-        })?;
-
-        Ok(results)
+            MultiQueryRunner::new(ctx, logger)
+                .execute_all(&statements)
+                .map_err(box_err)
+        })
     }
 
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
-        self.pager.write().flush()?;
+        let _access = self.coordinator.write_statement();
+        self.checkpoint()
+    }
+
+    /// Writes the contents of the database to its file. It cannot contain changes of transactions that
+    /// have not committed, so while there are any the log has to be enough.
+    fn checkpoint(&self) -> DatabaseResult<()> {
+        let mut pager = self.pager.write();
+        if self.catalog.has_writers() {
+            pager.flush_wal()?;
+        } else {
+            pager.flush()?;
+        }
         Ok(())
     }
 
@@ -455,83 +457,46 @@ impl Database {
 
     /// Runs ANALYZE to update table statistics.
     pub fn analyze(&self, sample_rate: f64, max_sample_rows: usize) -> DatabaseResult<()> {
-        let pager = self.pager.clone();
-        let catalog = self.catalog.clone();
-        let coordinator = self.coordinator.clone();
-
-        self.task_runner.run(move |_ctx| {
-            let (tx_ctx, logger) =
-                Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
-                    .map_err(box_err)?;
-
-            let tree_builder = tx_ctx.tree_builder();
-            let snapshot = tx_ctx.snapshot();
-
-            catalog
+        self.run_in_transaction(false, move |ctx, logger| {
+            ctx.catalog()
                 .analyze(
-                    &tree_builder,
-                    &snapshot,
+                    &ctx.tree_builder(),
+                    ctx.snapshot(),
                     Some(&logger),
                     sample_rate,
                     max_sample_rows,
                 )
-                .map_err(box_err)?;
-
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            Ok(())
-        })?;
-
-        Ok(())
+                .map_err(box_err)
+        })
     }
 
     /// Runs VACUUM to clean up old MVCC versions and transaction metadata.
     ///
     /// This operation:
-    /// 1. Aborts all active transactions (ensures no concurrent modifications)
+    /// 1. Waits for the running statements to finish
     /// 2. Determines the oldest transaction ID still needed
-    /// 3. Iterates through all tuples and removes old delta versions
+    /// 3. Iterates through all tuples and removes the versions that no transaction can see
     /// 4. Cleans up transaction metadata from the coordinator
     pub fn vacuum(&self) -> DatabaseResult<VacuumStats> {
+        let _access = self.coordinator.write_statement();
         let pager = self.pager.clone();
         let catalog = self.catalog.clone();
         let coordinator = self.coordinator.clone();
 
         let stats = self.task_runner.run_with_result(move |_ctx| {
-            // Abort all active transactions
-            let aborted_txs = coordinator.abort_all();
-            let oldest_active_xid = coordinator.get_last_committed();
-
-            if !aborted_txs.is_empty() {
-                eprintln!("VACUUM: Aborted {} active transactions", aborted_txs.len());
-            }
-
-            // Create a vacuum transaction
-            let (tx_ctx, logger) =
-                Self::begin_transaction(coordinator.clone(), pager.clone(), catalog.clone())
-                    .map_err(box_err)?;
-
-            let tree_builder = tx_ctx.tree_builder();
-            let vacuum_snapshot = tx_ctx.snapshot();
-
             let mut stats = catalog
-                .vacuum(&tree_builder, &vacuum_snapshot, oldest_active_xid)
+                .vacuum(&pager.tree_builder(), coordinator.horizon())
                 .map_err(box_err)?;
 
             // Clean up transaction coordinator
             stats.transactions_cleaned = coordinator.vacuum_transactions();
 
-            // Clear aborted transactions bitmap up to oldest_active_xid
-            pager.write().clear_aborted_up_to(oldest_active_xid);
-
-            // Commit vacuum transaction
-            tx_ctx.commit_transaction().map_err(box_err)?;
-
-            // Flush everything to disk
-            pager.write().flush().map_err(box_err)?;
-
             Ok(stats)
         })?;
 
+        // Flush everything to disk
+        self.checkpoint()?;
+
         Ok(stats)
     }
 }
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 017347a..9dc73d8 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -1,16 +1,17 @@
 //! MVCC Transaction System for AxmosDB
 use crate::{
     io::pager::SharedPager,
+    schema::catalog::Catalog,
     types::{LogicalId, TransactionId},
 };
-use parking_lot::RwLock;
+use parking_lot::{ArcRwLockReadGuard, ArcRwLockWriteGuard, RawRwLock, RwLock};
 use std::{
     collections::{HashMap, HashSet},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
     sync::{
         Arc,
-        atomic::{AtomicU64, Ordering},
+        atomic::{AtomicU64, AtomicUsize, Ordering},
     },
 };
 
@@ -98,7 +99,8 @@ pub struct Snapshot {
     xid: TransactionId,
     /// Lowest active transaction ID when snapshot was taken
     xmin: TransactionId,
-    /// Last committed transaction when snapshot was taken (Set to None for the first transaction in the system)
+    /// Newest transaction that had started when the snapshot was taken. Later ones are not visible.
+    /// Set to None for a snapshot that sees everything.
     xmax: Option<TransactionId>,
     /// Set of transaction IDs that were active (uncommitted) at snapshot time
     active_txs: HashSet<TransactionId>,
@@ -143,6 +145,11 @@ impl Snapshot {
         self.xid
     }
 
+    /// Whether there were other running transactions when the snapshot was taken.
+    pub(crate) fn has_active_transactions(&self) -> bool {
+        !self.active_txs.is_empty()
+    }
+
     /// Check if a tuple with given xmin/xmax is visible to this snapshot.
     pub fn is_tuple_visible(
         &self,
@@ -173,6 +180,14 @@ impl Snapshot {
         true
     }
 
+    /// Whether the last change made to a tuple, or its removal, comes from a transaction that this snapshot cannot see.
+    /// Then the owner of the snapshot cannot change the tuple.
+    pub(crate) fn conflicts_with(&self, xmin: TransactionId, xmax: Option<TransactionId>) -> bool {
+        let is_foreign =
+            |txid| txid != self.xid && !self.is_committed_before_snapshot(txid);
+        is_foreign(xmin) || xmax.is_some_and(is_foreign)
+    }
+
     /// Check if a transaction was committed before this snapshot was taken
     pub fn is_committed_before_snapshot(&self, txid: TransactionId) -> bool {
         // Transaction started after our snapshot,
@@ -290,10 +305,23 @@ impl Clone for TransactionCoordinator {
             pager: self.pager.clone(),
             commit_counter: Arc::clone(&self.commit_counter),
             tuple_commits: Arc::clone(&self.tuple_commits),
+            statements: Arc::clone(&self.statements),
+            finished: Arc::clone(&self.finished),
         }
     }
 }
 
+/// Held while a statement that only reads is running. Many of them can run at the same time.
+pub(crate) type ReadStatement = ArcRwLockReadGuard<RawRwLock, ()>;
+/// Held while a statement that can modify the database is running. It runs alone.
+pub(crate) type WriteStatement = ArcRwLockWriteGuard<RawRwLock, ()>;
+
+/// Access of a running statement to the database.
+pub(crate) enum StatementAccess {
+    Read(ReadStatement),
+    Write(WriteStatement),
+}
+
 /// Central coordinator for all transactions in the system.
 ///
 /// Creates transactions, snapshots, tracks active transactions, validates commits and maintains commit order.
@@ -307,6 +335,13 @@ pub struct TransactionCoordinator {
     commit_counter: Arc<AtomicU64>,
     /// Last commit timestamp per tuple - tracks when each tuple was last modified
     tuple_commits: TupleCommitLog,
+    /// Lets the statements that modify the database run one at a time.
+    ///
+    /// It has to be taken by the thread that submits the statement, not by the worker that runs it:
+    /// otherwise the workers could all be waiting for a statement that is queued behind them.
+    statements: Arc<RwLock<()>>,
+    /// Transactions that finished since the last vacuum.
+    finished: Arc<AtomicUsize>,
 }
 
 enum ValidationResult {
@@ -316,17 +351,50 @@ enum ValidationResult {
 
 impl TransactionCoordinator {
     pub fn new(pager: SharedPager) -> Self {
-        let coordinator = Self {
+        Self {
             transactions: Arc::new(RwLock::new(HashMap::new())),
             pager,
             commit_counter: Arc::new(AtomicU64::new(1)),
             tuple_commits: Arc::new(RwLock::new(HashMap::new())),
-        };
+            statements: Arc::new(RwLock::new(())),
+            finished: Arc::new(AtomicUsize::new(0)),
+        }
+    }
 
-        // Load aborted transactions from PageZero into memory
-        coordinator.load_aborted_transactions();
+    /// Waits until a statement that modifies the database can run.
+    pub(crate) fn write_statement(&self) -> WriteStatement {
+        RwLock::write_arc(&self.statements)
+    }
+
+    /// Waits until a statement that only reads can run.
+    pub(crate) fn read_statement(&self) -> ReadStatement {
+        RwLock::read_arc(&self.statements)
+    }
 
-        coordinator
+    /// Waits until the statement can run.
+    pub(crate) fn statement(&self, read_only: bool) -> StatementAccess {
+        if read_only {
+            StatementAccess::Read(self.read_statement())
+        } else {
+            StatementAccess::Write(self.write_statement())
+        }
+    }
+
+    /// Gives back the space of the objects that no transaction can see anymore, if there may be any.
+    /// It is not worth to fail for this, it will be tried again later.
+    pub(crate) fn reclaim(&self, catalog: &Catalog, access: &StatementAccess) {
+        if matches!(access, StatementAccess::Write(_)) {
+            let _ = catalog.reclaim_pending(&self.pager.tree_builder(), self.horizon());
+        }
+    }
+
+    /// Oldest transaction whose effects some running transaction may not see.
+    pub(crate) fn horizon(&self) -> TransactionId {
+        let txs = self.transactions.read();
+        txs.values()
+            .map(|entry| entry.snapshot().xmin())
+            .min()
+            .unwrap_or_else(|| self.get_last_created())
     }
 
     /// Returns the last committed transaction ID from PageZero header
@@ -339,21 +407,6 @@ impl TransactionCoordinator {
         self.pager.read().get_last_created_transaction()
     }
 
-    /// Loads aborted transactions from PageZero bitmap into the in-memory transaction table
-    pub fn load_aborted_transactions(&self) {
-        let aborted_txs = self.pager.read().get_aborted_transactions();
-        let mut txs = self.transactions.write();
-
-        for txid in aborted_txs {
-            if !txs.contains_key(&txid) {
-                let snapshot = Snapshot::new(txid, txid, None, HashSet::new(), HashSet::new());
-                let mut entry = TransactionMetadata::new(txid, snapshot, 0);
-                entry.state = TransactionState::Aborted;
-                txs.insert(txid, entry);
-            }
-        }
-    }
-
     /// Get a set of transactions with the provided state.
     pub fn transaction_set(&self, state: TransactionState) -> HashSet<TransactionId> {
         self.transactions
@@ -366,27 +419,33 @@ impl TransactionCoordinator {
 
     /// Create a snapshot of the database state for a given transaction id.
     pub fn snapshot(&self, txid: TransactionId) -> TransactionResult<Snapshot> {
-        // Collect active transaction ids
-        let active: HashSet<TransactionId> = self.transaction_set(TransactionState::Active);
+        Ok(Self::take_snapshot(&self.transactions.read(), txid))
+    }
 
-        // Collect tracked aborted transaction ids
-        let aborted: HashSet<TransactionId> = self.transaction_set(TransactionState::Aborted);
+    /// Everything that finished before is visible, except for what was rolled back: its effects are already gone.
+    fn take_snapshot(
+        transactions: &HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> Snapshot {
+        let active: HashSet<TransactionId> = transactions
+            .keys()
+            .copied()
+            .filter(|id| *id != txid)
+            .collect();
 
         // xmin is the smallest active transaction ID (or our ID if none active)
-        let xmin = active.iter().min().copied().unwrap_or(txid);
-
-        // xmax is the last committed transaction from PageZero
-        let xmax = {
-            let last = self.get_last_committed();
-            if last == 0 { None } else { Some(last) }
-        };
+        let xmin = active.iter().min().copied().unwrap_or(txid).min(txid);
 
-        Ok(Snapshot::new(txid, xmin, xmax, active, aborted))
+        Snapshot::new(txid, xmin, Some(txid), active, HashSet::new())
     }
 
     /// Begin a new transaction.
     /// Returns a [TransactionHandle] to the thread that requested the begin operation.
     pub fn begin(&self) -> TransactionResult<TransactionHandle> {
+        // The transaction table stays locked until the transaction is in it, so that
+        // every snapshot either comes before this transaction or knows that it is running.
+        let mut txs = self.transactions.write();
+
         // Atomically get and increment the transaction ID in PageZero
         let txid = {
             let mut pager = self.pager.write();
@@ -395,17 +454,13 @@ impl TransactionCoordinator {
             current
         };
 
-        // Create snapshot
-        let snapshot = self.snapshot(txid)?;
-
+        let snapshot = Self::take_snapshot(&txs, txid);
         let start_ts = self.commit_counter.load(Ordering::SeqCst);
-
-        // Insert new transaction entry
-        {
-            let mut txs = self.transactions.write();
-            let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
-            txs.insert(txid, entry);
-        }
+        txs.insert(
+            txid,
+            TransactionMetadata::new(txid, snapshot.clone(), start_ts),
+        );
+        drop(txs);
 
         Ok(TransactionHandle {
             id: txid,
@@ -414,6 +469,16 @@ impl TransactionCoordinator {
         })
     }
 
+    /// A transaction that is not running anymore. From now on its effects (if any are left) are visible to new snapshots.
+    fn finish(&self, txid: TransactionId) -> TransactionResult<()> {
+        self.transactions
+            .write()
+            .remove(&txid)
+            .ok_or(TransactionError::NotFound(txid))?;
+        self.finished.fetch_add(1, Ordering::Relaxed);
+        Ok(())
+    }
+
     /// Validate and commit a transaction
     ///
     /// This performs optimistic concurrency control validation:
@@ -434,29 +499,19 @@ impl TransactionCoordinator {
                     }
                 }
 
-                Ok(())
+                self.finish(txid)
             }
 
             ValidationResult::Conflict(id) => {
-                self.set_transaction_state(txid, TransactionState::Aborted)?;
+                self.finish(txid)?;
                 Err(TransactionError::WriteWriteConflict(txid, id))
             }
         }
     }
 
-    /// Abort a transaction
+    /// Abort a transaction. Whatever it wrote has to be undone before.
     pub fn abort(&self, txid: TransactionId) -> TransactionResult<()> {
-        {
-            let mut txs = self.transactions.write();
-
-            let entry = txs.get_mut(&txid).ok_or(TransactionError::NotFound(txid))?;
-
-            entry.state = TransactionState::Aborted;
-        }
-
-        // Persist aborted state to page zero for crash recovery
-        self.pager.write().mark_transaction_aborted(txid);
-        Ok(())
+        self.finish(txid)
     }
 
     /// Record a read operation for a transaction
@@ -566,54 +621,18 @@ impl TransactionCoordinator {
         tuple_commits.retain(|_, &mut commit_ts| commit_ts >= min_active_start_ts);
     }
 
-    /// Clean up old committed/aborted transactions
-    /// Should be called periodically by a background vacuum process
-    pub fn cleanup_old_transactions(&self, min_active_xid: TransactionId) -> usize {
-        let current_count = self.transactions.read().len();
-        self.transactions.write().retain(|id, entry| {
-            // Keep active transactions
-            if entry.state == TransactionState::Active {
-                return true;
-            }
-            // Keep transactions that might still be needed for visibility
-            *id >= min_active_xid
-        });
-        let final_count = self.transactions.read().len();
-        final_count.saturating_sub(current_count)
-    }
-
     pub fn pager(&self) -> SharedPager {
         self.pager.clone()
     }
 
-    /// Aborts all currently active transactions.
-    /// Returns the list of transaction IDs that were aborted.
-    pub fn abort_all(&self) -> Vec<TransactionId> {
-        let mut txs = self.transactions.write();
-        let mut aborted = Vec::new();
-
-        for (id, entry) in txs.iter_mut() {
-            if entry.state == TransactionState::Active {
-                entry.state = TransactionState::Aborted;
-                aborted.push(*id);
-            }
-        }
-
-        aborted
-    }
-
-    /// Cleans up all completed (committed or aborted) transactions from memory.
-    /// Only keeps transactions that are still needed for visibility checks.
-    /// Returns the number of transactions cleaned up.
+    /// Cleans up what is left in memory of the transactions that finished since the last time.
+    /// Returns how many there were.
     pub fn vacuum_transactions(&self) -> usize {
-        let oldest_required = self.get_last_committed();
-        let removed = self.cleanup_old_transactions(oldest_required);
-
-        // Also clean up tuple commits that are no longer needed
+        // Clean up tuple commits that are no longer needed
         let min_start_ts = self.get_min_active_start_ts();
         self.cleanup_tuple_commits(min_start_ts);
 
-        removed
+        self.finished.swap(0, Ordering::Relaxed)
     }
 
     /// Gets the minimum start timestamp among all active transactions.
diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 5b21b80..d43afac 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -2,6 +2,7 @@ use std::{
     collections::VecDeque,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
+    panic::{self, AssertUnwindSafe},
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
@@ -126,7 +127,9 @@ impl Worker {
             {
                 match job {
                     Job::Task(task) => {
-                        let _ = task();
+                        // A task that panics must not take the worker with it. Whoever waits for
+                        // it notices, because its end of the channel is dropped.
+                        let _ = panic::catch_unwind(AssertUnwindSafe(task));
                     }
                     Job::Shutdown => break,
                 }
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index c557820..63319ec 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -1,21 +1,24 @@
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 
 // src/sql/executor/context.rs
-use super::RuntimeResult;
+use super::{RuntimeError, RuntimeResult};
 use crate::{
     io::{
-        logger::{Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
-        pager::{BtreeBuilder, SharedPager},
+        logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, Insert, Operation, Update},
+        pager::{BtreeBuilder, Pager, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionHandle},
-    schema::catalog::SharedCatalog,
+    multithreading::coordinator::{
+        Snapshot, TransactionError, TransactionHandle, TransactionResult,
+    },
+    schema::{Schema, catalog::SharedCatalog},
+    storage::tuple::Tuple,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
-        bplustree::Btree,
+        bplustree::{Btree, SearchResult},
     },
     types::{ObjectId, PageId, RowId, TransactionId},
 };
-use std::sync::Arc;
+use std::{io::Result as IoResult, sync::Arc};
 
 /// Context of a single thread. Cannot commit transactions by itself.
 #[derive(Clone)]
@@ -71,9 +74,7 @@ impl ThreadContext {
 
     /// Create a tree builder configured with the pager
     pub(crate) fn tree_builder(&self) -> BtreeBuilder {
-        let pager = self.pager().read();
-        BtreeBuilder::new(pager.min_keys_per_page(), pager.num_siblings_per_side())
-            .with_pager(self.pager().clone())
+        self.pager().tree_builder()
     }
 }
 
@@ -95,10 +96,56 @@ impl Clone for TransactionContext {
     }
 }
 
+/// How to take back a change of a transaction.
+pub(crate) enum UndoAction {
+    /// Puts back the previous contents of a tuple.
+    Restore {
+        root: PageId,
+        schema: Arc<Schema>,
+        tuple: Tuple,
+        /// Whether this takes back an UPDATE of a row in a table.
+        is_row_update: bool,
+    },
+    /// Removes a tuple that only this transaction has seen.
+    Remove {
+        root: PageId,
+        schema: Arc<Schema>,
+        tuple: Tuple,
+    },
+    /// Gives back the pages of a tree that only this transaction has seen.
+    Free { root: PageId },
+}
+
+impl UndoAction {
+    fn is_row_update(&self) -> bool {
+        matches!(
+            self,
+            Self::Restore {
+                is_row_update: true,
+                ..
+            }
+        )
+    }
+}
+
+// A tuple owns its data.
+unsafe impl Send for UndoAction {}
+
+/// What a transaction has done so far.
+#[derive(Default)]
+struct TransactionChanges {
+    /// Records for the log. They get there all together, when the transaction commits.
+    operations: Vec<Box<dyn Operation + Send>>,
+    /// How to take back each change, in the order in which they were made.
+    undo: Vec<UndoAction>,
+}
+
+/// Keeps track of the changes of a transaction.
 pub(crate) struct TransactionLogger {
     tid: TransactionId,
     pager: SharedPager,
     last_lsn: Arc<RwLock<u64>>,
+    changes: Arc<Mutex<TransactionChanges>>,
 }
 
 impl Clone for TransactionLogger {
@@ -107,6 +154,39 @@ impl Clone for TransactionLogger {
             tid: self.tid,
             pager: self.pager.clone(),
             last_lsn: Arc::clone(&self.last_lsn),
+            changes: Arc::clone(&self.changes),
+        }
+    }
+}
+
+impl Drop for TransactionLogger {
+    fn drop(&mut self) {
+        // Nobody has made these changes durable, nor taken them back.
+        if Arc::strong_count(&self.changes) == 1 {
+            let _ = self.rollback_updates();
+        }
+    }
+}
+
+/// Takes back what a statement did, unless it reaches its end.
+pub(crate) struct StatementGuard {
+    logger: TransactionLogger,
+    operations: usize,
+    undo: usize,
+    finished: bool,
+}
+
+impl StatementGuard {
+    /// Keeps what the statement did.
+    pub(crate) fn finish(mut self) {
+        self.finished = true;
+    }
+}
+
+impl Drop for StatementGuard {
+    fn drop(&mut self) {
+        if !self.finished {
+            let _ = self.logger.rollback_to(self.operations, self.undo, false);
         }
     }
 }
@@ -117,35 +197,166 @@ impl TransactionLogger {
             tid: xid,
             pager,
             last_lsn: Arc::new(RwLock::new(last_lsn)),
+            changes: Arc::default(),
         }
     }
-    pub(crate) fn log_commit(&self) -> RuntimeResult<()> {
-        self.log_operation(Commit)?;
-        Ok(())
+
+    /// Marks the start of a statement.
+    pub(crate) fn begin_statement(&self) -> StatementGuard {
+        let changes = self.changes.lock();
+        StatementGuard {
+            operations: changes.operations.len(),
+            undo: changes.undo.len(),
+            logger: self.clone(),
+            finished: false,
+        }
     }
 
-    pub(crate) fn log_abort(&self) -> RuntimeResult<()> {
-        self.log_operation(Commit)?;
-        Ok(())
+    /// Whether the transaction has changed anything.
+    pub(crate) fn has_changes(&self) -> bool {
+        let changes = self.changes.lock();
+        !changes.operations.is_empty() || !changes.undo.is_empty()
     }
 
-    pub(crate) fn log_begin(&self) -> RuntimeResult<()> {
-        self.log_operation(Begin)?;
+    /// Takes note of how to take back a change, which has to be made after this.
+    pub(crate) fn push_undo(&self, action: UndoAction) {
+        self.changes.lock().undo.push(action);
+    }
+
+    /// Takes back everything the transaction did.
+    pub(crate) fn rollback(&self) -> RuntimeResult<()> {
+        self.rollback_to(0, 0, false)
+    }
+
+    /// Takes back what the transaction did, except for the updates of the rows.
+    pub(crate) fn rollback_keeping_updates(&self) -> RuntimeResult<()> {
+        self.rollback_to(0, 0, true)
+    }
+
+    /// Takes back the updates of the rows, when there are indexes that depend on them.
+    fn rollback_updates(&self) -> RuntimeResult<()> {
+        let actions = std::mem::take(&mut self.changes.lock().undo);
+        if !actions
+            .iter()
+            .any(|action| matches!(action, UndoAction::Remove { .. }))
+        {
+            return Ok(());
+        }
+        for action in actions.into_iter().rev() {
+            if action.is_row_update() {
+                self.apply_undo(action)?;
+            }
+        }
         Ok(())
     }
 
-    pub(crate) fn log_end(&self) -> RuntimeResult<()> {
-        self.pager.write().flush_wal()?;
-        self.log_operation(End)?;
+    fn rollback_to(
+        &self,
+        operations: usize,
+        undo: usize,
+        keep_updates: bool,
+    ) -> RuntimeResult<()> {
+        let actions = {
+            let mut changes = self.changes.lock();
+            changes.operations.truncate(operations);
+            let undo = undo.min(changes.undo.len());
+            changes.undo.split_off(undo)
+        };
+
+        let mut result = Ok(());
+        for action in actions.into_iter().rev() {
+            if keep_updates && action.is_row_update() {
+                continue;
+            }
+            // Go on with the others even if one fails.
+            let outcome = self.apply_undo(action);
+            if result.is_ok() {
+                result = outcome;
+            }
+        }
+        result
+    }
+
+    fn apply_undo(&self, action: UndoAction) -> RuntimeResult<()> {
+        let builder = self.pager.tree_builder();
+        match action {
+            UndoAction::Restore {
+                root,
+                schema,
+                tuple,
+                ..
+            } => {
+                let mut tree = builder.build_tree_mut(root);
+                if let SearchResult::Found(_) = tree.search_tuple(&tuple, &schema)? {
+                    tree.update(root, tuple, &schema)?;
+                }
+            }
+            UndoAction::Remove {
+                root,
+                schema,
+                tuple,
+            } => {
+                let mut tree = builder.build_tree_mut(root);
+                if let SearchResult::Found(_) = tree.search_tuple(&tuple, &schema)? {
+                    tree.remove_tuple(root, &tuple, &schema)?;
+                }
+            }
+            UndoAction::Free { root } => builder.build_tree_mut(root).dealloc()?,
+        }
         Ok(())
     }
 
-    fn log_operation<O: Operation>(&self, operation: O) -> RuntimeResult<()> {
-        let new_last_lsn =
-            self.pager
-                .write()
-                .push_to_log(operation, self.tid, Some(*self.last_lsn.read()))?;
-        *self.last_lsn.write() = new_last_lsn;
+    /// Makes the changes of the transaction durable.
+    /// If this fails the transaction has not committed, and has to be rolled back.
+    pub(crate) fn log_commit(&self) -> RuntimeResult<()> {
+        let operations = std::mem::take(&mut self.changes.lock().operations);
+        if operations.is_empty() {
+            return Ok(());
+        }
+
+        let mut pager = self.pager.write();
+        let result = self.push_all(&mut pager, operations);
+
+        if result.is_err() {
+            // Part of it could get to the disk later.
+            let last_lsn = *self.last_lsn.read();
+            let _ = pager.push_to_log(Abort, self.tid, Some(last_lsn));
+            let _ = pager.flush_wal();
+        }
+        Ok(result?)
+    }
+
+    fn push_all(
+        &self,
+        pager: &mut Pager,
+        operations: Vec<Box<dyn Operation + Send>>,
+    ) -> IoResult<()> {
+        let mut lsn = pager.push_to_log(Begin, self.tid, None)?;
+        for operation in operations {
+            lsn = pager.push_to_log(operation, self.tid, Some(lsn))?;
+            *self.last_lsn.write() = lsn;
+        }
+        lsn = pager.push_to_log(Commit, self.tid, Some(lsn))?;
+        *self.last_lsn.write() = lsn;
+        pager.flush_wal()
+    }
+
+    /// The transaction has committed: there is nothing to take back anymore.
+    pub(crate) fn forget(&self) {
+        let mut changes = self.changes.lock();
+        changes.operations.clear();
+        changes.undo.clear();
+    }
+
+    /// Adds a record to the ones that get to the log on commit.
+    fn log_operation<O: Operation + Send + 'static>(&self, operation: O) -> RuntimeResult<()> {
+        let size = operation.undo().len() + operation.redo().len();
+        if !self.pager.read().fits_in_log(size) {
+            return Err(RuntimeError::Other(format!(
+                "{size} bytes do not fit in a record of the log"
+            )));
+        }
+        self.changes.lock().operations.push(Box::new(operation));
         Ok(())
     }
 
@@ -278,22 +489,57 @@ impl TransactionContext {
 
     /// Create a tree builder configured with the pager
     pub(crate) fn tree_builder(&self) -> BtreeBuilder {
-        let pager = self.pager().read();
-        BtreeBuilder::new(pager.min_keys_per_page(), pager.num_siblings_per_side())
-            .with_pager(self.pager().clone())
+        self.pager().tree_builder()
     }
 
-    /// Commits the transaction: log commit, commit handle, end.
+    /// Commits the transaction: its effects become visible to the transactions that begin after this.
     pub(crate) fn commit_transaction(&self) -> RuntimeResult<()> {
-        let mut h = self.handle.write();
-        h.commit()?;
-        Ok(())
+        self.end(TransactionHandle::commit)
+    }
+
+    /// Commits the transaction, making its changes durable first. If that is not possible, it is rolled back.
+    pub(crate) fn commit(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        if !self.handle.read().can_commit() {
+            return Err(TransactionError::TransactionNotStarted.into());
+        }
+
+        if let Err(e) = logger.log_commit() {
+            self.rollback(logger)?;
+            return Err(e);
+        }
+        logger.forget();
+        self.end(TransactionHandle::commit)
+    }
+
+    /// Takes back everything the transaction did.
+    pub(crate) fn rollback(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        let undone = logger.rollback();
+        self.end(TransactionHandle::abort)?;
+        undone
+    }
+
+    /// Aborts the transaction on request of the client.
+    pub(crate) fn abort(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        if !self.handle.read().can_commit() {
+            return Err(TransactionError::TransactionNotStarted.into());
+        }
+
+        let undone = logger.rollback_keeping_updates();
+        self.end(TransactionHandle::abort)?;
+        undone
+    }
+
+    /// Whether the transaction is still running.
+    pub(crate) fn is_running(&self) -> bool {
+        self.handle.read().can_commit()
     }
 
-    /// Aborts the transaction: log commit, commit handle, end.
-    pub(crate) fn abort_transaction(&self) -> RuntimeResult<()> {
-        let mut h = self.handle.write();
-        h.abort()?;
+    fn end<F>(&self, finish: F) -> RuntimeResult<()>
+    where
+        F: FnOnce(&mut TransactionHandle) -> TransactionResult<()>,
+    {
+        finish(&mut self.handle.write())?;
+        self.catalog.end_writer(self.tid());
         Ok(())
     }
 }
diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 16db50a..fb3b0f2 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -3,421 +3,34 @@
 //! This module provides execution of DDL statements (CREATE, ALTER, DROP)
 //! that modify the database schema. DDL statements bypass the query optimizer
 //! and are executed directly against the catalog.
-//!
-//! The module also provides serializable DDL instruction types that can be
-//! stored in the WAL for crash recovery.
 
 use crate::{
     PageId,
+    multithreading::coordinator::TransactionError,
     runtime::{
         RuntimeError, RuntimeResult,
-        context::{ThreadContext, TransactionLogger},
+        context::{ThreadContext, TransactionLogger, UndoAction},
+        dml::Target,
         eval::eval_literal_expr,
+        validator::{ConstraintValidator, ValidationError},
     },
     schema::{
         DatabaseItem,
         base::{
-            Column, ForeignKeyInfo, Relation, Schema, SchemaError, SchemaResult, TableConstraint,
+            Column, ForeignKeyInfo, IndexHandle, Relation, Schema, SchemaError, TableConstraint,
         },
         catalog::CatalogError,
     },
     sql::binder::bounds::*,
     storage::{
         page::BtreePage,
-        tuple::{Row, TupleBuilder},
-    },
-    types::{
-        Blob, DataType, DataTypeKind, ObjectId, SerializationError, SerializationResult, UInt64,
+        tuple::{Row, Tuple, TupleBuilder},
     },
-};
-
-use rkyv::{
-    Archive, Deserialize, Serialize, from_bytes, rancor::Error as RkyvError, to_bytes,
-    util::AlignedVec,
+    types::{Blob, DataType, DataTypeKind, LogicalId, ObjectId},
 };
 
 use std::fmt::{Display, Formatter, Result as FmtResult};
 
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub(crate) enum DdlInstruction {
-    CreateTable(CreateTableInstr),
-    DropTable(DropTableInstr),
-    CreateIndex(CreateIndexInstr),
-    DropIndex(DropIndexInstr),
-    AlterTable(AlterTableInstr),
-}
-
-impl DdlInstruction {
-    pub fn to_bytes(&self) -> SerializationResult<Box<[u8]>> {
-        let bytes = to_bytes::<RkyvError>(self)?;
-        Ok(bytes.into_boxed_slice())
-    }
-
-    pub fn from_bytes(bytes: &[u8]) -> SerializationResult<Self> {
-        if bytes.is_empty() {
-            return Err(SerializationError::Other(
-                "Cannot deserialize empty bytes".to_string(),
-            ));
-        }
-        let mut aligned = AlignedVec::<4>::new();
-        aligned.extend_from_slice(bytes);
-        let instruction = from_bytes::<Self, RkyvError>(&aligned)?;
-        Ok(instruction)
-    }
-}
-
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub(crate) struct CreateTableInstr {
-    pub(crate) table_name: String,
-    pub(crate) columns: Vec<Column>,
-    pub(crate) constraints: Vec<TableConstraint>,
-    pub(crate) if_not_exists: bool,
-}
-
-impl CreateTableInstr {
-    pub(crate) fn new(
-        table_name: String,
-        columns: Vec<Column>,
-        constraints: Vec<TableConstraint>,
-        if_not_exists: bool,
-    ) -> Self {
-        Self {
-            table_name,
-            columns,
-            constraints,
-            if_not_exists,
-        }
-    }
-
-    pub fn to_bytes(&self) -> SerializationResult<Box<[u8]>> {
-        let bytes = to_bytes::<RkyvError>(self)?;
-        Ok(bytes.into_boxed_slice())
-    }
-
-    pub fn from_bytes(bytes: &[u8]) -> SerializationResult<Self> {
-        if bytes.is_empty() {
-            return Err(SerializationError::Other(
-                "Cannot deserialize empty bytes".to_string(),
-            ));
-        }
-        let mut aligned = AlignedVec::<4>::new();
-        aligned.extend_from_slice(bytes);
-        let instr = from_bytes::<Self, RkyvError>(&aligned)?;
-        Ok(instr)
-    }
-
-    pub fn inverse(&self, object_id: ObjectId) -> DropTableInstr {
-        DropTableInstr {
-            table_name: self.table_name.clone(),
-            table_id: object_id,
-            cascade: true,
-            if_exists: false,
-        }
-    }
-}
-
-impl From<&BoundCreateTable> for CreateTableInstr {
-    fn from(stmt: &BoundCreateTable) -> Self {
-        let columns: Vec<Column> = stmt.columns.iter().map(Column::from).collect();
-        let constraints: Vec<TableConstraint> =
-            stmt.constraints.iter().map(TableConstraint::from).collect();
-
-        Self::new(
-            stmt.table_name.clone(),
-            columns,
-            constraints,
-            stmt.if_not_exists,
-        )
-    }
-}
-
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub(crate) struct DropTableInstr {
-    pub(crate) table_name: String,
-    pub(crate) table_id: ObjectId,
-    pub(crate) cascade: bool,
-    pub(crate) if_exists: bool,
-}
-
-impl DropTableInstr {
-    pub fn new(table_name: String, table_id: ObjectId, cascade: bool, if_exists: bool) -> Self {
-        Self {
-            table_name,
-            table_id,
-            cascade,
-            if_exists,
-        }
-    }
-
-    pub fn to_bytes(&self) -> SerializationResult<Box<[u8]>> {
-        let bytes = to_bytes::<RkyvError>(self)?;
-        Ok(bytes.into_boxed_slice())
-    }
-
-    pub fn from_bytes(bytes: &[u8]) -> SerializationResult<Self> {
-        if bytes.is_empty() {
-            return Err(SerializationError::Other(
-                "Cannot deserialize empty bytes".to_string(),
-            ));
-        }
-        let mut aligned = AlignedVec::<4>::new();
-        aligned.extend_from_slice(bytes);
-        let instr = from_bytes::<Self, RkyvError>(&aligned)?;
-        Ok(instr)
-    }
-}
-
-impl From<&BoundDropTable> for DropTableInstr {
-    fn from(stmt: &BoundDropTable) -> Self {
-        Self::new(
-            stmt.table_name.clone(),
-            stmt.table_id.unwrap_or(0),
-            stmt.cascade,
-            stmt.if_exists,
-        )
-    }
-}
-
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub(crate) struct CreateIndexInstr {
-    pub(crate) index_name: String,
-    pub(crate) table_id: ObjectId,
-    pub(crate) columns: Vec<usize>,
-    pub(crate) if_not_exists: bool,
-}
-
-impl CreateIndexInstr {
-    pub fn new(
-        index_name: String,
-        table_id: ObjectId,
-        columns: Vec<usize>,
-        if_not_exists: bool,
-    ) -> Self {
-        Self {
-            index_name,
-            table_id,
-            columns,
-            if_not_exists,
-        }
-    }
-
-    pub fn to_bytes(&self) -> SerializationResult<Box<[u8]>> {
-        let bytes = to_bytes::<RkyvError>(self)?;
-        Ok(bytes.into_boxed_slice())
-    }
-
-    pub fn from_bytes(bytes: &[u8]) -> SerializationResult<Self> {
-        if bytes.is_empty() {
-            return Err(SerializationError::Other(
-                "Cannot deserialize empty bytes".to_string(),
-            ));
-        }
-        let mut aligned = AlignedVec::<4>::new();
-        aligned.extend_from_slice(bytes);
-        let instr = from_bytes::<Self, RkyvError>(&aligned)?;
-        Ok(instr)
-    }
-
-    pub fn inverse(&self, object_id: ObjectId) -> DropIndexInstr {
-        DropIndexInstr {
-            index_name: self.index_name.clone(),
-            index_id: object_id,
-            if_exists: false,
-        }
-    }
-}
-
-impl From<&BoundCreateIndex> for CreateIndexInstr {
-    fn from(stmt: &BoundCreateIndex) -> Self {
-        Self::new(
-            stmt.index_name.clone(),
-            stmt.table_id,
-            stmt.columns.clone(),
-            stmt.if_not_exists,
-        )
-    }
-}
-
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub struct DropIndexInstr {
-    pub index_name: String,
-    pub index_id: ObjectId,
-    pub if_exists: bool,
-}
-
-impl DropIndexInstr {
-    pub fn new(index_name: String, index_id: ObjectId, if_exists: bool) -> Self {
-        Self {
-            index_name,
-            index_id,
-            if_exists,
-        }
-    }
-
-    pub fn to_bytes(&self) -> SerializationResult<Box<[u8]>> {
-        let bytes = to_bytes::<RkyvError>(self)?;
-        Ok(bytes.into_boxed_slice())
-    }
-
-    pub fn from_bytes(bytes: &[u8]) -> SerializationResult<Self> {
-        if bytes.is_empty() {
-            return Err(SerializationError::Other(
-                "Cannot deserialize empty bytes".to_string(),
-            ));
-        }
-        let mut aligned = AlignedVec::<4>::new();
-        aligned.extend_from_slice(bytes);
-        let instr = from_bytes::<Self, RkyvError>(&aligned)?;
-        Ok(instr)
-    }
-}
-
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub(crate) struct AlterTableInstr {
-    pub(crate) table_id: ObjectId,
-    pub(crate) table_name: String,
-    pub(crate) action: AlterActionInstr,
-}
-
-impl AlterTableInstr {
-    pub(crate) fn new(table_id: ObjectId, table_name: String, action: AlterActionInstr) -> Self {
-        Self {
-            table_id,
-            table_name,
-            action,
-        }
-    }
-
-    pub fn to_bytes(&self) -> SerializationResult<Box<[u8]>> {
-        let bytes = to_bytes::<RkyvError>(self)?;
-        Ok(bytes.into_boxed_slice())
-    }
-
-    pub fn from_bytes(bytes: &[u8]) -> SerializationResult<Self> {
-        if bytes.is_empty() {
-            return Err(SerializationError::Other(
-                "Cannot deserialize empty bytes".to_string(),
-            ));
-        }
-        let mut aligned = AlignedVec::<4>::new();
-        aligned.extend_from_slice(bytes);
-        let instr = from_bytes::<Self, RkyvError>(&aligned)?;
-        Ok(instr)
-    }
-
-    pub fn try_inverse_with(&self, schema: &Schema) -> SchemaResult<Self> {
-        Ok(Self {
-            table_id: self.table_id,
-            table_name: self.table_name.clone(),
-            action: self.action.try_inverse_with(schema)?,
-        })
-    }
-}
-
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub(crate) enum AlterActionInstr {
-    AddColumn {
-        column: Column,
-    },
-    DropColumn {
-        column_idx: usize,
-    },
-    AlterColumn {
-        column_idx: usize,
-        action: AlterColumnActionInstr,
-    },
-    AddConstraint(TableConstraint),
-}
-
-impl AlterActionInstr {
-    pub fn try_inverse_with(&self, schema: &Schema) -> SchemaResult<Self> {
-        match self {
-            Self::AddColumn { column, .. } => {
-                let idx = schema.bind_column(column.name())?;
-                Ok(Self::DropColumn { column_idx: idx })
-            }
-            Self::DropColumn { column_idx, .. } => {
-                let column = schema
-                    .column(*column_idx)
-                    .ok_or(SchemaError::ColumnIndexOutOfBounds(*column_idx))?;
-                Ok(Self::AddColumn {
-                    column: column.clone(),
-                })
-            }
-            Self::AlterColumn { column_idx, action } => Ok(Self::AlterColumn {
-                column_idx: *column_idx,
-                action: action.inverse(),
-            }),
-            Self::AddConstraint(constraint) => Ok(Self::AddConstraint(constraint.clone())),
-        }
-    }
-}
-
-#[derive(Archive, Serialize, Deserialize, Clone, Debug, PartialEq)]
-pub enum AlterColumnActionInstr {
-    SetDefault {
-        old_default: Option<Box<[u8]>>,
-        new_default: Option<Box<[u8]>>,
-    },
-    DropDefault {
-        old_default: Option<Box<[u8]>>,
-    },
-    SetNotNull {
-        was_nullable: bool,
-    },
-    DropNotNull {
-        was_non_null: bool,
-    },
-    SetDataType {
-        old_type: u8,
-        new_type: u8,
-    },
-}
-
-impl AlterColumnActionInstr {
-    pub fn inverse(&self) -> Self {
-        match self {
-            Self::SetDefault {
-                old_default,
-                new_default,
-            } => Self::SetDefault {
-                old_default: new_default.clone(),
-                new_default: old_default.clone(),
-            },
-            Self::DropDefault { old_default } => Self::SetDefault {
-                old_default: None,
-                new_default: old_default.clone(),
-            },
-            Self::SetNotNull { was_nullable } => {
-                if *was_nullable {
-                    Self::DropNotNull {
-                        was_non_null: false,
-                    }
-                } else {
-                    Self::SetNotNull {
-                        was_nullable: false,
-                    }
-                }
-            }
-            Self::DropNotNull { was_non_null } => {
-                if *was_non_null {
-                    Self::SetNotNull {
-                        was_nullable: false,
-                    }
-                } else {
-                    Self::DropNotNull {
-                        was_non_null: false,
-                    }
-                }
-            }
-            Self::SetDataType { old_type, new_type } => Self::SetDataType {
-                old_type: *new_type,
-                new_type: *old_type,
-            },
-        }
-    }
-}
-
 impl From<&BoundTableConstraint> for TableConstraint {
     fn from(constraint: &BoundTableConstraint) -> Self {
         match constraint {
@@ -497,601 +110,623 @@ impl DdlExecutor {
 
     pub fn execute(&mut self, stmt: &BoundStatement) -> RuntimeResult<DdlResult> {
         match stmt {
-            BoundStatement::CreateTable(create) => {
-                let instr = CreateTableInstr::from(create);
-                self.execute_create_table(&instr)
-            }
-            BoundStatement::CreateIndex(create) => {
-                let instr = CreateIndexInstr::from(create);
-                self.execute_create_index(&instr)
-            }
-            BoundStatement::AlterTable(alter) => {
-                let instr = self.alter_table_instr_from_bound(alter)?;
-                self.execute_alter_table(&instr)
-            }
-            BoundStatement::DropTable(drop) => {
-                let instr = DropTableInstr::from(drop);
-                self.execute_drop_table(&instr)
-            }
+            BoundStatement::CreateTable(create) => self.execute_create_table(create),
+            BoundStatement::CreateIndex(create) => self.execute_create_index(create),
+            BoundStatement::AlterTable(alter) => self.execute_alter_table(alter),
+            BoundStatement::DropTable(drop) => self.execute_drop_table(drop),
             _ => Err(RuntimeError::InvalidStatement),
         }
     }
 
-    pub(crate) fn execute_instruction(
-        &mut self,
-        instr: &DdlInstruction,
-    ) -> RuntimeResult<DdlResult> {
-        match instr {
-            DdlInstruction::CreateTable(create) => self.execute_create_table(create),
-            DdlInstruction::DropTable(drop) => self.execute_drop_table(drop),
-            DdlInstruction::CreateIndex(create) => self.execute_create_index(create),
-            DdlInstruction::DropIndex(drop) => self.execute_drop_index(drop),
-            DdlInstruction::AlterTable(alter) => self.execute_alter_table(alter),
-        }
+    /// Gets a relation, after checking that its definition can be changed.
+    fn relation_for_change(&self, id: ObjectId) -> RuntimeResult<Relation> {
+        let tree_builder = self.ctx.tree_builder();
+        let snapshot = self.ctx.snapshot();
+        let catalog = self.ctx.catalog();
+        let relation = catalog.get_relation(id, &tree_builder, snapshot)?;
+        catalog.ensure_exclusive(id, &tree_builder, snapshot)?;
+        Ok(relation)
     }
 
-    fn alter_table_instr_from_bound(
-        &self,
-        stmt: &BoundAlterTable,
-    ) -> RuntimeResult<AlterTableInstr> {
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
+    /// Allocates the root of a new tree.
+    fn new_root(&self) -> RuntimeResult<PageId> {
+        let root = self.ctx.pager().write().allocate_page::<BtreePage>()?;
+        self.logger.push_undo(UndoAction::Free { root });
+        Ok(root)
+    }
 
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(stmt.table_id, &tree_builder, &snapshot)?;
+    fn create_relation(&self, relation: &Relation) -> RuntimeResult<()> {
+        self.ctx.catalog().create_relation(
+            relation,
+            &self.ctx.tree_builder(),
+            self.ctx.snapshot(),
+            &self.logger,
+        )?;
+        Ok(())
+    }
 
-        let table_name = relation.name().to_string();
-        let action = self.alter_action_instr_from_bound(&stmt.action, relation.schema())?;
+    fn alter_relation(&self, relation: &mut Relation, has_new_root: bool) -> RuntimeResult<()> {
+        if has_new_root {
+            // The columns may not be the same anymore.
+            relation.clear_stats();
+        }
+        self.ctx.catalog().alter_relation(
+            relation,
+            has_new_root,
+            &self.ctx.tree_builder(),
+            self.ctx.snapshot(),
+            &self.logger,
+        )?;
+        Ok(())
+    }
 
-        Ok(AlterTableInstr::new(stmt.table_id, table_name, action))
+    fn drop_relation(&self, relation: &Relation) -> RuntimeResult<()> {
+        self.ctx.catalog().drop_relation(
+            relation,
+            &self.ctx.tree_builder(),
+            self.ctx.snapshot(),
+            &self.logger,
+        )?;
+        Ok(())
     }
 
-    fn alter_action_instr_from_bound(
-        &self,
-        action: &BoundAlterAction,
-        schema: &Schema,
-    ) -> RuntimeResult<AlterActionInstr> {
-        match action {
-            BoundAlterAction::AddColumn(col_def) => {
-                let column = Column::from(col_def);
-                Ok(AlterActionInstr::AddColumn { column })
-            }
-            BoundAlterAction::DropColumn(col_idx) => {
-                let column = schema
-                    .column(*col_idx)
-                    .ok_or(SchemaError::ColumnIndexOutOfBounds(*col_idx))?
-                    .clone();
-                Ok(AlterActionInstr::DropColumn {
-                    column_idx: *col_idx,
-                })
-            }
-            BoundAlterAction::AlterColumn {
-                column_idx,
-                action_type,
-            } => {
-                let column = schema
-                    .column(*column_idx)
-                    .ok_or(SchemaError::ColumnIndexOutOfBounds(*column_idx))?;
-
-                let action = match action_type {
-                    BoundAlterColumnAction::SetDefault(expr) => {
-                        let new_default =
-                            eval_literal_expr(expr).and_then(|dt| dt.serialize().ok());
-                        AlterColumnActionInstr::SetDefault {
-                            old_default: column.default.clone(),
-                            new_default,
-                        }
-                    }
-                    BoundAlterColumnAction::DropDefault => AlterColumnActionInstr::DropDefault {
-                        old_default: column.default.clone(),
-                    },
-                    BoundAlterColumnAction::SetNotNull => AlterColumnActionInstr::SetNotNull {
-                        was_nullable: !column.is_non_null,
-                    },
-                    BoundAlterColumnAction::DropNotNull => AlterColumnActionInstr::DropNotNull {
-                        was_non_null: column.is_non_null,
-                    },
-                    BoundAlterColumnAction::SetDataType(dt) => {
-                        AlterColumnActionInstr::SetDataType {
-                            old_type: column.dtype,
-                            new_type: *dt as u8,
-                        }
-                    }
-                };
-
-                Ok(AlterActionInstr::AlterColumn {
-                    column_idx: *column_idx,
-                    action,
-                })
-            }
-            BoundAlterAction::AddConstraint(constraint) => {
-                let instr = TableConstraint::from(constraint);
-                Ok(AlterActionInstr::AddConstraint(instr))
-            }
+    /// Builds the definition of a column.
+    fn build_column(&self, definition: &BoundColumnDef) -> RuntimeResult<Column> {
+        let mut column = Column::new_with_defaults(definition.data_type, &definition.name);
+        if let Some(default) = &definition.default {
+            column = Self::set_default(column, default)?;
         }
+        column.is_non_null = definition.is_non_null;
+        Ok(column)
+    }
+
+    fn set_default(column: Column, default: &BoundExpression) -> RuntimeResult<Column> {
+        let value = eval_literal_expr(default).ok_or_else(|| {
+            RuntimeError::Other(format!(
+                "the default value of column {} has to be a literal",
+                column.name()
+            ))
+        })?;
+        let value = value.try_cast(column.datatype())?;
+        Ok(column.with_default(value)?)
     }
 
-    fn execute_create_table(&mut self, instr: &CreateTableInstr) -> RuntimeResult<DdlResult> {
-        if self.relation_exists(&instr.table_name) {
-            if instr.if_not_exists {
+    fn execute_create_table(&mut self, stmt: &BoundCreateTable) -> RuntimeResult<DdlResult> {
+        if self.relation_exists(&stmt.table_name) {
+            if stmt.if_not_exists {
                 return Ok(DdlResult::NoOp);
             }
             return Err(RuntimeError::AlreadyExists(DatabaseItem::Table(
-                instr.table_name.clone(),
+                stmt.table_name.clone(),
             )));
         }
 
-        let mut columns: Vec<Column> = Vec::with_capacity(instr.columns.len() + 1);
-        columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
-        columns.extend(instr.columns.iter().cloned());
-
         let object_id = self.ctx.catalog().get_next_object_id();
-        let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
-
-        let relation = Relation::table(object_id, &instr.table_name, root_page, columns);
-
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        self.ctx
-            .catalog()
-            .store_relation(relation, &tree_builder, snapshot.xid())?;
-
-        let mut relation = self
-            .ctx
-            .catalog()
-            .get_relation(object_id, &tree_builder, &snapshot)?;
-
-        for constraint in &instr.constraints {
-            self.add_constraint(&mut relation, constraint)?;
+        let row_id = Column::new_with_defaults(DataTypeKind::BigUInt, "row_id");
+        let root_page = self.new_root()?;
+        let mut relation = Relation::table(object_id, &stmt.table_name, root_page, vec![row_id]);
+        for definition in &stmt.columns {
+            relation.add_column(self.build_column(definition)?)?;
         }
 
-        let redo_bytes = instr.to_bytes()?;
-        let undo_instr = instr.inverse(object_id);
-        let undo_bytes = undo_instr.to_bytes()?;
-        self.logger.log_create(object_id, redo_bytes, undo_bytes)?;
+        for constraint in &stmt.constraints {
+            self.add_constraint(&mut relation, &TableConstraint::from(constraint))?;
+        }
+        self.create_relation(&relation)?;
 
         Ok(DdlResult::TableCreated {
-            name: instr.table_name.clone(),
+            name: stmt.table_name.clone(),
             object_id,
         })
     }
 
-    fn execute_drop_table(&mut self, instr: &DropTableInstr) -> RuntimeResult<DdlResult> {
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        let relation =
-            match self
-                .ctx
-                .catalog()
-                .get_relation(instr.table_id, &tree_builder, &snapshot)
-            {
-                Ok(rel) => rel,
-                Err(_) => {
-                    if instr.if_exists {
-                        return Ok(DdlResult::NoOp);
-                    }
-                    return Err(RuntimeError::Schema(SchemaError::NotFound(
-                        DatabaseItem::Table(instr.table_name.clone()),
-                    )));
-                }
-            };
-
-        let table_name = relation.name().to_string();
-        let undo_instr = relation.to_create_table_instr()?;
-
-        let id = relation.object_id();
-
-        self.ctx
+    /// Gets the tables that have a foreign key to another one.
+    fn referencing_tables(&self, table_id: ObjectId) -> RuntimeResult<Vec<Relation>> {
+        let relations = self
+            .ctx
             .catalog()
-            .remove_relation(relation, &tree_builder, &snapshot, instr.cascade)?;
+            .relations(&self.ctx.tree_builder(), self.ctx.snapshot())?;
+        Ok(relations
+            .into_iter()
+            .filter(|relation| {
+                relation.object_id() != table_id
+                    && relation
+                        .schema()
+                        .get_foreign_keys()
+                        .iter()
+                        .any(|(_, info)| info.referenced_table() == table_id)
+            })
+            .collect())
+    }
+
+    fn execute_drop_table(&mut self, stmt: &BoundDropTable) -> RuntimeResult<DdlResult> {
+        let not_found =
+            || RuntimeError::Schema(SchemaError::NotFound(DatabaseItem::Table(stmt.table_name.clone())));
+
+        let relation = match stmt.table_id.map(|id| self.relation_for_change(id)) {
+            Some(Ok(relation)) if relation.is_table() => relation,
+            Some(Err(e)) if !matches!(e, RuntimeError::Catalog(CatalogError::TableNotFound(_))) => {
+                return Err(e);
+            }
+            Some(Ok(_)) => return Err(not_found()),
+            _ if stmt.if_exists => return Ok(DdlResult::NoOp),
+            _ => return Err(not_found()),
+        };
+
+        // The other tables cannot refer to this one anymore.
+        let table_id = relation.object_id();
+        for mut referencing in self.referencing_tables(table_id)? {
+            if !stmt.cascade {
+                return Err(RuntimeError::Other(format!(
+                    "table {} is referenced by table {}",
+                    relation.name(),
+                    referencing.name()
+                )));
+            }
+            referencing.schema_mut().retain_constraints(|constraint| {
+                !matches!(
+                    constraint,
+                    TableConstraint::ForeignKey { info, .. } if info.referenced_table() == table_id
+                )
+            });
+            self.alter_relation(&mut referencing, false)?;
+        }
 
-        let undo_bytes = undo_instr.to_bytes()?;
-        let redo_instr = undo_instr.inverse(id);
-        let redo_bytes = redo_instr.to_bytes()?;
-        self.logger.log_drop(id, redo_bytes, undo_bytes)?;
+        self.drop_relation(&relation)?;
 
-        Ok(DdlResult::TableDropped { name: table_name })
+        Ok(DdlResult::TableDropped {
+            name: relation.name().to_string(),
+        })
     }
 
-    fn execute_create_index(&mut self, instr: &CreateIndexInstr) -> RuntimeResult<DdlResult> {
-        if self.relation_exists(&instr.index_name) {
-            if instr.if_not_exists {
+    fn execute_create_index(&mut self, stmt: &BoundCreateIndex) -> RuntimeResult<DdlResult> {
+        if self.relation_exists(&stmt.index_name) {
+            if stmt.if_not_exists {
                 return Ok(DdlResult::NoOp);
             }
             return Err(RuntimeError::AlreadyExists(DatabaseItem::Index(
-                instr.index_name.clone(),
+                stmt.index_name.clone(),
             )));
         }
 
-        if instr.columns.is_empty() {
+        if stmt.columns.is_empty() {
             return Err(RuntimeError::Other(
                 "Index must have at least one column".to_string(),
             ));
         }
 
-        let index_id =
-            self.create_unique_index(instr.table_id, &instr.index_name, &instr.columns)?;
-
-        println!("INdice creado con id {index_id}");
-
-        let redo_bytes = instr.to_bytes()?;
-        let undo_instr = instr.inverse(index_id);
-        let undo_bytes = undo_instr.to_bytes()?;
-
-        self.logger.log_create(index_id, redo_bytes, undo_bytes)?;
+        let mut relation = self.relation_for_change(stmt.table_id)?;
+        let index_id = self.create_unique_index(&mut relation, &stmt.index_name, &stmt.columns)?;
+        self.alter_relation(&mut relation, false)?;
 
         Ok(DdlResult::IndexCreated {
-            name: instr.index_name.clone(),
+            name: stmt.index_name.clone(),
             object_id: index_id,
         })
     }
 
-    fn execute_drop_index(&mut self, instr: &DropIndexInstr) -> RuntimeResult<DdlResult> {
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        let relation =
-            match self
-                .ctx
-                .catalog()
-                .get_relation(instr.index_id, &tree_builder, &snapshot)
-            {
-                Ok(rel) => rel,
-                Err(_) => {
-                    if instr.if_exists {
-                        return Ok(DdlResult::NoOp);
-                    }
-                    return Err(RuntimeError::Schema(SchemaError::NotFound(
-                        DatabaseItem::Index(instr.index_name.clone()),
-                    )));
-                }
-            };
+    fn execute_alter_table(&mut self, stmt: &BoundAlterTable) -> RuntimeResult<DdlResult> {
+        let mut relation = self.relation_for_change(stmt.table_id)?;
+        if !relation.is_table() {
+            return Err(RuntimeError::Catalog(CatalogError::TableNotFound(
+                stmt.table_id,
+            )));
+        }
 
-        let index_name = relation.name().to_string();
+        let action = match &stmt.action {
+            BoundAlterAction::AddColumn(definition) => {
+                let column = self.build_column(definition)?;
+                let action = format!("ADD COLUMN {}", column.name());
+                self.add_column(&mut relation, column)?;
+                action
+            }
+            BoundAlterAction::DropColumn(column_idx) => {
+                let name = Self::column(&relation, *column_idx)?.name().to_string();
+                self.drop_column(&mut relation, *column_idx)?;
+                format!("DROP COLUMN {}", name)
+            }
+            BoundAlterAction::AlterColumn {
+                column_idx,
+                action_type,
+            } => {
+                let name = Self::column(&relation, *column_idx)?.name().to_string();
+                self.alter_column(&mut relation, *column_idx, action_type)?;
+                format!("ALTER COLUMN {}", name)
+            }
+            BoundAlterAction::AddConstraint(constraint) => {
+                let action =
+                    self.add_constraint(&mut relation, &TableConstraint::from(constraint))?;
+                self.alter_relation(&mut relation, false)?;
+                action
+            }
+        };
 
-        self.ctx
-            .catalog()
-            .remove_relation(relation, &tree_builder, &snapshot, false)?;
+        Ok(DdlResult::TableAltered {
+            name: relation.name().to_string(),
+            action,
+        })
+    }
 
-        Ok(DdlResult::IndexDropped { name: index_name })
+    fn column(relation: &Relation, column_idx: usize) -> RuntimeResult<&Column> {
+        let column = relation
+            .schema()
+            .column(column_idx)
+            .ok_or(SchemaError::ColumnIndexOutOfBounds(column_idx))?;
+        Ok(column)
     }
 
-    fn execute_alter_table(&mut self, instr: &AlterTableInstr) -> RuntimeResult<DdlResult> {
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
+    fn add_column(&mut self, relation: &mut Relation, column: Column) -> RuntimeResult<()> {
+        let rows = self.rows(relation)?;
+        let value = column.default_value()?;
+        relation.add_column(column)?;
 
-        let mut relation =
-            self.ctx
-                .catalog()
-                .get_relation(instr.table_id, &tree_builder, &snapshot)?;
+        let rows = rows
+            .into_iter()
+            .map(|row| {
+                let mut values = row.into_inner().into_vec();
+                values.push(value.clone());
+                Row::from(values)
+            })
+            .collect();
+        self.replace_rows(relation, rows, Vec::new())
+    }
 
-        if !relation.is_table() {
-            return Err(RuntimeError::Catalog(CatalogError::TableNotFound(
-                instr.table_id,
-            )));
+    fn drop_column(&mut self, relation: &mut Relation, column_idx: usize) -> RuntimeResult<()> {
+        if column_idx < relation.schema().num_keys() {
+            return Err(RuntimeError::CannotUpdateKeyColumn);
+        }
+        if relation.schema().num_values() == 1 {
+            return Err(RuntimeError::Other(
+                "cannot drop the only column of a table".to_string(),
+            ));
         }
 
-        let undo_instr = instr.try_inverse_with(relation.schema())?;
-        let action_desc = self.apply_alter_action(&mut relation, &instr.action)?;
-
-        let id = relation.object_id();
-        self.ctx.catalog().update_relation(
-            id,
-            None,
-            Some(relation.into_schema()),
-            None,
-            &tree_builder,
-            self.ctx.snapshot(),
-        )?;
+        // The identifiers of the columns that follow this one are going to change.
+        let table_id = relation.object_id();
+        for mut referencing in self.referencing_tables(table_id)? {
+            referencing
+                .schema_mut()
+                .forget_referenced_column(table_id, column_idx)?;
+            self.alter_relation(&mut referencing, false)?;
+        }
 
-        let redo_bytes = instr.to_bytes()?;
-        let undo_bytes = undo_instr.to_bytes()?;
+        let rows = self.rows(relation)?;
 
-        self.logger
-            .log_alter(instr.table_id, redo_bytes, undo_bytes)?;
+        // The indexes of the column go with it.
+        for index in relation.get_indexes() {
+            if index.indexed_column_ids().contains(&column_idx) {
+                let index = self.relation_for_change(index.id())?;
+                self.drop_relation(&index)?;
+            }
+        }
+        relation.schema_mut().drop_column(table_id, column_idx)?;
 
-        Ok(DdlResult::TableAltered {
-            name: instr.table_name.clone(),
-            action: action_desc,
-        })
+        let rows = rows
+            .into_iter()
+            .map(|row| {
+                let mut values = row.into_inner().into_vec();
+                values.remove(column_idx);
+                Row::from(values)
+            })
+            .collect();
+        self.replace_rows(relation, rows, Vec::new())
     }
 
-    fn apply_alter_action(
+    fn alter_column(
         &mut self,
         relation: &mut Relation,
-        action: &AlterActionInstr,
-    ) -> RuntimeResult<String> {
+        column_idx: usize,
+        action: &BoundAlterColumnAction,
+    ) -> RuntimeResult<()> {
+        if column_idx < relation.schema().num_keys() {
+            return Err(RuntimeError::CannotUpdateKeyColumn);
+        }
+        let mut column = Self::column(relation, column_idx)?.clone();
+
         match action {
-            AlterActionInstr::AddColumn { column } => {
-                let name = column.name().to_string();
-                relation.add_column(column.clone())?;
-                Ok(format!("ADD COLUMN {}", name))
+            BoundAlterColumnAction::SetDefault(default) => {
+                column = Self::set_default(column, default)?;
             }
-            AlterActionInstr::DropColumn { column_idx } => {
-                let schema = relation.schema_mut();
-                if *column_idx < schema.num_keys() {
-                    return Err(RuntimeError::CannotUpdateKeyColumn);
-                }
-
-                let name = schema
-                    .column(*column_idx)
-                    .ok_or(SchemaError::ColumnIndexOutOfBounds(*column_idx))?
-                    .name()
-                    .to_string();
-                schema.remove_column_unchecked(*column_idx);
-                Ok(format!("DROP COLUMN {}", name))
+            BoundAlterColumnAction::DropDefault => {
+                column.default = None;
             }
-            AlterActionInstr::AlterColumn { column_idx, action } => {
-                self.apply_column_alter(relation, *column_idx, action)
+            BoundAlterColumnAction::SetNotNull => {
+                column.is_non_null = true;
+                self.check_not_null(relation, column_idx)?;
             }
-            AlterActionInstr::AddConstraint(constraint) => {
-                self.add_constraint(relation, constraint)
+            BoundAlterColumnAction::DropNotNull => {
+                if relation.schema().is_in_primary_key(column_idx) {
+                    return Err(RuntimeError::Schema(SchemaError::ConstraintViolation(
+                        format!("column {} is part of the primary key", column.name()),
+                    )));
+                }
+                column.is_non_null = false;
+            }
+            BoundAlterColumnAction::SetDataType(new_type) => {
+                return self.set_column_type(relation, column_idx, *new_type);
             }
         }
+
+        relation.schema_mut().columns[column_idx] = column;
+        self.alter_relation(relation, false)
     }
 
-    fn apply_column_alter(
-        &self,
+    fn set_column_type(
+        &mut self,
         relation: &mut Relation,
         column_idx: usize,
-        action: &AlterColumnActionInstr,
-    ) -> RuntimeResult<String> {
-        let schema = relation.schema_mut();
-        let column = schema
-            .columns
-            .get_mut(column_idx)
-            .ok_or(SchemaError::ColumnIndexOutOfBounds(column_idx))?;
+        new_type: DataTypeKind,
+    ) -> RuntimeResult<()> {
+        let mut rows = self.rows(relation)?;
+        for row in &mut rows {
+            row[column_idx] = row[column_idx].try_cast(new_type)?;
+        }
 
-        let column_name = column.name().to_string();
+        let column = Self::column(relation, column_idx)?;
+        let default = column.default_value()?.try_cast(new_type)?;
+        let mut new_column =
+            Column::new_with_defaults(new_type, column.name()).with_default(default)?;
+        new_column.is_non_null = column.is_non_null;
+        relation.schema_mut().columns[column_idx] = new_column;
 
-        match action {
-            AlterColumnActionInstr::SetDefault { new_default, .. } => {
-                column.default = new_default.clone();
-            }
-            AlterColumnActionInstr::DropDefault { .. } => {
-                column.default = None;
+        let indexes = relation
+            .get_indexes()
+            .into_iter()
+            .filter(|index| index.indexed_column_ids().contains(&column_idx))
+            .collect();
+        self.replace_rows(relation, rows, indexes)
+    }
+
+    /// Gets the rows of a table, which nobody else can have changed.
+    fn rows(&self, relation: &Relation) -> RuntimeResult<Vec<Row>> {
+        let snapshot = self.ctx.snapshot();
+        let schema = relation.schema();
+        let mut tree = self.ctx.build_tree(relation.root());
+        if tree.is_empty()? {
+            return Ok(Vec::new());
+        }
+
+        let mut rows = Vec::new();
+        for position in tree.iter_forward()? {
+            let tuple = tree.with_cell_at(position?, Tuple::from_slice_unchecked)??;
+            if snapshot.conflicts_with(tuple.xmin(), tuple.xmax()) {
+                let id = LogicalId::new(relation.object_id(), rows.len() as u64);
+                return Err(TransactionError::WriteWriteConflict(self.ctx.tid(), id).into());
             }
-            AlterColumnActionInstr::SetNotNull { .. } => {
-                column.is_non_null = true;
+            if let Some(version) = tuple.as_tuple_ref(schema, snapshot) {
+                rows.push(version.to_row_with(schema)?);
             }
-            AlterColumnActionInstr::DropNotNull { .. } => {
-                column.is_non_null = false;
+        }
+        Ok(rows)
+    }
+
+    /// Moves a table, whose columns have changed, and some of its indexes to new trees.
+    /// The previous ones are still needed by the transactions that do not see the change.
+    fn replace_rows(
+        &mut self,
+        relation: &mut Relation,
+        rows: Vec<Row>,
+        indexes: Vec<IndexHandle>,
+    ) -> RuntimeResult<()> {
+        let root = self.new_root()?;
+        relation.set_root_page(root);
+
+        for (idx, column) in relation.schema().iter_columns().enumerate() {
+            if column.is_non_null && rows.iter().any(|row| row[idx].is_null()) {
+                return Err(Self::not_null_violation(relation, idx));
             }
-            AlterColumnActionInstr::SetDataType { new_type, .. } => {
-                column.dtype = *new_type;
+        }
+
+        let mut new_indexes = Vec::with_capacity(indexes.len());
+        for handle in indexes {
+            let index = self.relation_for_change(handle.id())?;
+            let columns = Self::index_columns(relation, handle.indexed_column_ids())?;
+            let mut index = Relation::index(
+                index.object_id(),
+                index.name(),
+                self.new_root()?,
+                columns,
+                handle.indexed_column_ids().len() + 1,
+            );
+            self.alter_relation(&mut index, true)?;
+            new_indexes.push((handle, index));
+        }
+        self.alter_relation(relation, true)?;
+
+        let schema = relation.schema();
+        let mut tree = self.ctx.build_tree_mut(root);
+        for row in &rows {
+            let tuple = TupleBuilder::from_schema(schema).build(row, self.ctx.tid())?;
+            if let Some(DataType::BigUInt(row_id)) = row.first() {
+                self.logger
+                    .log_insert(relation.object_id(), row_id.value(), Box::from(&tuple))?;
             }
+            tree.insert(root, tuple, schema)?;
+        }
+        drop(tree);
+
+        for (handle, index) in &new_indexes {
+            self.populate_index(&rows, relation, handle, index.root(), index.schema())?;
         }
+        Ok(())
+    }
 
-        Ok(format!("ALTER COLUMN {}", column_name))
+    fn not_null_violation(relation: &Relation, column_idx: usize) -> RuntimeError {
+        let column = relation
+            .schema()
+            .column(column_idx)
+            .map_or(String::new(), |column| column.name().to_string());
+        RuntimeError::ValidationError(ValidationError::NonNullConstraintViolated(
+            DatabaseItem::Column(relation.name().to_string(), column),
+        ))
+    }
+
+    fn check_not_null(&self, relation: &Relation, column_idx: usize) -> RuntimeResult<()> {
+        if self
+            .rows(relation)?
+            .iter()
+            .any(|row| row[column_idx].is_null())
+        {
+            return Err(Self::not_null_violation(relation, column_idx));
+        }
+        Ok(())
     }
 
+    /// Adds a constraint to a relation, which has to be stored after this.
     fn add_constraint(
         &mut self,
         relation: &mut Relation,
         constraint: &TableConstraint,
     ) -> RuntimeResult<String> {
-        match constraint {
-            TableConstraint::PrimaryKey(col_indices) => {
-                if relation.schema().has_primary_key() {
-                    return Err(RuntimeError::Schema(SchemaError::DuplicatePrimaryKey));
-                }
+        relation.schema_mut().add_constraint(constraint.clone())?;
 
-                {
-                    let schema_mut = relation.schema_mut();
-                    if let Some(constraints) = schema_mut.table_constraints.as_mut() {
-                        constraints.push(TableConstraint::PrimaryKey(col_indices.clone()));
-                    }
-
-                    for index in col_indices {
-                        let col = schema_mut
-                            .column_mut(*index)
-                            .ok_or(SchemaError::ColumnIndexOutOfBounds(*index))?;
-                        col.is_non_null = true;
-                    }
-                }
+        let columns = match constraint {
+            TableConstraint::PrimaryKey(columns)
+            | TableConstraint::Unique(columns)
+            | TableConstraint::ForeignKey { columns, .. } => columns,
+        };
+        let mut col_names: Vec<String> = Vec::with_capacity(columns.len());
+        for column_idx in columns {
+            col_names.push(Self::column(relation, *column_idx)?.name().to_string());
+        }
 
-                let col_names: Vec<String> = col_indices
-                    .iter()
-                    .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
-                    .collect();
+        match constraint {
+            TableConstraint::PrimaryKey(columns) => {
+                for column_idx in columns {
+                    self.check_not_null(relation, *column_idx)?;
+                    relation.schema_mut().columns[*column_idx].is_non_null = true;
+                }
 
-                let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
+                let idx_name = self.free_index_name(&col_names, relation.name());
+                self.create_unique_index(relation, &idx_name, columns)?;
 
                 Ok(format!(
                     "ADDED PRIMARY KEY CONSTRAINT ON COLUMNS: {}",
                     col_names.join(", ")
                 ))
             }
-            TableConstraint::Unique(col_indices) => {
-                if let Some(constraints) = relation.schema_mut().table_constraints.as_mut() {
-                    constraints.push(TableConstraint::Unique(col_indices.clone()));
-                }
-
-                let col_names: Vec<String> = col_indices
-                    .iter()
-                    .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
-                    .collect();
-
-                let idx_name = index_name(&col_names, relation.name());
-                self.create_unique_index(relation.object_id(), &idx_name, col_indices)?;
+            TableConstraint::Unique(columns) => {
+                let idx_name = self.free_index_name(&col_names, relation.name());
+                self.create_unique_index(relation, &idx_name, columns)?;
 
                 Ok(format!(
                     "ADDED UNIQUE CONSTRAINT ON COLUMNS: {}",
                     col_names.join(", ")
                 ))
             }
-            TableConstraint::ForeignKey { columns, info } => {
-                if let Some(constraints) = relation.schema_mut().table_constraints.as_mut() {
-                    constraints.push(TableConstraint::ForeignKey {
-                        columns: columns.clone(),
-                        info: info.clone(),
-                    });
+            TableConstraint::ForeignKey { .. } => {
+                let target = Target::new(relation.clone(), &self.ctx)?;
+                let validator = ConstraintValidator::new(&target, &self.ctx);
+                for row in self.rows(relation)? {
+                    validator.validate_foreign_key_constraints(row.as_slice())?;
                 }
 
-                let table_name = relation.name().to_string();
-
-                let col_names: Vec<String> = columns
-                    .iter()
-                    .filter_map(|&idx| relation.schema().column(idx).map(|c| c.name().to_string()))
-                    .collect();
-
                 Ok(format!(
                     "ADDED FOREIGN KEY CONSTRAINT TO {}  ON {}",
-                    table_name,
+                    relation.name(),
                     col_names.join(", ")
                 ))
             }
         }
     }
 
+    /// Columns of an index. The row id goes last.
+    fn index_columns(relation: &Relation, column_ids: &[usize]) -> RuntimeResult<Vec<Column>> {
+        let mut columns: Vec<Column> = Vec::with_capacity(column_ids.len() + 1);
+        for idx in column_ids {
+            let column = Self::column(relation, *idx)?;
+            columns.push(Column::new_with_defaults(column.datatype(), column.name()));
+        }
+        columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
+        Ok(columns)
+    }
+
+    /// Creates an index of a relation, which has to be stored after this.
     fn create_unique_index(
         &mut self,
-        table_id: ObjectId,
+        relation: &mut Relation,
         index_name: &str,
         indexed_column_ids: &[usize],
     ) -> RuntimeResult<ObjectId> {
-        let num_keys = indexed_column_ids.len();
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        let mut table_relation =
-            self.ctx
-                .catalog()
-                .get_relation(table_id, &tree_builder, &snapshot)?;
-
-        let table_root = table_relation.root();
-
-        let mut index_columns: Vec<Column> = Vec::with_capacity(indexed_column_ids.len() + 1);
-
-        {
-            let table_schema = table_relation.schema();
-            for idx in indexed_column_ids {
-                if let Some(column) = table_schema.column(*idx) {
-                    index_columns.push(Column::new_with_defaults(column.datatype(), column.name()));
-                }
-            }
-        }
-
-        index_columns.push(Column::new_with_defaults(DataTypeKind::BigUInt, "row_id"));
+        let columns = Self::index_columns(relation, indexed_column_ids)?;
+        let num_keys = columns.len();
+        let rows = self.rows(relation)?;
 
         let object_id = self.ctx.catalog().get_next_object_id();
-        let root_page = self.ctx.pager().write().allocate_page::<BtreePage>()?;
+        let index = Relation::index(object_id, index_name, self.new_root()?, columns, num_keys);
+        self.create_relation(&index)?;
 
-        let index_relation =
-            Relation::index(object_id, index_name, root_page, index_columns, num_keys);
-
-        let index_root = index_relation.root();
-        let index_schema = index_relation.schema().clone();
-
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        self.ctx
-            .catalog()
-            .store_relation(index_relation, &tree_builder, snapshot.xid())?;
-
-        {
-            let table_schema = table_relation.schema_mut();
-
-            if let Some(constraints) = table_schema.table_constraints.as_mut() {
-                let already_exists = constraints.iter().any(
-                    |c| matches!(c, TableConstraint::Unique(cols) if cols == indexed_column_ids),
-                );
-                if !already_exists {
-                    constraints.push(TableConstraint::Unique(indexed_column_ids.to_vec()));
-                }
-            }
-
-            if let Some(indexes) = table_schema.table_indexes.as_mut() {
-                indexes.insert(object_id, indexed_column_ids.to_vec());
-            }
-        }
-
-        self.ctx.catalog().update_relation(
-            table_id,
-            None,
-            Some(table_relation.schema().clone()),
-            None,
-            &tree_builder,
-            &snapshot,
-        )?;
-
-        self.populate_index(
-            table_root,
-            table_relation.schema(),
-            index_root,
-            &index_schema,
-            indexed_column_ids,
-        )?;
+        let handle = IndexHandle::new(object_id, indexed_column_ids.to_vec());
+        self.populate_index(&rows, relation, &handle, index.root(), index.schema())?;
+        relation.schema_mut().add_index(handle)?;
 
         Ok(object_id)
     }
 
     fn populate_index(
         &mut self,
-        table_root: PageId,
-        table_schema: &Schema,
+        rows: &[Row],
+        table: &Relation,
+        handle: &IndexHandle,
         index_root: PageId,
         index_schema: &Schema,
-        indexed_column_ids: &[usize],
     ) -> RuntimeResult<()> {
-        let snapshot = self.ctx.snapshot();
-        let tid = snapshot.xid();
-
-        let mut index_entries: Vec<Row> = Vec::new();
+        let tid = self.ctx.tid();
+        let num_columns = handle.indexed_column_ids().len();
 
         {
-            let mut table_btree = self.ctx.build_tree(table_root);
-
-            if table_btree.is_empty()? {
-                return Ok(());
-            }
-
-            let positions: Vec<crate::tree::accessor::BtreePagePosition> = table_btree
-                .iter_forward()?
-                .filter(|p| p.is_ok())
-                .map(|f| f.unwrap())
-                .collect();
-
-            for pos in positions {
-                let row = table_btree.get_row_at(pos, table_schema, &snapshot)?;
-
-                let Some(row) = row else { continue };
-
-                let row_id = row.first();
-                let Some(DataType::BigUInt(UInt64(value))) = row_id else {
-                    return Err(RuntimeError::Other(
-                        "Tables should have row id type for the first column!".to_string(),
-                    ));
-                };
-
-                let mut entry_values: Vec<DataType> =
-                    Vec::with_capacity(indexed_column_ids.len() + 1);
-                for &col_idx in indexed_column_ids {
-                    if col_idx < row.len() {
-                        entry_values.push(row[col_idx].clone());
-                    }
+            let mut index_btree = self.ctx.build_tree_mut(index_root);
+            for row in rows {
+                if let Some(entry) = handle.entry(row.as_slice()) {
+                    let tuple = TupleBuilder::from_schema(index_schema).build(&entry, tid)?;
+                    index_btree.insert(index_root, tuple, index_schema)?;
                 }
-                entry_values.push(DataType::BigUInt(UInt64(*value)));
-
-                index_entries.push(Row::new(entry_values.into_boxed_slice()));
             }
         }
 
-        let mut index_btree = self.ctx.build_tree_mut(index_root);
-        for entry in index_entries {
-            let tuple = TupleBuilder::from_schema(index_schema).build(&entry, tid)?;
-            index_btree.insert(index_root, tuple, index_schema)?;
+        // Equal entries are together
+        let mut index_btree = self.ctx.build_tree(index_root);
+        if index_btree.is_empty()? {
+            return Ok(());
+        }
+        let mut previous: Option<Row> = None;
+        for position in index_btree.iter_forward()? {
+            let entry = index_btree
+                .get_tuple_at_unchecked(position?, index_schema)?
+                .as_tuple_ref_with(index_schema)
+                .to_row_with(index_schema)?;
+            if previous.is_some_and(|previous| {
+                previous.as_slice()[..num_columns] == entry.as_slice()[..num_columns]
+            }) {
+                let names: Vec<&str> = handle
+                    .indexed_column_ids()
+                    .iter()
+                    .filter_map(|idx| table.schema().column(*idx).map(|column| column.name()))
+                    .collect();
+                return Err(RuntimeError::ValidationError(
+                    ValidationError::UniqueConstraintViolated(DatabaseItem::Column(
+                        table.name().to_string(),
+                        names.join(","),
+                    )),
+                ));
+            }
+            previous = Some(entry);
         }
-
         Ok(())
     }
 
+    /// Name for the index of a constraint.
+    fn free_index_name(&self, col_names: &[String], table_name: &str) -> String {
+        let name = index_name(col_names, table_name);
+        let mut free_name = name.clone();
+        let mut count = 1;
+        while self.relation_exists(&free_name) {
+            free_name = format!("{name}_{count}");
+            count += 1;
+        }
+        free_name
+    }
+
     fn relation_exists(&self, name: &str) -> bool {
         let snapshot = self.ctx.snapshot();
         let tree_builder = self.ctx.tree_builder();
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 34e9be1..ddfb394 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -3,13 +3,17 @@
 //! This module provides a unified interface for Insert, Update, and Delete operations
 //! on individual rows, including automatic maintenance of secondary indexes.
 
-use std::collections::{HashMap, HashSet};
+use std::{
+    collections::{BTreeMap, HashMap},
+    sync::Arc,
+};
 
 use crate::{
     core::SerializableType,
+    multithreading::coordinator::TransactionError,
     runtime::{
         RuntimeError, RuntimeResult, TypeSystemError,
-        context::{ThreadContext, TransactionLogger},
+        context::{ThreadContext, TransactionLogger, UndoAction},
         eval::ExpressionEvaluator,
         validator::ConstraintValidator,
     },
@@ -18,9 +22,9 @@ use crate::{
         base::{IndexHandle, Relation},
     },
     sql::binder::bounds::BoundExpression,
-    storage::tuple::{Row, Tuple, TupleBuilder, TupleReader},
+    storage::tuple::{Row, Tuple, TupleBuilder},
     tree::bplustree::SearchResult,
-    types::{DataType, ObjectId, RowId, UInt64},
+    types::{DataType, LogicalId, ObjectId, PageId, RowId, TransactionId, UInt64},
 };
 
 /// Result of an insert operation.
@@ -41,100 +45,88 @@ pub struct DeleteResult {
     pub deleted: bool,
 }
 
+/// An index of the table that is being modified.
+#[derive(Clone)]
+pub(crate) struct TargetIndex {
+    pub(crate) handle: IndexHandle,
+    pub(crate) root: PageId,
+    pub(crate) schema: Arc<Schema>,
+}
+
+/// The table that is being modified.
+#[derive(Clone)]
+pub(crate) struct Target {
+    pub(crate) relation: Relation,
+    pub(crate) schema: Arc<Schema>,
+    pub(crate) indexes: Vec<TargetIndex>,
+}
+
+impl Target {
+    pub(crate) fn new(relation: Relation, ctx: &ThreadContext) -> RuntimeResult<Self> {
+        let tree_builder = ctx.tree_builder();
+        let mut indexes = Vec::new();
+        for handle in relation.get_indexes() {
+            let index =
+                ctx.catalog()
+                    .get_relation(handle.id(), &tree_builder, ctx.snapshot())?;
+            indexes.push(TargetIndex {
+                handle,
+                root: index.root(),
+                schema: Arc::new(index.into_schema()),
+            });
+        }
+        // Always report the same violation when there are many.
+        indexes.sort_by_key(|index| index.handle.id());
+
+        Ok(Self {
+            schema: Arc::new(relation.schema().clone()),
+            relation,
+            indexes,
+        })
+    }
+}
+
 /// Executes single-row DML operations with automatic index maintenance.
 ///
 /// This component provides a clean interface for Insert, Update, and Delete
-/// operations.
+/// operations. Once all the rows have been processed, [DmlExecutor::finish] has to be called.
 pub(crate) struct DmlExecutor {
     ctx: ThreadContext,
     logger: TransactionLogger,
+    target: Option<Target>,
+    /// Rows that have been updated, whose constraints are checked when all of them are in place.
+    updated: BTreeMap<RowId, Row>,
 }
 
 impl DmlExecutor {
     /// Creates a new DML executor with the given transaction context.
     pub(crate) fn new(ctx: ThreadContext, logger: TransactionLogger) -> Self {
-        Self { ctx, logger }
-    }
-
-    /// UTILITY TO BUILD THE ASSIGNMENTS HASHMAP
-    fn build_assignments(
-        old_row: &Row,
-        new_row: &Row,
-        num_keys: usize,
-    ) -> HashMap<usize, DataType> {
-        let mut assignments = HashMap::new();
-
-        for idx in num_keys..old_row.len().min(new_row.len()) {
-            if old_row[idx] != new_row[idx] {
-                assignments.insert(idx - num_keys, new_row[idx].clone());
-            }
+        Self {
+            ctx,
+            logger,
+            target: None,
+            updated: BTreeMap::new(),
         }
-
-        assignments
     }
 
-    /// Validates constraints for an update operation.
-    ///
-    /// This function checks:
-    /// - NOT NULL constraints on updated columns
-    /// - UNIQUE constraints (excluding the current row) via index lookup
-    pub fn validate_update_constraints(
-        &self,
-        relation: &Relation,
-        old_values: &[DataType],
-        assignments: &HashMap<usize, DataType>,
-        row_id: RowId,
-    ) -> RuntimeResult<()> {
-        let schema = relation.schema();
-        let id = relation.object_id();
-
-        // Build the new values array by applying assignments to old values
-        let mut new_values: Vec<DataType> = old_values.to_vec();
-        for (value_idx, value) in assignments {
-            // value_idx is relative to values (after keys), convert to column index
-            let col_idx = value_idx + schema.num_keys();
-            if col_idx < new_values.len() {
-                new_values[col_idx] = value.clone();
-            }
+    /// Gets the table, after checking that it can be modified.
+    fn target(&mut self, table_id: ObjectId) -> RuntimeResult<Target> {
+        if let Some(target) = &self.target
+            && target.relation.object_id() == table_id
+        {
+            return Ok(target.clone());
         }
 
-        let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
-
-        // Validate NOT NULL
-        validator.validate_not_null_constraints(&new_values)?;
-
-        // Validate foreign keys.
-        validator.validate_foreign_key_constraints(id, &new_values)?;
-        let mut excluded = HashSet::new();
-        excluded.insert(row_id);
-
-        // Validate UNIQUE
-        validator.validate_unique_constraints(&new_values, true, excluded)?;
-
-        Ok(())
-    }
-
-    pub(crate) fn validate_insert_constraints(
-        &self,
-        relation: &Relation,
-        new_values: &[DataType],
-    ) -> RuntimeResult<()> {
-        let schema = relation.schema();
-        let id = relation.object_id();
-        let table_name = relation.name().to_string();
-        let validator = ConstraintValidator::new(schema, table_name, self.ctx.clone());
-
-        // Validate NOT NULL
-        validator.validate_not_null_constraints(&new_values)?;
-
-        // Validate foreign keys.
-        validator.validate_foreign_key_constraints(id, &new_values)?;
-
-        // Validate UNIQUE
-        validator.validate_unique_constraints(&new_values, true, HashSet::new())?;
-
-        Ok(())
+        let tree_builder = self.ctx.tree_builder();
+        let snapshot = self.ctx.snapshot();
+        let catalog = self.ctx.catalog();
+        let relation = catalog.get_relation(table_id, &tree_builder, snapshot)?;
+        catalog.ensure_current(table_id, &tree_builder, snapshot)?;
+        catalog.note_write(self.ctx.tid(), table_id);
+
+        let target = Target::new(relation, &self.ctx)?;
+        self.target = Some(target.clone());
+        Ok(target)
     }
 
     /// Inserts a new row into the specified table.
@@ -152,76 +144,50 @@ impl DmlExecutor {
         columns: &[usize],
         values: &Row,
     ) -> RuntimeResult<InsertResult> {
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot().clone();
+        let target = self.target(table_id)?;
         let tid = self.ctx.tid();
+        let schema = &target.schema;
+        let root = target.relation.root();
 
-        // Get the relation and allocate a new row ID
-        let mut relation = self
+        let row_id = self
             .ctx
             .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
-
-        let row_id = relation.next_row_id();
-        relation.increment_row_id();
-
-        let schema = relation.schema().clone();
-        let root = relation.root();
+            .next_row_id(&target.relation, &self.ctx.tree_builder())?;
 
         // Build the full row with the assigned row ID
-        let full_row = self.build_full_row(&schema, columns, values, row_id)?;
+        let full_row = self.build_full_row(schema, columns, values, row_id)?;
 
         // Constraint validation goes here.
-        self.validate_insert_constraints(&relation, full_row.as_slice())?;
-        let indexes = relation.get_indexes();
+        let validator = ConstraintValidator::new(&target, &self.ctx);
+        validator.validate_not_null_constraints(full_row.as_slice())?;
+        validator.validate_foreign_key_constraints(full_row.as_slice())?;
+        validator.validate_unique_constraints(full_row.as_slice())?;
 
         // Create and insert the tuple
-        let tuple = TupleBuilder::from_schema(&schema).build(&full_row, tid)?;
+        let tuple = TupleBuilder::from_schema(schema).build(&full_row, tid)?;
 
         // Log the insert operation
         self.logger
             .log_insert(table_id, row_id.value(), Box::from(&tuple))?;
 
-        // Table access scope
-        {
-            // Insert into main table
-            let mut btree = self.ctx.build_tree_mut(root);
-            let search_result = btree.search_tuple(&tuple, &schema)?;
+        // When it is taken back a dead row stays there until it is vacuumed.
+        let mut dead = tuple.clone();
+        dead.delete(tid)?;
+        self.logger.push_undo(UndoAction::Restore {
+            root,
+            schema: Arc::clone(schema),
+            tuple: dead,
+            is_row_update: false,
+        });
+        self.ctx.build_tree_mut(root).insert(root, tuple, schema)?;
 
-            if let SearchResult::Found(position) = search_result {
-                let existing = btree.get_tuple_at_unchecked(position, &schema)?;
-
-                // If it is deleted we need to un-delete it
-                if existing.is_deleted() {
-                    btree.update(root, tuple, &schema)?;
-                };
-
-                // Otherwise there is nothing to do. Just keep the tuple there.
-            } else {
-                btree.insert(root, tuple, &schema)?;
+        // Maintain secondary indexes
+        for index in &target.indexes {
+            if let Some(entry) = index.handle.entry(full_row.as_slice()) {
+                self.add_index_entry(index, &entry)?;
             }
         }
 
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            None,
-            Some(full_row),
-            None,
-            &schema,
-            row_id.value(),
-        )?;
-
-        // Update relation metadata
-        self.ctx.catalog().update_relation(
-            relation.object_id(),
-            Some(relation.next_row_id().value()),
-            None,
-            None,
-            &tree_builder,
-            &snapshot,
-        )?;
-
         Ok(InsertResult {
             row_id: row_id.value(),
         })
@@ -235,16 +201,34 @@ impl DmlExecutor {
         &self.logger
     }
 
-    /// Synthactic sugar for the update function
-    pub fn update_row(
-        &mut self,
-        table_id: ObjectId,
+    /// Reads the current contents of a row, if it is visible.
+    /// It fails if another transaction has changed it.
+    fn read_for_change(
+        &self,
+        target: &Target,
         row_id: &UInt64,
-        old_row: &Row,
-        new_row: &Row,
-    ) -> RuntimeResult<UpdateResult> {
-        let assignments = Self::build_assignments(old_row, new_row, 1);
-        self.update(table_id, row_id, assignments)
+    ) -> RuntimeResult<Option<(Tuple, Row)>> {
+        let schema = &target.schema;
+        let snapshot = self.ctx.snapshot();
+        let row_id_bytes = row_id.serialize()?;
+
+        let mut btree = self.ctx.build_tree(target.relation.root());
+        let position = match btree.search(&row_id_bytes, schema)? {
+            SearchResult::Found(pos) => pos,
+            SearchResult::NotFound(_) => return Ok(None),
+        };
+        let tuple = btree.get_tuple_at_unchecked(position, schema)?;
+
+        if snapshot.conflicts_with(tuple.xmin(), tuple.xmax()) {
+            let id = LogicalId::new(target.relation.object_id(), row_id.value());
+            return Err(TransactionError::WriteWriteConflict(self.ctx.tid(), id).into());
+        }
+
+        let row = match tuple.as_tuple_ref(schema, snapshot) {
+            Some(version) => version.to_row_with(schema)?,
+            None => return Ok(None),
+        };
+        Ok(Some((tuple, row)))
     }
 
     /// Updates a row identified by its row ID.
@@ -262,85 +246,73 @@ impl DmlExecutor {
         row_id: &UInt64,
         assignments: HashMap<usize, DataType>,
     ) -> RuntimeResult<UpdateResult> {
-        let row_id_bytes = row_id.serialize()?;
-        let tid = self.ctx.tid();
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
-
-        // Get relation and schema
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
-
-        let schema = relation.schema().clone();
-        let root = relation.root();
-
-        // Search for the tuple
-        let mut btree = self.ctx.build_tree_mut(root);
-        let position = match btree.search(&row_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(UpdateResult { updated: false }),
-        };
+        let target = self.target(table_id)?;
+        let schema = &target.schema;
+        let root = target.relation.root();
 
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = btree.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
-
-        let Some(tuple) = existing_tuple else {
+        let Some((tuple, old_row)) = self.read_for_change(&target, row_id)? else {
             return Ok(UpdateResult { updated: false });
         };
 
-        // Get the old row for index maintenance
-        let old_row = btree
-            .get_row_at(position, &schema, &snapshot)?
-            .expect("Tuple should exist");
-
-        // Constraint validation goes here.
-        self.validate_update_constraints(
-            &relation,
-            old_row.as_slice(),
-            &assignments,
-            row_id.value(),
-        )?;
-
         // Apply the update
         let mut updated_tuple = tuple.clone();
-        updated_tuple.add_version_with(&assignments, tuple.xmin(), &schema)?;
+        updated_tuple.add_version_with(&assignments, self.ctx.tid(), schema)?;
 
-        // Get the new row for index maintenance
-        let new_row = updated_tuple
-            .as_tuple_ref(&schema, &snapshot)
-            .expect("Updated tuple should be visible")
-            .to_row_with(&schema)?;
+        let new_row = updated_tuple.as_tuple_ref_with(schema).to_row_with(schema)?;
+        ConstraintValidator::new(&target, &self.ctx)
+            .validate_not_null_constraints(new_row.as_slice())?;
 
-        // Log the update
+        // Log the update. The old versions are not needed after a crash.
+        let mut image = updated_tuple.clone();
+        image.vaccum_with(TransactionId::MAX, schema)?;
         self.logger.log_update(
             table_id,
             row_id.value(),
-            Box::from(&tuple),
-            Box::from(&updated_tuple),
+            Box::default(),
+            Box::from(&image),
         )?;
 
         // Update the main table
-        btree.update(root, updated_tuple, &schema)?;
-
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            Some(new_row),
-            Some(assignments),
-            &schema,
-            row_id.value(),
-        )?;
+        self.logger.push_undo(UndoAction::Restore {
+            root,
+            schema: Arc::clone(schema),
+            tuple,
+            is_row_update: true,
+        });
+        self.ctx
+            .build_tree_mut(root)
+            .update(root, updated_tuple, schema)?;
+
+        // Maintain secondary indexes. The previous entries are still needed by the old versions.
+        for index in &target.indexes {
+            let old_entry = index.handle.entry(old_row.as_slice());
+            let new_entry = index.handle.entry(new_row.as_slice());
+            if let Some(entry) = new_entry
+                && old_entry.is_none_or(|old| old.as_slice() != entry.as_slice())
+            {
+                self.add_index_entry(index, &entry)?;
+            }
+        }
 
+        self.updated.insert(row_id.value(), new_row);
         Ok(UpdateResult { updated: true })
     }
 
+    /// Checks the constraints of the rows that have been updated.
+    ///
+    /// This has to wait for the whole statement, because the intermediate states do not matter.
+    pub(crate) fn finish(&mut self) -> RuntimeResult<()> {
+        let Some(target) = self.target.take() else {
+            return Ok(());
+        };
+        let validator = ConstraintValidator::new(&target, &self.ctx);
+        for row in std::mem::take(&mut self.updated).values() {
+            validator.validate_foreign_key_constraints(row.as_slice())?;
+            validator.validate_unique_constraints(row.as_slice())?;
+        }
+        Ok(())
+    }
+
     /// Deletes a row identified by its row ID.
     ///
     /// # Arguments
@@ -350,65 +322,53 @@ impl DmlExecutor {
     /// # Returns
     /// Whether the delete was successful.
     pub fn delete(&mut self, table_id: ObjectId, row_id: &UInt64) -> RuntimeResult<DeleteResult> {
-        let row_id_bytes = row_id.serialize()?;
-        let snapshot = self.ctx.snapshot();
-        let tree_builder = self.ctx.tree_builder();
+        let target = self.target(table_id)?;
+        let schema = &target.schema;
+        let root = target.relation.root();
 
-        // Get relation and schema
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
-        let schema = relation.schema().clone();
-        let root = relation.root();
-
-        // Search for the tuple
-        let mut btree = self.ctx.build_tree_mut(root);
-        let position = match btree.search(&row_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(DeleteResult { deleted: false }),
-        };
-
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = btree.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
-
-        let Some(tuple) = existing_tuple else {
+        let Some((tuple, _)) = self.read_for_change(&target, row_id)? else {
             return Ok(DeleteResult { deleted: false });
         };
 
-        // Get the row for index maintenance
-        let old_row = btree
-            .get_row_at(position, &schema, &snapshot)?
-            .expect("Tuple should exist");
-
         // Mark as deleted
         let mut deleted_tuple = tuple.clone();
-        deleted_tuple.delete(snapshot.xid())?;
+        deleted_tuple.delete(self.ctx.tid())?;
 
         // Log the delete
         self.logger
-            .log_delete(table_id, row_id.value(), Box::from(&tuple))?;
-
-        // Update the main table
-        btree.update(root, deleted_tuple, &schema)?;
-
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            None,
-            None,
-            &schema,
-            row_id.value(),
-        )?;
+            .log_delete(table_id, row_id.value(), Box::default())?;
+
+        // Update the main table. The index entries are still needed by the old versions.
+        self.logger.push_undo(UndoAction::Restore {
+            root,
+            schema: Arc::clone(schema),
+            tuple,
+            is_row_update: false,
+        });
+        self.ctx
+            .build_tree_mut(root)
+            .update(root, deleted_tuple, schema)?;
 
         Ok(DeleteResult { deleted: true })
     }
 
+    /// Adds an entry to an index, unless an old version of the row already needed it.
+    fn add_index_entry(&self, index: &TargetIndex, entry: &Row) -> RuntimeResult<()> {
+        let schema = &index.schema;
+        let tuple = TupleBuilder::from_schema(schema).build(entry, self.ctx.tid())?;
+
+        let mut btree = self.ctx.build_tree_mut(index.root);
+        if let SearchResult::NotFound(_) = btree.search_tuple(&tuple, schema)? {
+            self.logger.push_undo(UndoAction::Remove {
+                root: index.root,
+                schema: Arc::clone(schema),
+                tuple: tuple.clone(),
+            });
+            btree.insert(index.root, tuple, schema)?;
+        }
+        Ok(())
+    }
+
     /// Builds a full row with default values, mapping input columns to schema positions.
     fn build_full_row(
         &self,
@@ -417,222 +377,28 @@ impl DmlExecutor {
         values: &Row,
         row_id: UInt64,
     ) -> RuntimeResult<Row> {
-        let num_cols = schema.num_columns();
-        let mut full_values: Vec<DataType> = vec![DataType::Null; num_cols];
-
-        // First column is always the row ID (primary key)
-        full_values[0] = DataType::BigUInt(row_id);
+        let mut full_values: Vec<DataType> = Vec::with_capacity(schema.num_columns());
+        for column in schema.iter_columns() {
+            full_values.push(column.default_value()?);
+        }
 
         // Map input columns to schema positions with type casting
         for (input_idx, &schema_col_idx) in columns.iter().enumerate() {
-            if input_idx < values.len() && schema_col_idx < num_cols {
-                let expected_type = schema
-                    .column(schema_col_idx)
-                    .ok_or(RuntimeError::ColumnNotFound(schema_col_idx))?
-                    .datatype();
-                let casted = values[input_idx].try_cast(expected_type)?;
-                full_values[schema_col_idx] = casted;
-            }
-        }
-
-        Ok(Row::new(full_values.into_boxed_slice()))
-    }
-
-    /// Builds an index entry row from table values.
-    fn build_index_entry(
-        values: &[DataType],
-        index: &IndexHandle,
-        index_schema: &Schema,
-        row_id: RowId,
-    ) -> RuntimeResult<Row> {
-        let mut entry: Vec<DataType> = Vec::with_capacity(index_schema.num_keys() + 1);
-
-        for col_idx in index.indexed_column_ids() {
+            let expected_type = schema
+                .column(schema_col_idx)
+                .ok_or(RuntimeError::ColumnNotFound(schema_col_idx))?
+                .datatype();
             let value = values
-                .get(*col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(*col_idx))?;
-            entry.push(value.clone());
+                .as_slice()
+                .get(input_idx)
+                .ok_or(RuntimeError::ColumnNotFound(input_idx))?;
+            full_values[schema_col_idx] = value.try_cast(expected_type)?;
         }
 
-        // Append row ID as the last column
-        entry.push(DataType::BigUInt(UInt64(row_id)));
-
-        Ok(Row::new(entry.into_boxed_slice()))
-    }
-
-    /// Maintains secondary indexes.
-    fn maintain_secondary_indexes(
-        &mut self,
-        indexes: &[IndexHandle],
-        old_values: Option<Row>,
-        new_values: Option<Row>,
-        table_assignments: Option<HashMap<usize, DataType>>,
-        table_schema: &Schema,
-        row_id: RowId,
-    ) -> RuntimeResult<()> {
-        let old_values = old_values.map(|r| r.into_inner());
-        let new_values = new_values.map(|r| r.into_inner());
-
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let tid = self.ctx.tid();
-
-        // Determine which columns were modified
-        let modified_columns: Option<HashSet<usize>> = table_assignments
-            .clone()
-            .map(|c| c.keys().copied().collect());
-
-        for index in indexes {
-            let index_relation =
-                self.ctx
-                    .catalog()
-                    .get_relation(index.id(), &tree_builder, &snapshot)?;
-            let index_schema = index_relation.schema();
-            let index_root = index_relation.root();
-
-            if let Some(modified) = modified_columns.as_ref() {
-                // Skip indexes not affected by this update
-                let index_affected = index
-                    .indexed_column_ids()
-                    .iter()
-                    .any(|col| modified.contains(col));
-
-                if !index_affected {
-                    continue;
-                }
-            }
-
-            let mut index_btree = self.ctx.build_tree_mut(index_root);
-
-            match (
-                old_values.as_ref(),
-                new_values.as_ref(),
-                table_assignments.as_ref(),
-            ) {
-                // Insert operation
-                (None, Some(values), None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let existing =
-                            index_btree.get_tuple_at_unchecked(position, &index_schema)?;
-
-                        // If it is deleted we need to un-delete it
-                        if existing.is_deleted() {
-                            index_btree.update(index_root, index_tuple, index_schema)?;
-                        };
-
-                        // Otherwise there is nothing to do. Just keep the tuple there.
-                    } else {
-                        index_btree.insert(index_root, index_tuple, index_schema)?;
-                    }
-                }
-                // New values was set to [None] which means we are on a delete operation. Then we need to perform the maintenance in a different way.
-                // Delete operation
-                (Some(values), None, None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(position, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.delete(self.ctx.tid())?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    };
-                } // Update operation
-                (Some(old_values), Some(new_values), Some(assignments)) => {
-                    // Build the old index key for searching
-                    let old_index_row =
-                        Self::build_index_entry(&old_values, index, index_schema, row_id)?;
-                    let old_index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&old_index_row, tid)?;
-
-                    // Build new assignments for the index
-                    let index_assignments = self.build_index_assignments(
-                        &old_values,
-                        &assignments,
-                        index,
-                        index_schema,
-                    )?;
-
-                    // Search and update the index entry
-                    let mut index_btree = self.ctx.build_tree_mut(index_root);
-                    let search_result = index_btree.search_tuple(&old_index_tuple, index_schema)?;
-
-                    if let SearchResult::Found(pos) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(pos, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.add_version_with(
-                                &index_assignments,
-                                tuple.xmin(),
-                                index_schema,
-                            )?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    }
-                }
-                _ => return Err(RuntimeError::InvalidStatement),
-            }
-        }
-
-        Ok(())
-    }
-
-    /// Builds assignment map for an index based on table assignments.
-    fn build_index_assignments(
-        &self,
-        old_values: &[DataType],
-        table_assignments: &HashMap<usize, DataType>,
-        index: &IndexHandle,
-        index_schema: &Schema,
-    ) -> RuntimeResult<HashMap<usize, DataType>> {
-        let mut index_assignments: HashMap<usize, DataType> = HashMap::new();
-
-        for (index_col_idx, table_col_idx) in index.indexed_column_ids().iter().enumerate() {
-            // Check if this table column was modified
-            let Some(new_value) = table_assignments.get(table_col_idx) else {
-                continue;
-            };
-
-            // Validate type compatibility
-            let index_col_type = index_schema
-                .column(index_col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(index_col_idx))?
-                .datatype();
-
-            if index_col_type != new_value.kind() {
-                return Err(RuntimeError::TypeError(
-                    TypeSystemError::UnexpectedDataType(new_value.kind()),
-                ));
-            }
-
-            index_assignments.insert(index_col_idx, new_value.clone());
-        }
+        // First column is always the row ID (primary key)
+        full_values[0] = DataType::BigUInt(row_id);
 
-        Ok(index_assignments)
+        Ok(Row::new(full_values.into_boxed_slice()))
     }
 }
 
diff --git a/crates/axmos-db/src/runtime/mod.rs b/crates/axmos-db/src/runtime/mod.rs
index 413e73e..0deb9b5 100644
--- a/crates/axmos-db/src/runtime/mod.rs
+++ b/crates/axmos-db/src/runtime/mod.rs
@@ -175,6 +175,18 @@ pub(crate) trait Executor {
     fn close(&mut self) -> RuntimeResult<()>;
 }
 
+/// Gets all the rows that an executor produces.
+///
+/// It is closed afterwards, so that it does not keep any page.
+pub(crate) fn collect_rows<E: Executor>(executor: &mut E) -> RuntimeResult<Vec<Row>> {
+    let mut rows = Vec::new();
+    while let Some(row) = executor.next()? {
+        rows.push(row);
+    }
+    executor.close()?;
+    Ok(rows)
+}
+
 impl Executor for Box<dyn Executor> {
     fn open(&mut self) -> RuntimeResult<()> {
         (**self).open()
@@ -348,6 +360,16 @@ impl From<RuntimeError> for QueryError {
 
 pub type QueryRunnerResult<T> = Result<T, QueryError>;
 
+/// Determines whether a statement can only read the database, from its first keyword.
+pub(crate) fn is_read_only(sql: &str) -> bool {
+    let keyword = sql
+        .trim_start()
+        .split(|c: char| !c.is_ascii_alphabetic())
+        .next()
+        .unwrap_or_default();
+    keyword.eq_ignore_ascii_case("select") || keyword.eq_ignore_ascii_case("with")
+}
+
 fn is_query(stmt: &BoundStatement) -> bool {
     matches!(stmt, BoundStatement::Select(_))
 }
@@ -398,14 +420,6 @@ pub(crate) fn optimize(
     Ok(optimizer.optimize(stmt)?)
 }
 
-pub(crate) fn collect_rows(executor: &mut BoxedExecutor) -> RuntimeResult<Vec<Row>> {
-    let mut rows = Vec::new();
-    while let Some(row) = executor.next()? {
-        rows.push(row);
-    }
-    Ok(rows)
-}
-
 pub(crate) fn extract_affected_count(rows: &[Row]) -> u64 {
     rows.first()
         .and_then(|r| r.iter().next())
@@ -446,8 +460,12 @@ impl QueryRunner {
     }
 
     pub(crate) fn prepare_and_run(&self, sql: &str) -> QueryRunnerResult<QueryResult> {
+        // Whatever goes wrong, a statement has either all of its effects or none.
+        let statement = self.logger.begin_statement();
         let bound = self.prepare(sql)?;
-        self.execute_statement(bound)
+        let result = self.execute_statement(bound)?;
+        statement.finish();
+        Ok(result)
     }
 
     pub(crate) fn prepare_and_explain(&self, sql: &str) -> QueryRunnerResult<String> {
diff --git a/crates/axmos-db/src/runtime/ops/delete.rs b/crates/axmos-db/src/runtime/ops/delete.rs
index 1741f53..620cc44 100644
--- a/crates/axmos-db/src/runtime/ops/delete.rs
+++ b/crates/axmos-db/src/runtime/ops/delete.rs
@@ -1,7 +1,7 @@
 use crate::{
     ObjectId,
     runtime::{
-        ExecutionStats, Executor, RuntimeResult,
+        ExecutionStats, Executor, RuntimeResult, collect_rows,
         context::{ThreadContext, TransactionLogger},
         dml::{DmlExecutor, extract_row_id},
     },
@@ -63,18 +63,17 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
-        while let Some(row) = self.child.next()? {
-            self.stats.rows_scanned += 1;
-
-            let row_id = extract_row_id(&row)?;
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-            let result = dml.delete(self.table_id, row_id)?;
+        // The rows come from the table that is going to change
+        let rows = collect_rows(&mut self.child)?;
 
-            if result.deleted {
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        for row in rows {
+            self.stats.rows_scanned += 1;
+            if dml.delete(self.table_id, extract_row_id(&row)?)?.deleted {
                 self.stats.rows_produced += 1;
             }
         }
+        dml.finish()?;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index db3974c..04b2d1f 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -163,41 +163,39 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.index_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_index_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let entry = tree
+                .get_tuple_at_unchecked(next_pos, &self.index_schema)?
+                .as_tuple_ref_with(&self.index_schema)
+                .to_row_with(&self.index_schema)?;
+
+            if !self.evaluate_index_predicate(&entry)? {
                 continue;
             }
 
-            let found_row = maybe_row.unwrap();
-            let row_key_bytes = self.get_row_id_checked(&found_row)?.serialize()?;
-
             // Build the table tree
+            let row_key_bytes = self.get_row_id_checked(&entry)?.serialize()?;
             let mut table_tree = self.ctx.build_tree(self.table_root);
-            let actual_row_result =
-                table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?;
-
-            if let SearchResult::Found(found_pos) = actual_row_result {
-                let actual_row = tree
-                    .get_row_at(found_pos, &self.table_schema, &snapshot)?
-                    .filter(|r| {
-                        self.evaluate_residual_predicate(r)
-                            .expect("Predicate evaluation failed")
-                    });
-
-                if actual_row.is_none() {
-                    continue;
-                }
+            let SearchResult::Found(found_pos) =
+                table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?
+            else {
+                continue;
+            };
 
-                self.stats.rows_produced += 1;
-                return Ok(Some(actual_row.unwrap()));
-            } else {
+            let Some(row) = table_tree.get_row_at(found_pos, &self.table_schema, &snapshot)?
+            else {
                 continue;
+            };
+
+            // The entry may belong to another version of the row.
+            let is_current = self
+                .indexed_columns
+                .iter()
+                .enumerate()
+                .all(|(i, column)| row[*column] == entry[i]);
+
+            if is_current && self.evaluate_residual_predicate(&row)? {
+                self.stats.rows_produced += 1;
+                return Ok(Some(row));
             }
         }
     }
diff --git a/crates/axmos-db/src/runtime/ops/insert.rs b/crates/axmos-db/src/runtime/ops/insert.rs
index 157dd6c..bf9a56f 100644
--- a/crates/axmos-db/src/runtime/ops/insert.rs
+++ b/crates/axmos-db/src/runtime/ops/insert.rs
@@ -1,7 +1,7 @@
 use crate::{
     ObjectId,
     runtime::{
-        ExecutionStats, Executor, RuntimeResult,
+        ExecutionStats, Executor, RuntimeResult, collect_rows,
         context::{ThreadContext, TransactionLogger},
         dml::DmlExecutor,
     },
@@ -64,15 +64,16 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
-        while let Some(row) = self.child.next()? {
-            self.stats.rows_scanned += 1;
+        // The rows may come from the table that is going to change
+        let rows = collect_rows(&mut self.child)?;
 
-            let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        for row in rows {
+            self.stats.rows_scanned += 1;
             dml.insert(self.table_id, &self.columns, &row)?;
-
             self.stats.rows_produced += 1;
         }
+        dml.finish()?;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/ops/seq_scan.rs b/crates/axmos-db/src/runtime/ops/seq_scan.rs
index 6d9f9f5..fd11db1 100644
--- a/crates/axmos-db/src/runtime/ops/seq_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/seq_scan.rs
@@ -98,19 +98,14 @@ impl Executor for SeqScan {
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
 
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.output_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(row) = tree.get_row_at(next_pos, &self.output_schema, &snapshot)? else {
                 continue;
-            }
+            };
 
-            self.stats.rows_produced += 1;
-            return Ok(Some(maybe_row.unwrap()));
+            if self.evaluate_predicate(&row)? {
+                self.stats.rows_produced += 1;
+                return Ok(Some(row));
+            }
         }
     }
 
diff --git a/crates/axmos-db/src/runtime/ops/update.rs b/crates/axmos-db/src/runtime/ops/update.rs
index 283ac98..fe394ef 100644
--- a/crates/axmos-db/src/runtime/ops/update.rs
+++ b/crates/axmos-db/src/runtime/ops/update.rs
@@ -1,7 +1,7 @@
 use crate::{
     ObjectId,
     runtime::{
-        ExecutionStats, Executor, RuntimeResult,
+        ExecutionStats, Executor, RuntimeResult, collect_rows,
         context::{ThreadContext, TransactionLogger},
         dml::{DmlExecutor, evaluate_assignments, extract_row_id},
     },
@@ -51,28 +51,6 @@ where
     pub fn stats(&self) -> &ExecutionStats {
         &self.stats
     }
-
-    /// Evaluates assignments and performs the update for a single row.
-    fn update_row(&mut self, row: &Row) -> RuntimeResult<bool> {
-        // Get the schema to evaluate assignments
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let relation = self
-            .ctx
-            .catalog()
-            .get_relation(self.table_id, &tree_builder, &snapshot)?;
-        let schema = relation.schema().clone();
-
-        // Extract row ID and evaluate assignments
-        let row_id = extract_row_id(row)?;
-        let assignments = evaluate_assignments(self.assignments.iter(), row, &schema)?;
-
-        // Delegate to DML executor
-        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
-        let result = dml.update(self.table_id, row_id, assignments)?;
-
-        Ok(result.updated)
-    }
 }
 
 impl<Child> Executor for Update<Child>
@@ -89,14 +67,20 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
-        while let Some(row) = self.child.next()? {
-            self.stats.rows_scanned += 1;
+        // The rows come from the table that is going to change
+        let rows = collect_rows(&mut self.child)?;
 
-            if self.update_row(&row)? {
+        let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
+        for row in rows {
+            self.stats.rows_scanned += 1;
+            let assignments =
+                evaluate_assignments(self.assignments.iter(), &row, &self.table_schema)?;
+            let result = dml.update(self.table_id, extract_row_id(&row)?, assignments)?;
+            if result.updated {
                 self.stats.rows_produced += 1;
             }
         }
+        dml.finish()?;
 
         self.returned_result = true;
 
diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 0e1a0c3..a0ed21c 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -3,15 +3,16 @@
 //! This module provides validation of database constraints (UNIQUE, NOT NULL, etc.)
 //! before INSERT and UPDATE operations are committed.
 
-use std::collections::HashSet;
-
 use crate::{
     ObjectId, SerializationError, UInt64,
-    runtime::context::ThreadContext,
-    schema::{DatabaseItem, Schema, base::IndexHandle, catalog::CatalogError},
-    storage::tuple::{TupleError, TupleReader, TupleRef},
-    tree::bplustree::{BtreeError, SearchResult},
-    types::{DataType, RowId},
+    runtime::{
+        context::ThreadContext,
+        dml::{Target, TargetIndex},
+    },
+    schema::{DatabaseItem, catalog::CatalogError},
+    storage::tuple::{Row, TupleBuilder, TupleError},
+    tree::bplustree::{BtreeError, BtreePositionalIterator, IterDirection, SearchResult},
+    types::DataType,
 };
 
 use std::fmt;
@@ -84,64 +85,56 @@ impl From<BtreeError> for ValidationError {
 pub type ValidationResult<T> = Result<T, ValidationError>;
 
 pub(crate) struct ConstraintValidator<'a> {
-    table_name: String,
-    schema: &'a Schema,
-    ctx: ThreadContext,
+    target: &'a Target,
+    ctx: &'a ThreadContext,
 }
 
 impl<'a> ConstraintValidator<'a> {
-    pub(crate) fn new(schema: &'a Schema, table_name: String, ctx: ThreadContext) -> Self {
-        Self {
-            table_name,
-            schema,
-            ctx,
-        }
+    pub(crate) fn new(target: &'a Target, ctx: &'a ThreadContext) -> Self {
+        Self { target, ctx }
+    }
+
+    fn table_name(&self) -> String {
+        self.target.relation.name().to_string()
     }
+
     /// Validates NOT NULL constraints.
     pub(crate) fn validate_not_null_constraints(
         &self,
         values: &[DataType],
     ) -> ValidationResult<()> {
-        for (idx, col) in self.schema.iter_columns().enumerate() {
+        for (idx, col) in self.target.schema.iter_columns().enumerate() {
             if col.is_non_null && idx < values.len() && values[idx].is_null() {
                 return Err(ValidationError::NonNullConstraintViolated(
-                    DatabaseItem::Column(self.table_name.clone(), col.name().to_string()),
+                    DatabaseItem::Column(self.table_name(), col.name().to_string()),
                 ));
             }
         }
         Ok(())
     }
 
+    /// Validates that the rows that are referenced exist.
     pub(crate) fn validate_foreign_key_constraints(
         &self,
-        table_id: ObjectId,
         values: &[DataType],
     ) -> ValidationResult<()> {
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let ref_table_relation =
-            self.ctx
-                .catalog()
-                .get_relation(table_id, &tree_builder, &snapshot)?;
-        let schema = ref_table_relation.schema();
-        let infos = schema.get_foreign_keys_info();
-        for info in infos {
-            let found =
-                if let Some(handle) = schema.get_index_for_column_list(info.referenced_columns()) {
-                    self.search_index(&handle, values, true, &HashSet::new())?
-                } else {
-                    self.search_table(
-                        info.referenced_table(),
-                        info.referenced_columns(),
-                        values,
-                        true,
-                        &HashSet::new(),
-                    )?
-                };
-
-            if !found {
+        for (columns, info) in self.target.schema.get_foreign_keys() {
+            let mut expected = Vec::with_capacity(columns.len());
+            for column in columns {
+                match values.get(*column) {
+                    Some(value) if !value.is_null() => expected.push(value),
+                    _ => break,
+                }
+            }
+
+            // A NULL does not reference anything
+            if expected.len() < columns.len() {
+                continue;
+            }
+
+            if !self.search_table(info.referenced_table(), info.referenced_columns(), &expected)? {
                 return Err(ValidationError::ForeignKeyViolation(DatabaseItem::Table(
-                    self.table_name.to_string(),
+                    self.table_name(),
                 )));
             }
         }
@@ -150,168 +143,131 @@ impl<'a> ConstraintValidator<'a> {
     }
 
     /// Seq scan over a table to see if there is any row with a specific value list.
-    pub(crate) fn search_table(
+    fn search_table(
         &self,
         table_id: ObjectId,
         target_columns: &[usize],
-        values: &[DataType],
-        skip_nulls: bool,
-        excluded_set: &HashSet<RowId>,
+        values: &[&DataType],
     ) -> ValidationResult<bool> {
-        let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot();
-        let table_relation = self
-            .ctx
-            .catalog()
-            .get_relation(table_id, &tree_builder, &snapshot)?;
-        let table_root = table_relation.root();
-
-        // Search in the table
-        let mut table_btree = self.ctx.build_tree(table_root);
+        let table_relation =
+            self.ctx
+                .catalog()
+                .get_relation(table_id, &self.ctx.tree_builder(), snapshot)?;
+
+        let mut table_btree = self.ctx.build_tree(table_relation.root());
         if table_btree.is_empty()? {
             return Ok(false);
         }
 
         for position in table_btree.iter_forward()? {
-            if let Ok(pos) = position {
-                if let Some(row) = table_btree.get_row_at(pos, self.schema, &snapshot)? {
-                    let Some(DataType::BigUInt(UInt64(value))) = row.first() else {
-                        return Err(ValidationError::Btree(BtreeError::Other(
-                            "tables must start with row id".to_string(),
-                        )));
-                    };
-
-                    if excluded_set.contains(&value) {
-                        continue;
-                    };
-
-                    let all_match = target_columns.iter().enumerate().all(|(i, &col_idx)| {
-                        let row_value = &row[col_idx];
-                        let target_value = &values[i];
-
-                        if skip_nulls && (row_value.is_null() || target_value.is_null()) {
-                            false
-                        } else {
-                            row_value == target_value
-                        }
-                    });
-
-                    if all_match {
-                        return Ok(true);
-                    }
-                }
+            let row = table_btree.get_row_at(position?, table_relation.schema(), snapshot)?;
+            if let Some(row) = row
+                && target_columns
+                    .iter()
+                    .zip(values)
+                    .all(|(column, value)| row[*column] == **value)
+            {
+                return Ok(true);
             }
         }
 
         Ok(false)
     }
 
-    /// Searches for an entry on an index. Returns true if the entry is found.
-    pub(crate) fn search_index(
-        &self,
-        index: &IndexHandle,
-        values: &[DataType],
-        skip_nulls: bool,
-        excluded_set: &HashSet<RowId>,
-    ) -> ValidationResult<bool> {
-        let tree_builder = self.ctx.tree_builder();
-        let snapshot = self.ctx.snapshot();
-        let index_relation =
-            self.ctx
-                .catalog()
-                .get_relation(index.id(), &tree_builder, &snapshot)?;
-
-        let index_schema = index_relation.schema();
-        let index_root = index_relation.root();
-
-        // Build the key from the indexed columns
-        let mut key_bytes: Vec<u8> = Vec::new();
-        let mut has_null = false;
-
-        for &col_idx in index.indexed_column_ids() {
-            if col_idx < values.len() {
-                // In SQL, NULL values don't violate UNIQUE constraints
-                // (NULL != NULL, so multiple NULLs are allowed)
-                if values[col_idx].is_null() && skip_nulls {
-                    has_null = true;
-                    break;
-                }
-                let serialized = values[col_idx].serialize()?;
-                key_bytes.extend_from_slice(&serialized);
-            }
-        }
+    /// Searches for another row that has the same values than this one in the columns of an index.
+    fn search_index(&self, index: &TargetIndex, values: &[DataType]) -> ValidationResult<bool> {
+        // In SQL, NULL values don't violate UNIQUE constraints
+        // (NULL != NULL, so multiple NULLs are allowed)
+        let Some(entry) = index.handle.entry(values) else {
+            return Ok(false);
+        };
+        let num_columns = index.handle.indexed_column_ids().len();
+        let own_id = entry[num_columns].clone();
 
-        // Skip uniqueness check if any indexed column is NULL
-        if has_null && skip_nulls {
+        let mut index_btree = self.ctx.build_tree(index.root);
+        if index_btree.is_empty()? {
             return Ok(false);
         }
 
-        // Search in the index
-        let mut index_btree = self.ctx.build_tree(index_root);
-
-        if let SearchResult::Found(pos) = index_btree.search(&key_bytes, index_schema)? {
-            // Found a matching key - need to check if it's VISIBLE to our snapshot
-            // If the tuple was deleted and the delete is visible, it's not a conflict
-            let tuple_reader = TupleReader::from_schema(index_schema);
-
-            let is_found = index_btree.with_cell_at(pos, |bytes| {
-                // Parse the tuple for our snapshot - this respects MVCC visibility
-                match tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    Some(layout) => {
-                        // Tuple is visible! Check if it's the row we're excluding (for updates)
-                        let tuple_ref = TupleRef::new(bytes, layout);
-
-                        // row_id is the first value in the index
-                        // Index layout: [key1, key2, ...] [row_id]
-                        //               ^-- keys --^      ^-- values --^
-                        if let Ok(row_id_ref) = tuple_ref.value_with(0, index_schema) {
-                            if let Some(found_row_id) = row_id_ref.to_owned() {
-                                if let Some(uid) = found_row_id.as_big_u_int() {
-                                    if excluded_set.contains(&uid.value()) {
-                                        // This is the same row we're updating, not a conflict
-                                        return Ok::<bool, TupleError>(false);
-                                    }
-                                }
-                            }
-                        }
-
-                        // Different row or no exclusion (conflict found)
-                        Ok::<bool, TupleError>(true)
-                    }
-                    None => {
-                        // Tuple is NOT visible (deleted or not yet committed)
-                        // No conflict
-                        Ok::<bool, TupleError>(false)
-                    }
-                }
-            })??;
+        // Go over all the entries with the same values
+        let mut first = entry.clone();
+        first[num_columns] = DataType::BigUInt(UInt64(0));
+        let first = TupleBuilder::from_schema(&index.schema).build(&first, self.ctx.tid())?;
+        let start = match index_btree.search_tuple(&first, &index.schema)? {
+            SearchResult::Found(pos) | SearchResult::NotFound(pos) => pos,
+        };
+
+        let positions = BtreePositionalIterator::from_position(
+            self.ctx.build_tree(index.root),
+            start.entry(),
+            start.slot() as isize,
+            IterDirection::Forward,
+        )?;
+        for position in positions {
+            let found = index_btree
+                .get_tuple_at_unchecked(position?, &index.schema)?
+                .as_tuple_ref_with(&index.schema)
+                .to_row_with(&index.schema)?;
+            if found.as_slice()[..num_columns] != entry.as_slice()[..num_columns] {
+                break;
+            }
+            if found[num_columns] != own_id && self.holds_values(index, &found)? {
+                return Ok(true);
+            }
+        }
 
-            return Ok(is_found);
+        Ok(false)
+    }
+
+    /// Whether the row of an index entry has, or may have at the end, the values of the entry.
+    fn holds_values(&self, index: &TargetIndex, entry: &Row) -> ValidationResult<bool> {
+        let snapshot = self.ctx.snapshot();
+        let schema = &self.target.schema;
+        let num_columns = index.handle.indexed_column_ids().len();
+
+        let mut table = self.ctx.build_tree(self.target.relation.root());
+        let key = entry[num_columns].serialize()?;
+        let tuple = match table.search(&key, schema)? {
+            SearchResult::Found(pos) => table.get_tuple_at_unchecked(pos, schema)?,
+            SearchResult::NotFound(_) => return Ok(false),
+        };
+        let versions = tuple.all_versions(schema)?;
+        let is_settled =
+            |tid| tid == snapshot.xid() || snapshot.is_committed_before_snapshot(tid);
+
+        if let Some(xmax) = tuple.xmax() {
+            // Either it has been deleted, or it has been inserted and deleted by the same transaction.
+            if is_settled(xmax) || (versions.len() == 1 && tuple.xmin() == xmax) {
+                return Ok(false);
+            }
         }
 
+        // The last change may be taken back, then the row would have the contents of the previous version.
+        for (creator, row) in versions {
+            let held = index.handle.entry(row.as_slice());
+            if held.is_some_and(|held| held.as_slice() == entry.as_slice()) {
+                return Ok(true);
+            }
+            if is_settled(creator) {
+                break;
+            }
+        }
         Ok(false)
     }
 
     /// Validates UNIQUE constraints by checking indexes.
-    pub(crate) fn validate_unique_constraints(
-        &self,
-        values: &[DataType],
-        skip_nulls: bool,
-        excluded_set: HashSet<RowId>,
-    ) -> ValidationResult<()> {
-        let indexes = self.schema.get_indexes();
-
-        // For each of the indexes, check if we can build a new entry with the
-        for index in indexes {
-            let is_conflict = self.search_index(&index, values, skip_nulls, &excluded_set)?;
-            if is_conflict {
+    pub(crate) fn validate_unique_constraints(&self, values: &[DataType]) -> ValidationResult<()> {
+        for index in &self.target.indexes {
+            if self.search_index(index, values)? {
                 let col_names: Vec<&str> = index
+                    .handle
                     .indexed_column_ids()
                     .iter()
-                    .filter_map(|&idx| self.schema.column(idx).map(|c| c.name()))
+                    .filter_map(|&idx| self.target.schema.column(idx).map(|c| c.name()))
                     .collect();
                 return Err(ValidationError::UniqueConstraintViolated(
-                    DatabaseItem::Column(col_names.join(","), self.table_name.to_string()),
+                    DatabaseItem::Column(self.table_name(), col_names.join(",")),
                 ));
             }
         }
diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index a8c994e..a19114b 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -1,9 +1,7 @@
 use super::stats::Stats;
 use crate::{
     core::SerializableType,
-    runtime::{ddl::CreateTableInstr, eval::eval_literal_expr},
     schema::DatabaseItem,
-    sql::binder::bounds::BoundColumnDef,
     storage::tuple::Row,
     types::{
         Blob, BlobRef, DataType, DataTypeKind, DataTypeRef, ObjectId, PageId, RowId,
@@ -73,26 +71,10 @@ pub struct Schema {
     pub(crate) table_indexes: Option<HashMap<ObjectId, Vec<usize>>>,
 }
 
-impl From<&BoundColumnDef> for Column {
-    fn from(value: &BoundColumnDef) -> Self {
-        let mut col = Column::new_with_defaults(value.data_type, &value.name);
-
-        col.is_non_null = value.is_non_null;
-
-        col.default = value
-            .default
-            .as_ref()
-            .and_then(|expr| eval_literal_expr(expr))
-            .and_then(|dt: DataType| dt.serialize().ok());
-
-        col
-    }
-}
-
 /// A handle representing an index.
 ///
 /// Contains the index object id and the list of indexed columns.
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct IndexHandle {
     id: ObjectId,
     indexed_columns: Vec<usize>,
@@ -113,6 +95,30 @@ impl IndexHandle {
     pub(crate) fn indexed_column_ids(&self) -> &[usize] {
         &self.indexed_columns
     }
+
+    /// Builds the entry of a row. Rows that have a NULL in any of the indexed columns have none.
+    pub(crate) fn entry(&self, row: &[DataType]) -> Option<Row> {
+        let mut entry = Vec::with_capacity(self.indexed_columns.len() + 1);
+        for column in &self.indexed_columns {
+            let value = row.get(*column)?;
+            if value.is_null() {
+                return None;
+            }
+            entry.push(value.clone());
+        }
+        // The row id goes last, and it is part of the key too.
+        entry.push(row.first()?.clone());
+        Some(Row::from(entry))
+    }
+}
+
+/// Updates a list of columns when the column [removed], which is not in it, goes away.
+fn shift_columns(columns: &mut [usize], removed: usize) {
+    for column in columns {
+        if *column > removed {
+            *column -= 1;
+        }
+    }
 }
 
 impl Default for Schema {
@@ -329,9 +335,8 @@ impl Schema {
     /// Adds an index to a table schema.
     pub(crate) fn add_index(&mut self, index: IndexHandle) -> SchemaResult<()> {
         if let Some(indexes) = self.table_indexes.as_mut() {
-            let last_index = self.columns.len() - 1;
             let columns = index.indexed_column_ids();
-            Self::validate_index_list(&columns, last_index)?;
+            Self::validate_index_list(&columns, self.columns.len())?;
             indexes.insert(index.id, columns.to_vec());
             Ok(())
         } else {
@@ -343,20 +348,20 @@ impl Schema {
     pub(crate) fn add_constraint(&mut self, constraint: TableConstraint) -> SchemaResult<()> {
         let has_pk = self.has_primary_key();
         if let Some(constraints) = self.table_constraints.as_mut() {
-            let last_index = self.columns.len() - 1;
+            let num_columns = self.columns.len();
 
             match &constraint {
                 TableConstraint::Unique(columns) => {
-                    Self::validate_index_list(&columns, last_index)?;
+                    Self::validate_index_list(&columns, num_columns)?;
                 }
                 TableConstraint::ForeignKey { columns, info } => {
-                    Self::validate_index_list(&columns, last_index)?;
+                    Self::validate_index_list(&columns, num_columns)?;
                 }
                 TableConstraint::PrimaryKey(columns) => {
                     if has_pk {
                         return Err(SchemaError::DuplicatePrimaryKey);
                     }
-                    Self::validate_index_list(&columns, last_index)?;
+                    Self::validate_index_list(&columns, num_columns)?;
                 }
             }
 
@@ -415,39 +420,79 @@ impl Schema {
         Ok(schema)
     }
 
-    /// COllects all the objects that depend from this one.
-    ///
-    /// Useful for DELETE ... CASCADE operations.
-    pub(crate) fn get_dependants(&self) -> Vec<ObjectId> {
-        let mut deps = Vec::new();
-        if self.is_index() {
-            return deps;
-        };
-
-        for ct in self.table_constraints.as_ref().unwrap() {
-            if let TableConstraint::ForeignKey { info, .. } = ct {
-                deps.push(info.ref_table);
-            };
+    /// Removes the constraints for which [keep] does not hold.
+    pub(crate) fn retain_constraints(&mut self, keep: impl FnMut(&TableConstraint) -> bool) {
+        if let Some(constraints) = self.table_constraints.as_mut() {
+            constraints.retain(keep);
         }
-
-        deps.extend(self.table_indexes.as_ref().unwrap().keys());
-        deps
     }
 
-    /// COllects all the foreign key info for this object
-    pub(crate) fn get_foreign_keys_info(&self) -> Vec<ForeignKeyInfo> {
-        let mut deps = Vec::new();
-        if self.is_index() {
-            return deps;
-        };
+    /// Whether a column is part of the primary key.
+    pub(crate) fn is_in_primary_key(&self, column_idx: usize) -> bool {
+        self.constraints()
+            .unwrap_or_default()
+            .iter()
+            .any(|c| matches!(c, TableConstraint::PrimaryKey(columns) if columns.contains(&column_idx)))
+    }
+
+    /// Updates the foreign keys to a table that is losing one of its columns.
+    pub(crate) fn forget_referenced_column(
+        &mut self,
+        table: ObjectId,
+        column_idx: usize,
+    ) -> SchemaResult<()> {
+        for constraint in self.table_constraints.iter_mut().flatten() {
+            if let TableConstraint::ForeignKey { info, .. } = constraint
+                && info.ref_table == table
+            {
+                if info.ref_columns.contains(&column_idx) {
+                    return Err(SchemaError::ConstraintViolation(
+                        "the column is referenced by a foreign key".to_string(),
+                    ));
+                }
+                shift_columns(&mut info.ref_columns, column_idx);
+            }
+        }
+        Ok(())
+    }
 
-        for ct in self.table_constraints.as_ref().unwrap() {
-            if let TableConstraint::ForeignKey { info, .. } = ct {
-                deps.push(info.clone());
-            };
+    /// Removes a column, with the constraints and the indexes where it takes part.
+    pub(crate) fn drop_column(&mut self, table: ObjectId, column_idx: usize) -> SchemaResult<()> {
+        self.retain_constraints(|constraint| match constraint {
+            TableConstraint::PrimaryKey(columns)
+            | TableConstraint::Unique(columns)
+            | TableConstraint::ForeignKey { columns, .. } => !columns.contains(&column_idx),
+        });
+        // There may be foreign keys to the table itself.
+        self.forget_referenced_column(table, column_idx)?;
+
+        for constraint in self.table_constraints.iter_mut().flatten() {
+            match constraint {
+                TableConstraint::PrimaryKey(columns)
+                | TableConstraint::Unique(columns)
+                | TableConstraint::ForeignKey { columns, .. } => shift_columns(columns, column_idx),
+            }
         }
+        if let Some(indexes) = self.table_indexes.as_mut() {
+            indexes.retain(|_, columns| !columns.contains(&column_idx));
+            for columns in indexes.values_mut() {
+                shift_columns(columns, column_idx);
+            }
+        }
+        self.remove_column_unchecked(column_idx);
+        Ok(())
+    }
 
-        deps
+    /// Collects all the foreign keys of this object, with the columns that they constrain.
+    pub(crate) fn get_foreign_keys(&self) -> Vec<(&[usize], &ForeignKeyInfo)> {
+        self.constraints()
+            .unwrap_or_default()
+            .iter()
+            .filter_map(|constraint| match constraint {
+                TableConstraint::ForeignKey { columns, info } => Some((columns.as_slice(), info)),
+                _ => None,
+            })
+            .collect()
     }
 
     pub(crate) fn get_index_for_column_list(&self, columns: &[usize]) -> Option<IndexHandle> {
@@ -610,6 +655,17 @@ impl Column {
         Ok(self)
     }
 
+    /// The value that the column has in the rows where it is not given one.
+    pub(crate) fn default_value(&self) -> SerializationResult<DataType> {
+        let Some(default) = &self.default else {
+            return Ok(DataType::Null);
+        };
+        let mut aligned = AlignedVec::<16>::new();
+        aligned.extend_from_slice(default);
+        let (value, _) = self.datatype().deserialize(&aligned, 0)?;
+        Ok(value.to_owned().unwrap_or(DataType::Null))
+    }
+
     /// Add a non null constraint to the column
     pub(crate) fn with_non_null_constraint(mut self) -> Self {
         self.is_non_null = true;
@@ -702,23 +758,6 @@ impl Relation {
         self.schema
     }
 
-    pub(crate) fn to_create_table_instr(&self) -> SchemaResult<CreateTableInstr> {
-        let schema = self.schema();
-        let constraints = schema
-            .table_constraints
-            .clone()
-            .ok_or(SchemaError::NotATable)?;
-
-        let columns: Vec<Column> = schema.columns().iter().skip(1).cloned().collect();
-
-        Ok(CreateTableInstr::new(
-            self.name().to_string(),
-            columns,
-            constraints,
-            false,
-        ))
-    }
-
     /// Creates an index relation
     pub(crate) fn index(
         object_id: ObjectId,
@@ -876,11 +915,9 @@ impl Relation {
         )
     }
 
-    /// Increments the row counter. Only valid for tables.
-    pub(crate) fn increment_row_id(&mut self) {
-        if let Some(ref mut row_id) = self.next_row_id {
-            *row_id += 1;
-        }
+    /// Removes the statistics, which do not describe the relation anymore.
+    pub(crate) fn clear_stats(&mut self) {
+        self.stats = None;
     }
 
     /// Get indexes from the schema (returns empty vec for index relations)
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 30bc725..8602af3 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -4,14 +4,17 @@ use crate::{
     io::pager::{BtreeBuilder, SharedPager},
     make_shared_readonly,
     multithreading::coordinator::Snapshot,
-    runtime::{RuntimeError, context::TransactionLogger},
+    runtime::{
+        RuntimeError,
+        context::{TransactionLogger, UndoAction},
+    },
     schema::{Schema, base::SchemaError},
-    storage::tuple::{Tuple, TupleBuilder, TupleError, TupleReader,Row,  TupleRef},
+    storage::tuple::{Tuple, TupleBuilder, TupleError, TupleReader, TupleRef},
     tree::{
         accessor::BtreePagePosition,
         bplustree::{BtreeError, SearchResult},
     },
-    types::{Blob, DataType, DataTypeRef, PageId},
+    types::{Blob, DataType, DataTypeRef, PageId, RowId},
 };
 
 use super::{
@@ -21,8 +24,13 @@ use super::{
     stats::{ColumnStats, StatsCollector},
 };
 
-use std::collections::HashSet;
+use parking_lot::Mutex;
+use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::sync::{
+    Arc,
+    atomic::{AtomicBool, Ordering},
+};
 use std::time::{SystemTime, UNIX_EPOCH};
 
 #[derive(Debug)]
@@ -33,6 +41,8 @@ pub enum CatalogError {
     TupleError(TupleError),
     Serialization(SerializationError),
     Schema(SchemaError),
+    /// The object has been changed by a transaction that is not visible.
+    Conflict(TransactionId, ObjectId),
     Other(String),
 }
 
@@ -45,6 +55,9 @@ impl Display for CatalogError {
             Self::TupleError(err) => write!(f, "Tuple error {err}"),
             Self::Serialization(err) => write!(f, "serialization error {err}"),
             Self::Schema(err) => write!(f, "schema error {err}"),
+            Self::Conflict(txid, id) => {
+                write!(f, "Transaction {txid} conflict on object {id}")
+            }
             Self::Other(string) => write!(f, "{string}"),
         }
     }
@@ -116,6 +129,12 @@ pub struct Catalog {
     meta_table: PageId,
     meta_index: PageId,
     pager: SharedPager,
+    /// Next row identifier of each table that has had insertions.
+    row_ids: Mutex<HashMap<ObjectId, RowId>>,
+    /// Running transactions that have changed something, with the objects they changed.
+    writers: Mutex<HashMap<TransactionId, HashSet<ObjectId>>>,
+    /// Whether there may be objects, or old versions of them, whose space has to be given back.
+    garbage: AtomicBool,
 }
 
 impl Catalog {
@@ -124,7 +143,91 @@ impl Catalog {
             meta_table,
             meta_index,
             pager,
+            row_ids: Mutex::default(),
+            writers: Mutex::default(),
+            // A previous run may have left some.
+            garbage: AtomicBool::new(true),
+        }
+    }
+
+    /// Root of the table that contains the definition of each object.
+    pub(crate) fn meta_table(&self) -> PageId {
+        self.meta_table
+    }
+
+    /// Root of the index from the name of each object to its identifier.
+    pub(crate) fn meta_index(&self) -> PageId {
+        self.meta_index
+    }
+
+    /// Takes note that a transaction is changing an object.
+    pub(crate) fn note_write(&self, transaction_id: TransactionId, object_id: ObjectId) {
+        self.writers
+            .lock()
+            .entry(transaction_id)
+            .or_default()
+            .insert(object_id);
+    }
+
+    /// The transaction has finished.
+    pub(crate) fn end_writer(&self, transaction_id: TransactionId) {
+        self.writers.lock().remove(&transaction_id);
+    }
+
+    /// Whether any running transaction has changed something.
+    pub(crate) fn has_writers(&self) -> bool {
+        !self.writers.lock().is_empty()
+    }
+
+    /// Whether another running transaction has changed the object.
+    fn has_other_writers(&self, transaction_id: TransactionId, object_id: ObjectId) -> bool {
+        self.writers
+            .lock()
+            .iter()
+            .any(|(id, objects)| *id != transaction_id && objects.contains(&object_id))
+    }
+
+    /// Gets the identifier for a new row of a table.
+    pub(crate) fn next_row_id(
+        &self,
+        relation: &Relation,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<UInt64> {
+        let mut row_ids = self.row_ids.lock();
+        let next = match row_ids.get(&relation.object_id()) {
+            Some(next) => *next,
+            None => {
+                let last = Self::last_key(relation.root(), relation.schema(), builder)?;
+                let first_free = last.map_or(0, |key| key + 1);
+                first_free.max(relation.next_row_id().value())
+            }
+        };
+        row_ids.insert(relation.object_id(), next + 1);
+        Ok(UInt64::from(next))
+    }
+
+    /// Gets the greatest key of a table.
+    fn last_key(
+        root: PageId,
+        schema: &Schema,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<Option<RowId>> {
+        let mut tree = builder.build_tree(root);
+        if tree.is_empty()? {
+            return Ok(None);
         }
+        let last = tree.into_iter_backward()?.next().transpose()?;
+        let Some(position) = last else {
+            return Ok(None);
+        };
+        let key = builder.build_tree(root).with_cell_at(position, |bytes| {
+            let layout = TupleReader::from_schema(schema).parse_last_version(bytes)?;
+            match TupleRef::new(bytes, layout).key_with(0, schema)? {
+                DataTypeRef::BigUInt(value) => Ok::<_, TupleError>(Some(value.value())),
+                _ => Ok(None),
+            }
+        })??;
+        Ok(key)
     }
 
     /// Converts a relation into a meta table tuple for storage.
@@ -152,6 +255,285 @@ impl Catalog {
         Ok(t)
     }
 
+    /// What the log needs to know about a relation.
+    fn log_image(relation: &Relation, transaction_id: TransactionId) -> CatalogResult<Box<[u8]>> {
+        let mut relation = relation.clone();
+        relation.clear_stats();
+        let tuple = Self::relation_as_meta_table_tuple(&relation, transaction_id)?;
+        Ok(Box::from(&tuple))
+    }
+
+    /// Key of a relation in the meta table.
+    fn meta_table_key(object_id: ObjectId) -> CatalogResult<Box<[u8]>> {
+        Ok(UInt64(object_id).serialize()?)
+    }
+
+    /// Key of a relation in the meta index.
+    fn meta_index_key(name: &str) -> CatalogResult<Box<[u8]>> {
+        Ok(Blob::from(name).serialize()?)
+    }
+
+    /// Reads a tuple with all its versions.
+    fn find_tuple(
+        root: PageId,
+        key: &[u8],
+        schema: &Schema,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<Option<Tuple>> {
+        let mut tree = builder.build_tree(root);
+        match tree.search(key, schema)? {
+            SearchResult::Found(position) => {
+                Ok(Some(tree.get_tuple_at_unchecked(position, schema)?))
+            }
+            SearchResult::NotFound(_) => Ok(None),
+        }
+    }
+
+    /// Reads all the tuples of a tree, with all their versions.
+    fn collect_tuples(root: PageId, builder: &BtreeBuilder) -> CatalogResult<Vec<Tuple>> {
+        let mut tree = builder.build_tree(root);
+        if tree.is_empty()? {
+            return Ok(Vec::new());
+        }
+        let mut tuples = Vec::new();
+        for position in tree.iter_forward()? {
+            let tuple = tree.with_cell_at(position?, Tuple::from_slice_unchecked)??;
+            tuples.push(tuple);
+        }
+        Ok(tuples)
+    }
+
+    /// Adds a tuple that can be taken back.
+    fn insert_tuple(
+        root: PageId,
+        tuple: Tuple,
+        schema: Schema,
+        builder: &BtreeBuilder,
+        logger: &TransactionLogger,
+    ) -> CatalogResult<()> {
+        logger.push_undo(UndoAction::Remove {
+            root,
+            schema: Arc::new(schema.clone()),
+            tuple: tuple.clone(),
+        });
+        builder.build_tree_mut(root).insert(root, tuple, &schema)?;
+        Ok(())
+    }
+
+    /// Changes a tuple in a way that can be taken back.
+    fn replace_tuple(
+        root: PageId,
+        old: Tuple,
+        new: Tuple,
+        schema: Schema,
+        builder: &BtreeBuilder,
+        logger: &TransactionLogger,
+    ) -> CatalogResult<()> {
+        logger.push_undo(UndoAction::Restore {
+            root,
+            schema: Arc::new(schema.clone()),
+            tuple: old,
+            is_row_update: false,
+        });
+        builder.build_tree_mut(root).update(root, new, &schema)?;
+        Ok(())
+    }
+
+    /// Checks that nobody has changed an object after the snapshot was taken.
+    pub(crate) fn ensure_current(
+        &self,
+        object_id: ObjectId,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        let schema = meta_table_schema();
+        let key = Self::meta_table_key(object_id)?;
+        match Self::find_tuple(self.meta_table, &key, &schema, builder)? {
+            Some(tuple) if !snapshot.conflicts_with(tuple.xmin(), tuple.xmax()) => Ok(()),
+            Some(_) => Err(CatalogError::Conflict(snapshot.xid(), object_id)),
+            None => Err(CatalogError::TableNotFound(object_id)),
+        }
+    }
+
+    /// Checks that the transaction can change the definition of an object.
+    pub(crate) fn ensure_exclusive(
+        &self,
+        object_id: ObjectId,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        self.ensure_current(object_id, builder, snapshot)?;
+        if self.has_other_writers(snapshot.xid(), object_id) {
+            return Err(CatalogError::Conflict(snapshot.xid(), object_id));
+        }
+        Ok(())
+    }
+
+    /// Gets all the relations that are visible.
+    pub(crate) fn relations(
+        &self,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<Vec<Relation>> {
+        let schema = meta_table_schema();
+        let mut relations = Vec::new();
+        for tuple in Self::collect_tuples(self.meta_table, builder)? {
+            if let Some(tuple) = tuple.as_tuple_ref(&schema, snapshot) {
+                relations.push(Relation::from_meta_table_row(tuple.to_row_with(&schema)?));
+            }
+        }
+        Ok(relations)
+    }
+
+    /// Creates a relation.
+    pub(crate) fn create_relation(
+        &self,
+        relation: &Relation,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+        logger: &TransactionLogger,
+    ) -> CatalogResult<()> {
+        let tid = snapshot.xid();
+        let object_id = relation.object_id();
+        self.note_write(tid, object_id);
+
+        // A dropped relation may have had the same name.
+        let schema = meta_index_schema();
+        let key = Self::meta_index_key(relation.name())?;
+        let existing = Self::find_tuple(self.meta_index, &key, &schema, builder)?;
+        if let Some(existing) = &existing
+            && snapshot.conflicts_with(existing.xmin(), existing.xmax())
+        {
+            return Err(CatalogError::Conflict(tid, object_id));
+        }
+
+        logger.log_create(
+            object_id,
+            Self::log_image(relation, tid)?,
+            Box::default(),
+        )?;
+
+        match existing {
+            Some(existing) => {
+                let mut tuple = existing.clone();
+                let changes = HashMap::from([(
+                    schema.bind_value("row_id")?,
+                    DataType::BigUInt(UInt64::from(object_id)),
+                )]);
+                tuple.add_version_with(&changes, tid, &schema)?;
+                Self::replace_tuple(self.meta_index, existing, tuple, schema, builder, logger)?;
+                self.garbage.store(true, Ordering::Relaxed);
+            }
+            None => {
+                let tuple = Self::relation_as_meta_index_tuple(relation, tid)?;
+                Self::insert_tuple(self.meta_index, tuple, schema, builder, logger)?;
+            }
+        }
+
+        let tuple = Self::relation_as_meta_table_tuple(relation, tid)?;
+        Self::insert_tuple(
+            self.meta_table,
+            tuple,
+            meta_table_schema(),
+            builder,
+            logger,
+        )
+    }
+
+    /// Changes the definition of a relation.
+    ///
+    /// When it has a new root, all its contents have to be added to the log after this.
+    pub(crate) fn alter_relation(
+        &self,
+        relation: &Relation,
+        has_new_root: bool,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+        logger: &TransactionLogger,
+    ) -> CatalogResult<()> {
+        let tid = snapshot.xid();
+        let object_id = relation.object_id();
+        self.ensure_exclusive(object_id, builder, snapshot)?;
+        self.note_write(tid, object_id);
+
+        logger.log_alter(
+            object_id,
+            Self::log_image(relation, tid)?,
+            Box::from([has_new_root as u8]),
+        )?;
+
+        let schema = meta_table_schema();
+        let key = Self::meta_table_key(object_id)?;
+        let existing = Self::find_tuple(self.meta_table, &key, &schema, builder)?
+            .ok_or(CatalogError::TableNotFound(object_id))?;
+        let changes = Self::definition_changes(relation, &schema)?;
+        let mut tuple = existing.clone();
+        tuple.add_version_with(&changes, tid, &schema)?;
+        Self::replace_tuple(self.meta_table, existing, tuple, schema, builder, logger)?;
+        self.garbage.store(true, Ordering::Relaxed);
+        Ok(())
+    }
+
+    /// Values of the meta table that may change when a relation is altered.
+    fn definition_changes(
+        relation: &Relation,
+        schema: &Schema,
+    ) -> CatalogResult<HashMap<usize, DataType>> {
+        let row = relation.to_meta_table_row();
+        let mut changes = HashMap::new();
+        for name in ["root_page", "schema", "stats"] {
+            let value = row[schema.bind_column(name)?].clone();
+            changes.insert(schema.bind_value(name)?, value);
+        }
+        Ok(changes)
+    }
+
+    /// Drops a relation, together with its indexes if it is a table.
+    pub(crate) fn drop_relation(
+        &self,
+        relation: &Relation,
+        builder: &BtreeBuilder,
+        snapshot: &Snapshot,
+        logger: &TransactionLogger,
+    ) -> CatalogResult<()> {
+        let object_id = relation.object_id();
+        self.ensure_exclusive(object_id, builder, snapshot)?;
+
+        for index in relation.get_indexes() {
+            let index = self.get_relation(index.id(), builder, snapshot)?;
+            self.drop_relation(&index, builder, snapshot, logger)?;
+        }
+
+        self.note_write(snapshot.xid(), object_id);
+        logger.log_drop(
+            object_id,
+            Box::from(relation.name().as_bytes()),
+            Box::default(),
+        )?;
+
+        let trees = [
+            (
+                self.meta_index,
+                meta_index_schema(),
+                Self::meta_index_key(relation.name())?,
+            ),
+            (
+                self.meta_table,
+                meta_table_schema(),
+                Self::meta_table_key(object_id)?,
+            ),
+        ];
+        for (root, schema, key) in trees {
+            if let Some(existing) = Self::find_tuple(root, &key, &schema, builder)? {
+                let mut tuple = existing.clone();
+                tuple.delete(snapshot.xid())?;
+                Self::replace_tuple(root, existing, tuple, schema, builder, logger)?;
+            }
+        }
+        self.garbage.store(true, Ordering::Relaxed);
+        Ok(())
+    }
+
     /// Recomputes the statistics for a single item in the catalog
     fn recompute_relation_stats(
         &self,
@@ -272,36 +654,7 @@ impl Catalog {
         sample_rate: f64,
         max_sample_rows: usize,
     ) -> CatalogResult<()> {
-        let schema = meta_table_schema();
-
-        let mut relations_to_analyze: Vec<ObjectId> = Vec::new();
-        {
-            let mut meta_table = builder.build_tree(self.meta_table);
-
-            if meta_table.is_empty()? {
-                return Ok(());
-            }
-
-            // Collect all relations from the meta table
-            for iter_result in meta_table.iter_forward()? {
-                if let Ok(pos) = iter_result {
-                    meta_table.with_cell_at(pos, |bytes| {
-                        let reader = TupleReader::from_schema(&schema);
-                        if let Some(layout) = reader.parse_for_snapshot(bytes, &snapshot)? {
-                            let tuple = TupleRef::new(bytes, layout);
-
-                            if let Ok(DataTypeRef::BigUInt(value)) = tuple.key_with(0, &schema) {
-                                relations_to_analyze.push(value.value())
-                            }
-                        }
-                        Ok::<(), TupleError>(())
-                    })??;
-                }
-            }
-        }
-
-        for id in relations_to_analyze {
-            let relation = self.get_relation(id, builder, snapshot)?;
+        for relation in self.relations(builder, snapshot)? {
             let Some(stats) = self.recompute_relation_stats(
                 &relation,
                 builder,
@@ -313,145 +666,242 @@ impl Catalog {
                 continue;
             };
 
-            self.update_relation(id, None, None, Some(stats), &builder, &snapshot)?;
+            self.update_stats(&relation.with_stats(stats), builder, snapshot)?;
         }
 
         Ok(())
     }
 
-    /// Vacuums all tuples in all relations, removing old MVCC versions
-    /// that are no longer needed by any transaction.
+    /// Stores the statistics of a relation.
     ///
-    /// Returns statistics about the vacuum operation.
-    pub fn vacuum(
+    /// They are only hints, so they are not part of what a transaction does.
+    fn update_stats(
         &self,
+        relation: &Relation,
         builder: &BtreeBuilder,
         snapshot: &Snapshot,
-        oldest_active_xid: TransactionId,
-    ) -> CatalogResult<VacuumStats> {
-        let mut stats = VacuumStats::default();
+    ) -> CatalogResult<()> {
+        let schema = meta_table_schema();
+        let key = Self::meta_table_key(relation.object_id())?;
+        let Some(mut tuple) = Self::find_tuple(self.meta_table, &key, &schema, builder)? else {
+            return Ok(());
+        };
+        if snapshot.conflicts_with(tuple.xmin(), tuple.xmax()) {
+            return Ok(());
+        }
+
+        let creator = tuple.xmin();
+        if !snapshot.has_active_transactions() {
+            // Nobody needs the old versions.
+            tuple = Self::relation_as_meta_table_tuple(relation, creator)?;
+        } else {
+            let changes = Self::definition_changes(relation, &schema)?;
+            tuple.add_version_with(&changes, creator, &schema)?;
+        }
+        builder
+            .build_tree_mut(self.meta_table)
+            .update(self.meta_table, tuple, &schema)?;
+        Ok(())
+    }
+
+    /// Gives back the space of the dropped relations, and of the old versions of the other ones, when they are older than the horizon.
+    pub(crate) fn reclaim_pending(
+        &self,
+        builder: &BtreeBuilder,
+        horizon: TransactionId,
+    ) -> CatalogResult<()> {
+        if self.garbage.load(Ordering::Relaxed) {
+            self.reclaim(builder, horizon)?;
+        }
+        Ok(())
+    }
 
-        // Collect all user relations
+    /// Returns the bytes that have been freed in the meta table and in the meta index.
+    fn reclaim(
+        &self,
+        builder: &BtreeBuilder,
+        horizon: TransactionId,
+    ) -> CatalogResult<(usize, usize)> {
         let schema = meta_table_schema();
-        let relations_to_vacuum: Vec<(ObjectId, PageId, Schema)> = {
-            let mut meta_table = builder.build_tree(self.meta_table);
+        let mut pending = false;
+        let mut freed = 0;
+
+        for mut tuple in Self::collect_tuples(self.meta_table, builder)? {
+            let size = tuple.full_data().len();
+            let roots = Self::roots_of(&tuple, &schema)?;
+            let is_dead = tuple.xmax().is_some_and(|xmax| xmax < horizon);
+            let trimmed = tuple.vaccum_with(horizon, &schema)?;
+            let needed = if is_dead {
+                HashSet::new()
+            } else {
+                Self::roots_of(&tuple, &schema)?
+            };
 
-            if meta_table.is_empty()? {
-                return Ok(stats);
+            let mut tree = builder.build_tree_mut(self.meta_table);
+            if is_dead {
+                tree.remove_tuple(self.meta_table, &tuple, &schema)?;
+                freed += size;
+                if let Some(object_id) = Self::object_id_of(&tuple, &schema)? {
+                    self.row_ids.lock().remove(&object_id);
+                }
+            } else {
+                pending |= tuple.is_deleted() || tuple.has_history_with(&schema);
+                if trimmed > 0 {
+                    tree.update(self.meta_table, tuple, &schema)?;
+                    freed += trimmed;
+                }
             }
 
-            let mut relations = Vec::new();
-
-            for iter_result in meta_table.iter_forward()? {
-                if let Ok(pos) = iter_result {
-                    meta_table.with_cell_at(pos, |bytes| {
-                        let reader = TupleReader::from_schema(&schema);
-                        if let Some(layout) = reader.parse_for_snapshot(bytes, snapshot)? {
-                            let tuple = TupleRef::new(bytes, layout);
-                            let row = tuple.to_row_with(&schema)?;
-                            let relation = Relation::from_meta_table_row(row);
-
-                            relations.push((
-                                relation.object_id(),
-                                relation.root(),
-                                relation.schema().clone(),
-                            ));
-                        }
-                        Ok::<(), TupleError>(())
-                    })??;
-                }
+            for root in roots.difference(&needed) {
+                builder.build_tree_mut(*root).dealloc()?;
             }
+        }
 
-            relations
-        };
+        let schema = meta_index_schema();
+        let (index_freed, index_pending) =
+            Self::vacuum_tree(self.meta_index, &schema, builder, horizon)?;
 
-        // Vacuum each user relation
-        for (object_id, root, relation_schema) in relations_to_vacuum {
-            let bytes_freed =
-                self.vacuum_btree(root, &relation_schema, builder, snapshot, oldest_active_xid)?;
+        self.garbage
+            .store(pending || index_pending, Ordering::Relaxed);
+        Ok((freed, index_freed))
+    }
 
-            stats.tables_vacuumed += 1;
-            stats.total_bytes_freed += bytes_freed;
+    /// Gets the identifier of the relation that a tuple of the meta table describes.
+    fn object_id_of(tuple: &Tuple, schema: &Schema) -> CatalogResult<Option<ObjectId>> {
+        match tuple.as_tuple_ref_with(schema).key_with(0, schema)? {
+            DataTypeRef::BigUInt(value) => Ok(Some(value.value())),
+            _ => Ok(None),
         }
+    }
 
-        // vacuum the meta table itself
-        stats.meta_table_bytes_freed += self.vacuum_btree(
-            self.meta_table,
-            &meta_table_schema(),
-            builder,
-            snapshot,
-            oldest_active_xid,
-        )?;
+    /// Gets the trees that the versions of a tuple of the meta table refer to.
+    pub(crate) fn roots_of(tuple: &Tuple, schema: &Schema) -> CatalogResult<HashSet<PageId>> {
+        let versions = tuple.all_versions(schema)?;
+        Ok(versions
+            .into_iter()
+            .map(|(_, row)| Relation::from_meta_table_row(row).root())
+            .collect())
+    }
 
-        // Vacuum the meta index
-        stats.meta_index_bytes_freed += self.vacuum_btree(
-            self.meta_index,
-            &meta_index_schema(),
-            builder,
-            snapshot,
-            oldest_active_xid,
-        )?;
+    /// Vacuums all tuples in all relations, removing old MVCC versions
+    /// that are no longer needed by any transaction.
+    ///
+    /// Returns statistics about the vacuum operation.
+    pub(crate) fn vacuum(
+        &self,
+        builder: &BtreeBuilder,
+        horizon: TransactionId,
+    ) -> CatalogResult<VacuumStats> {
+        let mut stats = VacuumStats::default();
+        let (table_freed, index_freed) = self.reclaim(builder, horizon)?;
+        stats.meta_table_bytes_freed = table_freed;
+        stats.meta_index_bytes_freed = index_freed;
+
+        let schema = meta_table_schema();
+        for tuple in Self::collect_tuples(self.meta_table, builder)? {
+            let tables: Vec<Relation> = tuple
+                .all_versions(&schema)?
+                .into_iter()
+                .map(|(_, row)| Relation::from_meta_table_row(row))
+                .collect();
+            let Some(relation) = tables.first().filter(|relation| relation.is_table()) else {
+                continue;
+            };
+
+            let (freed, _) =
+                Self::vacuum_tree(relation.root(), relation.schema(), builder, horizon)?;
+            stats.total_bytes_freed += freed + self.vacuum_indexes(tables, builder)?;
+            stats.tables_vacuumed += 1;
+        }
 
         Ok(stats)
     }
 
     /// Vacuums a single B-tree, iterating through all tuples and removing
     /// old versions.
-    fn vacuum_btree(
-        &self,
+    ///
+    /// Returns the bytes that have been freed and whether there are still old versions.
+    fn vacuum_tree(
         root: PageId,
         schema: &Schema,
         builder: &BtreeBuilder,
-        snapshot: &Snapshot,
-        oldest_active_xid: TransactionId,
-    ) -> CatalogResult<usize> {
-        let mut tuples_to_vaccum = Vec::new();
-        let mut tuples_to_remove = Vec::new();
-        let mut total_freed = 0;
-        {
-            let mut tree = builder.build_tree(root);
+        horizon: TransactionId,
+    ) -> CatalogResult<(usize, bool)> {
+        let mut freed = 0;
+        let mut pending = false;
+        let mut tree = builder.build_tree_mut(root);
 
-            if tree.is_empty()? {
-                return Ok(0);
+        for mut tuple in Self::collect_tuples(root, builder)? {
+            if tuple.xmax().is_some_and(|xmax| xmax < horizon) {
+                freed += tuple.full_data().len();
+                tree.remove_tuple(root, &tuple, schema)?;
+                continue;
             }
-
-            // Vacuum each tuple
-            for position in tree.iter_forward()? {
-                if let Ok(pos) = position {
-                    tree.with_cell_at(pos, |bytes| {
-                        let mut tuple = Tuple::from_slice_unchecked(bytes)?;
-                        let xmin = tuple.xmin();
-
-                        let freed = if snapshot.is_transaction_aborted(xmin) || tuple.is_deleted() {
-                            let freed = tuple.full_data().len();
-                            tuples_to_remove.push(tuple);
-                            freed
-                        } else {
-                            let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
-                            if freed > 0 {
-                                tuples_to_vaccum.push(tuple);
-                            };
-                            freed
-                        };
-
-                        total_freed += freed;
-                        Ok::<(), TupleError>(())
-                    })??;
-                }
+            let trimmed = tuple.vaccum_with(horizon, schema)?;
+            pending |= tuple.is_deleted() || tuple.has_history_with(schema);
+            if trimmed > 0 {
+                freed += trimmed;
+                tree.update(root, tuple, schema)?;
             }
         }
 
-        let mut tree = builder.build_tree_mut(root);
+        Ok((freed, pending))
+    }
 
-        for tuple in tuples_to_vaccum {
-            tree.update(tree.get_root(), tuple, &schema)?;
-        }
+    /// Removes from the indexes of a table, given with all the versions of its definition, the entries that do not belong to any version of a row.
+    fn vacuum_indexes(
+        &self,
+        tables: Vec<Relation>,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<usize> {
+        let meta_schema = meta_table_schema();
+        let mut freed = 0;
 
-        for tuple in tuples_to_remove {
-            tree.remove_tuple(tree.get_root(), &tuple, &schema)?;
+        for index in tables.first().map(Relation::get_indexes).unwrap_or_default() {
+            let key = Self::meta_table_key(index.id())?;
+            let Some(tuple) = Self::find_tuple(self.meta_table, &key, &meta_schema, builder)?
+            else {
+                continue;
+            };
+            let Some((_, row)) = tuple.all_versions(&meta_schema)?.into_iter().next() else {
+                continue;
+            };
+            let relation = Relation::from_meta_table_row(row);
+            let schema = relation.schema();
+            let entry_builder = TupleBuilder::from_schema(schema);
+
+            let mut needed = HashSet::new();
+            for table in &tables {
+                let indexes = table.get_indexes();
+                let Some(index) = indexes.iter().find(|handle| handle.id() == index.id()) else {
+                    continue;
+                };
+                for tuple in Self::collect_tuples(table.root(), builder)? {
+                    for (_, row) in tuple.all_versions(table.schema())? {
+                        if let Some(entry) = index.entry(row.as_slice()) {
+                            let entry = entry_builder.build(&entry, 0)?;
+                            needed.insert(Self::key_bytes(&entry, schema));
+                        }
+                    }
+                }
+            }
+
+            let root = relation.root();
+            let mut tree = builder.build_tree_mut(root);
+            for entry in Self::collect_tuples(root, builder)? {
+                if !needed.contains(&Self::key_bytes(&entry, schema)) {
+                    freed += entry.full_data().len();
+                    tree.remove_tuple(root, &entry, schema)?;
+                }
+            }
         }
 
-        Ok(total_freed)
+        Ok(freed)
+    }
+
+    fn key_bytes(tuple: &Tuple, schema: &Schema) -> Vec<u8> {
+        let tuple = tuple.as_tuple_ref_with(schema);
+        tuple.key_bytes().to_vec()
     }
 
     pub(crate) fn get_relation_by_name(
@@ -461,60 +911,14 @@ impl Catalog {
         snapshot: &Snapshot,
     ) -> CatalogResult<Relation> {
         let id = self.bind_relation(name, builder, snapshot)?;
-        self.get_relation(id, builder, snapshot)
-    }
-    /// Updates the metadata of a given relation using the provided RcPageAccessor.
-    pub(crate) fn update_relation(
-        &self,
-        relation_id: ObjectId,
-        new_row_id: Option<u64>,
-        new_schema: Option<Schema>,
-        new_stats: Option<Stats>,
-        builder: &BtreeBuilder,
-        snapshot: &Snapshot,
-    ) -> CatalogResult<()> {
-        let schema = meta_table_schema();
-        let mut meta_table = builder.build_tree_mut(self.meta_table);
-        let relation_id_bytes = UInt64(relation_id).serialize()?;
-        let mut changes = std::collections::HashMap::new();
-
-        if let Some(id) = new_row_id {
-            let col_id = schema.bind_value("next_row_id")?;
-            changes.insert(col_id, DataType::BigUInt(UInt64::from(id)));
-        }
-
-        if let Some(table_schema) = new_schema {
-            let col_id = schema.bind_value("schema")?;
-            changes.insert(col_id, DataType::Blob(table_schema.to_blob()?));
-        }
-
-        if let Some(table_stats) = new_stats {
-            let col_id = schema.bind_value("stats")?;
-            changes.insert(col_id, DataType::Blob(table_stats.to_blob()?));
+        match self.get_relation(id, builder, snapshot) {
+            // It has been dropped.
+            Err(CatalogError::TableNotFound(_)) => {
+                Err(CatalogError::InvalidObjectName(name.to_string()))
+            }
+            result => result,
         }
-
-        let position = match meta_table.search(&relation_id_bytes, &schema)? {
-            SearchResult::Found(pos) => pos,
-            SearchResult::NotFound(_) => return Ok(()),
-        };
-
-        // Read the existing tuple
-        let tuple_reader = TupleReader::from_schema(&schema);
-        let existing_tuple = meta_table.with_cell_at(position, |bytes| {
-            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-            Tuple::from_slice_unchecked(bytes).ok()
-        })?;
-
-        let Some(mut tuple) = existing_tuple else {
-            return Ok(());
-        };
-
-        tuple.add_version_with(&changes, tuple.xmin(), &schema)?;
-        let result = meta_table.update(self.meta_table, tuple, &schema)?;
-
-        Ok(())
     }
-
     /// Removes a given relation using the provided
     /// Cascades the removal if required.
     pub(crate) fn remove_relation(
@@ -525,117 +929,38 @@ impl Catalog {
         cascade: bool,
     ) -> CatalogResult<()> {
         if cascade {
-            let schema = rel.schema();
-            let dependants = schema.get_dependants();
-
-            // Recursively remove object dependants
-            for dep in dependants {
-                let relation = self.get_relation(dep, builder, snapshot)?;
+            for index in rel.get_indexes() {
+                let relation = self.get_relation(index.id(), builder, snapshot)?;
                 self.remove_relation(relation, builder, snapshot, cascade)?;
             }
         };
 
         // First, deallocate the relation.
-        // Deallocate the relation.
-      {
-            let mut tree = builder.build_tree_mut(rel.root());
-            tree.dealloc()?;
-        }
-
-        // Obtain the relation metadata
-        let relation_id = rel.object_id();
-        let relation_id_bytes = UInt64(relation_id).serialize()?;
-        let relation_name_bytes = Blob::from(rel.name()).serialize()?;
-
-        // First remove the relation from the meta table
-        let schema = meta_table_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
-
-            let mut meta_table = builder.build_tree(self.meta_table);
-
-            let position = match meta_table.search(&relation_id_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
-
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_table.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
-        else {
-            return Ok(())
-        };
-
-
-        existing_tuple.delete(snapshot.xid())?;
-
-        {
-            let mut meta_table = builder.build_tree_mut(self.meta_table);
-            meta_table.update(self.meta_table, existing_tuple, &schema)?;
-        }
-
-        // Now do the same with the meta index.
-        let schema = meta_index_schema();
-        let Some((mut existing_tuple, old_row)) = ({
-            // First remove the relation from the meta table
-
-            let mut meta_index = builder.build_tree(self.meta_index);
-
-            let position = match meta_index.search(&relation_name_bytes, &schema)? {
-                SearchResult::Found(pos) => pos,
-                SearchResult::NotFound(_) => return Ok(()),
-            };
-
-            // Read the existing tuple
-            let tuple_reader = TupleReader::from_schema(&schema);
-            meta_index.with_cell_at(position, |bytes| {
-                if let Some(layout) = tuple_reader.parse_for_snapshot(bytes, &snapshot)? {
-                    let tuple_ref = TupleRef::new(bytes, layout);
-                    let row = tuple_ref.to_row_with(&schema)?;
-                    Ok::<Option<(Tuple, Row)>, TupleError>(Some((Tuple::from_slice_unchecked(bytes)?, row)))
-                } else {
-                    Ok(None)
-                }
-            })??
-        })
-        else {
-            return Ok(())
-        };
-
-
-        existing_tuple.delete(snapshot.xid())?;
-
-        {
-            let mut meta_index = builder.build_tree_mut(self.meta_index);
-            meta_index.update(self.meta_index, existing_tuple, &schema)?;
+        builder.build_tree_mut(rel.root()).dealloc()?;
+
+        let trees = [
+            (
+                self.meta_index,
+                meta_index_schema(),
+                Self::meta_index_key(rel.name())?,
+            ),
+            (
+                self.meta_table,
+                meta_table_schema(),
+                Self::meta_table_key(rel.object_id())?,
+            ),
+        ];
+        for (root, schema, key) in trees {
+            if let Some(existing) = Self::find_tuple(root, &key, &schema, builder)? {
+                builder
+                    .build_tree_mut(root)
+                    .remove_tuple(root, &existing, &schema)?;
+            }
         }
-
+        self.row_ids.lock().remove(&rel.object_id());
         Ok(())
     }
 
-    /// Removes a given relation using the provided id
-    /// Cascades the removal if required.
-    pub(crate) fn remove_relation_by_id(
-        &self,
-        relation_id: ObjectId,
-        builder: &BtreeBuilder,
-        snapshot: &Snapshot,
-        cascade: bool,
-        logger: Option<&TransactionLogger>,
-    ) -> CatalogResult<()> {
-        let rel = self.get_relation(relation_id, builder, snapshot)?;
-        self.remove_relation(rel, builder, snapshot, cascade)
-    }
-
     /// Stores a new relation in the meta table.
     pub(crate) fn store_relation(
         &self,
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index a2636f8..37a8d27 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -8,7 +8,7 @@ use crate::{
 
 use std::{
     alloc::AllocError,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
     io::Error as IoError,
@@ -762,6 +762,12 @@ impl<'a> TupleRef<'a> {
         self.version_xmin() <= xid
     }
 
+    /// The bytes of the key.
+    pub(crate) fn key_bytes(&self) -> &[u8] {
+        let start = self.layout.key_start();
+        &self.data[start..start + self.layout.key_size()]
+    }
+
     fn null_bitmap_with(&self, schema: &Schema) -> &[u8] {
         let start = self.layout.null_bitmap_start;
         let len = null_bitmap_size(schema.num_values());
@@ -1331,6 +1337,40 @@ impl Tuple {
         Ok(freed)
     }
 
+    /// Collects the contents of all the versions of the tuple, newest first, with their creators.
+    pub(crate) fn all_versions(&self, schema: &Schema) -> TupleResult<Vec<(TransactionId, Row)>> {
+        let mut tuple = self.clone();
+        // See the contents even if the tuple has been deleted.
+        TupleHeader::new(tuple.version(), tuple.xmin(), None)
+            .write_to(tuple.data.effective_data_mut(), 0);
+
+        let data = tuple.data.effective_data();
+        let layout = TupleReader::from_schema(schema).parse_last_version(data)?;
+        let mut creators = vec![layout.version_xmin];
+        let mut cursor = layout.data_end;
+        while DeltaHeader::aligned_offset(cursor) < tuple.data.len() {
+            let (xmin, end) = Self::skip_delta(data, DeltaHeader::aligned_offset(cursor), schema)?;
+            creators.push(xmin);
+            cursor = end;
+        }
+        creators.dedup();
+
+        let mut versions = Vec::with_capacity(creators.len());
+        for creator in creators {
+            let snapshot = Snapshot::new(
+                TransactionId::MAX,
+                0,
+                Some(creator),
+                HashSet::new(),
+                HashSet::new(),
+            );
+            if let Some(version) = tuple.as_tuple_ref(schema, &snapshot) {
+                versions.push((creator, version.to_row_with(schema)?));
+            }
+        }
+        Ok(versions)
+    }
+
     /// Returns the creator of the delta that starts at [cursor] and the offset where it ends.
     fn skip_delta(
         data: &[u8],
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index eab65b6..470cf92 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -2,16 +2,21 @@
 
 use crate::{
     box_err,
-    multithreading::runner::SharedTaskRunner,
+    multithreading::{
+        coordinator::{StatementAccess, TransactionCoordinator, TransactionError},
+        runner::SharedTaskRunner,
+    },
     runtime::{
         QueryError, QueryResult, QueryRunner, QueryRunnerResult, RuntimeError,
         context::{TransactionContext, TransactionLogger},
+        is_read_only,
     },
 };
 pub struct Session {
     ctx: TransactionContext,
     logger: TransactionLogger,
     task_runner: SharedTaskRunner,
+    coordinator: TransactionCoordinator,
 }
 
 impl Session {
@@ -19,26 +24,28 @@ impl Session {
         ctx: TransactionContext,
         logger: TransactionLogger,
         task_runner: SharedTaskRunner,
+        coordinator: TransactionCoordinator,
     ) -> Self {
         Self {
             ctx,
             logger,
             task_runner,
+            coordinator,
         }
     }
 
     pub fn commit_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_commit()?;
-        self.ctx.commit_transaction()?;
-        self.logger.log_end()?;
-        Ok(())
+        let access = StatementAccess::Write(self.coordinator.write_statement());
+        let result = self.ctx.commit(&self.logger);
+        self.coordinator.reclaim(self.ctx.catalog(), &access);
+        Ok(result?)
     }
 
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_abort()?;
-        self.ctx.abort_transaction()?;
-        self.logger.log_end()?;
-        Ok(())
+        let access = StatementAccess::Write(self.coordinator.write_statement());
+        let result = self.ctx.abort(&self.logger);
+        self.coordinator.reclaim(self.ctx.catalog(), &access);
+        Ok(result?)
     }
 
     /// Execute a SQL statement
@@ -47,6 +54,11 @@ impl Session {
     }
 
     fn execute_async(&self, sql: String) -> QueryRunnerResult<QueryResult> {
+        if !self.ctx.is_running() {
+            return Err(TransactionError::TransactionNotStarted.into());
+        }
+
+        let _access = self.coordinator.statement(is_read_only(&sql));
         let logger = self.logger.clone();
         // Build a temporary context for this thread
         // Cloning the handle creates an invalidated copy of itself that can fo everything but committing  or aborting.
@@ -68,6 +80,11 @@ unsafe impl Sync for Session {}
 
 impl Drop for Session {
     fn drop(&mut self) {
-        let _ = self.abort_transaction();
+        if !self.ctx.is_running() {
+            return;
+        }
+        let access = StatementAccess::Write(self.coordinator.write_statement());
+        let _ = self.ctx.rollback(&self.logger);
+        self.coordinator.reclaim(self.ctx.catalog(), &access);
     }
 }
-- 
2.43.0


From 2501f172531db848d750dc8f1b6e82ea996c0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:56 +0000
Subject: [PATCH 19/42] fix: default values of columns can be stored

---
 crates/axmos-db/src/schema/base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index a19114b..d5c2a6e 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -646,7 +646,7 @@ impl Column {
             self.default = None;
         } else {
             let required_size = default.runtime_size();
-            let mut writer = Vec::with_capacity(required_size);
+            let mut writer = vec![0u8; required_size];
             default.write_to(&mut writer, 0).map_err(|e| {
                 SchemaError::Other(format!("failed to deserialize default dataype {e}"))
             })?;
-- 
2.43.0


From 226af63c7352a68c2ee1857557be3c24354704a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 20/42] fix: unique checks find the first entry of a key

---
 crates/axmos-db/src/tree/bplustree.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 31bb884..e98d267 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -304,7 +304,7 @@ where
     ///
     ///  - [SearchResult::Found] if it finds the key it is looking for. The position contains the actual found position.
     ///
-    /// - [SearchResult::NotFound] if it does not find the key it is looking for.  The position will include the last slot index in the page.
+    /// - [SearchResult::NotFound] if it does not find the key it is looking for.  The position is that of the first slot with a greater key, which may be the end of the page.
     fn binary_search_page(
         page: &BtreePage,
         comparator: CellComparator,
@@ -312,7 +312,6 @@ where
         target_cursor: usize,
     ) -> BtreeResult<SearchResult> {
         let mut slot_count = page.num_slots();
-        let last_slot = slot_count;
         let mut left = 0;
         let mut right = slot_count;
 
@@ -332,7 +331,7 @@ where
             slot_count = right - left;
         }
 
-        Ok(SearchResult::NotFound(Position::new(page.id(), last_slot)))
+        Ok(SearchResult::NotFound(Position::new(page.id(), left)))
     }
 
     /// Finds the most suitable child to store a particular entry at a given page.
-- 
2.43.0


From 23e272287f50185b7522c04f42f3619165340a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 21/42] fix: DDL ignores rows the transaction itself added and
 removed

---
 crates/axmos-db/src/runtime/ddl.rs   |  3 +++
 crates/axmos-db/src/storage/tuple.rs | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index fb3b0f2..5ae54cd 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -489,6 +489,9 @@ impl DdlExecutor {
         let mut rows = Vec::new();
         for position in tree.iter_forward()? {
             let tuple = tree.with_cell_at(position?, Tuple::from_slice_unchecked)??;
+            if tuple.is_stillborn(schema)? {
+                continue;
+            }
             if snapshot.conflicts_with(tuple.xmin(), tuple.xmax()) {
                 let id = LogicalId::new(relation.object_id(), rows.len() as u64);
                 return Err(TransactionError::WriteWriteConflict(self.ctx.tid(), id).into());
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 37a8d27..7fe431c 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1337,6 +1337,18 @@ impl Tuple {
         Ok(freed)
     }
 
+    /// Whether the tuple has been deleted by the transaction that created it, so nobody else will see it.
+    pub(crate) fn is_stillborn(&self, schema: &Schema) -> TupleResult<bool> {
+        let Some(xmax) = self.xmax() else {
+            return Ok(false);
+        };
+        Ok(self.xmin() == xmax
+            && self
+                .all_versions(schema)?
+                .iter()
+                .all(|(creator, _)| *creator == xmax))
+    }
+
     /// Collects the contents of all the versions of the tuple, newest first, with their creators.
     pub(crate) fn all_versions(&self, schema: &Schema) -> TupleResult<Vec<(TransactionId, Row)>> {
         let mut tuple = self.clone();
-- 
2.43.0


From 3fc7e52e29b1d94fef15b3360dcd18be3a8b6327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 22/42] fix: index scans are only chosen where the index holds
 every row that can match

---
 crates/axmos-db/src/sql/planner/rules.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 84cddf6..9457d62 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1436,6 +1436,17 @@ impl FilterToIndexScanRule {
             return None;
         }
 
+        // Rows with a NULL in any of the columns are not in the index, so it can only be used if
+        // the predicate does not hold for them.
+        let bounds = || range_start.iter().chain(range_end.iter()).flatten();
+        let covers = |(position, column): (usize, &usize)| {
+            bounds().any(|bound| bound.col_idx == position)
+                || scan.schema.column(*column).is_some_and(|c| c.is_non_null)
+        };
+        if !indexed_columns.iter().enumerate().all(covers) {
+            return None;
+        }
+
         let mut index_scan = IndexScanOp::new(
             scan.table_id,
             index_handle.id(),
@@ -1659,7 +1670,8 @@ impl FilterToIndexScanRule {
 
     fn extract_literal(expr: &BoundExpression) -> Option<crate::DataType> {
         match expr {
-            BoundExpression::Literal { value } => Some(value.clone()),
+            // Comparisons with NULL do not hold for any row.
+            BoundExpression::Literal { value } if !value.is_null() => Some(value.clone()),
             _ => None,
         }
     }
-- 
2.43.0


From 20e1adb2c5a0ecf004c6d90544869fd2dae737ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 23/42] fix: LIKE matches characters, escapes and backtracks

---
 crates/axmos-db/src/types/blob.rs | 116 +++++++++++-------------------
 1 file changed, 40 insertions(+), 76 deletions(-)

diff --git a/crates/axmos-db/src/types/blob.rs b/crates/axmos-db/src/types/blob.rs
index a0f33a0..c24c869 100644
--- a/crates/axmos-db/src/types/blob.rs
+++ b/crates/axmos-db/src/types/blob.rs
@@ -396,94 +396,55 @@ impl<'a> BlobRef<'a> {
     }
 
     /// Internal pattern matching implementation.
+    ///
+    /// `%` matches any sequence, `_` any single character and `\` escapes the character after it.
     fn match_pattern(data: &[u8], pattern: &[u8]) -> bool {
         let mut data_idx = 0;
         let mut pattern_idx = 0;
-        let mut backtrack_data_idx = 0;
-        let mut backtrack_pattern_idx = 0;
-        let mut in_escape = false;
-
-        while data_idx < data.len() {
-            if pattern_idx < pattern.len() {
-                let pattern_char = pattern[pattern_idx];
-
-                if in_escape {
-                    // Escaped character, match literally
-                    if data[data_idx] != pattern_char {
-                        // No match, try backtracking if we have a % to expand
-                        if backtrack_pattern_idx > 0 {
-                            backtrack_data_idx += 1;
-                            data_idx = backtrack_data_idx;
-                            pattern_idx = backtrack_pattern_idx;
-                            continue;
-                        }
-                        return false;
-                    }
-                    data_idx += 1;
+        // Where to continue after the last % when the rest does not match.
+        let mut backtrack: Option<(usize, usize)> = None;
+
+        while data_idx < data.len() || pattern_idx < pattern.len() {
+            let matched = match pattern.get(pattern_idx) {
+                Some(b'%') => {
+                    backtrack = Some((data_idx, pattern_idx + 1));
                     pattern_idx += 1;
-                    in_escape = false;
                     continue;
                 }
-
-                match pattern_char {
-                    b'\\' => {
-                        // Next character is escaped
-                        in_escape = true;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'%' => {
-                        // % matches any sequence
-                        // Store backtrack positions
-                        backtrack_data_idx = data_idx;
-                        backtrack_pattern_idx = pattern_idx + 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    b'_' => {
-                        // _ matches any single character
-                        data_idx += 1;
-                        pattern_idx += 1;
-                        continue;
-                    }
-                    _ => {
-                        // Literal character
-                        if data[data_idx] != pattern_char {
-                            // No match, try backtracking if we have a % to expand
-                            if backtrack_pattern_idx > 0 {
-                                backtrack_data_idx += 1;
-                                data_idx = backtrack_data_idx;
-                                pattern_idx = backtrack_pattern_idx;
-                                continue;
-                            }
-                            return false;
-                        }
-                        data_idx += 1;
-                        pattern_idx += 1;
-                    }
+                Some(b'_') if data_idx < data.len() => {
+                    Some((Self::character_len(&data[data_idx..]), 1))
+                }
+                Some(b'\\') if pattern_idx + 1 < pattern.len() => {
+                    (data.get(data_idx) == Some(&pattern[pattern_idx + 1])).then_some((1, 2))
+                }
+                Some(literal) => (data.get(data_idx) == Some(literal)).then_some((1, 1)),
+                None => None,
+            };
+
+            match (matched, backtrack) {
+                (Some((data_step, pattern_step)), _) => {
+                    data_idx += data_step;
+                    pattern_idx += pattern_step;
                 }
-            } else if backtrack_pattern_idx > 0 {
-                // Pattern exhausted but we have a % to expand
-                backtrack_data_idx += 1;
-                data_idx = backtrack_data_idx;
-                pattern_idx = backtrack_pattern_idx;
-            } else {
-                // Pattern exhausted but data remains (only OK if trailing %)
-                // Check if pattern ends with %
-                if pattern.last() == Some(&b'%') {
-                    return true;
+                // Expand the last %
+                (None, Some((start, next))) if start < data.len() => {
+                    data_idx = start + 1;
+                    pattern_idx = next;
+                    backtrack = Some((data_idx, next));
                 }
-                return false;
+                _ => return false,
             }
         }
 
-        // Skip any trailing % in pattern
-        while pattern_idx < pattern.len() && pattern[pattern_idx] == b'%' {
-            pattern_idx += 1;
-        }
+        true
+    }
 
-        // Check if we consumed all pattern
-        pattern_idx == pattern.len()
+    /// Bytes that the first character of the (not empty) data takes.
+    fn character_len(data: &[u8]) -> usize {
+        if data[0] < 0xC0 {
+            return 1;
+        }
+        1 + data[1..].iter().take_while(|b| **b & 0xC0 == 0x80).take(3).count()
     }
 
     /// Case-insensitive LIKE comparison (for text blobs).
@@ -497,6 +458,9 @@ impl<'a> BlobRef<'a> {
     /// Checks if blob contains a substring.
     pub fn contains(&self, substring: &[u8]) -> TypeSystemResult<bool> {
         let data = self.data()?;
+        if substring.is_empty() {
+            return Ok(true);
+        }
         Ok(data
             .windows(substring.len())
             .any(|window| window == substring))
-- 
2.43.0


From 979c281e6fdd1042719355cff57362a050944551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 24/42] fix: removing a padded cell releases all the space it
 took

---
 crates/axmos-db/src/storage/core/buffer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index b063ed6..c1214f4 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -858,6 +858,8 @@ where
             ));
         };
 
+        // The copy might need less padding than the stored cell.
+        let released_space = self.cell(index).storage_size();
         let cell = self.owned_cell(index);
 
         // Remove the index as if we removed from a Vec.
@@ -868,7 +870,7 @@ where
         // Cannot put more free space here as it would cause a misalignment.
         // Must correct later through defragmentation.
         // Thanks [miri]
-        self.add_free_space(cell.storage_size() as u32);
+        self.add_free_space(released_space as u32);
 
         // Decrease length.
         self.remove_slots(1);
-- 
2.43.0


From 722617bb9c75ffa19258907cb3fae22aa7b8dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 25/42] fix: types of arithmetic, COALESCE and CASE hold the
 values they give

---
 crates/axmos-db/src/sql/binder/binder.rs | 42 +++++++++++++++++++-----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 0240f55..c3398ce 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -815,10 +815,13 @@ impl<'a> Binder<'a> {
                     .transpose()?
                     .map(Box::new);
 
-                let result_type = when_then
-                    .first()
-                    .map(|(_, t)| t.data_type())
-                    .unwrap_or(DataTypeKind::Null);
+                let result_type = self.common_type(
+                    when_then
+                        .iter()
+                        .map(|(_, then)| then)
+                        .chain(else_expr.as_deref())
+                        .map(|result| result.data_type()),
+                );
 
                 Ok(BoundExpression::Case {
                     operand: bound_operand,
@@ -1134,7 +1137,8 @@ impl<'a> Binder<'a> {
             | ScalarFunction::Ceil
             | ScalarFunction::Floor
             | ScalarFunction::Sqrt => DataTypeKind::Double,
-            ScalarFunction::Coalesce | ScalarFunction::NullIf | ScalarFunction::Cast => args
+            ScalarFunction::Coalesce => self.common_type(args.iter().map(|a| a.data_type())),
+            ScalarFunction::NullIf | ScalarFunction::Cast => args
                 .first()
                 .map(|a| a.data_type())
                 .unwrap_or(DataTypeKind::Null),
@@ -1142,15 +1146,35 @@ impl<'a> Binder<'a> {
         }
     }
 
+    /// Type of an arithmetic operation between two types.
     fn wider_numeric(&self, a: DataTypeKind, b: DataTypeKind) -> DataTypeKind {
+        let is_floating =
+            |kind: DataTypeKind| matches!(kind, DataTypeKind::Float | DataTypeKind::Double);
+        let is_unsigned =
+            |kind: DataTypeKind| matches!(kind, DataTypeKind::UInt | DataTypeKind::BigUInt);
+
         match (a, b) {
-            (DataTypeKind::Double, _) | (_, DataTypeKind::Double) => DataTypeKind::Double,
-            (DataTypeKind::BigInt, _) | (_, DataTypeKind::BigInt) => DataTypeKind::BigInt,
-            (DataTypeKind::Int, _) | (_, DataTypeKind::Int) => DataTypeKind::Int,
-            _ => a,
+            (DataTypeKind::Null, other) | (other, DataTypeKind::Null) => other,
+            (a, b) if is_floating(a) || is_floating(b) => DataTypeKind::Double,
+            (DataTypeKind::Int, DataTypeKind::Int) => DataTypeKind::Int,
+            (a, b) if is_unsigned(a) && is_unsigned(b) => DataTypeKind::BigUInt,
+            _ => DataTypeKind::BigInt,
         }
     }
 
+    /// Type which is able to hold the values of any of the given types.
+    fn common_type(&self, kinds: impl IntoIterator<Item = DataTypeKind>) -> DataTypeKind {
+        kinds
+            .into_iter()
+            .reduce(|a, b| match (a, b) {
+                (a, b) if a == b => a,
+                (DataTypeKind::Null, other) | (other, DataTypeKind::Null) => other,
+                (a, b) if a.is_numeric() && b.is_numeric() => self.wider_numeric(a, b),
+                (a, _) => a,
+            })
+            .unwrap_or(DataTypeKind::Null)
+    }
+
     fn add_to_scope(&mut self, entry: ScopeEntry) -> BinderResult<()> {
         if let Some(scope) = self.scopes.current_mut() {
             scope.add_entry(entry)?;
-- 
2.43.0


From e99b038948fa8fe7b9a6c2823aa080ab7a394ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 26/42] fix: decimal literals are not integers

---
 crates/axmos-db/src/sql/binder/analyzer.rs |  4 +++-
 crates/axmos-db/src/sql/binder/binder.rs   |  6 ++++++
 crates/axmos-db/src/sql/parser/ast.rs      |  3 +++
 crates/axmos-db/src/sql/parser/lexer.rs    | 12 ++++++++++--
 crates/axmos-db/src/sql/parser/mod.rs      |  8 ++++++++
 5 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index 0c982f5..f4611c7 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -293,6 +293,7 @@ impl Analyzer {
             // Literals don't need validation
             Expr::Number(_)
             | Expr::Integer(_)
+            | Expr::Decimal(_)
             | Expr::String(_)
             | Expr::Boolean(_)
             | Expr::Null
@@ -406,7 +407,7 @@ impl Analyzer {
     /// Infers the data type of an expression.
     fn infer_expr_type(&self, expr: &Expr) -> AnalyzerResult<DataTypeKind> {
         match expr {
-            Expr::Number(_) | Expr::Integer(_) => Ok(DataTypeKind::Double),
+            Expr::Number(_) | Expr::Integer(_) | Expr::Decimal(_) => Ok(DataTypeKind::Double),
             Expr::String(_) => Ok(DataTypeKind::Blob),
             Expr::Boolean(_) => Ok(DataTypeKind::Bool),
             Expr::Null => Ok(DataTypeKind::Null),
@@ -878,6 +879,7 @@ impl Analyzer {
         match expr {
             Expr::Number(_)
             | Expr::Integer(_)
+            | Expr::Decimal(_)
             | Expr::String(_)
             | Expr::Boolean(_)
             | Expr::Null => Ok(()),
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index c3398ce..cffff04 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -744,6 +744,9 @@ impl<'a> Binder<'a> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
             Expr::Integer(n) => Ok(self.bind_integer(*n)),
+            Expr::Decimal(n) => Ok(BoundExpression::Literal {
+                value: DataType::Double((*n).into()),
+            }),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -979,6 +982,9 @@ impl<'a> Binder<'a> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
             Expr::Integer(n) => Ok(self.bind_integer(*n)),
+            Expr::Decimal(n) => Ok(BoundExpression::Literal {
+                value: DataType::Double((*n).into()),
+            }),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
diff --git a/crates/axmos-db/src/sql/parser/ast.rs b/crates/axmos-db/src/sql/parser/ast.rs
index ccc21d8..89f2e06 100644
--- a/crates/axmos-db/src/sql/parser/ast.rs
+++ b/crates/axmos-db/src/sql/parser/ast.rs
@@ -11,6 +11,8 @@ pub(crate) enum Expr {
     Number(f64),
     /// Integer that cannot be represented exactly as f64
     Integer(i128),
+    /// Decimals without fraction
+    Decimal(f64),
     String(String),
     Boolean(bool),
     Null,
@@ -786,6 +788,7 @@ impl Display for Expr {
         match self {
             Expr::Number(n) => write!(f, "{n}"),
             Expr::Integer(n) => write!(f, "{n}"),
+            Expr::Decimal(n) => write!(f, "{n:.1}"),
             Expr::String(s) => write!(f, "'{s}'"),
             Expr::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),
             Expr::Null => write!(f, "NULL"),
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index 8ee873b..4426322 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -125,6 +125,8 @@ pub enum Token {
     NumberLiteral(f64),
     /// Integers that cannot be represented exactly as f64
     IntegerLiteral(u64),
+    /// Decimals without fraction
+    DecimalLiteral(f64),
 
     // Symbols and operators
     Star,      // *
@@ -156,6 +158,7 @@ impl fmt::Display for Token {
             Token::StringLiteral(s) => write!(f, "'{s}'"),
             Token::NumberLiteral(n) => write!(f, "{n}"),
             Token::IntegerLiteral(n) => write!(f, "{n}"),
+            Token::DecimalLiteral(n) => write!(f, "{n:.1}"),
             Token::Star => write!(f, "*"),
             Token::Comma => write!(f, ","),
             Token::Dot => write!(f, "."),
@@ -292,7 +295,8 @@ impl Lexer {
         let mut num_str = String::new();
 
         while let Some(ch) = self.current_char {
-            if ch.is_ascii_digit() || ch == DECIMAL_MARKER {
+            let is_marker = ch == DECIMAL_MARKER && !num_str.contains(DECIMAL_MARKER);
+            if ch.is_ascii_digit() || is_marker {
                 num_str.push(ch);
                 self.advance();
             } else {
@@ -302,7 +306,11 @@ impl Lexer {
 
         match num_str.parse::<u64>() {
             Ok(int) if int > MAX_EXACT_INTEGER => Token::IntegerLiteral(int),
-            _ => Token::NumberLiteral(num_str.parse().unwrap_or(0.0)),
+            Ok(int) => Token::NumberLiteral(int as f64),
+            Err(_) => match num_str.parse::<f64>().unwrap_or(0.0) {
+                n if n.fract() == 0.0 => Token::DecimalLiteral(n),
+                n => Token::NumberLiteral(n),
+            },
         }
     }
 
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index 1b5b280..dfd227b 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -147,6 +147,11 @@ impl Parser {
                 self.next_token();
                 Ok(Expr::Number(num))
             }
+            Token::DecimalLiteral(n) => {
+                let num = *n;
+                self.next_token();
+                Ok(Expr::Decimal(num))
+            }
             Token::IntegerLiteral(n) => {
                 let num = *n as i128;
                 self.next_token();
@@ -281,6 +286,9 @@ impl Parser {
                 } else if let Token::IntegerLiteral(n) = self.current_token {
                     self.next_token();
                     Ok(Expr::Integer(-(n as i128)))
+                } else if let Token::DecimalLiteral(n) = self.current_token {
+                    self.next_token();
+                    Ok(Expr::Decimal(-n))
                 } else {
                     // Regular unary minus for expressions
                     let expr = self.parse_expr_bp(9)?;
-- 
2.43.0


From ab9ed01684cfebd3a59815611c6ceeddc0276bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 27/42] fix: the trees that a transaction replaced itself are
 given back

---
 crates/axmos-db/src/schema/catalog.rs | 24 +++----
 crates/axmos-db/src/storage/tuple.rs  | 97 +++++++++++++++++----------
 2 files changed, 70 insertions(+), 51 deletions(-)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 8602af3..6315b47 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -407,11 +407,7 @@ impl Catalog {
             return Err(CatalogError::Conflict(tid, object_id));
         }
 
-        logger.log_create(
-            object_id,
-            Self::log_image(relation, tid)?,
-            Box::default(),
-        )?;
+        logger.log_create(object_id, Self::log_image(relation, tid)?, Box::default())?;
 
         match existing {
             Some(existing) => {
@@ -431,13 +427,7 @@ impl Catalog {
         }
 
         let tuple = Self::relation_as_meta_table_tuple(relation, tid)?;
-        Self::insert_tuple(
-            self.meta_table,
-            tuple,
-            meta_table_schema(),
-            builder,
-            logger,
-        )
+        Self::insert_tuple(self.meta_table, tuple, meta_table_schema(), builder, logger)
     }
 
     /// Changes the definition of a relation.
@@ -776,10 +766,10 @@ impl Catalog {
 
     /// Gets the trees that the versions of a tuple of the meta table refer to.
     pub(crate) fn roots_of(tuple: &Tuple, schema: &Schema) -> CatalogResult<HashSet<PageId>> {
-        let versions = tuple.all_versions(schema)?;
+        let versions = tuple.full_history(schema)?;
         Ok(versions
             .into_iter()
-            .map(|(_, row)| Relation::from_meta_table_row(row).root())
+            .map(|row| Relation::from_meta_table_row(row).root())
             .collect())
     }
 
@@ -857,7 +847,11 @@ impl Catalog {
         let meta_schema = meta_table_schema();
         let mut freed = 0;
 
-        for index in tables.first().map(Relation::get_indexes).unwrap_or_default() {
+        for index in tables
+            .first()
+            .map(Relation::get_indexes)
+            .unwrap_or_default()
+        {
             let key = Self::meta_table_key(index.id())?;
             let Some(tuple) = Self::find_tuple(self.meta_table, &key, &meta_schema, builder)?
             else {
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 7fe431c..5bde1a6 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -604,56 +604,67 @@ impl<'a> TupleReader<'a> {
             return Ok(Some(layout));
         }
 
-        let num_values = self.schema.num_values();
-        let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
 
         while cursor < data.len() {
-            let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
-            cursor = header_end;
+            cursor = self.parse_previous_version(data, &mut layout, cursor)?;
 
-            layout.version_xmax = Some(layout.version_xmin);
-            layout.version = delta_header.version();
-            layout.version_xmin = delta_header.xmin();
+            if layout.version_xmin == snapshot.xid()
+                || snapshot.is_committed_before_snapshot(layout.version_xmin)
+            {
+                return Ok(Some(layout));
+            }
+        }
 
-            let num_changes = data[cursor] as usize;
-            cursor += 1;
+        Ok(None)
+    }
 
-            // Delta's FULL null bitmap - valid for ALL values
-            layout.null_bitmap_start = cursor;
-            let delta_bitmap = &data[cursor..cursor + bitmap_size];
-            cursor += bitmap_size;
+    /// Turns the layout of a version into the one of the version before it, which is the delta that starts at [cursor].
+    /// Returns the offset where the delta ends.
+    fn parse_previous_version(
+        &self,
+        data: &[u8],
+        layout: &mut TupleLayout,
+        cursor: usize,
+    ) -> TupleResult<usize> {
+        let bitmap_size = null_bitmap_size(self.schema.num_values());
+        let (delta_header, mut cursor) = DeltaHeader::read_from(data, cursor);
 
-            // Parse changes and update value_offsets for non-null changed values
-            for _ in 0..num_changes {
-                let field_idx = data[cursor] as usize;
-                cursor += 1;
+        layout.version_xmax = Some(layout.version_xmin);
+        layout.version = delta_header.version();
+        layout.version_xmin = delta_header.xmin();
 
-                // Check if this field is null using the delta's full bitmap
-                let is_null = Self::check_null(delta_bitmap, field_idx);
+        let num_changes = data[cursor] as usize;
+        cursor += 1;
 
-                if !is_null {
-                    let dtype = self
-                        .schema
-                        .value(field_idx)
-                        .ok_or(TupleError::ValueError(field_idx))?
-                        .datatype();
+        // Delta's FULL null bitmap - valid for ALL values
+        layout.null_bitmap_start = cursor;
+        let delta_bitmap = &data[cursor..cursor + bitmap_size];
+        cursor += bitmap_size;
 
-                    layout.value_offsets[field_idx] = cursor;
-                    let (_, new_cursor) = dtype.deserialize(data, cursor)?;
-                    cursor = new_cursor;
-                }
-                // If null, the offset doesn't matter - null check happens first
-            }
+        // Parse changes and update value_offsets for non-null changed values
+        for _ in 0..num_changes {
+            let field_idx = data[cursor] as usize;
+            cursor += 1;
 
-            if layout.version_xmin == snapshot.xid()
-                || snapshot.is_committed_before_snapshot(layout.version_xmin)
-            {
-                return Ok(Some(layout));
+            // Check if this field is null using the delta's full bitmap
+            let is_null = Self::check_null(delta_bitmap, field_idx);
+
+            if !is_null {
+                let dtype = self
+                    .schema
+                    .value(field_idx)
+                    .ok_or(TupleError::ValueError(field_idx))?
+                    .datatype();
+
+                layout.value_offsets[field_idx] = cursor;
+                let (_, new_cursor) = dtype.deserialize(data, cursor)?;
+                cursor = new_cursor;
             }
+            // If null, the offset doesn't matter - null check happens first
         }
 
-        Ok(None)
+        Ok(cursor)
     }
 
     #[inline]
@@ -1383,6 +1394,20 @@ impl Tuple {
         Ok(versions)
     }
 
+    /// Collects the contents that the tuple has ever had, newest first, including the ones that a transaction has replaced itself.
+    pub(crate) fn full_history(&self, schema: &Schema) -> TupleResult<Vec<Row>> {
+        let data = self.data.effective_data();
+        let reader = TupleReader::from_schema(schema);
+        let mut layout = reader.parse_last_version(data)?;
+        let mut cursor = layout.delta_start();
+        let mut versions = vec![TupleRef::new(data, layout.clone()).to_row_with(schema)?];
+        while cursor < data.len() {
+            cursor = reader.parse_previous_version(data, &mut layout, cursor)?;
+            versions.push(TupleRef::new(data, layout.clone()).to_row_with(schema)?);
+        }
+        Ok(versions)
+    }
+
     /// Returns the creator of the delta that starts at [cursor] and the offset where it ends.
     fn skip_delta(
         data: &[u8],
-- 
2.43.0


From 54cd67ccf3c6b0c6b906368e7430bbfa6282a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 28/42] fix: rows that only the previous tree of a table has
 keep their identifiers

---
 crates/axmos-db/src/runtime/ddl.rs    | 15 ++++++++++++---
 crates/axmos-db/src/schema/catalog.rs | 26 +++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 5ae54cd..ee711aa 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -356,7 +356,7 @@ impl DdlExecutor {
     }
 
     fn add_column(&mut self, relation: &mut Relation, column: Column) -> RuntimeResult<()> {
-        let rows = self.rows(relation)?;
+        let rows = self.take_rows(relation)?;
         let value = column.default_value()?;
         relation.add_column(column)?;
 
@@ -390,7 +390,7 @@ impl DdlExecutor {
             self.alter_relation(&mut referencing, false)?;
         }
 
-        let rows = self.rows(relation)?;
+        let rows = self.take_rows(relation)?;
 
         // The indexes of the column go with it.
         for index in relation.get_indexes() {
@@ -457,7 +457,7 @@ impl DdlExecutor {
         column_idx: usize,
         new_type: DataTypeKind,
     ) -> RuntimeResult<()> {
-        let mut rows = self.rows(relation)?;
+        let mut rows = self.take_rows(relation)?;
         for row in &mut rows {
             row[column_idx] = row[column_idx].try_cast(new_type)?;
         }
@@ -503,6 +503,15 @@ impl DdlExecutor {
         Ok(rows)
     }
 
+    /// Reads the rows of a table that is going to be moved to another tree.
+    fn take_rows(&self, relation: &Relation) -> RuntimeResult<Vec<Row>> {
+        // There may be rows that nobody sees anymore, but their identifiers are taken.
+        self.ctx
+            .catalog()
+            .keep_row_ids(relation, &self.ctx.tree_builder())?;
+        self.rows(relation)
+    }
+
     /// Moves a table, whose columns have changed, and some of its indexes to new trees.
     /// The previous ones are still needed by the transactions that do not see the change.
     fn replace_rows(
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 6315b47..1f7b2f7 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -196,16 +196,32 @@ impl Catalog {
         let mut row_ids = self.row_ids.lock();
         let next = match row_ids.get(&relation.object_id()) {
             Some(next) => *next,
-            None => {
-                let last = Self::last_key(relation.root(), relation.schema(), builder)?;
-                let first_free = last.map_or(0, |key| key + 1);
-                first_free.max(relation.next_row_id().value())
-            }
+            None => Self::first_free_row_id(relation, builder)?,
         };
         row_ids.insert(relation.object_id(), next + 1);
         Ok(UInt64::from(next))
     }
 
+    /// Makes sure that new rows do not take the identifiers of rows that are only in the current tree of a relation.
+    pub(crate) fn keep_row_ids(
+        &self,
+        relation: &Relation,
+        builder: &BtreeBuilder,
+    ) -> CatalogResult<()> {
+        let mut row_ids = self.row_ids.lock();
+        if !row_ids.contains_key(&relation.object_id()) {
+            let next = Self::first_free_row_id(relation, builder)?;
+            row_ids.insert(relation.object_id(), next);
+        }
+        Ok(())
+    }
+
+    fn first_free_row_id(relation: &Relation, builder: &BtreeBuilder) -> CatalogResult<RowId> {
+        let last = Self::last_key(relation.root(), relation.schema(), builder)?;
+        let first_free = last.map_or(0, |key| key + 1);
+        Ok(first_free.max(relation.next_row_id().value()))
+    }
+
     /// Gets the greatest key of a table.
     fn last_key(
         root: PageId,
-- 
2.43.0


From 06d12cb4f9406deb1162abb309b69eb5d70d1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 29/42] fix: stored statistics and definitions are decoded from
 aligned memory

---
 crates/axmos-db/src/schema/base.rs  | 16 ++++++++--------
 crates/axmos-db/src/schema/stats.rs |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index d5c2a6e..43b85f9 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -401,7 +401,7 @@ impl Schema {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Schema, RkyvError>(&aligned)?;
         Ok(schema)
@@ -414,7 +414,7 @@ impl Schema {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Schema, RkyvError>(&aligned)?;
         Ok(schema)
@@ -530,7 +530,7 @@ impl TableConstraint {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -543,7 +543,7 @@ impl TableConstraint {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -585,7 +585,7 @@ impl ForeignKeyInfo {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -598,7 +598,7 @@ impl ForeignKeyInfo {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -705,7 +705,7 @@ impl Column {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
@@ -718,7 +718,7 @@ impl Column {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
         let schema = from_bytes::<Self, RkyvError>(&aligned)?;
         Ok(schema)
diff --git a/crates/axmos-db/src/schema/stats.rs b/crates/axmos-db/src/schema/stats.rs
index 0b082eb..bf1334b 100644
--- a/crates/axmos-db/src/schema/stats.rs
+++ b/crates/axmos-db/src/schema/stats.rs
@@ -350,9 +350,9 @@ impl Stats {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
-        let stats = from_bytes::<Stats, RkyvError>(data)?;
+        let stats = from_bytes::<Stats, RkyvError>(&aligned)?;
         Ok(stats)
     }
 }
-- 
2.43.0


From 07ac81faa30f14ec8d2e9c80ce80feda2529a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 30/42] fix: queries are planned from their own expressions,
 and whatever the order they are costed in

The memo took operators of the same kind and size for the same operator, so the
predicates of one part of a query could be used in another. A group that was
pruned once had no plan for any other parent.
---
 crates/axmos-db/src/sql/planner/memo.rs | 58 ++-----------------------
 crates/axmos-db/src/sql/planner/mod.rs  | 15 +++++--
 2 files changed, 14 insertions(+), 59 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/memo.rs b/crates/axmos-db/src/sql/planner/memo.rs
index 4617d12..ea0a323 100644
--- a/crates/axmos-db/src/sql/planner/memo.rs
+++ b/crates/axmos-db/src/sql/planner/memo.rs
@@ -213,62 +213,10 @@ impl Memo {
         hasher.finish()
     }
 
-    /// Hashes operator-specific data for deduplication.
+    /// Hashes operator-specific data for deduplication. Two operators are only the same if
+    /// everything in them is, their expressions included.
     fn hash_operator(&self, op: &LogicalOperator, hasher: &mut DefaultHasher) {
-        match op {
-            LogicalOperator::TableScan(scan) => {
-                scan.table_id.hash(hasher);
-                scan.table_name.hash(hasher);
-                scan.columns.hash(hasher);
-                // Note: predicate not hashed (structural comparison would be complex)
-            }
-            LogicalOperator::IndexScan(scan) => {
-                scan.table_id.hash(hasher);
-                scan.index_id.hash(hasher);
-                scan.index_columns.hash(hasher);
-            }
-            LogicalOperator::Project(proj) => {
-                proj.expressions.len().hash(hasher);
-                proj.output_schema.num_columns().hash(hasher);
-            }
-            LogicalOperator::Join(join) => {
-                std::mem::discriminant(&join.join_type).hash(hasher);
-            }
-            LogicalOperator::Aggregate(agg) => {
-                agg.group_by.len().hash(hasher);
-                agg.aggregates.len().hash(hasher);
-            }
-            LogicalOperator::Sort(sort) => {
-                sort.order_by.len().hash(hasher);
-            }
-            LogicalOperator::Limit(limit) => {
-                limit.limit.hash(hasher);
-                limit.offset.hash(hasher);
-            }
-            LogicalOperator::Insert(ins) => {
-                ins.table_id.hash(hasher);
-                ins.columns.hash(hasher);
-            }
-            LogicalOperator::Update(upd) => {
-                upd.table_id.hash(hasher);
-                upd.assignments.len().hash(hasher);
-            }
-            LogicalOperator::Delete(del) => {
-                del.table_id.hash(hasher);
-            }
-            LogicalOperator::Values(vals) => {
-                vals.rows.len().hash(hasher);
-                if let Some(first) = vals.rows.first() {
-                    first.len().hash(hasher);
-                }
-            }
-            LogicalOperator::Empty(_)
-            | LogicalOperator::Distinct(_)
-            | LogicalOperator::Filter(_)
-            | LogicalOperator::Materialize(_) => {
-                // These are determined by their children
-            }
-        }
+        format!("{op:?}").hash(hasher);
     }
 }
 
diff --git a/crates/axmos-db/src/sql/planner/mod.rs b/crates/axmos-db/src/sql/planner/mod.rs
index 7e3977e..f0d2e55 100644
--- a/crates/axmos-db/src/sql/planner/mod.rs
+++ b/crates/axmos-db/src/sql/planner/mod.rs
@@ -378,12 +378,18 @@ impl<'a> CascadesOptimizer<'a> {
         for (i, &child_group) in phys_expr.children.iter().enumerate() {
             let child_required = phys_expr.op.required_child_properties(i, parent_required);
 
-            let remaining = upper_bound - children_cost;
-            if remaining <= 0.0 {
+            if children_cost >= upper_bound {
                 return Ok(None); // Pruned
             }
 
-            match self.optimize_group(memo, child_group, &child_required, remaining)? {
+            // The winner of the child is kept for every parent: it must not depend on what this
+            // one can still spend.
+            match self.optimize_group(
+                memo,
+                child_group,
+                &child_required,
+                self.config.upper_bound,
+            )? {
                 Some(cost) => {
                     children_cost += cost;
                     let child_stats = self.derive_group_stats(memo, child_group);
@@ -398,7 +404,8 @@ impl<'a> CascadesOptimizer<'a> {
             self.cost_model
                 .compute_cost(&phys_expr.op, self.deriver.provider(), &children_stats);
 
-        let total = children_cost + op_cost;
+        // However expensive (the estimates of many joins may even overflow), it is a plan.
+        let total = (children_cost + op_cost).min(f64::MAX / 2.0);
 
         if total >= upper_bound {
             return Ok(None); // Pruned
-- 
2.43.0


From d8e3e7c676fa55a6af7a6a11685a6c8b934246e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 31/42] fix: reordered joins and pushed predicates use the
 columns they were written with

---
 crates/axmos-db/src/sql/binder/bounds.rs   | 144 ++++++
 crates/axmos-db/src/sql/planner/logical.rs |  80 ++--
 crates/axmos-db/src/sql/planner/rules.rs   | 487 ++++++++-------------
 3 files changed, 376 insertions(+), 335 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/bounds.rs b/crates/axmos-db/src/sql/binder/bounds.rs
index d2a9040..24d7728 100644
--- a/crates/axmos-db/src/sql/binder/bounds.rs
+++ b/crates/axmos-db/src/sql/binder/bounds.rs
@@ -161,6 +161,150 @@ impl BoundExpression {
             Self::Star => DataTypeKind::Null,
         }
     }
+
+    /// Calls `visit` with every direct operand of the expression.
+    pub(crate) fn for_each_operand<'e>(&'e self, visit: &mut dyn FnMut(&'e BoundExpression)) {
+        match self {
+            Self::ColumnBinding(_)
+            | Self::Literal { .. }
+            | Self::Subquery { .. }
+            | Self::Exists { .. }
+            | Self::Star => {}
+            Self::BinaryOp { left, right, .. } => {
+                visit(left);
+                visit(right);
+            }
+            Self::UnaryOp { expr, .. }
+            | Self::InSubquery { expr, .. }
+            | Self::IsNull { expr, .. } => visit(expr),
+            Self::Function { args, .. } => args.iter().for_each(visit),
+            Self::Aggregate { arg, .. } => {
+                if let Some(arg) = arg {
+                    visit(arg);
+                }
+            }
+            Self::Case {
+                operand,
+                when_then,
+                else_expr,
+                ..
+            } => {
+                if let Some(operand) = operand {
+                    visit(operand);
+                }
+                for (when, then) in when_then {
+                    visit(when);
+                    visit(then);
+                }
+                if let Some(else_expr) = else_expr {
+                    visit(else_expr);
+                }
+            }
+            Self::InList { expr, list, .. } => {
+                visit(expr);
+                list.iter().for_each(visit);
+            }
+            Self::Between {
+                expr, low, high, ..
+            } => {
+                visit(expr);
+                visit(low);
+                visit(high);
+            }
+        }
+    }
+
+    /// Calls `replace` with every direct operand of the expression, which takes its result instead.
+    pub(crate) fn replace_operands<E>(
+        &mut self,
+        replace: &mut dyn FnMut(&mut BoundExpression) -> Result<(), E>,
+    ) -> Result<(), E> {
+        match self {
+            Self::ColumnBinding(_)
+            | Self::Literal { .. }
+            | Self::Subquery { .. }
+            | Self::Exists { .. }
+            | Self::Star => {}
+            Self::BinaryOp { left, right, .. } => {
+                replace(left)?;
+                replace(right)?;
+            }
+            Self::UnaryOp { expr, .. }
+            | Self::InSubquery { expr, .. }
+            | Self::IsNull { expr, .. } => replace(expr)?,
+            Self::Function { args, .. } => args.iter_mut().try_for_each(replace)?,
+            Self::Aggregate { arg, .. } => {
+                if let Some(arg) = arg {
+                    replace(arg)?;
+                }
+            }
+            Self::Case {
+                operand,
+                when_then,
+                else_expr,
+                ..
+            } => {
+                if let Some(operand) = operand {
+                    replace(operand)?;
+                }
+                for (when, then) in when_then {
+                    replace(when)?;
+                    replace(then)?;
+                }
+                if let Some(else_expr) = else_expr {
+                    replace(else_expr)?;
+                }
+            }
+            Self::InList { expr, list, .. } => {
+                replace(expr)?;
+                list.iter_mut().try_for_each(replace)?;
+            }
+            Self::Between {
+                expr, low, high, ..
+            } => {
+                replace(expr)?;
+                replace(low)?;
+                replace(high)?;
+            }
+        }
+        Ok(())
+    }
+
+    /// Calls `visit` with the index of every column that the expression uses.
+    pub(crate) fn for_each_column(&self, visit: &mut dyn FnMut(usize)) {
+        if let Self::ColumnBinding(column) = self {
+            visit(column.column_idx);
+        }
+        self.for_each_operand(&mut |operand| operand.for_each_column(visit));
+    }
+
+    /// The same expression, with `map` applied to the index of every column that it uses.
+    pub(crate) fn with_columns(&self, map: &dyn Fn(usize) -> usize) -> BoundExpression {
+        fn apply(expr: &mut BoundExpression, map: &dyn Fn(usize) -> usize) {
+            if let BoundExpression::ColumnBinding(column) = expr {
+                column.column_idx = map(column.column_idx);
+            }
+            let _: Result<(), ()> = expr.replace_operands(&mut |operand| {
+                apply(operand, map);
+                Ok(())
+            });
+        }
+        let mut mapped = self.clone();
+        apply(&mut mapped, map);
+        mapped
+    }
+
+    /// Whether the two expressions are written the same. (Equal literals may be of other types.)
+    pub(crate) fn is_same(&self, other: &BoundExpression) -> bool {
+        self == other && format!("{self:?}") == format!("{other:?}")
+    }
+
+    /// Whether the expression contains an aggregate.
+    pub(crate) fn has_aggregate(&self) -> bool {
+        let mut found = matches!(self, Self::Aggregate { .. });
+        self.for_each_operand(&mut |operand| found = found || operand.has_aggregate());
+        found
+    }
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/crates/axmos-db/src/sql/planner/logical.rs b/crates/axmos-db/src/sql/planner/logical.rs
index b1c9739..094c57e 100644
--- a/crates/axmos-db/src/sql/planner/logical.rs
+++ b/crates/axmos-db/src/sql/planner/logical.rs
@@ -297,24 +297,47 @@ impl JoinOp {
     pub fn is_equi_join(&self) -> bool {
         self.condition
             .as_ref()
-            .map_or(false, |c| Self::is_equi_condition(c))
+            .map_or(false, |c| self.is_equi_condition(c))
     }
 
-    fn is_equi_condition(expr: &BoundExpression) -> bool {
+    fn is_equi_condition(&self, expr: &BoundExpression) -> bool {
         match expr {
             BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    matches!(left.as_ref(), BoundExpression::ColumnBinding(_))
-                        && matches!(right.as_ref(), BoundExpression::ColumnBinding(_))
-                }
-                BinaryOperator::And => {
-                    Self::is_equi_condition(left) && Self::is_equi_condition(right)
-                }
-                _ => false,
-            },
-            _ => false,
+                op: BinaryOperator::And,
+                left,
+                right,
+                ..
+            } => self.is_equi_condition(left) && self.is_equi_condition(right),
+            _ => self.equi_key(expr).is_some(),
+        }
+    }
+
+    /// The columns that `expr` equates, the one of the left input first, if there is one of each
+    /// input and their values can be compared by hash and by order.
+    fn equi_key(&self, expr: &BoundExpression) -> Option<(usize, usize)> {
+        let BoundExpression::BinaryOp {
+            op: BinaryOperator::Eq,
+            left,
+            right,
+            ..
+        } = expr
+        else {
+            return None;
+        };
+        let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
+            (left.as_ref(), right.as_ref())
+        else {
+            return None;
+        };
+        if l.data_type != r.data_type && !(l.data_type.is_numeric() && r.data_type.is_numeric()) {
+            return None;
+        }
+
+        let left_cols = self.left_schema.num_columns();
+        match (l.column_idx < left_cols, r.column_idx < left_cols) {
+            (true, false) => Some((l.column_idx, r.column_idx)),
+            (false, true) => Some((r.column_idx, l.column_idx)),
+            _ => None,
         }
     }
 
@@ -322,30 +345,23 @@ impl JoinOp {
     pub fn extract_equi_keys(&self) -> Vec<(usize, usize)> {
         let mut keys = Vec::new();
         if let Some(cond) = &self.condition {
-            Self::collect_equi_keys(cond, &mut keys);
+            self.collect_equi_keys(cond, &mut keys);
         }
         keys
     }
 
-    fn collect_equi_keys(expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) {
+    fn collect_equi_keys(&self, expr: &BoundExpression, keys: &mut Vec<(usize, usize)>) {
         match expr {
             BoundExpression::BinaryOp {
-                op, left, right, ..
-            } => match op {
-                BinaryOperator::Eq => {
-                    if let (BoundExpression::ColumnBinding(l), BoundExpression::ColumnBinding(r)) =
-                        (left.as_ref(), right.as_ref())
-                    {
-                        keys.push((l.column_idx, r.column_idx));
-                    }
-                }
-                BinaryOperator::And => {
-                    Self::collect_equi_keys(left, keys);
-                    Self::collect_equi_keys(right, keys);
-                }
-                _ => {}
-            },
-            _ => {}
+                op: BinaryOperator::And,
+                left,
+                right,
+                ..
+            } => {
+                self.collect_equi_keys(left, keys);
+                self.collect_equi_keys(right, keys);
+            }
+            _ => keys.extend(self.equi_key(expr)),
         }
     }
 }
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 9457d62..8de1586 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -14,7 +14,11 @@ use crate::{
 };
 
 use super::{
-    PlannerError, PlannerResult, logical::*, memo::Memo, physical::*, prop::RequiredProperties,
+    PlannerError, PlannerResult,
+    logical::*,
+    memo::{GroupId, Memo},
+    physical::*,
+    prop::{LogicalProperties, RequiredProperties},
 };
 
 /// Base trait for all rules.
@@ -77,103 +81,6 @@ pub fn implementation_rules() -> Vec<Box<dyn ImplementationRule>> {
 
 // Helper functions
 
-/// Swaps left/right in a join condition.
-fn swap_join_condition(cond: &BoundExpression) -> BoundExpression {
-    match cond {
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => {
-            let swapped_op = match op {
-                BinaryOperator::Eq => BinaryOperator::Eq,
-                BinaryOperator::Lt => BinaryOperator::Gt,
-                BinaryOperator::Gt => BinaryOperator::Lt,
-                BinaryOperator::Le => BinaryOperator::Ge,
-                BinaryOperator::Ge => BinaryOperator::Le,
-                BinaryOperator::And => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::And,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                BinaryOperator::Or => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::Or,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                _ => *op,
-            };
-            BoundExpression::BinaryOp {
-                left: right.clone(),
-                op: swapped_op,
-                right: left.clone(),
-                result_type: *result_type,
-            }
-        }
-        _ => cond.clone(),
-    }
-}
-
-/// Shifts column indices by offset.
-fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            let new_idx = c.column_idx as i32 + offset;
-            if new_idx < 0 {
-                None
-            } else {
-                Some(BoundExpression::ColumnBinding(Binding {
-                    column_idx: new_idx as usize,
-                    ..*c
-                }))
-            }
-        }
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => Some(BoundExpression::BinaryOp {
-            left: Box::new(shift_columns(left, offset)?),
-            op: *op,
-            right: Box::new(shift_columns(right, offset)?),
-            result_type: *result_type,
-        }),
-        BoundExpression::Literal { .. } => Some(expr.clone()),
-        _ => Some(expr.clone()),
-    }
-}
-
-/// Checks if all columns in expr have index >= min.
-fn all_columns_ge(expr: &BoundExpression, min: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= min,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            all_columns_ge(left, min) && all_columns_ge(right, min)
-        }
-        BoundExpression::Literal { .. } => true,
-        _ => true,
-    }
-}
-
-/// Checks if any column in expr is in range [start, end).
-fn any_column_in_range(expr: &BoundExpression, start: usize, end: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= start && c.column_idx < end,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            any_column_in_range(left, start, end) || any_column_in_range(right, start, end)
-        }
-        _ => false,
-    }
-}
-
 /// Combines predicates with AND.
 fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
     preds.into_iter().reduce(|a, b| BoundExpression::BinaryOp {
@@ -184,12 +91,8 @@ fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
     })
 }
 
-/// Collects predicates for columns >= offset.
-fn collect_predicates_for_range(
-    expr: &BoundExpression,
-    offset: usize,
-    out: &mut Vec<BoundExpression>,
-) {
+/// Splits a predicate into the conditions that must all hold.
+fn split_conjuncts(expr: &BoundExpression, out: &mut Vec<BoundExpression>) {
     match expr {
         BoundExpression::BinaryOp {
             op: BinaryOperator::And,
@@ -197,79 +100,13 @@ fn collect_predicates_for_range(
             right,
             ..
         } => {
-            collect_predicates_for_range(left, offset, out);
-            collect_predicates_for_range(right, offset, out);
-        }
-        _ => {
-            if all_columns_ge(expr, offset) {
-                if let Some(s) = shift_columns(expr, -(offset as i32)) {
-                    out.push(s);
-                }
-            }
+            split_conjuncts(left, out);
+            split_conjuncts(right, out);
         }
+        _ => out.push(expr.clone()),
     }
 }
 
-/// Collects predicates involving columns in range [start, end).
-fn collect_predicates_involving_range(
-    expr: &BoundExpression,
-    start: usize,
-    end: usize,
-    out: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left,
-            right,
-            ..
-        } => {
-            collect_predicates_involving_range(left, start, end, out);
-            collect_predicates_involving_range(right, start, end, out);
-        }
-        _ => {
-            if any_column_in_range(expr, start, end) {
-                out.push(expr.clone());
-            }
-        }
-    }
-}
-
-/// Extracts the B⋈C condition for associativity transform.
-fn extract_bc_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-    b_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = outer {
-        collect_predicates_for_range(c, a_cols, &mut preds);
-    }
-    if let Some(c) = inner {
-        if let Some(s) = shift_columns(c, -(a_cols as i32)) {
-            preds.push(s);
-        }
-    }
-    combine_predicates(preds)
-}
-
-/// Extracts the A condition for associativity transform.
-fn extract_a_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = inner {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    if let Some(c) = outer {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    combine_predicates(preds)
-}
-
 /// Classifies a predicate into left-only, right-only, or join predicates.
 fn classify_predicates(
     expr: &BoundExpression,
@@ -303,76 +140,60 @@ fn classify_predicates(
 
 /// Checks if expression uses left/right columns.
 fn check_column_usage(expr: &BoundExpression, left_cols: usize) -> (bool, bool) {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            if c.column_idx < left_cols {
-                (true, false)
-            } else {
-                (false, true)
-            }
-        }
-        BoundExpression::BinaryOp { left, right, .. } => {
-            let (l1, r1) = check_column_usage(left, left_cols);
-            let (l2, r2) = check_column_usage(right, left_cols);
-            (l1 || l2, r1 || r2)
-        }
-        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
-            check_column_usage(expr, left_cols)
-        }
-        BoundExpression::InList { expr, list, .. } => {
-            let (mut l, mut r) = check_column_usage(expr, left_cols);
-            for i in list {
-                let (l2, r2) = check_column_usage(i, left_cols);
-                l = l || l2;
-                r = r || r2;
-            }
-            (l, r)
-        }
-        BoundExpression::Between {
-            expr, low, high, ..
-        } => {
-            let (l1, r1) = check_column_usage(expr, left_cols);
-            let (l2, r2) = check_column_usage(low, left_cols);
-            let (l3, r3) = check_column_usage(high, left_cols);
-            (l1 || l2 || l3, r1 || r2 || r3)
-        }
-        _ => (false, false),
+    if has_subquery(expr) {
+        return (true, true);
     }
+    let (mut left, mut right) = (false, false);
+    expr.for_each_column(&mut |column| {
+        if column < left_cols {
+            left = true;
+        } else {
+            right = true;
+        }
+    });
+    (left, right)
 }
 
-/// Rewrites column references using a mapping.
-fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> BoundExpression {
-    match expr {
-        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
-            column_idx: mapping.get(c.column_idx).copied().unwrap_or(c.column_idx),
-            ..*c
-        }),
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => BoundExpression::BinaryOp {
-            left: Box::new(rewrite_with_mapping(left, mapping)),
-            op: *op,
-            right: Box::new(rewrite_with_mapping(right, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::UnaryOp {
-            op,
-            expr,
-            result_type,
-        } => BoundExpression::UnaryOp {
-            op: *op,
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            negated: *negated,
-        },
-        _ => expr.clone(),
-    }
+/// Checks if there is a query in the expression.
+fn has_subquery(expr: &BoundExpression) -> bool {
+    let mut found = matches!(
+        expr,
+        BoundExpression::Subquery { .. }
+            | BoundExpression::Exists { .. }
+            | BoundExpression::InSubquery { .. }
+    );
+    expr.for_each_operand(&mut |operand| found = found || has_subquery(operand));
+    found
+}
+
+/// Inserts an expression with the properties that follow from its inputs.
+fn insert_derived(
+    memo: &mut Memo,
+    op: LogicalOperator,
+    children: Vec<GroupId>,
+    cardinality: f64,
+) -> GroupId {
+    let avg_row_size = children
+        .iter()
+        .filter_map(|child| memo.get_group(*child))
+        .map(|group| group.logical_props.avg_row_size)
+        .sum();
+    let properties = LogicalProperties::new(op.output_schema().clone())
+        .with_cardinality(cardinality.max(1.0))
+        .with_avg_row_size(avg_row_size);
+    memo.insert_logical_expr(LogicalExpr::new(op, children).with_properties(properties))
+}
+
+/// The estimated number of rows of a group.
+fn cardinality(memo: &Memo, group: GroupId) -> f64 {
+    memo.get_group(group)
+        .map(|group| group.logical_props.cardinality)
+        .unwrap_or_default()
+}
+
+/// What part of the rows conditions are taken to leave.
+fn selectivity(conditions: usize) -> f64 {
+    0.33f64.powi(conditions.min(i32::MAX as usize) as i32)
 }
 
 /// Creates a column reference expression.
@@ -413,28 +234,66 @@ impl TransformationRule for JoinCommutativityRule {
         )
     }
 
-    fn apply(&self, expr: &LogicalExpr, _memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
+    fn apply(&self, expr: &LogicalExpr, memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
         let LogicalOperator::Join(join) = &expr.op else {
             return Ok(vec![]);
         };
-        if expr.children.len() != 2 {
+        if expr.children.len() != 2 || join.condition.as_ref().is_some_and(has_subquery) {
             return Ok(vec![]);
         }
 
-        let swapped_cond = join.condition.as_ref().map(swap_join_condition);
-        let new_join = JoinOp::new(
+        let left_cols = join.left_schema.num_columns();
+        let right_cols = join.right_schema.num_columns();
+
+        // The swapped join has the columns of the right input first.
+        let swapped_column = |column: usize| {
+            if column < left_cols {
+                column + right_cols
+            } else {
+                column - left_cols
+            }
+        };
+        let swapped = LogicalOperator::Join(JoinOp::new(
             join.join_type,
-            swapped_cond,
+            join.condition
+                .as_ref()
+                .map(|cond| cond.with_columns(&swapped_column)),
             join.right_schema.clone(),
             join.left_schema.clone(),
+        ));
+
+        let known_groups = memo.num_groups();
+        let swapped_group = insert_derived(
+            memo,
+            swapped.clone(),
+            vec![expr.children[1], expr.children[0]],
+            expr.properties.cardinality,
+        );
+        if swapped_group.0 < known_groups {
+            // The query has the swapped join as well. Each would be planned from the other.
+            return Ok(vec![]);
+        }
+        // Exploring it would only lead back here.
+        if let Some(group) = memo.get_group_mut(swapped_group) {
+            group.explored = true;
+        }
+
+        // Put the columns back in their places.
+        let expressions = (0..left_cols + right_cols)
+            .map(|column| ProjectExpr {
+                expr: create_column_ref(swapped_column(column), swapped.output_schema()),
+                alias: None,
+            })
+            .collect();
+        let project = ProjectOp::new(
+            expressions,
+            swapped.output_schema().clone(),
+            join.output_schema.clone(),
         );
 
         Ok(vec![
-            LogicalExpr::new(
-                LogicalOperator::Join(new_join),
-                vec![expr.children[1], expr.children[0]],
-            )
-            .with_properties(expr.properties.clone()),
+            LogicalExpr::new(LogicalOperator::Project(project), vec![swapped_group])
+                .with_properties(expr.properties.clone()),
         ])
     }
 }
@@ -510,31 +369,42 @@ impl TransformationRule for JoinAssociativityRule {
             .unwrap_or_default();
 
         let a_cols = a_props.schema.num_columns();
-        let b_cols = b_props.schema.num_columns();
 
-        // Build B⋈C
-        let bc_expr = {
-            let bc_cond = extract_bc_condition(&outer.condition, &inner.condition, a_cols, b_cols);
-            let bc_join = JoinOp::new(
-                JoinType::Inner,
-                bc_cond,
-                b_props.schema.clone(),
-                c_props.schema.clone(),
-            );
-            LogicalExpr::new(LogicalOperator::Join(bc_join), vec![b_group, c_group])
-        };
-
-        let a_cond = extract_a_condition(&outer.condition, &inner.condition, a_cols);
+        // The columns of the three inputs are numbered the same in both conditions and in the
+        // result. What does not use A can be checked when joining B and C.
+        let mut bc_preds = Vec::new();
+        let mut a_preds = Vec::new();
+        let mut conjuncts = Vec::new();
+        for condition in inner.condition.iter().chain(outer.condition.iter()) {
+            split_conjuncts(condition, &mut conjuncts);
+        }
+        for conjunct in conjuncts {
+            if check_column_usage(&conjunct, a_cols) == (false, true) {
+                bc_preds.push(conjunct.with_columns(&|column| column - a_cols));
+            } else {
+                a_preds.push(conjunct);
+            }
+        }
 
-        let bc_group = memo.insert_logical_expr(bc_expr);
+        // Build B⋈C
+        let bc_cardinality =
+            b_props.cardinality * c_props.cardinality * selectivity(bc_preds.len());
+        let bc_join = LogicalOperator::Join(JoinOp::new(
+            JoinType::Inner,
+            combine_predicates(bc_preds),
+            b_props.schema.clone(),
+            c_props.schema.clone(),
+        ));
+        let bc_schema = bc_join.output_schema().clone();
+        let bc_group = insert_derived(memo, bc_join, vec![b_group, c_group], bc_cardinality);
 
         // Build A⋈(B⋈C)
-        let bc_schema = memo
-            .get_group(bc_group)
-            .map(|g| g.logical_props.schema.clone())
-            .ok_or(PlannerError::InvalidState)?;
-
-        let a_bc_join = JoinOp::new(JoinType::Inner, a_cond, a_props.schema.clone(), bc_schema);
+        let a_bc_join = JoinOp::new(
+            JoinType::Inner,
+            combine_predicates(a_preds),
+            a_props.schema.clone(),
+            bc_schema,
+        );
 
         Ok(vec![
             LogicalExpr::new(LogicalOperator::Join(a_bc_join), vec![a_group, bc_group])
@@ -587,9 +457,9 @@ impl TransformationRule for FilterMergeRule {
         };
 
         let merged = BoundExpression::BinaryOp {
-            left: Box::new(outer.predicate.clone()),
+            left: Box::new(inner.predicate.clone()),
             op: BinaryOperator::And,
-            right: Box::new(inner.predicate.clone()),
+            right: Box::new(outer.predicate.clone()),
             result_type: DataTypeKind::Bool,
         };
 
@@ -679,39 +549,40 @@ impl TransformationRule for FilterPushdownJoinRule {
         // New join condition
         let new_cond =
             combine_predicates(join.condition.iter().cloned().chain(join_preds).collect());
+        let new_type = match new_cond {
+            Some(_) => JoinType::Inner,
+            None => join_type,
+        };
 
         // Push left predicates
-        let new_left = if !left_preds.is_empty() {
-            let pred = combine_predicates(left_preds).unwrap();
-            let f = FilterOp::new(pred, left_schema.clone());
-            memo.insert_logical_expr(LogicalExpr::new(
-                LogicalOperator::Filter(f),
+        let left_rows = cardinality(memo, left_group) * selectivity(left_preds.len());
+        let new_left = match combine_predicates(left_preds) {
+            Some(pred) => insert_derived(
+                memo,
+                LogicalOperator::Filter(FilterOp::new(pred, left_schema.clone())),
                 vec![left_group],
-            ))
-        } else {
-            left_group
+                left_rows,
+            ),
+            None => left_group,
         };
 
         // Push right predicates (shift indices)
-        let new_right = if !right_preds.is_empty() {
-            let shifted: Vec<_> = right_preds
-                .into_iter()
-                .filter_map(|p| shift_columns(&p, -(left_cols as i32)))
-                .collect();
-            if let Some(pred) = combine_predicates(shifted) {
-                let f = FilterOp::new(pred, right_schema.clone());
-                memo.insert_logical_expr(LogicalExpr::new(
-                    LogicalOperator::Filter(f),
-                    vec![right_group],
-                ))
-            } else {
-                right_group
-            }
-        } else {
-            right_group
+        let right_rows = cardinality(memo, right_group) * selectivity(right_preds.len());
+        let shifted = right_preds
+            .iter()
+            .map(|pred| pred.with_columns(&|column| column - left_cols))
+            .collect();
+        let new_right = match combine_predicates(shifted) {
+            Some(pred) => insert_derived(
+                memo,
+                LogicalOperator::Filter(FilterOp::new(pred, right_schema.clone())),
+                vec![right_group],
+                right_rows,
+            ),
+            None => right_group,
         };
 
-        let new_join = JoinOp::new(join_type, new_cond, left_schema, right_schema);
+        let new_join = JoinOp::new(new_type, new_cond, left_schema, right_schema);
 
         Ok(vec![
             LogicalExpr::new(LogicalOperator::Join(new_join), vec![new_left, new_right])
@@ -785,13 +656,19 @@ impl TransformationRule for FilterPushdownProjectRule {
             }
         }
 
-        let new_pred = rewrite_with_mapping(&filter.predicate, &mapping);
+        if has_subquery(&filter.predicate) {
+            return Ok(vec![]);
+        }
+        let new_pred = filter.predicate.with_columns(&|column| mapping[column]);
         let new_filter = FilterOp::new(new_pred, project_input_schema.clone());
+        let children = child_expr.children.clone();
 
-        let filter_group = memo.insert_logical_expr(LogicalExpr::new(
+        let filter_group = insert_derived(
+            memo,
             LogicalOperator::Filter(new_filter),
-            child_expr.children.clone(),
-        ));
+            children,
+            expr.properties.cardinality,
+        );
 
         // Build the new project operator with the pushed down filter
         let new_project =
@@ -1014,7 +891,11 @@ impl ImplementationRule for JoinRule {
                         OrderingSpec::asc(right_idx)
                     })
                     .collect();
-                let output_ordering: Vec<_> = left_keys.iter().map(|e| (e.clone(), true)).collect();
+                // Rows of the right input without a match come last, with no left keys.
+                let output_ordering: Vec<_> = match join.join_type {
+                    JoinType::Right | JoinType::Full => Vec::new(),
+                    _ => left_keys.iter().map(|e| (e.clone(), true)).collect(),
+                };
 
                 let mut merge_expr = PhysicalExpr::new(
                     PhysicalOperator::MergeJoin(MergeJoinOp {
-- 
2.43.0


From 9ecee7511dfb2f59b9b728bae455fe6763ff3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 32/42] fix: NULL keys match nothing in any join, and unmatched
 rows of either side are kept

---
 crates/axmos-db/src/runtime/builder.rs  |   3 +-
 crates/axmos-db/src/runtime/ops/join.rs | 338 ++++++++----------------
 2 files changed, 112 insertions(+), 229 deletions(-)

diff --git a/crates/axmos-db/src/runtime/builder.rs b/crates/axmos-db/src/runtime/builder.rs
index e897da7..ad50e2f 100644
--- a/crates/axmos-db/src/runtime/builder.rs
+++ b/crates/axmos-db/src/runtime/builder.rs
@@ -86,7 +86,8 @@ impl ExecutorBuilder {
                 require_children(children, 2, "NestedLoopJoin")?;
                 let left = build_child(&children[0])?;
                 let right = build_child(&children[1])?;
-                Ok(Box::new(NestedLoopJoin::new(join_op, left, right)))
+                let left_cols = children[0].output_schema().num_columns();
+                Ok(Box::new(NestedLoopJoin::new(join_op, left, right, left_cols)))
             }
             PhysicalOperator::HashJoin(join_op) => {
                 require_children(children, 2, "HashJoin")?;
diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 752ddcf..aa96556 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -91,23 +91,6 @@ pub(crate) fn extract_key(
     Ok(key)
 }
 
-/// Checks if two key vectors match (used for equi-joins).
-/// NULL values never match according to SQL semantics.
-pub(crate) fn keys_match(left: &[DataType], right: &[DataType]) -> bool {
-    if left.len() != right.len() {
-        return false;
-    }
-    for (l, r) in left.iter().zip(right.iter()) {
-        if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
-            return false;
-        }
-        if l != r {
-            return false;
-        }
-    }
-    true
-}
-
 fn combine_rows(left: &Row, right: &Row) -> Row {
     let mut values: Vec<DataType> = Vec::with_capacity(left.len() + right.len());
     for i in 0..left.len() {
@@ -176,12 +159,11 @@ pub(crate) struct NestedLoopJoin<Left: Executor, Right: Executor> {
 }
 
 impl<Left: Executor, Right: Executor> NestedLoopJoin<Left, Right> {
-    pub(crate) fn new(op: &NestedLoopJoinOp, left: Left, right: Right) -> Self {
-        let total_cols = op.output_schema.num_columns();
+    pub(crate) fn new(op: &NestedLoopJoinOp, left: Left, right: Right, left_cols: usize) -> Self {
         Self {
             join_type: op.join_type,
             condition: op.condition.clone(),
-            left_cols: 0,
+            left_cols,
             output_schema: op.output_schema.clone(),
             left,
             right,
@@ -253,9 +235,6 @@ impl<Left: Executor, Right: Executor> Executor for NestedLoopJoin<Left, Right> {
                 match self.left.next()? {
                     Some(row) => {
                         self.stats.rows_scanned += 1;
-                        if self.left_cols == 0 {
-                            self.left_cols = row.len();
-                        }
                         self.current_left_row = Some(row);
                         self.right_idx = 0;
                         self.left_matched = false;
@@ -467,7 +446,14 @@ impl<Left: Executor, Right: Executor> Executor for HashJoin<Left, Right> {
             let left_row = self.current_left_row.as_ref().unwrap();
             let left_key = self.current_left_key.as_ref().unwrap();
 
-            if let Some(bucket) = self.hash_table.get_mut(left_key) {
+            // NULL equals nothing, not even NULL.
+            let bucket = if left_key.iter().any(DataType::is_null) {
+                None
+            } else {
+                self.hash_table.get_mut(left_key)
+            };
+
+            if let Some(bucket) = bucket {
                 while self.current_bucket_idx < bucket.len() {
                     let right_row = &bucket.rows[self.current_bucket_idx];
                     self.current_bucket_idx += 1;
@@ -509,28 +495,35 @@ impl<Left: Executor, Right: Executor> Executor for HashJoin<Left, Right> {
 
 // Merge Join
 
+/// A row of the right input of a merge join, with its key.
+struct MergeRow {
+    row: Row,
+    key: Vec<DataType>,
+    matched: bool,
+}
+
 pub(crate) struct MergeJoin<Left: Executor, Right: Executor> {
     join_type: JoinType,
     left_keys: Vec<BoundExpression>,
     right_keys: Vec<BoundExpression>,
-    output_schema: Schema,
     left_schema: Schema,
     right_schema: Schema,
 
     left: Left,
     right: Right,
 
-    current_left: Option<Row>,
-    current_right: Option<Row>,
+    /// The rows of the right input that have a key, in order.
+    right_rows: Vec<MergeRow>,
+    right_buffered: bool,
+    /// The rows of the right input with NULL in their key, which match nothing.
+    right_without_key: Vec<Row>,
 
-    right_buffer: Vec<Row>,
-    right_buffer_idx: usize,
-    buffering_key: Option<Vec<DataType>>,
+    current_left: Option<Row>,
+    /// The rows of the right input with the key of the current left row, and the next to emit.
+    group_start: usize,
+    group_end: usize,
+    group_idx: usize,
 
-    left_exhausted: bool,
-    right_exhausted: bool,
-    left_matched: bool,
-    right_matched: Vec<bool>,
     emitting_unmatched_right: bool,
     unmatched_right_idx: usize,
 
@@ -549,20 +542,17 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
             join_type: op.join_type,
             left_keys: op.left_keys.clone(),
             right_keys: op.right_keys.clone(),
-            output_schema: op.output_schema.clone(),
             left_schema,
             right_schema,
             left,
             right,
+            right_rows: Vec::new(),
+            right_buffered: false,
+            right_without_key: Vec::new(),
             current_left: None,
-            current_right: None,
-            right_buffer: Vec::new(),
-            right_buffer_idx: 0,
-            buffering_key: None,
-            left_exhausted: false,
-            right_exhausted: false,
-            left_matched: false,
-            right_matched: Vec::new(),
+            group_start: 0,
+            group_end: 0,
+            group_idx: 0,
             emitting_unmatched_right: false,
             unmatched_right_idx: 0,
             stats: ExecutionStats::default(),
@@ -573,77 +563,59 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
         &self.stats
     }
 
-    fn compare_keys(&self, left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
-        for (l, r) in left_keys.iter().zip(right_keys.iter()) {
-            if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
-                return Ordering::Greater;
-            }
-            match l.partial_cmp(r) {
-                Some(Ordering::Equal) => continue,
-                Some(ord) => return ord,
-                None => return Ordering::Greater,
-            }
-        }
-        Ordering::Equal
+    /// Compares two keys in the order that the inputs are sorted by.
+    fn compare_keys(left: &[DataType], right: &[DataType]) -> Ordering {
+        left.iter()
+            .zip(right)
+            .map(|(l, r)| l.partial_cmp(r).unwrap_or(Ordering::Equal))
+            .find(|ordering| ordering.is_ne())
+            .unwrap_or(Ordering::Equal)
     }
 
-    fn advance_left(&mut self) -> RuntimeResult<()> {
-        match self.left.next()? {
-            Some(row) => {
-                self.stats.rows_scanned += 1;
-                self.current_left = Some(row);
-            }
-            None => {
-                self.left_exhausted = true;
-                self.current_left = None;
-            }
+    fn buffer_right(&mut self) -> RuntimeResult<()> {
+        if self.right_buffered {
+            return Ok(());
         }
-        Ok(())
-    }
-
-    fn advance_right(&mut self) -> RuntimeResult<()> {
-        match self.right.next()? {
-            Some(row) => {
-                self.stats.rows_scanned += 1;
-                self.current_right = Some(row);
 
-                if matches!(self.join_type, JoinType::Right | JoinType::Full) {
-                    self.right_matched.push(false);
-                }
-            }
-            None => {
-                self.right_exhausted = true;
-                self.current_right = None;
+        while let Some(row) = self.right.next()? {
+            self.stats.rows_scanned += 1;
+            let key = extract_key(&row, &self.right_keys, &self.right_schema)?;
+            if key.iter().any(DataType::is_null) {
+                self.right_without_key.push(row);
+            } else {
+                self.right_rows.push(MergeRow {
+                    row,
+                    key,
+                    matched: false,
+                });
             }
         }
+        self.right.close()?;
+        self.right_buffered = true;
         Ok(())
     }
 
-    fn left_cols(&self) -> usize {
-        self.left_schema.num_columns()
-    }
-
-    fn right_cols(&self) -> usize {
-        self.right_schema.num_columns()
-    }
-
-    fn buffer_matching_right_rows(&mut self, target_keys: &[DataType]) -> RuntimeResult<()> {
-        self.right_buffer.clear();
-        self.right_buffer_idx = 0;
-
-        while let Some(ref right_row) = self.current_right {
-            let right_keys = extract_key(right_row, &self.right_keys, &self.right_schema)?;
-
-            if keys_match(target_keys, &right_keys) {
-                self.right_buffer.push(right_row.clone());
-                self.advance_right()?;
-            } else {
-                break;
-            }
+    /// Moves the group of right rows to those with the given key. The keys of the left input are
+    /// sorted, so it only ever moves forward.
+    fn seek_group(&mut self, key: &[DataType]) {
+        let ordering = |row: &MergeRow| Self::compare_keys(&row.key, key);
+        if key.iter().any(DataType::is_null) {
+            self.group_idx = self.group_end;
+            return;
         }
 
-        self.buffering_key = Some(target_keys.to_vec());
-        Ok(())
+        while self.group_start < self.right_rows.len()
+            && ordering(&self.right_rows[self.group_start]).is_lt()
+        {
+            self.group_start += 1;
+        }
+        self.group_end = self.group_start;
+        while self.group_end < self.right_rows.len()
+            && ordering(&self.right_rows[self.group_end]).is_eq()
+        {
+            self.group_end += 1;
+        }
+        self.group_idx = self.group_start;
     }
 }
 
@@ -651,151 +623,61 @@ impl<Left: Executor, Right: Executor> Executor for MergeJoin<Left, Right> {
     fn open(&mut self) -> RuntimeResult<()> {
         self.left.open()?;
         self.right.open()?;
-
-        self.advance_left()?;
-        self.advance_right()?;
-
         Ok(())
     }
 
     fn next(&mut self) -> RuntimeResult<Option<Row>> {
-        if self.emitting_unmatched_right {
-            while self.unmatched_right_idx < self.right_matched.len() {
-                let idx = self.unmatched_right_idx;
-                self.unmatched_right_idx += 1;
-
-                if !self.right_matched[idx] && idx < self.right_buffer.len() {
-                    let row = nulls_with_right(&self.right_buffer[idx], self.left_cols());
-                    self.stats.rows_produced += 1;
-                    return Ok(Some(row));
-                }
-            }
-            return Ok(None);
-        }
+        self.buffer_right()?;
 
         loop {
-            if self.left_exhausted {
-                if self.current_left.is_some() {
-                    if !self.left_matched
-                        && matches!(self.join_type, JoinType::Left | JoinType::Full)
-                    {
-                        let left_row = self.current_left.take().unwrap();
-                        let row = left_with_nulls(&left_row, self.right_cols());
-                        self.stats.rows_produced += 1;
-                        return Ok(Some(row));
-                    }
-                    self.current_left = None;
-                }
-
-                if matches!(self.join_type, JoinType::Right | JoinType::Full) {
-                    self.emitting_unmatched_right = true;
-                    return self.next();
-                }
-                return Ok(None);
-            }
+            if self.emitting_unmatched_right {
+                let left_cols = self.left_schema.num_columns();
+                while self.unmatched_right_idx < self.right_rows.len() {
+                    let right = &self.right_rows[self.unmatched_right_idx];
+                    self.unmatched_right_idx += 1;
 
-            if self.right_exhausted && self.right_buffer.is_empty() {
-                if let Some(ref left_row) = self.current_left {
-                    if !self.left_matched
-                        && matches!(self.join_type, JoinType::Left | JoinType::Full)
-                    {
-                        let row = left_with_nulls(left_row, self.right_cols());
-                        self.current_left = None;
-                        self.advance_left()?;
-                        self.left_matched = false;
+                    if !right.matched {
                         self.stats.rows_produced += 1;
-                        return Ok(Some(row));
+                        return Ok(Some(nulls_with_right(&right.row, left_cols)));
                     }
                 }
-
-                self.advance_left()?;
-                self.left_matched = false;
-                continue;
-            }
-
-            if self.right_buffer_idx < self.right_buffer.len() {
-                let left_row = self.current_left.as_ref().unwrap();
-                let right_row = &self.right_buffer[self.right_buffer_idx];
-                self.right_buffer_idx += 1;
-
-                let combined = combine_rows(left_row, right_row);
-                self.left_matched = true;
+                let Some(right) = self.right_without_key.pop() else {
+                    return Ok(None);
+                };
                 self.stats.rows_produced += 1;
-                return Ok(Some(combined));
+                return Ok(Some(nulls_with_right(&right, left_cols)));
             }
 
-            if self.buffering_key.is_some() {
-                if !self.left_matched && matches!(self.join_type, JoinType::Left | JoinType::Full) {
-                    let left_row = self.current_left.as_ref().unwrap();
-                    let row = left_with_nulls(left_row, self.right_cols());
-                    self.advance_left()?;
-                    self.left_matched = false;
-                    self.buffering_key = None;
-                    self.right_buffer.clear();
-                    self.right_buffer_idx = 0;
+            if let Some(left_row) = &self.current_left {
+                if self.group_idx < self.group_end {
+                    let right = &mut self.right_rows[self.group_idx];
+                    self.group_idx += 1;
+                    right.matched = true;
                     self.stats.rows_produced += 1;
-                    return Ok(Some(row));
-                }
-
-                self.advance_left()?;
-                self.left_matched = false;
-
-                if self.left_exhausted {
-                    continue;
-                }
-
-                let left_row = self.current_left.as_ref().unwrap();
-                let left_keys = extract_key(left_row, &self.left_keys, &self.left_schema)?;
-
-                if keys_match(&left_keys, self.buffering_key.as_ref().unwrap()) {
-                    self.right_buffer_idx = 0;
-                    continue;
-                } else {
-                    self.buffering_key = None;
-                    self.right_buffer.clear();
-                    self.right_buffer_idx = 0;
+                    return Ok(Some(combine_rows(left_row, &right.row)));
                 }
+                self.current_left = None;
             }
 
-            let left_row = self.current_left.as_ref().unwrap();
-            let left_keys = extract_key(left_row, &self.left_keys, &self.left_schema)?;
-
-            if self.right_exhausted {
-                if !self.left_matched && matches!(self.join_type, JoinType::Left | JoinType::Full) {
-                    let row = left_with_nulls(left_row, self.right_cols());
-                    self.advance_left()?;
-                    self.left_matched = false;
-                    self.stats.rows_produced += 1;
-                    return Ok(Some(row));
+            let Some(left_row) = self.left.next()? else {
+                self.left.close()?;
+                if matches!(self.join_type, JoinType::Right | JoinType::Full) {
+                    self.emitting_unmatched_right = true;
+                    continue;
                 }
-                self.advance_left()?;
-                self.left_matched = false;
-                continue;
-            }
+                return Ok(None);
+            };
+            self.stats.rows_scanned += 1;
 
-            let right_row = self.current_right.as_ref().unwrap();
-            let right_keys = extract_key(right_row, &self.right_keys, &self.right_schema)?;
+            let key = extract_key(&left_row, &self.left_keys, &self.left_schema)?;
+            self.seek_group(&key);
 
-            match self.compare_keys(&left_keys, &right_keys) {
-                Ordering::Less => {
-                    if !self.left_matched
-                        && matches!(self.join_type, JoinType::Left | JoinType::Full)
-                    {
-                        let row = left_with_nulls(left_row, self.right_cols());
-                        self.advance_left()?;
-                        self.left_matched = false;
-                        self.stats.rows_produced += 1;
-                        return Ok(Some(row));
-                    }
-                    self.advance_left()?;
-                    self.left_matched = false;
-                }
-                Ordering::Greater => {
-                    self.advance_right()?;
-                }
-                Ordering::Equal => {
-                    self.buffer_matching_right_rows(&left_keys)?;
-                }
+            if self.group_idx < self.group_end {
+                self.current_left = Some(left_row);
+            } else if matches!(self.join_type, JoinType::Left | JoinType::Full) {
+                self.stats.rows_produced += 1;
+                let right_cols = self.right_schema.num_columns();
+                return Ok(Some(left_with_nulls(&left_row, right_cols)));
             }
         }
     }
-- 
2.43.0


From 18cde4720c266370ef8be8dba0dcb072a6858516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 33/42] fix: queries in FROM give all their columns, and do not
 see the tables around them

---
 crates/axmos-db/src/sql/binder/analyzer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index f4611c7..575aa7e 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -209,8 +209,13 @@ impl Analyzer {
                 Ok(())
             }
             TableReference::Subquery { query, alias } => {
-                self.analyze_select(query)?;
-                let schema = self.infer_select_schema(query)?;
+                // It does not see the tables around it.
+                let outer = std::mem::replace(&mut self.scopes, ScopeStack::new());
+                let schema = self
+                    .analyze_select(query)
+                    .and_then(|_| self.infer_select_schema(query));
+                self.scopes = outer;
+                let schema = schema?;
                 let scope_index = self.scopes.current().map_or(0, |s| s.entry_order.len());
 
                 let entry = ScopeEntry {
@@ -387,9 +392,9 @@ impl Analyzer {
                     //  All columns selected, then we push all columns from all scopes to the schema.
                     if let Some(scope) = self.scopes.current() {
                         for entry in scope.iter() {
-                            for col in entry.schema.iter_columns() {
-                                columns.push(col.clone());
-                            }
+                            // The internal row_id of a table is not selected.
+                            let hidden = entry.table_id.is_some() as usize;
+                            columns.extend(entry.schema.iter_columns().skip(hidden).cloned());
                         }
                     }
                 }
-- 
2.43.0


From 251fcb3e827e0277ef57c72531376a83b90b89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 34/42] fix: aggregates can be grouped, filtered, ordered and
 combined with anything

The aggregation produced the aggregates of the select list in their order after the
group keys whatever the select list was; HAVING and ORDER BY were evaluated over
its output with the columns of its input, COUNT(x) counted NULLs, DISTINCT was
ignored, sums overflowed, and queries without FROM had no rows.
---
 crates/axmos-db/src/runtime/ops/aggregate.rs | 150 ++++++-------
 crates/axmos-db/src/sql/binder/binder.rs     |   6 +
 crates/axmos-db/src/sql/planner/plan.rs      | 220 ++++++++-----------
 3 files changed, 166 insertions(+), 210 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/aggregate.rs b/crates/axmos-db/src/runtime/ops/aggregate.rs
index be4da18..d98ad76 100644
--- a/crates/axmos-db/src/runtime/ops/aggregate.rs
+++ b/crates/axmos-db/src/runtime/ops/aggregate.rs
@@ -1,5 +1,8 @@
 // src/runtime/ops/aggregate.rs
-use std::{collections::HashMap, vec::IntoIter};
+use std::{
+    collections::{HashMap, HashSet},
+    vec::IntoIter,
+};
 
 use crate::{
     runtime::{ExecutionStats, Executor, RuntimeError, RuntimeResult, eval::ExpressionEvaluator},
@@ -12,12 +15,46 @@ use crate::{
     types::{DataType, TypeSystemError},
 };
 
+/// Sum of the values of an aggregate, kept exact for as long as they are integers.
+#[derive(Clone, Copy, Debug, Default)]
+struct Total {
+    integers: i128,
+    floats: f64,
+}
+
+impl Total {
+    fn add(&mut self, value: &DataType) -> RuntimeResult<()> {
+        match value {
+            DataType::Int(v) => self.add_integer(v.value().into()),
+            DataType::BigInt(v) => self.add_integer(v.value().into()),
+            DataType::UInt(v) => self.add_integer(v.value().into()),
+            DataType::BigUInt(v) => self.add_integer(v.value().into()),
+            DataType::Float(v) => self.floats += f64::from(v.value()),
+            DataType::Double(v) => self.floats += v.value(),
+            other => {
+                return Err(RuntimeError::TypeError(
+                    TypeSystemError::UnexpectedDataType(other.kind()),
+                ));
+            }
+        }
+        Ok(())
+    }
+
+    fn add_integer(&mut self, value: i128) {
+        self.integers = self.integers.saturating_add(value);
+    }
+
+    fn value(&self) -> f64 {
+        self.integers as f64 + self.floats
+    }
+}
+
 /// Accumulator state for a single aggregate function.
 #[derive(Clone, Debug)]
 enum Accumulator {
     Count { count: u64 },
-    Sum { sum: Option<DataType> },
-    Avg { sum: Option<DataType>, count: u64 },
+    Sum { sum: Option<Total> },
+    Avg { sum: Total, count: u64 },
     Min { min: Option<DataType> },
     Max { max: Option<DataType> },
 }
@@ -29,7 +66,7 @@ impl Accumulator {
             AggregateFunction::Count => Accumulator::Count { count: 0 },
             AggregateFunction::Sum => Accumulator::Sum { sum: None },
             AggregateFunction::Avg => Accumulator::Avg {
-                sum: None,
+                sum: Total::default(),
                 count: 0,
             },
             AggregateFunction::Min => Accumulator::Min { min: None },
@@ -37,57 +74,24 @@ impl Accumulator {
         }
     }
 
-    /// Accumulate a new value into the aggregate state.
+    /// Accumulate a new value, which is not NULL, into the aggregate state.
     fn accumulate(&mut self, value: &DataType) -> RuntimeResult<()> {
-        // Skip NULL values for most aggregates except COUNT
-        if matches!(value, DataType::Null) && !matches!(self, Accumulator::Count { .. }) {
-            return Ok(());
-        }
-
         match self {
-            Accumulator::Count { count } => {
-                *count += 1;
-            }
-            Accumulator::Sum { sum } => {
-                *sum = Some(match sum.take() {
-                    None => value.clone(),
-                    Some(current) => current
-                        .add(&value)
-                        .map_err(|e| RuntimeError::Other(format!("Sum error: {}", e)))?,
-                });
-            }
+            Accumulator::Count { count } => *count += 1,
+            Accumulator::Sum { sum } => sum.get_or_insert_default().add(value)?,
             Accumulator::Avg { sum, count } => {
-                *sum = Some(match sum.take() {
-                    None => value.clone(),
-                    Some(current) => current
-                        .add(&value)
-                        .map_err(|e| RuntimeError::Other(format!("Sum error: {}", e)))?,
-                });
+                sum.add(value)?;
                 *count += 1;
             }
             Accumulator::Min { min } => {
-                *min = Some(match min.take() {
-                    None => value.clone(),
-                    Some(current) => {
-                        if value < &current {
-                            value.clone()
-                        } else {
-                            current
-                        }
-                    }
-                });
+                if min.as_ref().is_none_or(|current| value < current) {
+                    *min = Some(value.clone());
+                }
             }
             Accumulator::Max { max } => {
-                *max = Some(match max.take() {
-                    None => value.clone(),
-                    Some(current) => {
-                        if value > &current {
-                            value.clone()
-                        } else {
-                            current
-                        }
-                    }
-                });
+                if max.as_ref().is_none_or(|current| value > current) {
+                    *max = Some(value.clone());
+                }
             }
         }
         Ok(())
@@ -95,31 +99,15 @@ impl Accumulator {
 
     /// Finalize the accumulator and return the aggregate result.
     fn finalize(self) -> RuntimeResult<DataType> {
-        match self {
-            Accumulator::Count { count } => Ok(DataType::BigInt((count as i64).into())),
-            Accumulator::Sum { sum } => Ok(sum.unwrap_or(DataType::Null)),
-            Accumulator::Avg { sum, count } => {
-                if count == 0 {
-                    return Ok(DataType::Null);
-                }
-                match sum {
-                    Some(s) => {
-                        let sum_f64 = s.to_f64().ok_or(RuntimeError::TypeError(
-                            TypeSystemError::UnexpectedDataType(s.kind()),
-                        ))?;
-                        if sum_f64.is_nan() {
-                            return Err(RuntimeError::Other(
-                                "Cannot compute average of non-numeric type".to_string(),
-                            ));
-                        }
-                        Ok(DataType::Double((sum_f64 / count as f64).into()))
-                    }
-                    None => Ok(DataType::Null),
-                }
+        Ok(match self {
+            Accumulator::Count { count } => DataType::BigInt((count as i64).into()),
+            Accumulator::Sum { sum: Some(sum) } => DataType::Double(sum.value().into()),
+            Accumulator::Avg { sum, count } if count > 0 => {
+                DataType::Double((sum.value() / count as f64).into())
             }
-            Accumulator::Min { min } => Ok(min.unwrap_or(DataType::Null)),
-            Accumulator::Max { max } => Ok(max.unwrap_or(DataType::Null)),
-        }
+            Accumulator::Min { min: Some(value) } | Accumulator::Max { max: Some(value) } => value,
+            _ => DataType::Null,
+        })
     }
 }
 
@@ -129,6 +117,8 @@ struct GroupBucket {
     key: Vec<DataType>,
     /// One accumulator per aggregate expression.
     accumulators: Vec<Accumulator>,
+    /// The values that each DISTINCT aggregate has taken already.
+    seen: Vec<HashSet<DataType>>,
 }
 
 impl GroupBucket {
@@ -139,6 +129,7 @@ impl GroupBucket {
                 .iter()
                 .map(|agg| Accumulator::new(&agg.func))
                 .collect(),
+            seen: vec![HashSet::new(); aggregates.len()],
         }
     }
 }
@@ -207,16 +198,15 @@ impl<Child: Executor> HashAggregate<Child> {
         // Accumulate the row
         let evaluator = ExpressionEvaluator::new(&row, &self.input_schema);
         for (i, agg_expr) in self.aggregates.iter().enumerate() {
-            let value = if agg_expr.arg.is_none() {
-                DataType::Null
-            } else if let Some(ref arg) = agg_expr.arg {
-                match arg {
-                    BoundExpression::Star => DataType::Null,
-                    other => evaluator.evaluate_as_single_value(other)?,
-                }
-            } else {
-                DataType::Null
+            let value = match &agg_expr.arg {
+                // COUNT(*) counts rows, whatever is in them.
+                None | Some(BoundExpression::Star) => DataType::Bool(true.into()),
+                Some(arg) => evaluator.evaluate_as_single_value(arg)?,
             };
+            // Otherwise, NULLs do not count.
+            if value.is_null() || (agg_expr.distinct && !bucket.seen[i].insert(value.clone())) {
+                continue;
+            }
             bucket.accumulators[i].accumulate(&value)?;
         }
 
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index cffff04..4c44f17 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -944,6 +944,12 @@ impl<'a> Binder<'a> {
 
         // Check if it's an aggregate
         if let Some(agg_func) = self.try_parse_aggregate(&upper) {
+            let counts_rows = agg_func == AggregateFunction::Count && !distinct;
+            if args.len() > 1 || (!counts_rows && matches!(args, [] | [Expr::Star])) {
+                return Err(BinderError::InvalidExpression(format!(
+                    "{upper} takes one expression"
+                )));
+            }
             let arg = args
                 .first()
                 .map(|a| self.bind_expr(a))
diff --git a/crates/axmos-db/src/sql/planner/plan.rs b/crates/axmos-db/src/sql/planner/plan.rs
index d91c573..c957dce 100644
--- a/crates/axmos-db/src/sql/planner/plan.rs
+++ b/crates/axmos-db/src/sql/planner/plan.rs
@@ -4,7 +4,7 @@
 //! logical operators that can be optimized by the Cascades optimizer.
 
 use crate::{
-    schema::{Schema, catalog::StatisticsProvider},
+    schema::{Schema, base::Column, catalog::StatisticsProvider},
     sql::{
         binder::bounds::*,
         parser::ast::JoinType,
@@ -54,7 +54,8 @@ impl<'a> Planner<'a> {
         // FROM clause
         let from_group = match &select.from {
             Some(table_ref) => self.build_table_ref(table_ref)?,
-            None => self.build_empty(&select.schema)?,
+            // One row, with no columns.
+            None => self.build_values(&[Vec::new()], &Schema::default())?,
         };
 
         // WHERE clause
@@ -63,33 +64,41 @@ impl<'a> Planner<'a> {
             None => from_group,
         };
 
-        // GROUP BY / aggregates
-        let aggregated = if !select.group_by.is_empty() || self.has_aggregates(&select.columns) {
-            self.build_aggregate(filtered, &select.group_by, &select.columns, &select.schema)?
+        // GROUP BY / aggregates. What comes after is computed from their results.
+        let grouped = !select.group_by.is_empty()
+            || select.having.is_some()
+            || select.columns.iter().any(|item| item.expr.has_aggregate())
+            || select.order_by.iter().any(|o| o.expr.has_aggregate());
+        let mut columns = select.columns.clone();
+        let mut having = select.having.clone();
+        let mut order_by = select.order_by.clone();
+        let aggregated = if grouped {
+            let exprs = columns
+                .iter_mut()
+                .map(|item| &mut item.expr)
+                .chain(having.iter_mut())
+                .chain(order_by.iter_mut().map(|o| &mut o.expr));
+            self.build_aggregate(filtered, &select.group_by, exprs.collect())?
         } else {
             filtered
         };
 
         // HAVING clause
-        let having_applied = match &select.having {
-            Some(pred) => self.build_filter(aggregated, pred.clone())?,
+        let having_applied = match having {
+            Some(pred) => self.build_filter(aggregated, pred)?,
             None => aggregated,
         };
 
         // ORDER BY (must go before the projection since it needs the full input schema)
-        let sorted = if !select.order_by.is_empty() {
+        let sorted = if !order_by.is_empty() {
             let input_props = self.get_group_properties(having_applied)?;
-            self.build_sort(having_applied, &select.order_by, &input_props.schema)?
+            self.build_sort(having_applied, &order_by, &input_props.schema)?
         } else {
             having_applied
         };
 
         // SELECT projection (after sort)
-        let projected = if !self.has_aggregates(&select.columns) {
-            self.build_project(sorted, &select.columns, &select.schema)?
-        } else {
-            sorted
-        };
+        let projected = self.build_project(sorted, &columns, &select.schema)?;
 
         // DISTINCT
         let distinct_applied = if select.distinct {
@@ -200,25 +209,60 @@ impl<'a> Planner<'a> {
         self.insert_with_properties(op, vec![left, right])
     }
 
+    /// Builds the aggregation that `exprs` are computed from, and replaces what they use of the
+    /// input by columns of its output: the values that rows are grouped by, then one column for
+    /// each different aggregate.
     fn build_aggregate(
         &mut self,
         input: GroupId,
         group_by: &[BoundExpression],
-        columns: &[BoundSelectItem],
-        output_schema: &Schema,
+        mut exprs: Vec<&mut BoundExpression>,
     ) -> PlannerResult<GroupId> {
         let input_props = self.get_group_properties(input)?;
 
-        let mut aggregates = Vec::new();
-        for (idx, item) in columns.iter().enumerate() {
-            self.collect_aggregates(&item.expr, idx, &mut aggregates);
+        let mut outputs = group_by.to_vec();
+        for expr in exprs.iter() {
+            Self::collect_aggregates(expr, &mut outputs);
+        }
+        for expr in exprs.iter_mut() {
+            Self::replace_by_outputs(expr, &outputs)?;
+        }
+
+        let mut aggregates = Vec::with_capacity(outputs.len() - group_by.len());
+        for (output_idx, expr) in outputs.iter().enumerate() {
+            let mut is_nested = output_idx < group_by.len() && expr.has_aggregate();
+            expr.for_each_operand(&mut |arg| is_nested = is_nested || arg.has_aggregate());
+            if is_nested {
+                return Err(PlannerError::Other(
+                    "aggregates cannot be grouped by or aggregated again".to_string(),
+                ));
+            }
+            if let BoundExpression::Aggregate {
+                func,
+                arg,
+                distinct,
+                ..
+            } = expr
+            {
+                aggregates.push(AggregateExpr {
+                    func: *func,
+                    arg: arg.as_deref().cloned(),
+                    distinct: *distinct,
+                    output_idx,
+                });
+            }
         }
 
+        let columns = outputs
+            .iter()
+            .enumerate()
+            .map(|(idx, expr)| Column::new_with_defaults(expr.data_type(), &format!("group_{idx}")))
+            .collect();
         let op = LogicalOperator::Aggregate(AggregateOp::new(
             group_by.to_vec(),
             aggregates,
             input_props.schema.clone(),
-            output_schema.clone(),
+            Schema::new_table_with_num_keys(columns, 0),
         ));
         self.insert_with_properties(op, vec![input])
     }
@@ -396,121 +440,37 @@ impl<'a> Planner<'a> {
         Ok(format!("table_{}", table_id))
     }
 
-    fn has_aggregates(&self, columns: &[BoundSelectItem]) -> bool {
-        columns
-            .iter()
-            .any(|item| self.contains_aggregate(&item.expr))
-    }
-
-    fn contains_aggregate(&self, expr: &BoundExpression) -> bool {
-        match expr {
-            BoundExpression::Aggregate { .. } => true,
-            BoundExpression::BinaryOp { left, right, .. } => {
-                self.contains_aggregate(left) || self.contains_aggregate(right)
-            }
-            BoundExpression::UnaryOp { expr, .. } => self.contains_aggregate(expr),
-            BoundExpression::Case {
-                operand,
-                when_then,
-                else_expr,
-                ..
-            } => {
-                operand
-                    .as_ref()
-                    .map_or(false, |e| self.contains_aggregate(e))
-                    || when_then
-                        .iter()
-                        .any(|(c, r)| self.contains_aggregate(c) || self.contains_aggregate(r))
-                    || else_expr
-                        .as_ref()
-                        .map_or(false, |e| self.contains_aggregate(e))
-            }
-            BoundExpression::Function { args, .. } => {
-                args.iter().any(|a| self.contains_aggregate(a))
+    /// Adds the aggregates in `expr` that are not among `aggregates` yet.
+    fn collect_aggregates(expr: &BoundExpression, aggregates: &mut Vec<BoundExpression>) {
+        if let BoundExpression::Aggregate { .. } = expr {
+            if !aggregates.iter().any(|known| known.is_same(expr)) {
+                aggregates.push(expr.clone());
             }
-            BoundExpression::InList { expr, list, .. } => {
-                self.contains_aggregate(expr) || list.iter().any(|e| self.contains_aggregate(e))
-            }
-            BoundExpression::InSubquery { expr, .. } => self.contains_aggregate(expr),
-            BoundExpression::Between {
-                expr, low, high, ..
-            } => {
-                self.contains_aggregate(expr)
-                    || self.contains_aggregate(low)
-                    || self.contains_aggregate(high)
-            }
-            BoundExpression::IsNull { expr, .. } => self.contains_aggregate(expr),
-            _ => false,
+        } else {
+            expr.for_each_operand(&mut |operand| Self::collect_aggregates(operand, aggregates));
         }
     }
 
-    fn collect_aggregates(
-        &self,
-        expr: &BoundExpression,
-        output_idx: usize,
-        aggregates: &mut Vec<AggregateExpr>,
-    ) {
-        match expr {
-            BoundExpression::Aggregate {
-                func,
-                arg,
-                distinct,
-                ..
-            } => {
-                aggregates.push(AggregateExpr {
-                    func: *func,
-                    arg: arg.as_ref().map(|a| *a.clone()),
-                    distinct: *distinct,
-                    output_idx,
-                });
-            }
-            BoundExpression::BinaryOp { left, right, .. } => {
-                self.collect_aggregates(left, output_idx, aggregates);
-                self.collect_aggregates(right, output_idx, aggregates);
-            }
-            BoundExpression::UnaryOp { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-            }
-            BoundExpression::Case {
-                operand,
-                when_then,
-                else_expr,
-                ..
-            } => {
-                if let Some(op) = operand {
-                    self.collect_aggregates(op, output_idx, aggregates);
-                }
-                for (cond, result) in when_then {
-                    self.collect_aggregates(cond, output_idx, aggregates);
-                    self.collect_aggregates(result, output_idx, aggregates);
-                }
-                if let Some(e) = else_expr {
-                    self.collect_aggregates(e, output_idx, aggregates);
-                }
-            }
-            BoundExpression::Function { args, .. } => {
-                for arg in args {
-                    self.collect_aggregates(arg, output_idx, aggregates);
-                }
-            }
-            BoundExpression::InList { expr, list, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-                for item in list {
-                    self.collect_aggregates(item, output_idx, aggregates);
-                }
-            }
-            BoundExpression::Between {
-                expr, low, high, ..
-            } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-                self.collect_aggregates(low, output_idx, aggregates);
-                self.collect_aggregates(high, output_idx, aggregates);
-            }
-            BoundExpression::IsNull { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-            }
-            _ => {}
+    /// Replaces whatever in `expr` is one of the outputs of an aggregation by its column.
+    fn replace_by_outputs(
+        expr: &mut BoundExpression,
+        outputs: &[BoundExpression],
+    ) -> PlannerResult<()> {
+        if let Some(column_idx) = outputs.iter().position(|output| output.is_same(expr)) {
+            *expr = BoundExpression::ColumnBinding(Binding {
+                table_id: None,
+                scope_index: 0,
+                column_idx,
+                data_type: expr.data_type(),
+            });
+            return Ok(());
+        }
+        if let BoundExpression::ColumnBinding(_) = expr {
+            return Err(PlannerError::Other(
+                "a column must appear in GROUP BY or be used in an aggregate".to_string(),
+            ));
         }
+        expr.replace_operands(&mut |operand| Self::replace_by_outputs(operand, outputs))
     }
 
     /// Converts a memo group to a LogicalPlan tree (for debugging/explain).
-- 
2.43.0


From 6f37707be4a2531bdf1b0580001ccdd5b64694d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 35/42] fix: ORDER BY expressions name input columns; queries
 in FROM give all their columns and see no others

---
 crates/axmos-db/src/sql/binder/binder.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 4c44f17..6dbe8b0 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -152,16 +152,9 @@ impl<'a> Binder<'a> {
             .transpose()?;
 
         // Bind SELECT columns and collect output info
-        let (columns, output_names) = self.bind_select_items(&stmt.columns)?;
+        let (columns, _) = self.bind_select_items(&stmt.columns)?;
 
-        // Register output aliases for ORDER BY resolution
-        for (i, item) in columns.iter().enumerate() {
-            if let Some(scope) = self.scopes.current_mut() {
-                scope.add_output_alias(output_names[i].clone(), item.expr.data_type());
-            }
-        }
-
-        // Bind ORDER BY (can reference output aliases)
+        // Bind ORDER BY (a bare name can be an output alias, names inside expressions are input columns)
         let order_by: Vec<BoundOrderBy> = stmt
             .order_by
             .iter()
@@ -258,8 +251,11 @@ impl<'a> Binder<'a> {
             }
 
             TableReference::Subquery { query, alias } => {
-                // Subquery has its own scope
-                let bound_query = self.bind_select(query)?;
+                // Subquery has its own scope, and does not see the tables around it.
+                let outer = std::mem::replace(&mut self.scopes, ScopeStack::new());
+                let bound_query = self.bind_select(query);
+                self.scopes = outer;
+                let bound_query = bound_query?;
                 let schema = bound_query.schema.clone();
 
                 self.add_to_scope(ScopeEntry {
@@ -291,14 +287,14 @@ impl<'a> Binder<'a> {
             match item {
                 SelectItem::Star => {
                     // Expand star to all columns from all tables in scope
-                    // Skip column 0 (internal row_id) for each table
+                    // Skip column 0 (internal row_id) of tables, other sources have none
                     if let Some(scope) = self.scopes.current() {
                         for entry in scope.iter() {
                             let offset = self.calculate_column_offset(entry.scope_index);
 
                             for (col_idx, col) in entry.schema.iter_columns().enumerate() {
                                 // Skip internal row_id column (always column 0)
-                                if col_idx == 0 {
+                                if col_idx == 0 && entry.table_id.is_some() {
                                     continue;
                                 }
 
-- 
2.43.0


From 929b8daa4cceca91e971e49e722206847a1bbfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 36/42] verif: points where the harness can hold threads up

---
 crates/axmos-db/src/macros/make_shared.rs     |  4 ++
 .../src/multithreading/coordinator.rs         | 10 +++
 crates/axmos-db/src/multithreading/frames.rs  |  4 ++
 .../axmos-db/src/multithreading/threadpool.rs |  2 +
 crates/axmos-db/src/verif/mod.rs              |  1 +
 crates/axmos-db/src/verif/pause.rs            | 69 +++++++++++++++++++
 6 files changed, 90 insertions(+)
 create mode 100644 crates/axmos-db/src/verif/pause.rs

diff --git a/crates/axmos-db/src/macros/make_shared.rs b/crates/axmos-db/src/macros/make_shared.rs
index 0125ef6..e6d0bbf 100644
--- a/crates/axmos-db/src/macros/make_shared.rs
+++ b/crates/axmos-db/src/macros/make_shared.rs
@@ -24,10 +24,14 @@ macro_rules! make_shared {
 
         impl $shared_ty {
             pub fn read(&self) -> parking_lot::RwLockReadGuard<'_, $inner_ty> {
+                #[cfg(axmos_verif)]
+                $crate::verif::pause::point();
                 self.0.read()
             }
 
             pub fn write(&self) -> parking_lot::RwLockWriteGuard<'_, $inner_ty> {
+                #[cfg(axmos_verif)]
+                $crate::verif::pause::point();
                 self.0.write()
             }
 
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 9dc73d8..4928aed 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -363,11 +363,15 @@ impl TransactionCoordinator {
 
     /// Waits until a statement that modifies the database can run.
     pub(crate) fn write_statement(&self) -> WriteStatement {
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         RwLock::write_arc(&self.statements)
     }
 
     /// Waits until a statement that only reads can run.
     pub(crate) fn read_statement(&self) -> ReadStatement {
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         RwLock::read_arc(&self.statements)
     }
 
@@ -442,6 +446,8 @@ impl TransactionCoordinator {
     /// Begin a new transaction.
     /// Returns a [TransactionHandle] to the thread that requested the begin operation.
     pub fn begin(&self) -> TransactionResult<TransactionHandle> {
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         // The transaction table stays locked until the transaction is in it, so that
         // every snapshot either comes before this transaction or knows that it is running.
         let mut txs = self.transactions.write();
@@ -454,6 +460,8 @@ impl TransactionCoordinator {
             current
         };
 
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         let snapshot = Self::take_snapshot(&txs, txid);
         let start_ts = self.commit_counter.load(Ordering::SeqCst);
         txs.insert(
@@ -471,6 +479,8 @@ impl TransactionCoordinator {
 
     /// A transaction that is not running anymore. From now on its effects (if any are left) are visible to new snapshots.
     fn finish(&self, txid: TransactionId) -> TransactionResult<()> {
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         self.transactions
             .write()
             .remove(&txid)
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 08ac05c..dd265e4 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -26,6 +26,8 @@ pub trait Latch<P>: Deref<Target = P> {}
 
 impl<P> ReadLatch<P> {
     pub(crate) fn new(lock: &Arc<RwLock<P>>) -> Self {
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         Self(lock.read_arc())
     }
 }
@@ -44,6 +46,8 @@ pub(crate) struct WriteLatch<P>(ArcRwLockWriteGuard<RawRwLock, P>);
 
 impl<P> WriteLatch<P> {
     pub(crate) fn new(lock: &Arc<RwLock<P>>) -> Self {
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         Self(lock.write_arc())
     }
 }
diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index d43afac..ebffbb4 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -50,6 +50,8 @@ impl<T> JobQueue<T> {
 
     pub fn push(&self, value: T) {
         self.queue.lock().push_back(value);
+        #[cfg(axmos_verif)]
+        crate::verif::pause::point();
         self.condvar.notify_one();
     }
 
diff --git a/crates/axmos-db/src/verif/mod.rs b/crates/axmos-db/src/verif/mod.rs
index ea8446f..d9fa266 100644
--- a/crates/axmos-db/src/verif/mod.rs
+++ b/crates/axmos-db/src/verif/mod.rs
@@ -2,6 +2,7 @@
 //!
 //! This module only exists when the crate is built with `--cfg axmos_verif`.
 pub mod log;
+pub mod pause;
 pub mod store;
 pub mod tap;
 pub mod tuples;
diff --git a/crates/axmos-db/src/verif/pause.rs b/crates/axmos-db/src/verif/pause.rs
new file mode 100644
index 0000000..9270aea
--- /dev/null
+++ b/crates/axmos-db/src/verif/pause.rs
@@ -0,0 +1,69 @@
+//! Lets the external verification harness perturb the order in which threads get to the locks.
+use std::{
+    cell::Cell,
+    sync::atomic::{AtomicU64, Ordering},
+    thread,
+    time::Duration,
+};
+
+/// One in how many visits pauses (zero: none do).
+static ONE_IN: AtomicU64 = AtomicU64::new(0);
+static MAX_MICROS: AtomicU64 = AtomicU64::new(0);
+static SEED: AtomicU64 = AtomicU64::new(0);
+static THREADS: AtomicU64 = AtomicU64::new(0);
+static VISITS: AtomicU64 = AtomicU64::new(0);
+static PAUSES: AtomicU64 = AtomicU64::new(0);
+
+thread_local! {
+    static STATE: Cell<u64> = const { Cell::new(0) };
+}
+
+/// Configures the pauses.
+pub fn set(seed: u64, one_in: u64, max_micros: u64) {
+    SEED.store(seed, Ordering::Relaxed);
+    MAX_MICROS.store(max_micros, Ordering::Relaxed);
+    ONE_IN.store(one_in, Ordering::Relaxed);
+}
+
+/// Visits of the pause points and pauses made since the last call.
+pub fn take() -> (u64, u64) {
+    (
+        VISITS.swap(0, Ordering::Relaxed),
+        PAUSES.swap(0, Ordering::Relaxed),
+    )
+}
+
+/// A point at which a thread may be held up.
+#[inline]
+pub(crate) fn point() {
+    let one_in = ONE_IN.load(Ordering::Relaxed);
+    if one_in == 0 {
+        return;
+    }
+    VISITS.fetch_add(1, Ordering::Relaxed);
+    let random = STATE
+        .try_with(|state| {
+            let mut x = state.get();
+            if x == 0 {
+                let n = THREADS.fetch_add(1, Ordering::Relaxed) + 1;
+                x = (SEED.load(Ordering::Relaxed) ^ n.wrapping_mul(0x9E37_79B9_7F4A_7C15)) | 1;
+            }
+            x ^= x << 13;
+            x ^= x >> 7;
+            x ^= x << 17;
+            state.set(x);
+            x
+        })
+        .unwrap_or(1);
+    if !(random >> 8).is_multiple_of(one_in) {
+        return;
+    }
+    PAUSES.fetch_add(1, Ordering::Relaxed);
+    match MAX_MICROS.load(Ordering::Relaxed) {
+        0 => thread::yield_now(),
+        max => match (random >> 40) % (max + 1) {
+            0 => thread::yield_now(),
+            micros => thread::sleep(Duration::from_micros(micros)),
+        },
+    }
+}
-- 
2.43.0


From fcb3d813a828aa4c470a1be58da9a2f8a3b4d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 37/42] fix: statements cannot use an index as a table

---
 crates/axmos-db/src/sql/binder/binder.rs | 52 ++++++++----------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 6dbe8b0..25fe973 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -5,7 +5,7 @@ use crate::{
     multithreading::coordinator::Snapshot,
     schema::{
         SharedCatalog,
-        base::{Column, Schema, SchemaError, SchemaResult},
+        base::{Column, Relation, Schema, SchemaError, SchemaResult},
     },
     sql::parser::ast::{
         AlterAction, AlterColumnAction, AlterTableStatement, BinaryOperator, ColumnDefExpr,
@@ -210,10 +210,7 @@ impl<'a> Binder<'a> {
                 }
 
                 // Lookup in catalog
-                let relation = self
-                    .catalog
-                    .get_relation_by_name(name, &self.tree_builder, &self.snapshot)
-                    .map_err(|_| BinderError::TableNotFound(name.clone()))?;
+                let relation = self.find_table(name)?;
 
                 let table_id = relation.object_id();
                 let schema = relation.schema().clone();
@@ -386,12 +383,18 @@ impl<'a> Binder<'a> {
         })
     }
 
+    /// Looks up a table in the catalog. Indexes are relations too, but statements cannot use them.
+    fn find_table(&self, name: &str) -> BinderResult<Relation> {
+        self.catalog
+            .get_relation_by_name(name, &self.tree_builder, &self.snapshot)
+            .ok()
+            .filter(|relation| !relation.is_index())
+            .ok_or_else(|| BinderError::TableNotFound(name.to_string()))
+    }
+
     /// Entry point to bind [InsertStatement]. Produces [BoundInsert] statements.
     fn bind_insert(&mut self, stmt: &InsertStatement) -> BinderResult<BoundInsert> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -456,10 +459,7 @@ impl<'a> Binder<'a> {
 
     /// Binds an [UpdateStatement] producing a [BoundUpdate] statement.
     fn bind_update(&mut self, stmt: &UpdateStatement) -> BinderResult<BoundUpdate> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -510,10 +510,7 @@ impl<'a> Binder<'a> {
 
     /// Binds a [DeleteStatement] producing a [BoundDelete] statement
     fn bind_delete(&mut self, stmt: &DeleteStatement) -> BinderResult<BoundDelete> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let table_schema = relation.schema().clone();
@@ -616,10 +613,7 @@ impl<'a> Binder<'a> {
             } => {
                 let col_indices = self.resolve_column_indices(columns, schema)?;
 
-                let ref_relation = self
-                    .catalog
-                    .get_relation_by_name(ref_table, &self.tree_builder, &self.snapshot)
-                    .map_err(|_| BinderError::TableNotFound(ref_table.clone()))?;
+                let ref_relation = self.find_table(ref_table)?;
 
                 let ref_indices =
                     self.resolve_column_indices(ref_columns, ref_relation.schema())?;
@@ -635,10 +629,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [CreateIndexStatement], producing [BoundCreateIndex]
     fn bind_create_index(&mut self, stmt: &CreateIndexStatement) -> BinderResult<BoundCreateIndex> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let schema = relation.schema();
@@ -659,10 +650,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [AlterTableStatement], producing [BoundAlterTable]
     fn bind_alter_table(&mut self, stmt: &AlterTableStatement) -> BinderResult<BoundAlterTable> {
-        let relation = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .map_err(|_| BinderError::TableNotFound(stmt.table.clone()))?;
+        let relation = self.find_table(&stmt.table)?;
 
         let table_id = relation.object_id();
         let schema = relation.schema();
@@ -709,11 +697,7 @@ impl<'a> Binder<'a> {
 
     /// Entry point to bind [DropTableStatement], producing [BoundDropTable]
     fn bind_drop_table(&mut self, stmt: &DropTableStatement) -> BinderResult<BoundDropTable> {
-        let table_id = self
-            .catalog
-            .get_relation_by_name(&stmt.table, &self.tree_builder, &self.snapshot)
-            .ok()
-            .map(|r| r.object_id());
+        let table_id = self.find_table(&stmt.table).ok().map(|r| r.object_id());
 
         if table_id.is_none() && !stmt.if_exists {
             return Err(BinderError::TableNotFound(stmt.table.clone()));
-- 
2.43.0


From 168b6bf994f579276ed36c9a5cfdbedd3df5bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 38/42] fix: rows of more than 255 columns keep all the changes
 of their versions

---
 crates/axmos-db/src/storage/tuple.rs | 69 ++++++++++++++++------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 5bde1a6..6730060 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -82,6 +82,22 @@ fn null_bitmap_size(num_values: usize) -> usize {
     num_values.div_ceil(8)
 }
 
+/// Size of the number of changes of a delta, and of the index of each changed value.
+const COUNT_SIZE: usize = std::mem::size_of::<u16>();
+
+#[inline]
+fn read_count(data: &[u8], cursor: &mut usize) -> usize {
+    let count = u16::from_le_bytes([data[*cursor], data[*cursor + 1]]);
+    *cursor += COUNT_SIZE;
+    count as usize
+}
+
+#[inline]
+fn write_count(buffer: &mut [u8], cursor: &mut usize, count: u16) {
+    buffer[*cursor..*cursor + COUNT_SIZE].copy_from_slice(&count.to_le_bytes());
+    *cursor += COUNT_SIZE;
+}
+
 #[inline]
 fn aligned_offset(offset: usize, align: usize) -> usize {
     (offset + align - 1) & !(align - 1)
@@ -314,8 +330,8 @@ impl DeltaHeader {
 
 /// LAYOUT: [Header][Null Bitmap][Keys (aligned)][Values (aligned)][Deltas...]
 ///
-/// Delta layout: [DeltaHeader][num_changes: u8][bitmap][changes...]
-/// Each change: [field_idx: u8][value (aligned)]
+/// Delta layout: [DeltaHeader][num_changes: u16][bitmap][changes...]
+/// Each change: [field_idx: u16][value (aligned)]
 #[derive(Debug, Clone)]
 pub(crate) struct TupleLayout {
     /// Metadata about the tuple status in the database
@@ -536,7 +552,7 @@ impl<'a> TupleReader<'a> {
         let bitmap_size = null_bitmap_size(num_values);
         let mut cursor = layout.delta_start();
 
-        // Delta layout: [DeltaHeader][num_changes: u8][full_bitmap][changes...]
+        // Delta layout: [DeltaHeader][num_changes: u16][full_bitmap][changes...]
         while cursor < data.len() {
             let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
             cursor = header_end;
@@ -546,8 +562,7 @@ impl<'a> TupleReader<'a> {
             layout.version_xmin = delta_header.xmin();
 
             // Read number of changes
-            let num_changes = data[cursor] as usize;
-            cursor += 1;
+            let num_changes = read_count(data, &mut cursor);
 
             // Delta's FULL null bitmap
             layout.null_bitmap_start = cursor;
@@ -556,8 +571,7 @@ impl<'a> TupleReader<'a> {
 
             // Parse changes - only non-null values have data
             for _ in 0..num_changes {
-                let field_idx = data[cursor] as usize;
-                cursor += 1;
+                let field_idx = read_count(data, &mut cursor);
 
                 // Check if this field is null using the delta's full bitmap
                 let is_null = Self::check_null(delta_bitmap, field_idx);
@@ -634,8 +648,7 @@ impl<'a> TupleReader<'a> {
         layout.version = delta_header.version();
         layout.version_xmin = delta_header.xmin();
 
-        let num_changes = data[cursor] as usize;
-        cursor += 1;
+        let num_changes = read_count(data, &mut cursor);
 
         // Delta's FULL null bitmap - valid for ALL values
         layout.null_bitmap_start = cursor;
@@ -644,8 +657,7 @@ impl<'a> TupleReader<'a> {
 
         // Parse changes and update value_offsets for non-null changed values
         for _ in 0..num_changes {
-            let field_idx = data[cursor] as usize;
-            cursor += 1;
+            let field_idx = read_count(data, &mut cursor);
 
             // Check if this field is null using the delta's full bitmap
             let is_null = Self::check_null(delta_bitmap, field_idx);
@@ -866,8 +878,8 @@ impl Display for DeltaHeader {
 }
 
 /// Layout: [Header][Null Bitmap][Keys][Values][Delta0][Delta1]...[DeltaN]
-/// Delta: [DeltaHeader][num_changes: u8][bitmap][changes...]
-/// Change: [field_idx: u8][value (aligned)]
+/// Delta: [DeltaHeader][num_changes: u16][bitmap][changes...]
+/// Change: [field_idx: u16][value (aligned)]
 #[derive(Clone)]
 pub(crate) struct Tuple {
     data: Payload,
@@ -986,12 +998,12 @@ impl Tuple {
     ///
     /// Each delta contains:
     /// ```text
-    /// [DeltaHeader][num_changes: u8][full_null_bitmap][changes...]
+    /// [DeltaHeader][num_changes: u16][full_null_bitmap][changes...]
     /// ```
     ///
     /// Where each change is:
     /// ```text
-    /// [field_idx: u8][value_bytes (if not null)]
+    /// [field_idx: u16][value_bytes (if not null)]
     /// ```
     pub(crate) fn add_version_with(
         &mut self,
@@ -1110,7 +1122,7 @@ impl Tuple {
         current: &TupleRef<'_>,
         modified: &HashMap<usize, DataType>,
         schema: &Schema,
-    ) -> TupleResult<(Vec<DataType>, Vec<(u8, DataType)>, Vec<DataType>)> {
+    ) -> TupleResult<(Vec<DataType>, Vec<(u16, DataType)>, Vec<DataType>)> {
         let num_values = schema.num_values();
         let mut new_values = Vec::with_capacity(num_values);
         let mut changed_values = Vec::with_capacity(modified.len());
@@ -1125,7 +1137,7 @@ impl Tuple {
             all_old_values.push(current_val.clone());
 
             if let Some(new_val) = modified.get(&i) {
-                changed_values.push((i as u8, current_val));
+                changed_values.push((i as u16, current_val));
                 new_values.push(new_val.clone());
             } else {
                 new_values.push(current_val);
@@ -1141,7 +1153,7 @@ impl Tuple {
     fn calculate_new_tuple_size(
         keys: &[DataType],
         new_values: &[DataType],
-        changed_values: &[(u8, DataType)],
+        changed_values: &[(u16, DataType)],
         existing_deltas_size: usize,
         bitmap_size: usize,
     ) -> usize {
@@ -1170,12 +1182,12 @@ impl Tuple {
         // New delta
         size = DeltaHeader::aligned_offset(size);
         size += DeltaHeader::SIZE;
-        size += 1; // num_changes byte
+        size += COUNT_SIZE; // num_changes
         size += bitmap_size; // FULL null bitmap for old version
 
         // Delta changes - only store non-null old values
         for (_, old_val) in changed_values {
-            size += 1; // field_idx byte
+            size += COUNT_SIZE; // field_idx
             if !old_val.is_null() {
                 size = aligned_offset(size, old_val.align());
                 size += old_val.runtime_size();
@@ -1236,7 +1248,7 @@ impl Tuple {
     ///
     /// Delta layout:
     /// ```text
-    /// [DeltaHeader][num_changes: u8][full_null_bitmap][changes...]
+    /// [DeltaHeader][num_changes: u16][full_null_bitmap][changes...]
     /// ```
     ///
     /// The full_null_bitmap contains null status for ALL values in the old version,
@@ -1246,7 +1258,7 @@ impl Tuple {
         offset: usize,
         version: u8,
         xmin: TransactionId,
-        changed_values: &[(u8, DataType)],
+        changed_values: &[(u16, DataType)],
         all_old_values: &[DataType],
         bitmap_size: usize,
     ) -> TupleResult<usize> {
@@ -1258,8 +1270,7 @@ impl Tuple {
         let mut cursor = delta_header.write_to(buffer, delta_start);
 
         // Write number of changes
-        buffer[cursor] = changed_values.len() as u8;
-        cursor += 1;
+        write_count(buffer, &mut cursor, changed_values.len() as u16);
 
         // Write FULL null bitmap for ALL values in old version
         let bitmap_start = cursor;
@@ -1278,8 +1289,7 @@ impl Tuple {
 
         // Write changes: [field_idx][value (if not null)]
         for &(idx, ref val) in changed_values {
-            buffer[cursor] = idx;
-            cursor += 1;
+            write_count(buffer, &mut cursor, idx);
             if !val.is_null() {
                 cursor = val.write_to(buffer, cursor)?;
             }
@@ -1417,14 +1427,13 @@ impl Tuple {
         let bitmap_size = null_bitmap_size(schema.num_values());
         let (delta_header, header_end) = DeltaHeader::read_from(data, cursor);
 
-        let num_changes = data[header_end] as usize;
-        let bitmap_start = header_end + 1;
+        let mut bitmap_start = header_end;
+        let num_changes = read_count(data, &mut bitmap_start);
         let bitmap = &data[bitmap_start..bitmap_start + bitmap_size];
         let mut cursor = bitmap_start + bitmap_size;
 
         for _ in 0..num_changes {
-            let field_idx = data[cursor] as usize;
-            cursor += 1;
+            let field_idx = read_count(data, &mut cursor);
 
             // Nulls have no data
             if !TupleReader::check_null(bitmap, field_idx) {
-- 
2.43.0


From 76dc54e7cf38e834f17787e432f30cf1c7e97377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 39/42] fix: VACUUM of an index whose columns have changed
 their type

---
 crates/axmos-db/src/schema/catalog.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 1f7b2f7..2d019b1 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -886,6 +886,20 @@ impl Catalog {
                 let Some(index) = indexes.iter().find(|handle| handle.id() == index.id()) else {
                     continue;
                 };
+                // The versions of the table with other types have their own tree for the index.
+                let has_same_types = index
+                    .indexed_column_ids()
+                    .iter()
+                    .zip(schema.iter_columns())
+                    .all(|(column_id, key)| {
+                        table
+                            .schema()
+                            .column(*column_id)
+                            .is_some_and(|column| column.datatype() == key.datatype())
+                    });
+                if !has_same_types {
+                    continue;
+                }
                 for tuple in Self::collect_tuples(table.root(), builder)? {
                     for (_, row) in tuple.all_versions(table.schema())? {
                         if let Some(entry) = index.entry(row.as_slice()) {
-- 
2.43.0


From c9824a43c83fdc1dd360df6c02fdda6c68bd35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 40/42] fix: trees of a definition that a running transaction
 can still put back are not given away

---
 crates/axmos-db/src/schema/catalog.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 2d019b1..f24daf5 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -733,6 +733,13 @@ impl Catalog {
         let mut freed = 0;
 
         for mut tuple in Self::collect_tuples(self.meta_table, builder)? {
+            // A transaction that is still running could put back the previous contents.
+            let last_changes = [Some(tuple.xmin()), tuple.xmax()];
+            if last_changes.into_iter().flatten().any(|txid| txid >= horizon) {
+                pending = true;
+                continue;
+            }
+
             let size = tuple.full_data().len();
             let roots = Self::roots_of(&tuple, &schema)?;
             let is_dead = tuple.xmax().is_some_and(|xmax| xmax < horizon);
-- 
2.43.0


From a2217c8e723db007d5b77655e01b8059d5c46040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 41/42] fix: scans do not hold all the pages they have visited

VACUUM, ANALYZE and the DDL that reads a whole table kept a latch on each
leaf page, so they failed with an out-of-memory error as soon as the table
had more pages than the cache.
---
 crates/axmos-db/src/tree/bplustree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index e98d267..68a1a81 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -531,6 +531,7 @@ where
         let page_id = pos.entry();
         let slot = pos.slot();
         let mut reassembler = Reassembler::new(self.get_pager().clone());
+        let was_held = self.accessor()?.contains(page_id);
         let page = self.get_page(page_id)?;
         let cell = page.cell(slot);
 
@@ -541,6 +542,11 @@ where
             f(cell.effective_data())
         };
 
+        // Whoever visits all the cells of a tree must not hold all of its pages.
+        if !was_held {
+            self.accessor_mut()?.release(page_id);
+        }
+
         Ok(result)
     }
 
-- 
2.43.0


From 021ba196e420ccd93a74e40c6a7738e5a55ff495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 42/42] fix: LIKE's % does not stop in the middle of a
 character

---
 crates/axmos-db/src/types/blob.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/types/blob.rs b/crates/axmos-db/src/types/blob.rs
index c24c869..49fa60b 100644
--- a/crates/axmos-db/src/types/blob.rs
+++ b/crates/axmos-db/src/types/blob.rs
@@ -428,7 +428,7 @@ impl<'a> BlobRef<'a> {
                 }
                 // Expand the last %
                 (None, Some((start, next))) if start < data.len() => {
-                    data_idx = start + 1;
+                    data_idx = start + Self::character_len(&data[start..]);
                     pattern_idx = next;
                     backtrack = Some((data_idx, next));
                 }
-- 
2.43.0

