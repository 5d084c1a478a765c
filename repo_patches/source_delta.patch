From b58f636f36c87c5cbb6a24abcc7b98603c470344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 01/50] fix: remainder of signed division of -2^63 when
 constant folding

---
 hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index faad176..13468ce 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -63,7 +63,8 @@ fn divmod_s(n: i64, m: u64) -> (i64, u64) {
         if r == 0 {
             (q, 0)
         } else {
-            (q - 1, (m_s - r) as u64)
+            // `%` truncates, so here -m < r < 0
+            (q - 1, (m_s + r) as u64)
         }
     } else {
         // n = -2^63, m >= 2^63
-- 
2.43.0


From 1c201b3c924943cfdafb0480d45ec62874846595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 02/50] fix: constant folding inarrow_u to 64 bits overflowed a
 shift

---
 hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 13468ce..9f7f494 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -129,7 +129,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: u64 = n0.value_u();
-                    let out_const: Value = if n0val >> (1 << logwidth1) != 0 {
+                    let out_const: Value = if n0val > bitmask_from_logwidth(logwidth1) {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_u(logwidth1, n0val).map(Into::into))
-- 
2.43.0


From 01f77f9e03ca06ba4c208e4f57fceb09cc8386a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 03/50] fix: constant folding inarrow_s to 64 bits overflowed

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 9f7f494..bf383c5 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -156,8 +156,9 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: i64 = n0.value_s();
-                    let ub = 1i64 << ((1 << logwidth1) - 1);
-                    let out_const: Value = if n0val >= ub || n0val < -ub {
+                    // largest representable value, i.e. 2^(N-1) - 1
+                    let max = (bitmask_from_logwidth(logwidth1) >> 1) as i64;
+                    let out_const: Value = if n0val > max || n0val < -max - 1 {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_s(logwidth1, n0val).map(Into::into))
-- 
2.43.0


From d1f541d5eb3265ae7e10181192dcd8022c24188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 04/50] fix: constant folding iabs panicked on the minimum of
 narrow widths

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs  | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index bf383c5..e578d8a 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -920,13 +920,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                if n0val == i64::MIN {
-                                    debug_assert!(logwidth == 6);
-                                    ConstInt::new_u(6, 1u64 << 63)
-                                } else {
-                                    ConstInt::new_s(logwidth, n0val.abs())
-                                }
-                                .unwrap(),
+                                // The result is unsigned, so |-2^(N-1)| is representable.
+                                ConstInt::new_u(logwidth, n0val.unsigned_abs()).unwrap(),
                             ),
                         )])
                     } else {
-- 
2.43.0


From 94884160e994bea4e3e0f1f841e3fa2a78b7f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 05/50] fix: constant folding ipow clamped exponents above
 u32::MAX

---
 .../arithmetic/int_ops/const_fold.rs          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index e578d8a..22f93b4 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -72,6 +72,19 @@ fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     }
 }
 
+// return n^k modulo 2^64
+fn wrapping_pow(n: u64, k: u64) -> u64 {
+    let (mut result, mut base, mut k) = (1u64, n, k);
+    while k > 0 {
+        if k & 1 == 1 {
+            result = result.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        k >>= 1;
+    }
+    result
+}
+
 pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
     def.set_constant_folder(match op {
         IntOpDef::iwiden_u => Folder {
@@ -561,11 +574,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth,
-                                    n0.value_u()
-                                        .overflowing_pow(
-                                            n1.value_u().try_into().unwrap_or(u32::MAX),
-                                        )
-                                        .0
+                                    wrapping_pow(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth),
                                 )
                                 .unwrap(),
-- 
2.43.0


From 444a230d7a0253f20ef54845e5e34e1a8ab75787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 06/50] fix: constant folding shifts by 64 or more bits
 panicked

---
 .../arithmetic/int_ops/const_fold.rs              | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 22f93b4..838d890 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -85,6 +85,16 @@ fn wrapping_pow(n: u64, k: u64) -> u64 {
     result
 }
 
+// return n << k, where all bits are dropped if k >= 64
+fn shl_or_zero(n: u64, k: u64) -> u64 {
+    if k < 64 { n << k } else { 0 }
+}
+
+// return n >> k, where all bits are dropped if k >= 64
+fn shr_or_zero(n: u64, k: u64) -> u64 {
+    if k < 64 { n >> k } else { 0 }
+}
+
 pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
     def.set_constant_folder(match op {
         IntOpDef::iwiden_u => Folder {
@@ -1044,7 +1054,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    (n0.value_u() << n1.value_u())
+                                    shl_or_zero(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth0),
                                 )
                                 .unwrap(),
@@ -1069,7 +1079,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                ConstInt::new_u(logwidth0, n0.value_u() >> n1.value_u()).unwrap(),
+                                ConstInt::new_u(logwidth0, shr_or_zero(n0.value_u(), n1.value_u()))
+                                    .unwrap(),
                             ),
                         )])
                     }
-- 
2.43.0


From cae9dfd6476a8069a0d0fb62f86d2af2e70e94b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 07/50] fix: constant folding 64-bit rotations by a multiple of
 64 panicked

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 838d890..e40df5e 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -1107,7 +1107,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << k) & bitmask_from_width(w)) | (n >> (w - k)),
+                                    (shl_or_zero(n, k) & bitmask_from_width(w))
+                                        | shr_or_zero(n, w - k),
                                 )
                                 .unwrap(),
                             ),
@@ -1136,7 +1137,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << (w - k)) & bitmask_from_width(w)) | (n >> k),
+                                    (shl_or_zero(n, w - k) & bitmask_from_width(w))
+                                        | shr_or_zero(n, k),
                                 )
                                 .unwrap(),
                             ),
-- 
2.43.0


From d44f033d3d37e3e5702987e1323ee669cb14c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 08/50] fix: folded checked divisions had the result type
 without the error variant

---
 .../arithmetic/int_ops/const_fold.rs          | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index e40df5e..cb428bc 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -7,7 +7,7 @@ use crate::{
     IncomingPort,
     extension::{
         ConstFoldResult, Folder, OpDef,
-        prelude::{ConstError, sum_with_error},
+        prelude::{ConstError, const_ok, error_type, sum_with_error},
     },
     ops::{
         Value,
@@ -27,6 +27,11 @@ static INARROW_ERROR_VALUE: LazyLock<Value> = LazyLock::new(|| {
     .into()
 });
 
+// The value returned by a checked division which succeeds.
+fn ok_value(value: Value) -> Value {
+    const_ok(value, error_type())
+}
+
 fn bitmask_from_width(width: u64) -> u64 {
     debug_assert!(width <= 64);
     if width == 64 {
@@ -622,10 +627,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         } else {
                             let qval = nval / mval;
                             let rval = nval % mval;
-                            Value::tuple(vec![
+                            ok_value(Value::tuple(vec![
                                 Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
                                 Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            ]))
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -682,10 +687,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, rval) = divmod_s(nval, mval);
-                            Value::tuple(vec![
+                            ok_value(Value::tuple(vec![
                                 Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
                                 Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            ]))
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -739,7 +744,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap())
+                            ok_value(ConstInt::new_u(logwidth0, nval / mval).unwrap().into())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -791,7 +796,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap())
+                            ok_value(ConstInt::new_u(logwidth0, nval % mval).unwrap().into())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -844,7 +849,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, _) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_s(logwidth0, qval).unwrap())
+                            ok_value(ConstInt::new_s(logwidth0, qval).unwrap().into())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -898,7 +903,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (_, rval) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_u(logwidth0, rval).unwrap())
+                            ok_value(ConstInt::new_u(logwidth0, rval).unwrap().into())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
-- 
2.43.0


From 24a61f558bd2c0b76120aef3eba4994fda4474ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 09/50] fix: constant folding trunc_u and trunc_s saturated
 instead of returning an error

---
 .../arithmetic/conversions/const_fold.rs      | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
index 90615d7..1812388 100644
--- a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
@@ -13,7 +13,6 @@ use crate::{
         float_types::ConstF64,
         int_types::{ConstInt, get_log_width},
     },
-    types::ConstTypeError,
 };
 
 use super::ConvertOpDef;
@@ -36,10 +35,14 @@ pub(super) fn set_fold(op: &ConvertOpDef, def: &mut OpDef) {
     }
 }
 
+const TWO_POW_63: f64 = (1u64 << 63) as f64;
+const TWO_POW_64: f64 = 2.0 * TWO_POW_63;
+
 fn fold_trunc(
     type_args: &[crate::types::TypeArg],
     consts: &[(IncomingPort, Value)],
-    convert: impl Fn(f64, u8) -> Result<Value, ConstTypeError>,
+    // Convert a truncated float, returning `None` if it is not representable.
+    convert: impl Fn(f64, u8) -> Option<ConstInt>,
 ) -> ConstFoldResult {
     let f: &ConstF64 = get_single_input_value(consts)?;
     let f = f.value();
@@ -56,9 +59,8 @@ fn fold_trunc(
         .as_either(int_type.clone())
     };
     let out_const: ops::Value = if f.is_finite() {
-        let cv = convert(f, log_width);
-        if let Ok(cv) = cv {
-            const_ok(cv, error_type())
+        if let Some(cv) = convert(f.trunc(), log_width) {
+            const_ok(cv.into(), error_type())
         } else {
             err_value()
         }
@@ -78,7 +80,11 @@ impl ConstFold for TruncU {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_u(log_width, f.trunc() as u64).map(Into::into)
+            // `as` saturates, so check that the value is in the 64-bit range first.
+            (0.0..TWO_POW_64)
+                .contains(&f)
+                .then(|| ConstInt::new_u(log_width, f as u64).ok())
+                .flatten()
         })
     }
 }
@@ -92,7 +98,11 @@ impl ConstFold for TruncS {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_s(log_width, f.trunc() as i64).map(Into::into)
+            // `as` saturates, so check that the value is in the 64-bit range first.
+            (-TWO_POW_63..TWO_POW_63)
+                .contains(&f)
+                .then(|| ConstInt::new_s(log_width, f as i64).ok())
+                .flatten()
         })
     }
 }
-- 
2.43.0


From f5b0ce1c370a1fe404b40c3dce213eca3ffb4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 10/50] fix: constant folding logical equality with one known
 input

---
 hugr-core/src/std_extensions/logic.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/logic.rs b/hugr-core/src/std_extensions/logic.rs
index 1e211f6..b0c2ed9 100644
--- a/hugr-core/src/std_extensions/logic.rs
+++ b/hugr-core/src/std_extensions/logic.rs
@@ -44,9 +44,8 @@ impl ConstFold for LogicOp {
             Self::Eq => {
                 let inps = read_inputs(consts)?;
                 let res = inps.iter().copied().reduce(|a, b| a == b)?;
-                // If we have only some inputs, we can still fold to false, but not to true
-                (!res || inps.len() as u64 == 2)
-                    .then_some(vec![(0.into(), ops::Value::from_bool(res))])
+                // We can only fold if we have a const for all our inputs.
+                (inps.len() as u64 == 2).then_some(vec![(0.into(), ops::Value::from_bool(res))])
             }
             Self::Not => {
                 let inps = read_inputs(consts)?;
-- 
2.43.0


From 47927bfcc9e5152934f7ac06babc1e6e34b76646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 11/50] fix: integer widths were truncated to 8 bits before
 being checked

---
 hugr-core/src/std_extensions/arithmetic/int_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_types.rs b/hugr-core/src/std_extensions/arithmetic/int_types.rs
index 04567aa..b9459cd 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_types.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_types.rs
@@ -77,7 +77,7 @@ pub const LOG_WIDTH_TYPE_PARAM: TypeParam = TypeParam::bounded_nat_type({
 /// is invalid.
 pub(super) fn get_log_width(arg: &TypeArg) -> Result<u8, TermTypeError> {
     match arg {
-        TypeArg::BoundedNat(n) if is_valid_log_width(*n as u8) => Ok(*n as u8),
+        TypeArg::BoundedNat(n) if *n < u64::from(LOG_WIDTH_BOUND) => Ok(*n as u8),
         _ => Err(TermTypeError::TypeMismatch {
             term: Box::new(arg.clone()),
             type_: Box::new(LOG_WIDTH_TYPE_PARAM),
-- 
2.43.0


From f46d57aefcce639346f54cc544e086c052d01003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 12/50] fix: deserializing a ConstInt did not check its width
 and value

---
 .../src/std_extensions/arithmetic/int_types.rs   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_types.rs b/hugr-core/src/std_extensions/arithmetic/int_types.rs
index b9459cd..a1542b9 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_types.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_types.rs
@@ -91,6 +91,7 @@ const fn type_arg(log_width: u8) -> TypeArg {
 
 /// An integer (either signed or unsigned)
 #[derive(Clone, Debug, Eq, PartialEq, Hash, serde::Serialize, serde::Deserialize)]
+#[serde(try_from = "SerializedConstInt")]
 pub struct ConstInt {
     log_width: u8,
     // We always use a u64 for the value. The interpretation is:
@@ -101,6 +102,21 @@ pub struct ConstInt {
     value: u64,
 }
 
+/// A [`ConstInt`] as serialized, i.e. before the width and the value are checked.
+#[derive(serde::Deserialize)]
+struct SerializedConstInt {
+    log_width: u8,
+    value: u64,
+}
+
+impl TryFrom<SerializedConstInt> for ConstInt {
+    type Error = ConstTypeError;
+
+    fn try_from(value: SerializedConstInt) -> Result<Self, Self::Error> {
+        Self::new_u(value.log_width, value.value)
+    }
+}
+
 impl ConstInt {
     /// Name of the constructor for creating constant integers.
     pub(crate) const CTR_NAME: &'static str = "arithmetic.int.const";
-- 
2.43.0


From 919c1e371cf23ecb2093958b9c985114f6e7a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 13/50] fix: visibility of symbols in the model's symbol table
 compared unrelated indices

---
 hugr-model/src/v0/scope/symbol.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/scope/symbol.rs b/hugr-model/src/v0/scope/symbol.rs
index 52ca937..1131b68 100644
--- a/hugr-model/src/v0/scope/symbol.rs
+++ b/hugr-model/src/v0/scope/symbol.rs
@@ -120,12 +120,12 @@ impl<'a> SymbolTable<'a> {
     /// Check whether a symbol is currently visible in the current scope.
     #[must_use]
     pub fn is_visible(&self, node: NodeId) -> bool {
-        let Some(binding) = self.bindings.get(&node) else {
+        let Some((binding_index, _, binding)) = self.bindings.get_full(&node) else {
             return false;
         };
 
         // Check that the symbol has not been shadowed at this point.
-        self.symbols[binding.symbol_index] == binding.symbol_index
+        self.symbols[binding.symbol_index] == binding_index
     }
 
     /// Tries to resolve a symbol name in the current scope.
-- 
2.43.0


From 2a34342cf2039fe6129a771e1e03e2f7ec8b6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 14/50] fix: substitution turned tuple types into list types

---
 hugr-core/src/types/type_param.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index b539e55..9690c09 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -446,7 +446,7 @@ impl Term {
             Term::BytesType => self.clone(),
             Term::FloatType => self.clone(),
             Term::ListType(item_type) => Term::new_list_type(item_type.substitute(t)),
-            Term::TupleType(item_types) => Term::new_list_type(item_types.substitute(t)),
+            Term::TupleType(item_types) => Term::new_tuple_type(item_types.substitute(t)),
             Term::StaticType => self.clone(),
             Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),
         }
-- 
2.43.0


From b98cad4475519e116142dc4b31b02824fb33898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 15/50] fix: the parts of a list concatenation were checked as
 if they were items

---
 hugr-core/src/types/type_param.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 9690c09..016518a 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -657,9 +657,9 @@ pub fn check_term_type(term: &Term, type_: &Term) -> Result<(), TermTypeError> {
                 check_term_type(term, item_type)
             })
         }
-        (Term::ListConcat(lists), Term::ListType(item_type)) => lists
+        (Term::ListConcat(lists), Term::ListType(_)) => lists
             .iter()
-            .try_for_each(|list| check_term_type(list, item_type)),
+            .try_for_each(|list| check_term_type(list, type_)),
         (TypeArg::Tuple(_) | TypeArg::TupleConcat(_), TypeParam::TupleType(item_types)) => {
             let term_parts: Vec<_> = term.clone().into_tuple_parts().collect();
             let type_parts: Vec<_> = item_types.clone().into_list_parts().collect();
-- 
2.43.0


From a610149f25c1fee85b9f2ce6161b99af7b35c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 16/50] fix: the sub-kind relation was not reflexive on
 constant kinds and concatenations

---
 hugr-core/src/types/type_param.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 016518a..0a05d9c 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -212,6 +212,13 @@ impl Term {
             (Term::Tuple(es1), Term::Tuple(es2)) => {
                 es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
             }
+            (Term::ListConcat(es1), Term::ListConcat(es2)) => {
+                es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
+            }
+            (Term::TupleConcat(es1), Term::TupleConcat(es2)) => {
+                es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
+            }
+            (Term::ConstType(t1), Term::ConstType(t2)) => t1 == t2,
             _ => false,
         }
     }
-- 
2.43.0


From 420ae8f2ac768153c8275d22a3caf1ab4dba4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 17/50] fix: instantiating a row variable with a variable or
 concatenation of rows panicked

---
 hugr-core/src/types.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hugr-core/src/types.rs b/hugr-core/src/types.rs
index 3bb307b..48a7935 100644
--- a/hugr-core/src/types.rs
+++ b/hugr-core/src/types.rs
@@ -752,6 +752,11 @@ impl<'a> Substitution<'a> {
             .get(idx)
             .expect("Undeclared type variable - call validate() ?");
         debug_assert!(check_term_type(arg, &TypeParam::new_list_type(bound)).is_ok());
+        Self::row_of(arg)
+    }
+
+    /// The row of types described by an argument that is a list of types.
+    fn row_of(arg: &TypeArg) -> Vec<TypeRV> {
         match arg {
             TypeArg::List(elems) => elems
                 .iter()
@@ -768,6 +773,14 @@ impl<'a> Substitution<'a> {
                     panic!("Not a list of types - call validate() ?")
                 })
                 .collect(),
+            TypeArg::ListConcat(lists) => lists.iter().flat_map(Self::row_of).collect(),
+            Term::Variable(v) => {
+                // Standalone variable can be used iff it is a row variable
+                let bound = v
+                    .bound_if_row_var()
+                    .expect("Not a type or list of types - call validate() ?");
+                vec![TypeRV::new_row_var_use(v.index(), bound)]
+            }
             Term::Runtime(ty) if matches!(ty.0, TypeEnum::RowVar(_)) => {
                 // Standalone "Type" can be used iff its actually a Row Variable not an actual (single) Type
                 vec![ty.clone().into()]
-- 
2.43.0


From 7f8b4a820433867a16570d11d9c3346468b552da Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 18/50] fix: validating a constant did not look inside nested
 values

---
 hugr-core/src/ops/constant.rs                                 | 4 ++++
 hugr-core/src/std_extensions/collections/array/array_value.rs | 2 ++
 hugr-core/src/std_extensions/collections/list.rs              | 1 +
 hugr-core/src/std_extensions/collections/static_array.rs      | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/hugr-core/src/ops/constant.rs b/hugr-core/src/ops/constant.rs
index deebe54..2ad0ae1 100644
--- a/hugr-core/src/ops/constant.rs
+++ b/hugr-core/src/ops/constant.rs
@@ -496,6 +496,10 @@ impl Value {
                 values,
                 sum_type,
             }) => {
+                // The elements may themselves be ill-typed.
+                for value in values {
+                    value.validate()?;
+                }
                 sum_type.check_type(*tag, values)?;
                 Ok(())
             }
diff --git a/hugr-core/src/std_extensions/collections/array/array_value.rs b/hugr-core/src/std_extensions/collections/array/array_value.rs
index 916f218..c7bd04e 100644
--- a/hugr-core/src/std_extensions/collections/array/array_value.rs
+++ b/hugr-core/src/std_extensions/collections/array/array_value.rs
@@ -107,6 +107,8 @@ impl<AK: ArrayKind> GenericArrayValue<AK> {
 
         // check all values are instances of the element type
         for v in &self.values {
+            v.validate()
+                .map_err(|e| CustomCheckFailure::Message(e.to_string()))?;
             if v.get_type() != *ty {
                 return Err(CustomCheckFailure::Message(format!(
                     "Array element {v:?} is not of expected type {ty}"
diff --git a/hugr-core/src/std_extensions/collections/list.rs b/hugr-core/src/std_extensions/collections/list.rs
index 3401257..228ea18 100644
--- a/hugr-core/src/std_extensions/collections/list.rs
+++ b/hugr-core/src/std_extensions/collections/list.rs
@@ -117,6 +117,7 @@ impl CustomConst for ListValue {
 
         // check all values are instances of the element type
         for v in &self.0 {
+            v.validate().map_err(|_| error())?;
             if v.get_type() != *ty {
                 return Err(error());
             }
diff --git a/hugr-core/src/std_extensions/collections/static_array.rs b/hugr-core/src/std_extensions/collections/static_array.rs
index d294fbd..2e4eb62 100644
--- a/hugr-core/src/std_extensions/collections/static_array.rs
+++ b/hugr-core/src/std_extensions/collections/static_array.rs
@@ -125,6 +125,10 @@ impl CustomConst for StaticArrayValue {
         self.custom_type().into()
     }
 
+    fn validate(&self) -> Result<(), CustomCheckFailure> {
+        self.value.validate()
+    }
+
     fn equal_consts(&self, other: &dyn CustomConst) -> bool {
         crate::ops::constant::downcast_equal_consts(self, other)
     }
-- 
2.43.0


From d1dec755f5fa8cbb509a5d108367245b950d773a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 19/50] fix: validating an extension did not look at plain type
 schemes

---
 hugr-core/src/extension/op_def.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index c1e19b5..0c89d52 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -462,13 +462,16 @@ impl OpDef {
     pub(super) fn validate(&self) -> Result<(), SignatureError> {
         // TODO https://github.com/CQCL/hugr/issues/624 validate declared TypeParams
         // for both type scheme and custom binary
-        if let SignatureFunc::CustomValidator(ts) = &self.signature_func {
+        match &self.signature_func {
             // The type scheme may contain row variables so be of variable length;
             // these will have to be substituted to fixed-length concrete types when
             // the OpDef is instantiated into an actual OpType.
-            ts.poly_func.validate()?;
+            SignatureFunc::CustomValidator(ts) => ts.poly_func.validate(),
+            SignatureFunc::PolyFuncType(ts) | SignatureFunc::MissingValidateFunc(ts) => {
+                ts.validate()
+            }
+            SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => Ok(()),
         }
-        Ok(())
     }
 
     /// Add a lowering function to the [`OpDef`]
-- 
2.43.0


From 6de48ff09c011b039fc68646f01819b658595649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 20/50] fix: joining two instantiations of a function kept
 whichever came first

---
 hugr-passes/src/dataflow/partial_value.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 3ca23fb..f1bd392 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -452,10 +452,8 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> Lattice for PartialValue<V, N>
                 Some((h3, b)) => (Self::Value(h3), b),
                 None => (Self::Top, true),
             },
-            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2))
-                if lf1.func_node == lf2.func_node =>
-            {
-                // TODO we should also join the TypeArgs but at the moment these are ignored
+            // Different instantiations of one function are different values.
+            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2)) if lf1 == lf2 => {
                 (Self::LoadedFunction(lf1), false)
             }
             (Self::PartialSum(mut ps1), Self::PartialSum(ps2)) => match ps1.try_join_mut(ps2) {
@@ -479,10 +477,8 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> Lattice for PartialValue<V, N>
                 Some((h3, ch)) => (Self::Value(h3), ch),
                 None => (Self::Bottom, true),
             },
-            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2))
-                if lf1.func_node == lf2.func_node =>
-            {
-                // TODO we should also meet the TypeArgs but at the moment these are ignored
+            // Different instantiations of one function are different values.
+            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2)) if lf1 == lf2 => {
                 (Self::LoadedFunction(lf1), false)
             }
             (Self::PartialSum(mut ps1), Self::PartialSum(ps2)) => match ps1.try_meet_mut(ps2) {
-- 
2.43.0


From a26faabb7bc23bc7a55294f9f4269bc3ca57a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 21/50] fix: meeting sums reported a change for variants only
 the other had

---
 hugr-passes/src/dataflow/partial_value.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index f1bd392..2c71450 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -156,8 +156,6 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> PartialSum<V, N> {
                 for (lhs, rhs) in zip_eq(row.iter_mut(), v.into_iter()) {
                     changed |= lhs.meet_mut(rhs);
                 }
-            } else {
-                keys_to_remove.push(k);
             }
         }
         for k in keys_to_remove {
-- 
2.43.0


From 7a09e3e5a0c4d893399dac91acce0508e6e88dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 22/50] fix: sums and rows of abstract values were compared
 lexicographically

---
 hugr-passes/src/dataflow/partial_value.rs | 56 +++++++++++++----------
 hugr-passes/src/dataflow/value_row.rs     |  4 +-
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 2c71450..3b6d5d3 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -265,33 +265,43 @@ impl<V: Clone, N: Clone> PartialSum<V, N> {
     }
 }
 
+/// Combines the comparisons of two components: the order is componentwise.
+fn combine(a: Ordering, b: Option<Ordering>) -> Option<Ordering> {
+    match (a, b?) {
+        (Ordering::Equal, c) | (c, Ordering::Equal) => Some(c),
+        (a, b) => (a == b).then_some(a),
+    }
+}
+
+/// Compares two rows componentwise; rows of different lengths are incomparable.
+pub(super) fn partial_cmp_rows<V: PartialEq, N: PartialEq + PartialOrd>(
+    lhs: &[PartialValue<V, N>],
+    rhs: &[PartialValue<V, N>],
+) -> Option<Ordering> {
+    if lhs.len() != rhs.len() {
+        return None;
+    }
+    let mut res = Ordering::Equal;
+    for (l, r) in zip_eq(lhs, rhs) {
+        res = combine(res, l.partial_cmp(r))?;
+    }
+    Some(res)
+}
+
 impl<V: PartialEq, N: PartialEq + PartialOrd> PartialOrd for PartialSum<V, N> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let max_key = self.0.keys().chain(other.0.keys()).copied().max().unwrap();
-        let (mut keys1, mut keys2) = (vec![0; max_key + 1], vec![0; max_key + 1]);
-        for k in self.0.keys() {
-            keys1[*k] = 1;
+        let mut res = Ordering::Equal;
+        for (k, lhs) in &self.0 {
+            let key_cmp = match other.0.get(k) {
+                Some(rhs) => partial_cmp_rows(lhs, rhs),
+                None => Some(Ordering::Greater),
+            };
+            res = combine(res, key_cmp)?;
         }
-
-        for k in other.0.keys() {
-            keys2[*k] = 1;
+        if other.0.keys().any(|k| !self.0.contains_key(k)) {
+            res = combine(res, Some(Ordering::Less))?;
         }
-
-        Some(match keys1.cmp(&keys2) {
-            ord @ (Ordering::Greater | Ordering::Less) => ord,
-            Ordering::Equal => {
-                for (k, lhs) in &self.0 {
-                    let Some(rhs) = other.0.get(k) else {
-                        unreachable!()
-                    };
-                    let key_cmp = lhs.partial_cmp(rhs);
-                    if key_cmp != Some(Ordering::Equal) {
-                        return key_cmp;
-                    }
-                }
-                Ordering::Equal
-            }
-        })
+        Some(res)
     }
 }
 
diff --git a/hugr-passes/src/dataflow/value_row.rs b/hugr-passes/src/dataflow/value_row.rs
index 0438e87..7bcbe55 100644
--- a/hugr-passes/src/dataflow/value_row.rs
+++ b/hugr-passes/src/dataflow/value_row.rs
@@ -8,7 +8,7 @@ use std::{
 use ascent::Lattice;
 use itertools::zip_eq;
 
-use super::{AbstractValue, PartialValue};
+use super::{AbstractValue, PartialValue, partial_value::partial_cmp_rows};
 
 #[derive(PartialEq, Clone, Debug, Eq, Hash)]
 pub(super) struct ValueRow<V, N>(Vec<PartialValue<V, N>>);
@@ -48,7 +48,7 @@ impl<V, N> FromIterator<PartialValue<V, N>> for ValueRow<V, N> {
 
 impl<V: PartialEq, N: PartialEq + PartialOrd> PartialOrd for ValueRow<V, N> {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.0.partial_cmp(&other.0)
+        partial_cmp_rows(&self.0, &other.0)
     }
 }
 
-- 
2.43.0


From 89a799cf35e4f5c52dc7ae062e961865ca82880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 23/50] fix: equal sums could hash differently

---
 hugr-passes/src/dataflow/partial_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 3b6d5d3..4bb0877 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -313,7 +313,8 @@ impl<V: std::fmt::Debug, N: std::fmt::Debug> std::fmt::Debug for PartialSum<V, N
 
 impl<V: Hash, N: Hash> Hash for PartialSum<V, N> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for (k, v) in &self.0 {
+        // Equal maps may iterate in different orders.
+        for (k, v) in self.0.iter().sorted_by_key(|(k, _)| **k) {
             k.hash(state);
             v.hash(state);
         }
-- 
2.43.0


From c551f359f6d7ed78dcf4aae1bfe00e75ec85de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 24/50] fix: validating a container could panic on a child of
 the wrong kind

The checks on the children of a node relied on the children being of an
allowed kind, which was only checked when the child itself was reached,
and on the exit of a control-flow graph having no successors.
---
 hugr-core/src/hugr/validate.rs | 13 +++++++++++++
 hugr-core/src/ops/validate.rs  | 11 +++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 25316db..13f261d 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -356,6 +356,19 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                     });
                 }
             }
+            // The remaining checks rely on every child being of an allowed kind.
+            for child in all_children.clone() {
+                let child_optype = self.hugr.get_optype(child);
+                if !flags.allowed_children.is_superset(child_optype.tag()) {
+                    return Err(ValidationError::InvalidParentOp {
+                        child,
+                        child_optype: Box::new(child_optype.clone()),
+                        parent: node,
+                        parent_optype: Box::new(op_type.clone()),
+                        allowed_children: flags.allowed_children,
+                    });
+                }
+            }
             // Additional validations running over the full list of children optypes
             let children_optypes = all_children.map(|c| (c, self.hugr.get_optype(c)));
             if let Err(source) = op_type.validate_op_children(children_optypes) {
diff --git a/hugr-core/src/ops/validate.rs b/hugr-core/src/ops/validate.rs
index 9bb4ebb..724333b 100644
--- a/hugr-core/src/ops/validate.rs
+++ b/hugr-core/src/ops/validate.rs
@@ -342,18 +342,17 @@ fn validate_io_nodes<'a, N: HugrNode>(
 
 /// Validate an edge between two basic blocks in a CFG sibling graph.
 fn validate_cfg_edge<N: HugrNode>(edge: ChildrenEdgeData<N>) -> Result<(), EdgeValidationError<N>> {
-    let source = &edge
-        .source_op
-        .as_dataflow_block()
-        .expect("CFG sibling graphs can only contain basic block operations.");
-
     let target_input = match &edge.target_op {
         OpType::DataflowBlock(dfb) => dfb.dataflow_input(),
         OpType::ExitBlock(exit) => exit.dataflow_input(),
         _ => panic!("CFG sibling graphs can only contain basic block operations."),
     };
 
-    let source_types = source.successor_input(edge.source_port.index());
+    // An exit block has no successors.
+    let source_types = edge
+        .source_op
+        .as_dataflow_block()
+        .and_then(|source| source.successor_input(edge.source_port.index()));
     if source_types.as_ref() != Some(target_input) {
         let target_types = target_input.clone();
         return Err(EdgeValidationError::CFGEdgeSignatureMismatch {
-- 
2.43.0


From fda13aa65ead8cc61a19a4c06e41f370eb01f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 25/50] fix: validating a container with a single child
 panicked

A container that prescribes its second child is reported as invalid when
there is none.
---
 hugr-core/src/hugr/validate.rs | 12 +++++++++++-
 hugr-core/src/ops/validate.rs  |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 13f261d..163fd6b 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -331,7 +331,8 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
 
             let all_children = self.hugr.children(node);
             let mut first_two_children = all_children.clone().take(2);
-            let first_child = self.hugr.get_optype(first_two_children.next().unwrap());
+            let first_node = first_two_children.next().unwrap();
+            let first_child = self.hugr.get_optype(first_node);
             if !flags.allowed_first_child.is_superset(first_child.tag()) {
                 return Err(ValidationError::InvalidInitialChild {
                     parent: node,
@@ -355,6 +356,15 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                         position: "second",
                     });
                 }
+            } else if flags.allowed_second_child != OpTag::Any {
+                return Err(ValidationError::InvalidChildren {
+                    parent: node,
+                    parent_optype: Box::new(op_type.clone()),
+                    source: ChildrenValidationError::MissingSecondChild {
+                        child: first_node,
+                        expected: flags.allowed_second_child,
+                    },
+                });
             }
             // The remaining checks rely on every child being of an allowed kind.
             for child in all_children.clone() {
diff --git a/hugr-core/src/ops/validate.rs b/hugr-core/src/ops/validate.rs
index 724333b..51db7e2 100644
--- a/hugr-core/src/ops/validate.rs
+++ b/hugr-core/src/ops/validate.rs
@@ -202,6 +202,9 @@ pub enum ChildrenValidationError<N: HugrNode> {
         expected_count: usize,
         actual_sum_rows: Vec<TypeRow>,
     },
+    /// The container requires a specific second child but has only one child.
+    #[error("The container has a single child, but requires a {expected} as its second child")]
+    MissingSecondChild { child: N, expected: OpTag },
 }
 
 impl<N: HugrNode> ChildrenValidationError<N> {
@@ -213,6 +216,7 @@ impl<N: HugrNode> ChildrenValidationError<N> {
             ChildrenValidationError::ConditionalCaseSignature { child, .. } => *child,
             ChildrenValidationError::IOSignatureMismatch { child, .. } => *child,
             ChildrenValidationError::InvalidConditionalSum { child, .. } => *child,
+            ChildrenValidationError::MissingSecondChild { child, .. } => *child,
         }
     }
 }
-- 
2.43.0


From 79159383a8c375def10fe9acdd8e6fbd7e8656e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 26/50] fix: validating a control-flow graph with an edge to a
 constant panicked

Constants are allowed among the blocks of a control-flow graph, so the
check of an edge cannot rely on its ends being blocks.
---
 hugr-core/src/ops/validate.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/ops/validate.rs b/hugr-core/src/ops/validate.rs
index 51db7e2..745fdad 100644
--- a/hugr-core/src/ops/validate.rs
+++ b/hugr-core/src/ops/validate.rs
@@ -346,19 +346,20 @@ fn validate_io_nodes<'a, N: HugrNode>(
 
 /// Validate an edge between two basic blocks in a CFG sibling graph.
 fn validate_cfg_edge<N: HugrNode>(edge: ChildrenEdgeData<N>) -> Result<(), EdgeValidationError<N>> {
+    // Children other than basic blocks, such as constants, do not take an input.
     let target_input = match &edge.target_op {
-        OpType::DataflowBlock(dfb) => dfb.dataflow_input(),
-        OpType::ExitBlock(exit) => exit.dataflow_input(),
-        _ => panic!("CFG sibling graphs can only contain basic block operations."),
+        OpType::DataflowBlock(dfb) => Some(dfb.dataflow_input()),
+        OpType::ExitBlock(exit) => Some(exit.dataflow_input()),
+        _ => None,
     };
 
-    // An exit block has no successors.
+    // Likewise they have no successors, and neither does the exit block.
     let source_types = edge
         .source_op
         .as_dataflow_block()
         .and_then(|source| source.successor_input(edge.source_port.index()));
-    if source_types.as_ref() != Some(target_input) {
-        let target_types = target_input.clone();
+    if target_input.is_none() || source_types.as_ref() != target_input {
+        let target_types = target_input.cloned().unwrap_or_default();
         return Err(EdgeValidationError::CFGEdgeSignatureMismatch {
             edge: Box::new(edge),
             source_types: source_types.map(Box::new),
-- 
2.43.0


From ff5d8e502f1e28ca47af885bfe3420aa96f573d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 27/50] fix: validation accepted two functions connected to one
 function port

---
 hugr-core/src/hugr/validate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 163fd6b..9dd53b7 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -223,8 +223,8 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
         let mut links = self.hugr.linked_ports(node, port).peekable();
         // Linear dataflow values must be used, and control must have somewhere to flow.
         let outgoing_is_unique = port_kind.is_linear() || port_kind == EdgeKind::ControlFlow;
-        // All dataflow wires must have a unique source.
-        let incoming_is_unique = port_kind.is_value() || port_kind.is_const();
+        // All dataflow and static wires must have a unique source.
+        let incoming_is_unique = port_kind.is_value() || port_kind.is_static();
         let must_be_connected = match dir {
             // Incoming ports must be connected, except for state order ports, branch case nodes,
             // and CFG nodes.
-- 
2.43.0


From ab1544e51cacc1d32fb1ceed441e622479b5c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 28/50] fix: validation accepted calls applied to parameters
 that are not in scope

---
 hugr-core/src/hugr/validate.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 9dd53b7..3f7dc33 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -19,7 +19,7 @@ use crate::ops::validate::{
 };
 use crate::ops::{NamedOp, OpName, OpTag, OpTrait, OpType, ValidateOp};
 use crate::types::EdgeKind;
-use crate::types::type_param::TypeParam;
+use crate::types::type_param::{TypeArg, TypeParam};
 use crate::{Direction, Port, Visibility};
 
 use super::internal::PortgraphNodeMap;
@@ -594,6 +594,9 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                     cause,
                 })
         };
+        let validate_type_args = |args: &[TypeArg]| -> Result<(), SignatureError> {
+            args.iter().try_for_each(|arg| arg.validate(var_decls))
+        };
         match op_type {
             OpType::ExtensionOp(ext_op) => validate_ext(ext_op)?,
             OpType::OpaqueOp(opaque) => {
@@ -604,7 +607,8 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                 ))?;
             }
             OpType::Call(c) => {
-                c.validate()
+                validate_type_args(&c.type_args)
+                    .and_then(|()| c.validate())
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
@@ -612,7 +616,8 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                     })?;
             }
             OpType::LoadFunction(c) => {
-                c.validate()
+                validate_type_args(&c.type_args)
+                    .and_then(|()| c.validate())
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
-- 
2.43.0


From 799601a0eedfaaee6adf609caa396333a26fd7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 29/50] fix: a new node could inherit the metadata of a removed
 one

---
 hugr-core/src/hugr/hugrmut.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3a1564c..c2d3714 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,6 +486,8 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
+        // The index may be reused by a node added later.
+        self.metadata.remove(node.into_portgraph());
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From 3a639a5fc12878633028b0aed5853332463e86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 30/50] fix: canonicalizing the nodes of a hugr mixed up their
 metadata

---
 hugr-core/src/hugr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d5d62c6..41ab14b 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -383,6 +383,7 @@ impl Hugr {
             if pg_target != pg_source {
                 self.graph.swap_nodes(pg_target, pg_source);
                 self.op_types.swap(pg_target, pg_source);
+                self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
                 rekey(source, pg_target.into());
             }
-- 
2.43.0


From 4017f436351b6b0c62f65920746e4250d0f1c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 31/50] fix: canonicalizing the nodes of a hugr reported wrong
 and missing moves

---
 hugr-core/src/hugr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index 41ab14b..b599cc6 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -385,7 +385,9 @@ impl Hugr {
                 self.op_types.swap(pg_target, pg_source);
                 self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
-                rekey(source, pg_target.into());
+            }
+            if ordered[position].into_portgraph() != pg_target {
+                rekey(ordered[position], pg_target.into());
             }
         }
         self.module_root = portgraph::NodeIndex::new(0);
-- 
2.43.0


From 88cae9b08b667fddea5928ff7f916348c04346b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 32/50] fix: copying nodes without their parent from a view
 panicked

---
 hugr-core/src/hugr/hugrmut.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index c2d3714..7c1b7cc 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -725,9 +725,10 @@ fn insert_forest_internal<H: HugrView>(
     for old in other_nodes {
         let new = node_map[&old];
         if hugr.get_parent(new).is_none() {
-            let old_parent = other.get_parent(old).unwrap();
-            let new_parent = node_map[&old_parent];
-            hugr.set_parent(new, new_parent);
+            let old_parent = other.get_parent(old);
+            if let Some(&new_parent) = old_parent.and_then(|p| node_map.get(&p)) {
+                hugr.set_parent(new, new_parent);
+            }
         }
     }
     Ok(InsertedForest { node_map })
-- 
2.43.0


From 39f8f12fef485f9550b0013ddf80cff393759917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 33/50] fix: copying the descendants of a node to under one of
 them panicked

---
 hugr-core/src/hugr/hugrmut.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 7c1b7cc..0c0a04f 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -625,9 +625,8 @@ impl HugrMut for Hugr {
         let node_map =
             translate_indices(Into::into, Into::into, node_map).collect::<BTreeMap<_, _>>();
 
-        for node in self.children(root).collect::<Vec<_>>() {
-            self.set_parent(*node_map.get(&node).unwrap(), new_parent);
-        }
+        // Listed up front: `new_parent` may be one of the copied nodes.
+        let copied_children = self.children(root).collect::<Vec<_>>();
 
         // Copy the optypes, metadata, and hierarchy
         for (&node, &new_node) in &node_map {
@@ -642,6 +641,9 @@ impl HugrMut for Hugr {
             let meta = self.metadata.get(node.into_portgraph()).clone();
             self.metadata.set(new_node.into_portgraph(), meta);
         }
+        for node in copied_children {
+            self.set_parent(*node_map.get(&node).unwrap(), new_parent);
+        }
         node_map
     }
 
-- 
2.43.0


From bed6609be4704b53385c21fde004c9cf60b3943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 34/50] fix: the module root could be removed while it was not
 the entrypoint

---
 hugr-core/src/hugr/hugrmut.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 0c0a04f..4a1dd02 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -484,6 +484,10 @@ impl HugrMut for Hugr {
 
     fn remove_node(&mut self, node: Node) -> OpType {
         panic_invalid_non_entrypoint(self, node);
+        assert!(
+            node != self.module_root(),
+            "Cannot remove the root node {node}."
+        );
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
         // The index may be reused by a node added later.
-- 
2.43.0


From 195677ec2c15f3fc71edba77297772f2b35f416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 35/50] fix: edges could be attached to indices which are not
 nodes of the hugr

---
 hugr-core/src/hugr/views.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index ff53ca0..474eea2 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -853,10 +853,11 @@ pub(super) fn panic_invalid_non_entrypoint<H: HugrView + ?Sized>(hugr: &H, node:
 #[track_caller]
 pub(super) fn panic_invalid_port(hugr: &Hugr, node: Node, port: impl Into<Port>) {
     let port = port.into();
-    if hugr
-        .graph
-        .port_index(node.into_portgraph(), port.pg_offset())
-        .is_none()
+    if !hugr.contains_node(node)
+        || hugr
+            .graph
+            .port_index(node.into_portgraph(), port.pg_offset())
+            .is_none()
     {
         panic!("Received an invalid {port} for {node} while mutating a HUGR");
     }
-- 
2.43.0


From 36612a131b8c2ed2a7e8adee89be61792c42a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 36/50] fix: loading a malformed JSON graph panicked instead of
 giving an error

---
 hugr-core/src/hugr/serialize.rs | 68 ++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/hugr/serialize.rs b/hugr-core/src/hugr/serialize.rs
index 5ddc9e3..4a86045 100644
--- a/hugr-core/src/hugr/serialize.rs
+++ b/hugr-core/src/hugr/serialize.rs
@@ -11,7 +11,7 @@ use crate::ops::OpType;
 use crate::types::EdgeKind;
 use crate::{Node, PortIndex};
 use portgraph::hierarchy::AttachError;
-use portgraph::{Direction, LinkError, PortView};
+use portgraph::{Direction, LinkError, LinkMut, PortView};
 
 use serde::{Deserialize, Deserializer, Serialize};
 
@@ -134,6 +134,25 @@ pub enum HUGRSerializationError {
         /// The node that has the port without offset.
         node: Node,
     },
+    /// A parent, entrypoint or metadata entry with a wrong node index.
+    #[error("The node list has no entry for {node}.")]
+    UnknownNode {
+        /// The index which is not in the node list.
+        node: Node,
+    },
+    /// The node list must at least have the HUGR root.
+    #[error("The node list is empty.")]
+    NoNodes,
+    /// Edges with wrong port offsets
+    #[error("The edge endpoint {node} has no {dir:?} port {offset}.")]
+    UnknownPort {
+        /// The node that lacks the port.
+        node: Node,
+        /// The direction of the port.
+        dir: Direction,
+        /// The offset of the port.
+        offset: usize,
+    },
     /// First node in node list must be the HUGR root.
     #[error("The first node in the node list has parent {0}, should be itself (index 0)")]
     FirstNodeNotRoot(Node),
@@ -266,7 +285,7 @@ impl TryFrom<SerHugrLatest> for Hugr {
             parent: root_parent,
             op: root_type,
             ..
-        } = nodes.next().unwrap();
+        } = nodes.next().ok_or(HUGRSerializationError::NoNodes)?;
         if root_parent.index() != 0 {
             return Err(HUGRSerializationError::FirstNodeNotRoot(root_parent));
         }
@@ -278,30 +297,42 @@ impl TryFrom<SerHugrLatest> for Hugr {
         // encoded file did not have a module at the root), we need a function
         // to map the node indices.
         let padding_nodes = hugr.entrypoint.index();
-        let hugr_node =
-            |node: Node| -> Node { portgraph::NodeIndex::new(node.index() + padding_nodes).into() };
+        let num_nodes = nodes.len() + 1;
+        let hugr_node = |node: Node| -> Option<Node> {
+            (node.index() < num_nodes)
+                .then(|| portgraph::NodeIndex::new(node.index() + padding_nodes).into())
+        };
+        let known_node = |node: Node| -> Result<Node, Self::Error> {
+            hugr_node(node).ok_or(HUGRSerializationError::UnknownNode { node })
+        };
 
+        // A node may be listed before its parent.
+        let mut parents = Vec::with_capacity(num_nodes - 1);
         for node_ser in nodes {
-            hugr.add_node_with_parent(hugr_node(node_ser.parent), node_ser.op);
+            let node = hugr.add_node(node_ser.op).into_portgraph();
+            parents.push((node, known_node(node_ser.parent)?.into_portgraph()));
+        }
+        for (node, parent) in parents {
+            if node == parent {
+                return Err(AttachError::Cycle { node, parent }.into());
+            }
+            hugr.hierarchy.push_child(node, parent)?;
         }
 
         if let Some(entrypoint) = entrypoint {
-            hugr.set_entrypoint(hugr_node(entrypoint));
+            hugr.set_entrypoint(known_node(entrypoint)?);
         }
 
         if let Some(metadata) = metadata {
             for (node_idx, metadata) in metadata.into_iter().enumerate() {
                 if let Some(metadata) = metadata {
-                    let node = hugr_node(portgraph::NodeIndex::new(node_idx).into());
+                    let node = known_node(portgraph::NodeIndex::new(node_idx).into())?;
                     hugr.metadata[node.into_portgraph()] = Some(metadata);
                 }
             }
         }
 
         let unwrap_offset = |node: Node, offset, dir, hugr: &Hugr| -> Result<usize, Self::Error> {
-            if !hugr.graph.contains_node(node.into_portgraph()) {
-                return Err(HUGRSerializationError::UnknownEdgeNode { node });
-            }
             let offset = if let Some(offset) = offset {
                 offset as usize
             } else {
@@ -315,16 +346,27 @@ impl TryFrom<SerHugrLatest> for Hugr {
                     })?
                     .index()
             };
+            if offset >= hugr.graph.num_ports(node.into_portgraph(), dir) {
+                return Err(HUGRSerializationError::UnknownPort { node, dir, offset });
+            }
             Ok(offset)
         };
         for [(src, from_offset), (dst, to_offset)] in edges {
-            let src = hugr_node(src);
-            let dst = hugr_node(dst);
+            let edge_node = |node: Node| {
+                hugr_node(node).ok_or(HUGRSerializationError::UnknownEdgeNode { node })
+            };
+            let src = edge_node(src)?;
+            let dst = edge_node(dst)?;
 
             let src_port = unwrap_offset(src, from_offset, Direction::Outgoing, &hugr)?;
             let dst_port = unwrap_offset(dst, to_offset, Direction::Incoming, &hugr)?;
 
-            hugr.connect(src, src_port, dst, dst_port);
+            hugr.graph.link_nodes(
+                src.into_portgraph(),
+                src_port,
+                dst.into_portgraph(),
+                dst_port,
+            )?;
         }
 
         Ok(hugr)
-- 
2.43.0


From a940ae57e3572d799dbb3c2f6ea122c4ae6e9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 37/50] fix: a node could be added under a parent that is not
 in the hugr

---
 hugr-core/src/hugr/hugrmut.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 4a1dd02..ca7c117 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -459,6 +459,7 @@ impl HugrMut for Hugr {
     }
 
     fn add_node_with_parent(&mut self, parent: Node, node: impl Into<OpType>) -> Node {
+        panic_invalid_node(self, parent);
         let node = self.as_mut().add_node(node.into());
         self.hierarchy
             .push_child(node.into_portgraph(), parent.into_portgraph())
-- 
2.43.0


From 55535ffbbbfca98dbb61cd449525ee62931266f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 38/50] fix: a node index out of range was read as some other
 node

---
 hugr-core/src/core.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/core.rs b/hugr-core/src/core.rs
index 4578aa5..2acdeff 100644
--- a/hugr-core/src/core.rs
+++ b/hugr-core/src/core.rs
@@ -10,14 +10,21 @@ use itertools::Either::{Left, Right};
 use crate::{HugrView, hugr::HugrError};
 
 /// A handle to a node in the HUGR.
-#[derive(
-    Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize, serde::Deserialize,
-)]
+#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize)]
 #[serde(transparent)]
 pub struct Node {
     index: portgraph::NodeIndex,
 }
 
+impl<'de> serde::Deserialize<'de> for Node {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let index: usize = serde::Deserialize::deserialize(deserializer)?;
+        // `NodeIndex` discards the bits of an index that is out of its range.
+        let index = portgraph::NodeIndex::try_from(index).map_err(serde::de::Error::custom)?;
+        Ok(Self { index })
+    }
+}
+
 /// A handle to a port for a node in the HUGR.
 #[derive(
     Clone,
-- 
2.43.0


From 35bb368879d696d08b1fb307206f6540e8aea97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 39/50] fix: inserting a region that is not in the other hugr
 added a stray node

---
 hugr-core/src/hugr/hugrmut.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index ca7c117..9b0cea2 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -558,6 +558,7 @@ impl HugrMut for Hugr {
     ) -> InsertForestResult<Node, Self::Node> {
         let roots: HashMap<_, _> = root_parents.into_iter().collect();
         for &subtree in roots.keys() {
+            panic_invalid_node(&other, subtree);
             let mut n = subtree;
             while let Some(parent) = other.get_parent(n) {
                 if roots.contains_key(&parent) {
-- 
2.43.0


From 776e9a92896d8b8145fa47f7746657b618cdc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 40/50] fix: RemoveLoadConstant panicked on a node with order
 predecessors

---
 hugr-core/src/hugr/patch/consts.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/consts.rs b/hugr-core/src/hugr/patch/consts.rs
index dcdeea5..a500129 100644
--- a/hugr-core/src/hugr/patch/consts.rs
+++ b/hugr-core/src/hugr/patch/consts.rs
@@ -64,9 +64,7 @@ impl<N: HugrNode> PatchHugrMut for RemoveLoadConstant<N> {
         self.verify(h)?;
         let node = self.0;
         let source = h
-            .input_neighbours(node)
-            .exactly_one()
-            .ok()
+            .static_source(node)
             .expect("Validation should check a Const is connected to LoadConstant.");
         h.remove_node(node);
 
-- 
2.43.0


From c4fd8ad76ad812e40fedfd5cf329fd0a02d6eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 41/50] fix: InlineCall of a polymorphic function left a DFG of
 the wrong signature

---
 hugr-core/src/hugr/patch/inline_call.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index a4d8383..55eb5ad 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -3,7 +3,7 @@
 use derive_more::{Display, Error};
 
 use crate::core::HugrNode;
-use crate::ops::{DFG, DataflowParent, OpType};
+use crate::ops::{DFG, OpType};
 use crate::types::Substitution;
 use crate::{Direction, HugrView, Node};
 
@@ -72,12 +72,13 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         h.disconnect(self.0, old_order_in); // PortGraph currently does this anyway
 
         let new_op = OpType::from(DFG {
+            // Type arguments are already substituted in
             signature: h
-                .get_optype(orig_func)
-                .as_func_defn()
+                .get_optype(self.0)
+                .as_call()
                 .unwrap()
-                .inner_signature()
-                .into_owned(),
+                .instantiation
+                .clone(),
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-- 
2.43.0


From 252eb576de73c62f9833b1acc1554999b1d90cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 42/50] fix: IdentityInsertion disconnected the port before
 checking the parent

---
 hugr-core/src/hugr/patch/insert_identity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 725a0dd..2913c3d 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -94,13 +94,13 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
             .single_linked_output(self.post_node, self.post_port)
             .expect("Value kind input can only have one connection.");
 
-        h.disconnect(self.post_node, self.post_port);
         let parent = h
             .get_parent(self.post_node)
             .ok_or(IdentityInsertionError::InvalidParentNode)?;
         if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
             return Err(IdentityInsertionError::InvalidParentNode);
         }
+        h.disconnect(self.post_node, self.post_port);
         let new_node = h.add_node_with_parent(parent, Noop(ty));
         h.connect(pre_node, pre_port, new_node, 0);
 
-- 
2.43.0


From 2cda916ef06fd8a7379b088c024d43834758f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 43/50] fix: InlineDFG made order edges across regions, and
 missed those nonlocal edges need

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 46 +++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index f5a3653..4de0936 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -2,6 +2,9 @@
 //! of the DFG except Input+Output into the DFG's parent,
 //! and deleting the DFG along with its Input + Output
 
+use std::collections::{BTreeSet, HashSet};
+use std::iter::successors;
+
 use super::{PatchHugrMut, PatchVerification};
 use crate::core::HugrNode;
 use crate::ops::handle::{DfgID, NodeHandle};
@@ -73,15 +76,33 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
         };
         let parent = h.get_parent(n).unwrap();
         let [input, output] = h.get_io(n).unwrap();
-        for ch in h.children(n).skip(2).collect::<Vec<_>>() {
-            h.set_parent(ch, parent);
+        let children = h.children(n).skip(2).collect::<Vec<_>>();
+        for ch in &children {
+            h.set_parent(*ch, parent);
         }
         // DFG Inputs. Deal with Order inputs first
         for (src_n, src_p) in h.linked_outputs(n, oth_in).collect::<Vec<_>>() {
             // Order edge from src_n to DFG => add order edge to each successor of Input node
             debug_assert_eq!(Some(src_p), h.get_optype(src_n).other_output_port());
             for tgt_n in h.output_neighbours(input).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+                // Order edges are local: a nonlocal target has an ancestor in the same
+                // region that is an order-successor of the Input node.
+                if [Some(parent), Some(n)].contains(&h.get_parent(tgt_n)) {
+                    h.add_other_edge(src_n, tgt_n);
+                }
+            }
+            // A nonlocal edge from src_n that passed through the DFG now enters the ancestor
+            // of its target that was a child of the DFG.
+            let moved = children.iter().copied().collect::<HashSet<_>>();
+            let entered = h
+                .all_linked_inputs(src_n)
+                .filter_map(|(tgt_n, _)| {
+                    successors(h.get_parent(tgt_n), |a| h.get_parent(*a))
+                        .find(|a| moved.contains(a))
+                })
+                .collect::<BTreeSet<_>>();
+            for ch in entered {
+                h.add_other_edge(src_n, ch);
             }
         }
         // And remaining (Value) inputs
@@ -103,15 +124,21 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
             }
             // Ensure order-successors of Input node execute after any node producing an input
-            for (tgt, _) in &input_ord_succs {
-                h.add_other_edge(src_n, *tgt);
+            // (a node producing a nonlocal input has an edge to an ancestor of them already)
+            if h.get_parent(src_n) == Some(parent) {
+                for (tgt, _) in &input_ord_succs {
+                    h.add_other_edge(src_n, *tgt);
+                }
             }
         }
         // DFG Outputs. Deal with Order outputs first.
         for (tgt_n, tgt_p) in h.linked_inputs(n, oth_out).collect::<Vec<_>>() {
             debug_assert_eq!(Some(tgt_p), h.get_optype(tgt_n).other_input_port());
             for src_n in h.input_neighbours(output).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+                // Sources of nonlocal edges are outside the region, and come first anyway.
+                if [Some(parent), Some(n)].contains(&h.get_parent(src_n)) {
+                    h.add_other_edge(src_n, tgt_n);
+                }
             }
         }
         // And remaining (Value) outputs
@@ -130,8 +157,11 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
             for (tgt_n, tgt_p) in h.linked_inputs(n, outport).collect::<Vec<_>>() {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
                 // Ensure order-predecessors of Output node execute before any node consuming a DFG output
-                for (src, _) in &output_ord_preds {
-                    h.add_other_edge(*src, tgt_n);
+                // (any nonlocal consumer is below an order-successor of the DFG, handled above)
+                if h.get_parent(tgt_n) == Some(parent) {
+                    for (src, _) in &output_ord_preds {
+                        h.add_other_edge(*src, tgt_n);
+                    }
                 }
             }
             h.disconnect(n, outport);
-- 
2.43.0


From 53865e4b524a9613b49ae40da814ba516810e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 44/50] fix: the entrypoint could not be moved next to a
 sibling

---
 hugr-core/src/hugr/internal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index bb1a77f..bec1ed3 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -11,7 +11,7 @@ use crate::extension::ExtensionRegistry;
 use crate::{Direction, Hugr, Node};
 
 use super::HugrView;
-use super::views::{panic_invalid_node, panic_invalid_non_entrypoint};
+use super::views::panic_invalid_node;
 use super::{NodeMetadataMap, OpType};
 use crate::ops::handle::NodeHandle;
 
@@ -350,8 +350,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_after_sibling(&mut self, node: Node, after: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, after);
+        panic_invalid_node(self, node);
+        panic_invalid_node(self, after);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_after(node.into_portgraph(), after.into_portgraph())
@@ -359,8 +359,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_before_sibling(&mut self, node: Node, before: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, before);
+        panic_invalid_node(self, node);
+        panic_invalid_node(self, before);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_before(node.into_portgraph(), before.into_portgraph())
-- 
2.43.0


From 2ea8da8b63678587cf8c8a014a88c1417fed175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 45/50] fix: SiblingSubgraph::try_from_nodes panicked on
 several order predecessors

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index f5342ab..d5de54f 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -780,11 +780,9 @@ fn get_boundary_from_nodes<N: HugrNode>(
 
     let inputs = incoming_edges
         .filter(|&(n, p)| {
-            if !hugr.is_linked(n, p) {
-                return false;
-            }
-            let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-            !nodes_set.contains(&out_n)
+            // Order ports may have any number of links.
+            hugr.linked_outputs(n, p)
+                .any(|(out_n, _)| !nodes_set.contains(&out_n))
         })
         // Every incoming edge is its own input.
         .map(|p| vec![p])
-- 
2.43.0


From 0e4ca2d55ea85db9c052e7c7efdd0e325314b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 46/50] fix: SimpleReplacement dropped the order edges at the
 boundary of the replacement

---
 hugr-core/src/hugr/patch/simple_replace.rs | 39 +++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch/simple_replace.rs b/hugr-core/src/hugr/patch/simple_replace.rs
index 46e5bde..a92cb78 100644
--- a/hugr-core/src/hugr/patch/simple_replace.rs
+++ b/hugr-core/src/hugr/patch/simple_replace.rs
@@ -8,7 +8,7 @@ use crate::hugr::views::SiblingSubgraph;
 pub use crate::hugr::views::sibling_subgraph::InvalidReplacement;
 use crate::hugr::{HugrMut, HugrView};
 use crate::ops::{OpTag, OpTrait, OpType};
-use crate::{Hugr, IncomingPort, Node, OutgoingPort, PortIndex};
+use crate::{Direction, Hugr, IncomingPort, Node, OutgoingPort, PortIndex};
 
 use itertools::{Either, Itertools};
 
@@ -612,6 +612,34 @@ impl<N: HugrNode> PatchHugrMut for SimpleReplacement<N> {
             mut node_map,
         } = h.insert_hugr(parent, replacement);
 
+        // Order edges at the boundary of the replacement: its Input comes after the nodes
+        // producing the inputs, its Output before those consuming the outputs.
+        let [repl_in, repl_out] = repl_io.map(|n| node_map[&n]);
+        let starts = order_neighbours(h, repl_in, Direction::Outgoing);
+        let sources = subgraph
+            .incoming_ports()
+            .iter()
+            .filter_map(|ports| h.single_linked_output(ports[0].0, ports[0].1))
+            .map(|(n, _)| n)
+            .filter(|n| h.get_parent(*n) == Some(parent))
+            .unique()
+            .collect_vec();
+        for (src, tgt) in sources.into_iter().cartesian_product(starts) {
+            h.add_other_edge(src, tgt);
+        }
+        let ends = order_neighbours(h, repl_out, Direction::Incoming);
+        let targets = subgraph
+            .outgoing_ports()
+            .iter()
+            .flat_map(|&(n, p)| h.linked_inputs(n, p))
+            .map(|(n, _)| n)
+            .filter(|n| h.get_parent(*n) == Some(parent))
+            .unique()
+            .collect_vec();
+        for (src, tgt) in ends.into_iter().cartesian_product(targets) {
+            h.add_other_edge(src, tgt);
+        }
+
         // remove the Input and Output from h and node_map
         for node in repl_io {
             let node_h = node_map[&node];
@@ -649,6 +677,15 @@ impl<N: HugrNode> PatchHugrMut for SimpleReplacement<N> {
     }
 }
 
+/// The nodes linked to the order port of `node` in the given direction.
+fn order_neighbours<N: HugrNode>(h: &impl HugrView<Node = N>, node: N, dir: Direction) -> Vec<N> {
+    let port = h.get_optype(node).other_port(dir);
+    port.into_iter()
+        .flat_map(|p| h.linked_ports(node, p))
+        .map(|(n, _)| n)
+        .collect()
+}
+
 /// Error from a [`SimpleReplacement`] operation.
 #[derive(Debug, Clone, Error, PartialEq, Eq)]
 #[non_exhaustive]
-- 
2.43.0


From 79a1fbfd84461679fdc03ac2048d6ee072d0cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 47/50] fix: Replacement could remove the entrypoint, and
 verify accepted what apply refused

---
 hugr-core/src/hugr/patch/replace.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index ba4104a..31d1b24 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -236,6 +236,9 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
                 transferred.into_iter().collect(),
             ));
         }
+        if removed.contains(&h.entrypoint()) {
+            return Err(ReplaceError::CantReplaceRoot);
+        }
         Ok(removed)
     }
 }
@@ -276,7 +279,14 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
                 ))
             }
         })?;
-        // Edge targets...
+        // Edge targets... (each edge removed is replaced at most once)
+        let mut replaced = HashSet::new();
+        let mut replaces_another = |tgt: HostNode, kind: NewEdgeKind| match kind {
+            NewEdgeKind::Static { tgt_pos, .. } | NewEdgeKind::Value { tgt_pos, .. } => {
+                replaced.insert((tgt, tgt_pos))
+            }
+            _ => true,
+        };
         self.mu_inp.iter().try_for_each(|e| {
             if check_valid_non_entrypoint(&self.replacement, e.tgt) {
                 e.check_tgt(&self.replacement, WhichEdgeSpec::HostToRepl)
@@ -301,6 +311,11 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             // the first "removed.contains" check, we'll keep that as a common-case
             // fast-path.
             e.check_existing_edge(h, &removed, WhichEdgeSpec::ReplToHost)?;
+            if !replaces_another(e.tgt, e.kind) {
+                return Err(ReplaceError::NoRemovedEdge(WhichEdgeSpec::ReplToHost(
+                    e.clone(),
+                )));
+            }
         }
         for e in &self.mu_new {
             if !h.contains_node(e.tgt) || removed.contains(&e.tgt) {
@@ -316,6 +331,11 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             // the first "removed.contains" check, we'll keep that as a common-case
             // fast-path.
             e.check_existing_edge(h, &removed, WhichEdgeSpec::HostToHost)?;
+            if !replaces_another(e.tgt, e.kind) {
+                return Err(ReplaceError::NoRemovedEdge(WhichEdgeSpec::HostToHost(
+                    e.clone(),
+                )));
+            }
         }
         Ok(())
     }
@@ -338,6 +358,7 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         self,
         h: &mut impl HugrMut<Node = HostNode>,
     ) -> Result<Self::Outcome, Self::Error> {
+        self.verify(h)?;
         let parent = self.check_parent(h)?;
         // Calculate removed nodes here. (Does not include transfers, so enumerates only
         // nodes we are going to remove, individually, anyway; so no *asymptotic* speed
@@ -475,7 +496,8 @@ where
 #[derive(Clone, Debug, PartialEq, Eq, Error)]
 #[non_exhaustive]
 pub enum ReplaceError<HostNode = Node> {
-    /// The node(s) to replace had no parent i.e. were root(s).
+    /// The node(s) to replace had no parent i.e. were root(s), or the entrypoint
+    /// would be removed.
     // (Perhaps if there is only one node to replace we should be able to?)
     #[error("Cannot replace the root node of the Hugr")]
     CantReplaceRoot,
-- 
2.43.0


From 20e9a8966993de1176ea84aaf5e2ac25fba4b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 48/50] fix: IdentityInsertion::verify was not implemented

---
 hugr-core/src/hugr/patch/insert_identity.rs | 29 ++++++++++-----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 2913c3d..a17267d 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -52,18 +52,19 @@ impl<N: HugrNode> PatchVerification for IdentityInsertion<N> {
     type Error = IdentityInsertionError;
     type Node = N;
 
-    fn verify(&self, _h: &impl HugrView) -> Result<(), IdentityInsertionError> {
-        /*
-        Assumptions:
-        1. Value kind inputs can only have one connection.
-        2. Node exists.
-        Conditions:
-        1. post_port is Value kind.
-        2. post_port is connected to a sibling of post_node.
-        3. post_port is input.
-         */
-
-        unimplemented!()
+    fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), IdentityInsertionError> {
+        // Value kind inputs have exactly one connection in a valid Hugr.
+        let kind = h.get_optype(self.post_node).port_kind(self.post_port);
+        if !matches!(kind, Some(EdgeKind::Value(_))) {
+            return Err(IdentityInsertionError::InvalidPortKind(kind));
+        }
+        let parent = h
+            .get_parent(self.post_node)
+            .ok_or(IdentityInsertionError::InvalidParentNode)?;
+        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
+            return Err(IdentityInsertionError::InvalidParentNode);
+        }
+        Ok(())
     }
 
     #[inline]
@@ -85,6 +86,7 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         self,
         h: &mut impl HugrMut<Node = N>,
     ) -> Result<Self::Outcome, IdentityInsertionError> {
+        self.verify(h)?;
         let kind = h.get_optype(self.post_node).port_kind(self.post_port);
         let Some(EdgeKind::Value(ty)) = kind else {
             return Err(IdentityInsertionError::InvalidPortKind(kind));
@@ -97,9 +99,6 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         let parent = h
             .get_parent(self.post_node)
             .ok_or(IdentityInsertionError::InvalidParentNode)?;
-        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
-            return Err(IdentityInsertionError::InvalidParentNode);
-        }
         h.disconnect(self.post_node, self.post_port);
         let new_node = h.add_node_with_parent(parent, Noop(ty));
         h.connect(pre_node, pre_port, new_node, 0);
-- 
2.43.0


From 7e6aa1ff1cb56a9c506713a5976898cb2a7f2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 49/50] fix: InsertCut::apply did not check what verify checks

---
 hugr-core/src/hugr/patch/insert_cut.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr/patch/insert_cut.rs b/hugr-core/src/hugr/patch/insert_cut.rs
index 518c75c..0e03bfa 100644
--- a/hugr-core/src/hugr/patch/insert_cut.rs
+++ b/hugr-core/src/hugr/patch/insert_cut.rs
@@ -135,6 +135,7 @@ impl PatchHugrMut for InsertCut<Node> {
         self,
         h: &mut impl HugrMut<Node = Node>,
     ) -> Result<Self::Outcome, InsertCutError> {
+        self.verify(h)?;
         let insert_res = h.insert_hugr(self.parent, self.insertion);
         let inserted_entrypoint = insert_res.inserted_entrypoint;
         for (i, (target, port)) in self.targets.into_iter().enumerate() {
-- 
2.43.0


From bf2d0107796b44eca6ed665912e193c69ae8d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 50/50] fix: removing several ports at once could corrupt the
 links of the others

portgraph's MultiPortGraph::set_num_ports mixes up the multiply-linked ports it
removes with the ports it moves to their place, so Hugr::set_num_ports and
Hugr::add_ports could lose links or leave the graph in a state where reading it
panics. Unlink the ports that disappear first.
---
 hugr-core/src/hugr/internal.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index bec1ed3..0e0a241 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -282,8 +282,7 @@ impl HugrMutInternals for Hugr {
     #[inline]
     fn set_num_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
         panic_invalid_node(self, node);
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node, incoming, outgoing);
     }
 
     fn add_ports(&mut self, node: Node, direction: Direction, amount: isize) -> Range<usize> {
@@ -300,8 +299,7 @@ impl HugrMutInternals for Hugr {
             Direction::Incoming => increment(&mut incoming),
             Direction::Outgoing => increment(&mut outgoing),
         };
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node, incoming, outgoing);
         range
     }
 
@@ -391,6 +389,23 @@ impl HugrMutInternals for Hugr {
 }
 
 impl Hugr {
+    /// Set the number of ports of a node, dropping the links of the ports that
+    /// disappear.
+    fn resize_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
+        // `MultiPortGraph::set_num_ports` mixes up the multiply-linked ports it
+        // removes with those it moves to their place, so unlink them first.
+        let n = node.into_portgraph();
+        for offset in incoming..self.graph.num_inputs(n) {
+            let port = self.graph.port_index(n, PortOffset::new_incoming(offset));
+            self.graph.unlink_port(port.unwrap());
+        }
+        for offset in outgoing..self.graph.num_outputs(n) {
+            let port = self.graph.port_index(n, PortOffset::new_outgoing(offset));
+            self.graph.unlink_port(port.unwrap());
+        }
+        self.graph.set_num_ports(n, incoming, outgoing, |_, _| {});
+    }
+
     /// Consumes the HUGR and return a flat portgraph view of the region rooted
     /// at `parent`.
     #[inline]
-- 
2.43.0

