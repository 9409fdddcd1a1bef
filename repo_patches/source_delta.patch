From 2be2dc24793a1c30cb89b2b744528cf8815745e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 01/20] fix: free a numeric's buffer with the layout it was
 allocated with

NumericData allocates the buffer as Vec<NumericDigit>; NumericBuf::drop
freed it as Vec<u8>, i.e. with another alignment than it was allocated with.
---
 src/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..0fb82a8 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -204,7 +204,12 @@ impl Drop for NumericBuf {
     fn drop(&mut self) {
         if !self.buf.is_null() {
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                // the buffer was allocated by `NumericData` as a `Vec<NumericDigit>`
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    (self.len / NUMERIC_DIGIT_SIZE) as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From 0f918a53b1f689c5929393701aa87cc2d1510bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 02/20] fix: estimate the weight of an integral power from the
 leading digits

The loop that folds the leading digits of the base into the estimate left
at the first further digit instead of after 16 decimal digits, so e.g.
1.9999^1000 was computed with far too few working digits.
---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..dd15a4d 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1664,7 +1664,7 @@ impl<'a> NumericVar<'a> {
         let mut p = self.weight * DEC_DIGITS;
 
         for (i, &digit) in digits.iter().enumerate().skip(1) {
-            if (i * DEC_DIGITS as usize) < 16 {
+            if i * DEC_DIGITS as usize >= 16 {
                 break;
             }
 
-- 
2.43.0


From b365d7b0f730226aa36094a60ebbafbd2861c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 03/20] fix: raise to the power i32::MIN

The absolute value of i32::MIN does not fit i32: debug builds panicked and
release builds returned the base (or its reciprocal) instead of the power.
---
 src/var.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index dd15a4d..145924f 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1693,11 +1693,11 @@ impl<'a> NumericVar<'a> {
         // The multiplications to produce the result may introduce an error of up
         // to around log10(abs(exp)) digits, so work with this many extra digits
         // of precision (plus a few more for good measure).
-        sig_digits += (exp.abs() as f64).ln() as i32 + 8;
+        sig_digits += (exp as f64).abs().ln() as i32 + 8;
 
         // Now we can proceed with the multiplications.
         let mut neg = exp < 0;
-        let mut mask = exp.abs();
+        let mut mask = (exp as i64).abs();
 
         let mut base_prod = self.clone();
 
-- 
2.43.0


From 87c5bff8c2c28c890fe82efd7565b20d3e439172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 04/20] fix: scientific notation of values below 1e-1000

The denominator 10^exponent underflowed to zero, and formatting panicked
with a division by zero.
---
 src/var.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 145924f..ae45494 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2219,14 +2219,18 @@ impl<'a> NumericVar<'a> {
         //
         // We then divide var by the denominator to get the significand, rounding
         // to rscale decimal digits in the process.
-        let denom_scale = if exponent < 0 { -exponent } else { 0 };
-
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
+        //
+        // For a negative exponent we multiply by 10^(-exponent) instead, because
+        // 10^exponent underflows to zero below the maximum display scale.
+        let power = TEN
+            .power_int(exponent.abs(), 0)
             .expect("attempt to multiply with overflow");
-        let significand = self
-            .div_common(&denominator, rscale, true)
-            .expect(DIVIDE_BY_ZERO_MSG);
+        let significand = if exponent < 0 {
+            self.mul_common(&power, rscale)
+        } else {
+            self.div_common(&power, rscale, true)
+                .expect(DIVIDE_BY_ZERO_MSG)
+        };
 
         if lower_exp {
             write!(f, "{}e{:<+03}", significand, exponent)
-- 
2.43.0


From 9dc4b573227103c868bc5278b55fa6b67c5498f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 05/20] fix: check the weight of a result after stripping
 zeroes

A zero or a value with leading zero digits was reported as an overflow
because of a weight it does not have once it is stored, e.g. parsing
"0e200000".
---
 src/var.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index ae45494..d7ed5fd 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2328,10 +2328,13 @@ impl<'a> NumericVar<'a> {
     /// Make `self` to be a result numeric.
     /// Returns `None` if overflows.
     #[inline]
-    pub fn make_result(self) -> Option<NumericBuf> {
+    pub fn make_result(mut self) -> Option<NumericBuf> {
         debug_assert!(!self.is_nan());
         debug_assert!(self.dscale >= 0);
 
+        // zeroes do not count: the weight to check is that of the stripped value
+        self.strip();
+
         if self.weight > NUMERIC_WEIGHT_MAX as i32
             || self.weight < NUMERIC_WEIGHT_MIN as i32
             || self.dscale > NUMERIC_DSCALE_MAX as i32
@@ -2339,7 +2342,7 @@ impl<'a> NumericVar<'a> {
             return None;
         }
 
-        Some(self.make_result_no_overflow())
+        Some(self.into_numeric_buf())
     }
 
     /// Negate this value.
-- 
2.43.0


From 3852d031fed4ae26bff53335b4db934040d6eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 06/20] fix: report scale overflow of a zero product instead of
 panicking

Multiplying by zero goes through zero_scaled() with the sum of the scales,
which may exceed the format's limit; make_result() reports that, but debug
builds panicked before.
---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index d7ed5fd..533f4e2 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,7 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        debug_assert!(scale >= 0);
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From 40eb823bdc7fc814b26803f5904642aac5b38996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 07/20] fix: applying a type modifier to NaN changes nothing

As in PostgreSQL.  It asserted in debug builds and turned the NaN into
a zero in release builds.
---
 src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 0fb82a8..aaea9a5 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -139,6 +139,10 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        if self.is_nan() {
+            return false;
+        }
+
         let mut var = self.as_var_owned();
         let mut overflow = var.apply_typmod(typmod);
 
-- 
2.43.0


From 9c3e098bdba5ec23001b14c351fe56ee3d6ea36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 08/20] fix: keep the value when rounding in place overflows
 the format

round_mut() and apply_typmod() moved the buffer out of the numeric; when
the rounded value did not fit the format it was never given back, and the
numeric was left with a null pointer that any later use dereferences.
---
 src/num.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index aaea9a5..cf41bed 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,7 +104,8 @@ impl NumericBuf {
             return;
         }
 
-        let mut var = self.as_var_owned();
+        // Work on a copy: if the result overflows, `self` keeps its value.
+        let mut var = self.as_var();
         var.round(scale);
         match var.make_result() {
             Some(result) => *self = result,
@@ -137,13 +138,15 @@ impl NumericBuf {
     ///
     /// Returns true if overflows.
     ///
-    /// Notes that no matter whether overflows, `self` will be rounded.
+    /// Notes that no matter whether overflows, `self` will be rounded
+    /// (unless the rounded value does not fit the numeric format).
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
         if self.is_nan() {
             return false;
         }
 
-        let mut var = self.as_var_owned();
+        // Work on a copy: if the result overflows the numeric format, `self` keeps its value.
+        let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
 
         match var.make_result() {
-- 
2.43.0


From 96c342d9a0041e0e63565db2646e6625ea9e79f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 09/20] fix: do not require 4-byte alignment for a numeric's
 header

The header directly precedes the digits in a buffer of 2-byte digits, so
references to NumericBinary were misaligned for its u32 length word (undefined
behaviour; newer compilers abort on it in debug builds).  Declare the
alignment it really has.
---
 src/binary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..1babd0c 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -288,7 +288,9 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+///
+/// The header directly precedes the digits, so it is only aligned like them.
+#[repr(C, packed(2))]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
-- 
2.43.0


From 8e6c5fd93abce38db89b25455e071a87b787f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 10/20] fix: reject bytes that are not a numeric when
 deserializing

Safe code could obtain a numeric from arbitrary or misaligned bytes, which
reads out of bounds, panics or yields a value that is not a numeric.
---
 src/binary.rs | 67 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/num.rs    | 23 +++++++++++++++++-
 2 files changed, 89 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index 1babd0c..b2b5648 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -43,6 +43,8 @@
 // The weight is arbitrary in that case, but we normally set it to zero.
 
 use crate::var::NumericVar;
+#[cfg(feature = "serde")]
+use crate::var::{DEC_DIGITS, NBASE};
 use cfg_if::cfg_if;
 use std::marker::PhantomData;
 use std::mem::size_of;
@@ -341,6 +343,71 @@ impl NumericBinary {
         NumericBinary::decode_len(self.vl_len)
     }
 
+    /// Checks that `bytes` are exactly the representation of a numeric,
+    /// whatever their alignment.
+    #[cfg(feature = "serde")]
+    pub fn is_valid(bytes: &[u8]) -> bool {
+        let word = |i: usize| u16::from_ne_bytes([bytes[i], bytes[i + 1]]);
+
+        if bytes.len() < NUMERIC_HEADER_SIZE_SHORT || bytes.len() > 0x3FFF_FFFF {
+            return false;
+        }
+        let vl_len = u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        if vl_len != NumericBinary::encode_len(bytes.len() as u32) {
+            return false;
+        }
+
+        let header = word(VAR_HEADER_SIZE as usize);
+        let flag_bits = header & NUMERIC_SIGN_MASK;
+        if flag_bits == NUMERIC_NAN {
+            return header == NUMERIC_NAN && bytes.len() == NUMERIC_HEADER_SIZE_SHORT;
+        }
+
+        let (header_size, sign, dscale, weight) = if flag_bits == NUMERIC_SHORT {
+            let sign = header & NUMERIC_SHORT_SIGN_MASK;
+            let dscale = (header & NUMERIC_SHORT_DSCALE_MASK) >> NUMERIC_SHORT_DSCALE_SHIFT;
+            let weight = (header & NUMERIC_SHORT_WEIGHT_MASK) as i16
+                + if header & NUMERIC_SHORT_WEIGHT_SIGN_MASK != 0 {
+                    NUMERIC_SHORT_WEIGHT_MIN
+                } else {
+                    0
+                };
+            (NUMERIC_HEADER_SIZE_SHORT, sign, dscale, weight)
+        } else {
+            if bytes.len() < NUMERIC_HEADER_SIZE {
+                return false;
+            }
+            let dscale = header & NUMERIC_DSCALE_MASK;
+            let weight = word(NUMERIC_HEADER_SIZE_SHORT) as i16;
+            if weight < NUMERIC_WEIGHT_MIN || NumericBinary::can_be_short(weight, dscale) {
+                return false;
+            }
+            (NUMERIC_HEADER_SIZE, flag_bits, dscale, weight)
+        };
+
+        let data = &bytes[header_size..];
+        if data.len() % NUMERIC_DIGIT_SIZE as usize != 0 {
+            return false;
+        }
+        let ndigits = data.len() / NUMERIC_DIGIT_SIZE as usize;
+        if ndigits == 0 {
+            return sign == 0 && weight == 0;
+        }
+
+        let digit = |i: usize| word(header_size + i * NUMERIC_DIGIT_SIZE as usize);
+        if digit(0) == 0 || digit(ndigits - 1) == 0 {
+            return false;
+        }
+        if (0..ndigits).any(|i| digit(i) >= NBASE as u16) {
+            return false;
+        }
+
+        // the display scale must not hide any digits
+        let hidden = (ndigits as i32 - 1 - weight as i32) * DEC_DIGITS - dscale as i32;
+        hidden <= 0
+            || (hidden < DEC_DIGITS && digit(ndigits - 1) % 10_u16.pow(hidden as u32) == 0)
+    }
+
     #[allow(dead_code)]
     #[inline]
     pub fn is_short(&self) -> bool {
diff --git a/src/num.rs b/src/num.rs
index cf41bed..56cf3e6 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -361,7 +361,20 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                if !NumericBinary::is_valid(v) {
+                    return Err(serde::de::Error::custom("invalid numeric"));
+                }
+                if v.as_ptr() as usize % std::mem::align_of::<NumericBinary>() == 0 {
+                    let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                    return Ok(n.to_owned());
+                }
+                // copy the bytes to where a numeric can be read
+                let mut words = vec![0_u16; (v.len() + 1) / 2];
+                let n = unsafe {
+                    let p = words.as_mut_ptr() as *mut u8;
+                    p.copy_from_nonoverlapping(v.as_ptr(), v.len());
+                    Numeric::from_bytes_unchecked(std::slice::from_raw_parts(p, v.len()))
+                };
                 Ok(n.to_owned())
             }
         }
@@ -1063,6 +1076,14 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v) {
+                    return Err(serde::de::Error::custom("invalid numeric"));
+                }
+                if v.as_ptr() as usize % std::mem::align_of::<NumericBinary>() != 0 {
+                    return Err(serde::de::Error::custom(
+                        "can't deserialize borrowed numeric from misaligned bytes",
+                    ));
+                }
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n)
             }
-- 
2.43.0


From c8c6483c8b6743bab31881b45a25879da578b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 11/20] fix: serialize the binary representation as bytes

It was serialized as a sequence of integers but is deserialized as bytes,
which does not round-trip in formats that tell them apart.
---
 src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 56cf3e6..9220384 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -326,7 +326,7 @@ impl serde::Serialize for NumericBuf {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
@@ -1049,7 +1049,7 @@ impl serde::Serialize for Numeric {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
-- 
2.43.0


From 22490ba2e8a7f81d0e848fc58c28cc9fe1b0457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 12/20] fix: do not read uninitialized memory in the debug
 format of NumericBuf

The bytes before the header (and after the digits) are never written.
---
 src/num.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 9220384..b7c317a 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -233,14 +233,9 @@ impl Clone for NumericBuf {
 impl fmt::Debug for NumericBuf {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
-        let buf = if self.buf.is_null() {
-            &[]
-        } else {
-            unsafe { std::slice::from_raw_parts(self.buf, self.len as usize) }
-        };
-
+        // only the numeric itself: the rest of the buffer may be uninitialized
         f.debug_struct("NumericBuf")
-            .field("buf", &buf)
+            .field("buf", &self.as_bytes())
             .field("len", &self.len)
             .field("offset", &self.offset)
             .finish()
-- 
2.43.0


From 1aae8a790a995d82007af34d36e53cbbef5b44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 13/20] fix: convert to floating-point with a single rounding

A numeric halfway between an f32 and its neighbour plus a little was rounded to
f64 first and then to f32; exact ties of subnormal f64 were rounded away from
even; values beyond the f64 range became infinity or zero in f32 although other
out-of-range values are reported.
---
 src/convert.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 91b13c1..9af33fd 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -632,15 +632,15 @@ impl<'a> TryFrom<&NumericVar<'a>> for f32 {
         buf.write_fmt(format_args!("{}", value))
             .expect("returned an error unexpectedly");
 
-        match strtod::strtod(&buf) {
-            Some(val) => {
-                let f = val as f32;
-                if (f.is_infinite() && !val.is_infinite()) || (f == 0.0 && val != 0.0) {
+        // Parse as f32 directly: going through f64 rounds twice.
+        match buf.parse::<f32>() {
+            Ok(f) => {
+                if f.is_infinite() || (f == 0.0 && value.ndigits() != 0) {
                     return Err(NumericTryFromError::overflow());
                 }
                 Ok(f)
             }
-            None => Err(NumericTryFromError::overflow()),
+            Err(_) => Err(NumericTryFromError::overflow()),
         }
     }
 }
@@ -658,9 +658,9 @@ impl<'a> TryFrom<&NumericVar<'a>> for f64 {
         buf.write_fmt(format_args!("{}", value))
             .expect("returned an error unexpectedly");
 
-        match strtod::strtod(&buf) {
-            Some(f) => Ok(f),
-            None => Err(NumericTryFromError::overflow()),
+        match buf.parse::<f64>() {
+            Ok(f) => Ok(f),
+            Err(_) => Err(NumericTryFromError::overflow()),
         }
     }
 }
-- 
2.43.0


From d9729b004e49c34f1e8f48662ed00a8a9dc1e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 14/20] fix: raise a negative base to an integer beyond i32

---
 src/var.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 533f4e2..101a9f9 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2048,6 +2048,25 @@ impl<'a> NumericVar<'a> {
             return Some(Self::zero_scaled(NUMERIC_MIN_SIG_DIGITS));
         }
 
+        // A negative base is raised to an integer here (see pow()), which is too
+        // large for power_int().  The logarithm needs the absolute value of base,
+        // and the result is negative if exp is odd: its last digit is the units'
+        // digit group unless that one is zero.
+        if self.is_negative() {
+            let is_odd = exp.ndigits > 0
+                && exp.ndigits == exp.weight + 1
+                && exp.digits()[exp.ndigits as usize - 1] & 1 != 0;
+
+            let mut base = self.clone();
+            base.abs();
+
+            let mut result = base.power_common(exp)?;
+            if is_odd {
+                result.negate();
+            }
+            return Some(result);
+        }
+
         // Decide on the scale for the ln() calculation.  For this we need an
         // estimate of the weight of the result, which we obtain by doing an
         // initial low-precision calculation of exp * ln(base).
-- 
2.43.0


From 6079fa4915bd8f7a77d0daf77f92e37ddb56a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 15/20] fix: a power that underflows is zero, not an overflow

---
 src/var.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 101a9f9..7e401b7 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2095,8 +2095,12 @@ impl<'a> NumericVar<'a> {
 
         // initial overflow test with fuzz factor
         if val.abs() > NUMERIC_MAX_RESULT_SCALE as f64 * 3.01 {
-            // value overflows numeric format
-            return None;
+            if val > 0.0 {
+                // value overflows numeric format
+                return None;
+            }
+            // value underflows, the result is zero
+            return Some(Self::zero_scaled(NUMERIC_MAX_DISPLAY_SCALE));
         }
 
         val *= LOG10_E; // approximate decimal result weight
@@ -2114,7 +2118,11 @@ impl<'a> NumericVar<'a> {
         // and do the real calculation
         ln_base = self.ln_common(local_rscale);
         ln_num = ln_base.mul_common(exp, local_rscale);
-        ln_num.exp_common(rscale)
+        match ln_num.exp_common(rscale) {
+            // beyond the limit of exp_common() a negative exponent means underflow
+            None if ln_num.is_negative() => Some(Self::zero_scaled(rscale)),
+            result => result,
+        }
     }
 
     /// Convert `self` to text representation.
-- 
2.43.0


From 2dde2121bd27ef4937db43a5c7f40f878f83f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 16/20] fix: square root of a number too small for the result
 scale

---
 src/var.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 7e401b7..4f68c7c 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1597,6 +1597,12 @@ impl<'a> NumericVar<'a> {
             result = result.add_common(&val);
             result = result.mul_common(&ZERO_POINT_FIVE, local_rscale);
 
+            // The root is not greater than its approximations, so it is too small
+            // to be represented with rscale digits if one of them is.
+            if result.ndigits == 0 {
+                break;
+            }
+
             if result.cmp_common(&last_val) == 0 {
                 break;
             }
-- 
2.43.0


From 8a6257893e74a3ebf2d5e6844a19f94a430bd08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 17/20] fix: keep precision of a power whose weight is below
 the maximum scale

---
 src/var.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 4f68c7c..6bb745a 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2118,8 +2118,12 @@ impl<'a> NumericVar<'a> {
             .max(NUMERIC_MIN_DISPLAY_SCALE)
             .min(NUMERIC_MAX_DISPLAY_SCALE);
 
+        // Number of significant digits of the result, none if it is too small for
+        // rscale, which is limited.
+        let sig_digits = (rscale + val as i32).max(0);
+
         // set the scale for the real exp * ln(base) calculation
-        let local_rscale = (rscale + val as i32 - ln_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
+        let local_rscale = (sig_digits - ln_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         // and do the real calculation
         ln_base = self.ln_common(local_rscale);
-- 
2.43.0


From e20c89cd6be264d8e9f49791f9b36896776035ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 18/20] fix: keep precision of the logarithm of a power's base
 next to 1

---
 src/var.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 6bb745a..98bec09 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2090,9 +2090,8 @@ impl<'a> NumericVar<'a> {
         // overflow threshold so that it is consistent for all inputs.
         let ln_dweight = self.estimate_ln_dweight();
 
-        let local_rscale = (8 - ln_dweight)
-            .max(NUMERIC_MIN_DISPLAY_SCALE)
-            .min(NUMERIC_MAX_DISPLAY_SCALE);
+        // No upper limit: ln(base) may be as small as 1e-16383
+        let local_rscale = (8 - ln_dweight).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         let mut ln_base = self.ln_common(local_rscale);
         let mut ln_num = ln_base.mul_common(exp, local_rscale);
-- 
2.43.0


From 3d14d20c2feaa1fe81c5a48f8f9a4bb7864ea821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 19/20] fix: compute enough digits of a logarithm for its range
 reduction

---
 src/var.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 98bec09..b0268ce 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1773,6 +1773,7 @@ impl<'a> NumericVar<'a> {
 
         let mut x = self.clone();
         let mut fact = TWO.clone();
+        let mut nsqrt = 0;
 
         // Reduce input into range 0.9 < x < 1.1 with repeated sqrt() operations.
         //
@@ -1785,12 +1786,14 @@ impl<'a> NumericVar<'a> {
             local_rscale = local_rscale.max(NUMERIC_MIN_DISPLAY_SCALE);
             x = x.sqrt_common(local_rscale);
             fact = fact.mul_common(&TWO, 0);
+            nsqrt += 1;
         }
         while x.cmp_common(&ONE_POINT_ONE) >= 0 {
             let mut local_rscale = rscale - x.weight * DEC_DIGITS / 2 + 8;
             local_rscale = local_rscale.max(NUMERIC_MIN_DISPLAY_SCALE);
             x = x.sqrt_common(local_rscale);
             fact = fact.mul_common(&TWO, 0);
+            nsqrt += 1;
         }
 
         // We use the Taylor series for 0.5 * ln((1+z)/(1-z)),
@@ -1802,7 +1805,10 @@ impl<'a> NumericVar<'a> {
         //
         // The convergence of this is not as fast as one would like, but is
         // tolerable given that z is small.
-        let local_rscale = rscale + 8;
+        //
+        // The result is multiplied by 2^(nsqrt+1) in the end, so work with that many
+        // extra digits of precision (plus a few more for good measure).
+        let local_rscale = rscale + ((nsqrt + 1) as f64 * LOG10_2) as i32 + 8;
 
         let mut result = x.sub_common(&ONE);
         let mut elem = x.add_common(&ONE);
-- 
2.43.0


From cda0b058286cf4bd07a9804438570032bbd44ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 20/20] fix: no overflow panic in a canceling overflow of the
 fast division

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index b0268ce..21ea181 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1450,7 +1450,7 @@ impl<'a> NumericVar<'a> {
             // and addition in int64 arithmetic, but so far there appears no need.
             let div_qi = unsafe { *div.get_unchecked(qi) };
             let div_qi_1 = unsafe { div.get_unchecked_mut(qi + 1) };
-            *div_qi_1 += div_qi * NBASE;
+            *div_qi_1 = div_qi_1.wrapping_add(div_qi.wrapping_mul(NBASE));
 
             let div_qi = unsafe { div.get_unchecked_mut(qi) };
             *div_qi = qdigit;
-- 
2.43.0

