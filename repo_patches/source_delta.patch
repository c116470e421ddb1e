From 44d2dfd2cbcc2c26a6e1f15f15a361902aa00527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 01/28] fix: decode_align returns an error instead of panicking
 when the padding is missing

---
 codecs/src/aper/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..e4d069a 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,6 +64,12 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if self.decode_offset + remaining > self.bits.len() {
+            return Err(AperCodecError::new(
+                "AperCodec:DecodeError:End of Bitstream reached while aligning.",
+            ));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
-- 
2.43.0


From f17ce9c902502da083bddf4deeb3000d996d616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 02/28] fix: decoding an integer of more than 127 bits returns
 an error instead of panicking or wrapping

---
 codecs/src/aper/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index e4d069a..2c24fdb 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -23,6 +23,7 @@ pub trait AperCodec {
 }
 
 use bitvec::prelude::*;
+use std::convert::TryFrom;
 
 /// Structure representing an APER Codec.
 ///
@@ -122,9 +123,17 @@ impl AperCodecData {
             let value = if !signed {
                 if bits == 0 {
                     0_i128
+                } else if bits > 128 {
+                    return Err(AperCodecError::new(format!(
+                        "For an unsigned number, requested bits {} not supported!",
+                        bits
+                    )));
                 } else {
-                    self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>()
-                        as i128
+                    let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                        .load_be::<u128>();
+                    i128::try_from(inner).map_err(|_| {
+                        AperCodecError::new("AperCodec:DecodeError:Integer value too large.")
+                    })?
                 }
             } else {
                 match bits {
-- 
2.43.0


From d422cdb0ef05cf8a9d8647f00a171af2da540a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 03/28] fix: decode unconstrained integers of 9 to 15 octets,
 which the encoder produces

---
 codecs/src/aper/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2c24fdb..6ff7416 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -211,6 +211,12 @@ impl AperCodecData {
                             .load_be::<u128>() as i128;
                         inner as i128
                     }
+                    72 | 80 | 88 | 96 | 104 | 112 | 120 => {
+                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                            .load_be::<u128>();
+                        let shift = 128 - bits;
+                        ((inner << shift) as i128) >> shift
+                    }
                     _ => {
                         return Err(
                             AperCodecError::new(
-- 
2.43.0


From 222dedda713ef0868d4ed0288f6331184bc3e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 04/28] fix: adding the lower bound to a decoded integer no
 longer overflows

---
 codecs/src/aper/decode/decode_internal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..fe12f4a 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -152,7 +152,8 @@ pub(super) fn decode_semi_constrained_whole_number(
     let bits = length * 8;
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    val.checked_add(lb)
+        .ok_or_else(|| AperCodecError::new("Decoded integer value is too large."))
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
@@ -198,7 +199,9 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
-        Ok(value + lb)
+        value
+            .checked_add(lb)
+            .ok_or_else(|| AperCodecError::new("Decoded integer value is too large."))
     }
 }
 
-- 
2.43.0


From f8cee1f1375cfa06fd697c0007873af9a5fca9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 05/28] fix: encode the lower bound of an integer whose range
 is larger than 64K

---
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..41f9ed4 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -93,7 +93,7 @@ pub(super) fn encode_constrained_whole_number(
     } else {
         let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
-- 
2.43.0


From 25def94de41f35eb35cfb42b3d77a56a2de0d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 06/28] fix: size the octet count of a large constrained
 integer by its largest offset, not by the range

---
 codecs/src/aper/decode/decode_internal.rs | 2 +-
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index fe12f4a..4836e9c 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -192,7 +192,7 @@ pub(super) fn decode_constrained_whole_number(
             let _ = data.decode_align()?;
             data.decode_bits_as_integer(16, false)?
         } else {
-            let bytes_needed = crate::aper::bytes_needed_for_range(range);
+            let bytes_needed = crate::aper::bytes_needed_for_range(range - 1);
             log::trace!("bytes_needed : {}", bytes_needed);
             let length = decode_constrained_length_determinent(data, 1, bytes_needed as usize)?;
             let _ = data.decode_align()?;
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 41f9ed4..00eef14 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -91,7 +91,7 @@ pub(super) fn encode_constrained_whole_number(
         let bytes = (value as u16).to_be_bytes();
         data.append_bits(bytes.view_bits::<Msb0>());
     } else {
-        let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
+        let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range - 1) as i128;
         let bytes = value.to_be_bytes();
         let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
-- 
2.43.0


From 0ffe59517d35b85b8d270a0dc01245e252a4b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 07/28] fix: encode semi-constrained integers as the minimal
 unsigned octets (X.691 10.7)

---
 codecs/src/aper/encode/encode_internal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 00eef14..3fc2137 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -41,7 +41,11 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    let bytes = (value - lb).to_be_bytes();
+    let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
+    encode_length_determinent(data, None, None, false, 16 - first_non_zero)?;
+    data.append_bits(bytes[first_non_zero..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From 9f8b3bf013a25afdfe25591747093abba46ff19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 08/28] fix: reject a decoded constrained integer above its
 upper bound

---
 codecs/src/aper/decode/decode_internal.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 4836e9c..682133f 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -199,9 +199,16 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
-        value
+        let value = value
             .checked_add(lb)
-            .ok_or_else(|| AperCodecError::new("Decoded integer value is too large."))
+            .ok_or_else(|| AperCodecError::new("Decoded integer value is too large."))?;
+        if value > ub {
+            return Err(AperCodecError::new(format!(
+                "Decoded integer {} is greater than upper bound {}",
+                value, ub,
+            )));
+        }
+        Ok(value)
     }
 }
 
-- 
2.43.0


From 874350cd5c813f523391e4b2c7429d3316c264e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 09/28] fix: normally small length determinents up to 64 use
 the short form, 0 is an error (X.691 10.9.3.4)

---
 codecs/src/aper/encode/encode_internal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 3fc2137..685442e 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -133,7 +133,12 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "A normally small length determinent cannot be 0",
+        ));
+    }
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From 283ab51e10c956ee5d13bb7a560ddc9a55384e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 10/28] fix: decoded string lengths are checked against the
 size constraint; bounded lengths of 16K and more are not fragments

---
 codecs/src/aper/decode/decode_charstrings.rs |  4 +++
 codecs/src/aper/decode/mod.rs                | 28 ++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..9c83e11 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -76,6 +76,10 @@ fn decode_string(
         decode_length_determinent(data, lb, ub, false)?
     };
 
+    if !is_extended {
+        super::check_length(length, lb, ub)?;
+    }
+
     let num_bits = 8;
     let length = length * num_bits;
     if length > 16 {
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..f132b9f 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -210,6 +210,9 @@ pub fn decode_bitstring(
         false
     };
 
+    // A length below 64K with a known upper bound is never fragmented.
+    let fragmentable = is_extended || ub.map_or(true, |ub| ub >= 65_536);
+
     let mut bv = BitVec::new();
     loop {
         let length = if is_extended {
@@ -226,12 +229,15 @@ pub fn decode_bitstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if fragmentable && length >= 16384 {
             continue;
         } else {
             break;
         }
     }
+    if !is_extended {
+        check_length(bv.len(), lb, ub)?;
+    }
 
     data.dump();
 
@@ -260,6 +266,9 @@ pub fn decode_octetstring(
         false
     };
 
+    // A length below 64K with a known upper bound is never fragmented.
+    let fragmentable = is_extended || ub.map_or(true, |ub| ub >= 65_536);
+
     let mut octets = Vec::new();
     loop {
         let length = if is_extended {
@@ -276,17 +285,32 @@ pub fn decode_octetstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if fragmentable && length >= 16384 {
             continue;
         } else {
             break;
         }
     }
+    if !is_extended {
+        check_length(octets.len(), lb, ub)?;
+    }
 
     data.dump();
 
     Ok(octets)
 }
 
+// Checks the size constraint of a string whose length determinent does not imply it.
+fn check_length(length: usize, lb: Option<i128>, ub: Option<i128>) -> Result<(), AperCodecError> {
+    let length = length as i128;
+    if lb.map_or(false, |lb| length < lb) || ub.map_or(false, |ub| length > ub) {
+        return Err(AperCodecError::new(format!(
+            "Decoded length {} does not satisfy the size constraint",
+            length
+        )));
+    }
+    Ok(())
+}
+
 mod decode_charstrings;
 pub use decode_charstrings::*;
-- 
2.43.0


From 4dd6932419801328bdb68cc5fbb66c153b52be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 11/28] fix: decode character strings that do not start on an
 octet boundary

---
 codecs/src/aper/decode/decode_charstrings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 9c83e11..4c0f53d 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -88,7 +88,7 @@ fn decode_string(
     let bits = data.get_bitvec(length)?;
     let bytes = bits
         .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
+        .map(|c| c.load_be::<u8>())
         .collect::<Vec<u8>>();
 
     data.dump();
-- 
2.43.0


From 8a3db103043e6febe24ec4840e6485a798af199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:40 +0000
Subject: [PATCH 12/28] fix: octet-align BIT STRING, OCTET STRING and character
 string contents as X.691 requires

---
 codecs/src/aper/decode/decode_charstrings.rs |  3 ++-
 codecs/src/aper/decode/mod.rs                |  4 ++--
 codecs/src/aper/encode/mod.rs                |  6 +++---
 codecs/src/aper/mod.rs                       | 11 +++++++++++
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 4c0f53d..58f16a6 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -82,7 +82,8 @@ fn decode_string(
 
     let num_bits = 8;
     let length = length * num_bits;
-    if length > 16 {
+    let alignable = is_extended || crate::aper::string_needs_alignment(lb, ub);
+    if length > 0 && alignable {
         data.decode_align()?;
     }
     let bits = data.get_bitvec(length)?;
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index f132b9f..b34b206 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -222,7 +222,7 @@ pub fn decode_bitstring(
         };
 
         if length > 0 {
-            if length > 16 {
+            if length > 16 || is_extended || lb.is_none() || lb != ub {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
@@ -278,7 +278,7 @@ pub fn decode_octetstring(
         };
 
         if length > 0 {
-            if length > 2 {
+            if length > 2 || is_extended || lb.is_none() || lb != ub {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..edb6463 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -199,7 +199,7 @@ pub fn encode_bitstring(
 
     encode_length_determinent(data, lb, ub, false, length)?;
     if length > 0 {
-        if length > 16 {
+        if length > 16 || lb.is_none() || lb != ub {
             data.align();
         }
         data.append_bits(bit_string);
@@ -248,7 +248,7 @@ pub fn encode_octetstring(
     encode_length_determinent(data, lb, ub, false, length)?;
 
     if length > 0 {
-        if length > 2 {
+        if length > 2 || lb.is_none() || lb != ub {
             data.align();
         }
         data.append_bits(octet_string.view_bits());
@@ -331,7 +331,7 @@ fn encode_string(
         data.encode_bool(extended);
     }
     encode_length_determinent(data, lb, ub, false, value.len())?;
-    if value.len() > 2 {
+    if !value.is_empty() && crate::aper::string_needs_alignment(lb, ub) {
         data.align();
     }
     data.append_bits(value.as_bits());
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 6ff7416..3e2356b 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -392,6 +392,17 @@ impl AperCodecData {
     }
 }
 
+/// Whether the characters of a (one octet per character) string are octet aligned (X.691 27.5.6 and
+/// 27.5.7): all but those that are sure to take no more than 16 bits (fixed size) or less than 16
+/// bits (variable size).
+fn string_needs_alignment(lb: Option<i128>, ub: Option<i128>) -> bool {
+    match ub {
+        Some(ub) if lb == Some(ub) => ub > 2,
+        Some(ub) => ub > 1,
+        None => true,
+    }
+}
+
 fn bytes_needed_for_range(range: i128) -> u8 {
     let bits_needed: u8 = 128 - range.leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
-- 
2.43.0


From 39c44e54926d3a89022e517942f4265f82d5660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:40 +0000
Subject: [PATCH 13/28] fix: the complete encoding of an empty value is a
 single zero octet

---
 codecs/src/aper/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 3e2356b..24f67c9 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -380,13 +380,17 @@ impl AperCodecData {
     /// Get the length of the data in bytes
     /// This is useful when encoding an open type.
     pub fn length_in_bytes(&self) -> usize {
-        ((self.bits.len() - 1) / 8) + 1
+        // An empty encoding occupies one octet in an open type (X.691 10.1.3).
+        (self.bits.len().max(1) - 1) / 8 + 1
     }
 
     /// Append one encoding to another preserving byte alignment.
     /// This is useful when encoding an open type.
     pub fn append_aligned(&mut self, other: &mut Self) {
         self.align();
+        if other.bits.is_empty() {
+            other.bits.resize(8, false);
+        }
         other.align();
         self.append_bits(&other.bits)
     }
-- 
2.43.0


From 764fb982f39f65b9474da04342cd15c4585448ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:18 +0000
Subject: [PATCH 14/28] fix: SEQUENCE OF: empty sequences, extensible sizes and
 length errors

---
 codecs/src/aper/decode/mod.rs   |  4 ++--
 codecs_derive/src/aper/seqof.rs | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index b34b206..8d40687 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -300,8 +300,8 @@ pub fn decode_octetstring(
     Ok(octets)
 }
 
-// Checks the size constraint of a string whose length determinent does not imply it.
-fn check_length(length: usize, lb: Option<i128>, ub: Option<i128>) -> Result<(), AperCodecError> {
+/// Checks the size constraint of a value whose length determinent does not imply it.
+pub fn check_length(length: usize, lb: Option<i128>, ub: Option<i128>) -> Result<(), AperCodecError> {
     let length = length as i128;
     if lb.map_or(false, |lb| length < lb) || ub.map_or(false, |ub| length > ub) {
         return Err(AperCodecError::new(format!(
diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..112df97 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -43,16 +43,16 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                let extended = #sz_ext && asn1_codecs::aper::decode::decode_bool(data)?;
+                let (sz_lb, sz_ub) = if extended { (None, None) } else { (#sz_lb, #sz_ub) };
+                let length = asn1_codecs::aper::decode::decode_length_determinent(data, sz_lb, sz_ub, false)?;
+                asn1_codecs::aper::decode::check_length(length, sz_lb, sz_ub)?;
 
                 let mut items = vec![];
                 let mut count = 0;
-                loop {
+                while count < length {
                     items.push(#ty::decode(data)?);
                     count += 1;
-                    if count == length {
-                        break;
-                    }
                 }
 
                 Ok(Self(items))
@@ -61,7 +61,10 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                if #sz_ext {
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From f8a6cb589de42dffcf11b72f4e6ae6f6cc8268fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:18 +0000
Subject: [PATCH 15/28] fix: decoding an open type consumes exactly the octets
 of its length determinent

---
 codecs/src/aper/mod.rs         | 8 ++++++++
 codecs_derive/src/aper/open.rs | 1 +
 2 files changed, 9 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 24f67c9..783741f 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -303,6 +303,14 @@ impl AperCodecData {
         Ok(BitVec::into_vec(bv))
     }
 
+    /// Takes the `length` octets of an open type (already aligned by its length determinent) as a
+    /// buffer of their own, so that the contents and any padding stay within the open type.
+    pub fn take_open_type(&mut self, length: usize) -> Result<Self, AperCodecError> {
+        let mut inner = Self::from_slice(&self.get_bytes(length)?);
+        inner.key = self.key;
+        Ok(inner)
+    }
+
     pub fn get_inner(&self) -> Result<Vec<u8>, AperCodecError> {
         Ok(BitVec::into_vec(self.bits.to_bitvec()))
     }
diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..b878636 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -49,6 +49,7 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
                 }
 
                 let key = data.get_key().unwrap();
+                let data = &mut data.take_open_type(length)?;
 
                 match key {
                     #(#variant_decode_tokens)*
-- 
2.43.0


From f03b01cc6c50c2955b9dde3e9d6380cd84c5d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:18 +0000
Subject: [PATCH 16/28] fix: decoding an extended SEQUENCE skips the extension
 additions instead of leaving them in the input

---
 codecs/src/aper/decode/mod.rs | 11 +++++++++++
 codecs_derive/src/aper/seq.rs |  8 ++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 8d40687..c3ea5aa 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -300,6 +300,17 @@ pub fn decode_octetstring(
     Ok(octets)
 }
 
+/// Skip the extension additions of a SEQUENCE (X.691 18.7 to 18.9), which are open types.
+pub fn skip_sequence_extensions(data: &mut AperCodecData) -> Result<(), AperCodecError> {
+    let count = decode_length_determinent(data, None, None, true)?;
+    let present = data.get_bitvec(count)?.count_ones();
+    for _ in 0..present {
+        let length = decode_length_determinent(data, None, None, false)?;
+        let _ = data.get_bytes(length)?;
+    }
+    Ok(())
+}
+
 /// Checks the size constraint of a value whose length determinent does not imply it.
 pub fn check_length(length: usize, lb: Option<i128>, ub: Option<i128>) -> Result<(), AperCodecError> {
     let length = length as i128;
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 896c83e..ab661cc 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -30,8 +30,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let (bitmap, _extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
-                Ok(Self{#(#fld_decode_tokens)*})
+                let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let value = Self{#(#fld_decode_tokens)*};
+                if extensions_present {
+                    asn1_codecs::aper::decode::skip_sequence_extensions(data)?;
+                }
+                Ok(value)
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From 508becb6a9a8143f16ec21b2f19fc3ee12933cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:56 +0000
Subject: [PATCH 17/28] fix: a decoded INTEGER that does not fit its Rust type
 is an error instead of being truncated

---
 codecs_derive/src/aper/integer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..d1fa73f 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(concat!("Value does not fit in ", stringify!(#name)))
+                })?;
+                Ok(Self(value))
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From 7db102b7a718920ec7f7a76d4e7331e552245c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:56 +0000
Subject: [PATCH 18/28] fix: a decoded ENUMERATED extension addition is no
 longer mistaken for a root enumeration

---
 codecs_derive/src/aper/enumerated.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..e66d223 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -44,7 +44,14 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
-                Ok(Self(decoded.0 as #ty))
+                // Enumerations of the extension additions are numbered after those of the root.
+                let base = if decoded.1 { Option::<i128>::map_or(#ub, 0, |ub| ub + 1) } else { 0 };
+                let value = decoded.0.checked_add(base)
+                    .and_then(|value| <#ty as std::convert::TryFrom<i128>>::try_from(value).ok())
+                    .ok_or_else(|| {
+                        asn1_codecs::aper::AperCodecError::new(concat!("Value does not fit in ", stringify!(#name)))
+                    })?;
+                Ok(Self(value))
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From 5662fbba65b6fb8eb0bb18fb18453b415a6be13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:56 +0000
Subject: [PATCH 19/28] fix: size constraints of UTF8String do not affect its
 encoding (X.691 27.6)

---
 codecs/src/aper/decode/decode_charstrings.rs | 3 ++-
 codecs/src/aper/encode/mod.rs                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 58f16a6..1b0cab2 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -55,7 +55,8 @@ pub fn decode_utf8_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    // Constraints on a UTF8String are not PER-visible.
+    decode_string(data, None, None, false)
 }
 
 fn decode_string(
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index edb6463..d9810dd 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -400,7 +400,8 @@ pub fn encode_utf8_string(
         extended
     );
 
-    encode_string(data, lb, ub, is_extensible, value, extended)
+    // Constraints on a UTF8String are not PER-visible.
+    encode_string(data, None, None, false, value, extended)
 }
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From d56d77e5533379e14d4404e05ba958b2397a444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:56 +0000
Subject: [PATCH 20/28] fix: the upper bound of a constraint with values and
 ranges is the largest of both

---
 asn-compiler/src/resolver/asn/structs/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..9f50ffd 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -44,7 +44,7 @@ impl ConstraintValues {
             None => ranges_max,
             Some(vals_max) => match ranges_max {
                 None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
+                Some(rnges_max) => Some(std::cmp::max(rnges_max, *vals_max)),
             },
         }
     }
-- 
2.43.0


From 677fc60023c652181926ef2a440b5cc809691860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:56 +0000
Subject: [PATCH 21/28] fix: generate integer types wide enough for signed
 ranges and for ranges beyond 64 bits

---
 asn-compiler/src/generator/int.rs                   | 8 ++++----
 asn-compiler/src/resolver/asn/types/base/integer.rs | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index b0677fe..34d0dfe 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -91,7 +91,7 @@ impl Generator {
                 16 => quote!(u16),
                 32 => quote!(u32),
                 64 => quote!(u64),
-                _ => quote!(u64),
+                _ => quote!(u128),
             }
         } else {
             match bits {
@@ -99,7 +99,7 @@ impl Generator {
                 16 => quote!(i16),
                 32 => quote!(i32),
                 64 => quote!(i64),
-                _ => quote!(i64),
+                _ => quote!(i128),
             }
         }
     }
@@ -111,7 +111,7 @@ impl Generator {
                 16 => Literal::u16_suffixed(value as u16),
                 32 => Literal::u32_suffixed(value as u32),
                 64 => Literal::u64_suffixed(value as u64),
-                _ => Literal::u64_suffixed(value as u64),
+                _ => Literal::u128_suffixed(value as u128),
             }
         } else {
             match bits {
@@ -119,7 +119,7 @@ impl Generator {
                 16 => Literal::i16_suffixed(value as i16),
                 32 => Literal::i32_suffixed(value as i32),
                 64 => Literal::i64_suffixed(value as i64),
-                _ => Literal::i64_suffixed(value as i64),
+                _ => Literal::i128_suffixed(value),
             }
         }
     }
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..42f62e4 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -37,8 +37,9 @@ impl Asn1ResolvedInteger {
         let bit_width = if base.signed {
             let min = value_set.root_values.min().unwrap();
             let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
+            // Two's complement: a sign bit and the bits of the value (min is negative).
+            let bits_needed_max = 129 - max.max(0).leading_zeros();
+            let bits_needed_min = 129 - (!min).leading_zeros();
             std::cmp::max(bits_needed_min, bits_needed_max)
         } else if value_set.root_values.min().is_none() {
             8_u32
-- 
2.43.0


From 2bb5b275353d37cac364f9d795bc0ce994e9a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 22/28] fix: ENUMERATED types with explicit numbers or with
 more than 256 items

---
 .../src/resolver/asn/types/base/enumerated.rs | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 33c79e5..a80fc76 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -29,10 +29,36 @@ impl Asn1ResolvedEnumerated {
         for v in &e.root_values {
             let named = &v.value;
             if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
+                let parsed = s.parse::<i128>().map_err(|_| {
+                    resolve_error!("ENUMERATED value '{}' is not supported!", s)
+                })?;
                 root_values.insert(parsed);
             }
         }
+        if !root_values.is_empty() {
+            // Items without a number get the smallest ones not in use (X.680 19.3), the index of
+            // an item is its position in the order of the numbers (X.691 13.1).
+            let mut next = 0;
+            let mut numbered = vec![];
+            for v in &e.root_values {
+                let number = match v.value {
+                    Some(NamedValue::Number(ref s)) => s.parse::<i128>().unwrap(),
+                    _ => {
+                        while root_values.contains(&next) {
+                            next += 1;
+                        }
+                        root_values.insert(next);
+                        next
+                    }
+                };
+                numbered.push((v.name.clone(), number));
+            }
+            for (name, number) in numbered {
+                let index = root_values.range(..number).count();
+                base.named_root_values
+                    .push((name, index.try_into().unwrap()));
+            }
+        }
         // TODO: Support all crazy Enumerations.
         if root_values.is_empty() {
             for (value, v) in e.root_values.iter().enumerate() {
@@ -61,7 +87,7 @@ impl Asn1ResolvedEnumerated {
 
         // FIXME: Following is hard-coded
         base.signed = false;
-        base.bits = 8;
+        base.bits = if root_values.len() <= 256 { 8 } else { 16 };
 
         let _ = base.root_values.replace(root_values);
         let _ = base.ext_values.replace(ext_values);
-- 
2.43.0


From 46da224c4900e9447f1549084a2e4f113bdf6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 23/28] fix: enforce the upper bound of an integer that has no
 lower bound

---
 codecs/src/aper/decode/mod.rs | 8 +++++++-
 codecs/src/aper/encode/mod.rs | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index c3ea5aa..324f838 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -115,7 +115,13 @@ pub fn decode_integer(
             None =>
             // 12.2.4
             {
-                decode_unconstrained_whole_number(data)?
+                let value = decode_unconstrained_whole_number(data)?;
+                if ub.map_or(false, |ub| value > ub) {
+                    return Err(AperCodecError::new(
+                        "Decoded integer is greater than its upper bound.",
+                    ));
+                }
+                value
             }
             Some(lb) => {
                 match ub {
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index d9810dd..cedbe18 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -106,6 +106,12 @@ pub fn encode_integer(
     }
 
     let _ = match (lb, ub) {
+        (None, Some(ub)) if value > ub => {
+            return Err(AperCodecError::new(format!(
+                "Cannot encode integer {} - greater than upper bound {}",
+                value, ub,
+            )))
+        }
         (None, _) => encode_unconstrained_whole_number(data, value)?,
         (Some(lb), None) => encode_semi_constrained_whole_number(data, lb, value)?,
         (Some(lb), Some(ub)) => encode_constrained_whole_number(data, lb, ub, value)?,
-- 
2.43.0


From 9d7ca821bc8b8300547a9bd4a58d91e02b59cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 24/28] fix: malformed SEQUENCE and CHOICE definitions are
 errors instead of endless loops

---
 .../src/parser/asn/types/constructed/choice.rs         | 10 ++++++++++
 asn-compiler/src/parser/asn/types/constructed/seq.rs   |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..f0ef5c1 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,6 +32,7 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -84,6 +85,10 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'ALTERNATIVE'", tokens[consumed]));
+        }
     }
 
     let additions = if extension_markers > 0 {
@@ -130,6 +135,7 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -148,6 +154,10 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("']]'", tokens[consumed]));
+        }
     }
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..16bc992 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -43,6 +43,7 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
             Ok(result) => result,
             Err(_) => (None, 0),
@@ -83,6 +84,10 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'COMPONENT'", tokens[consumed]));
+        }
     }
 
     let extensible = ext_marker_found > 0;
-- 
2.43.0


From 8ff5143eb7972d48e9d41b17978af75624649762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 25/28] fix: components between the extension markers of a
 SEQUENCE are not root components

---
 asn-compiler/src/parser/asn/structs/types/constructed.rs | 1 +
 asn-compiler/src/parser/asn/types/constructed/seq.rs     | 5 ++++-
 asn-compiler/src/resolver/asn/types/constructed.rs       | 4 ++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2ca0ad8..e8b5778 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -20,6 +20,7 @@ pub(crate) struct SeqComponent {
     pub(crate) component: Component,
     pub(crate) optional: bool,
     pub(crate) _default: Option<String>, // FIXME: Should be Asn1Value later on
+    pub(crate) addition: bool,           // Is it between the extension markers?
 }
 
 impl SeqComponent {
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 16bc992..19e20e0 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -48,7 +48,9 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             Ok(result) => result,
             Err(_) => (None, 0),
         };
-        if let Some(root_comp) = component {
+        if let Some(mut root_comp) = component {
+            // Components between the extension markers are additions (X.680 25.1).
+            root_comp.addition = ext_marker_found == 1;
             root_components.push(root_comp);
         }
         consumed += component_consumed;
@@ -165,6 +167,7 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
 
         Ok((
             Some(SeqComponent {
+                addition: false,
                 component,
                 optional,
                 _default,
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ebf433c..688e411 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -93,7 +93,7 @@ fn resolve_sequence_type(
 ) -> Result<Asn1ResolvedType, Error> {
     let mut components = vec![];
     // FIXME: implement for additional_components too
-    for c in &sequence.root_components {
+    for c in sequence.root_components.iter().filter(|c| !c.addition) {
         let ty = match resolve_type(&c.component.ty, resolver) {
             Ok(ty) => ty,
             Err(_e) => {
@@ -148,7 +148,7 @@ fn resolve_sequence_classfield_components(
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
     let mut all_components = vec![];
-    all_components.extend(seq.root_components.clone());
+    all_components.extend(seq.root_components.iter().filter(|c| !c.addition).cloned());
     all_components.extend(
         seq.additions
             .clone()
-- 
2.43.0


From 59bdef03edf172db5c508d4497cea6b4433e0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 26/28] fix: components with a DEFAULT value have a presence
 bit (X.691 19.2)

---
 asn-compiler/src/resolver/asn/types/constructed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 688e411..23a0291 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -106,7 +106,8 @@ fn resolve_sequence_type(
         };
         let seq_component = ResolvedSeqComponent {
             component,
-            optional: c.optional,
+            // A component with a DEFAULT value may be absent, too (X.691 19.2).
+            optional: c.optional || c._default.is_some(),
             class_field_type: None,
             key_field: false,
         };
-- 
2.43.0


From 45e1da842d272d8a6cdb751b3de434e6df94a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 27/28] fix: intersection constraints keep the values in every
 operand

---
 .../resolver/asn/structs/types/constraints.rs | 28 +++++++++++++++++++
 .../src/resolver/asn/types/base/integer.rs    |  3 ++
 .../src/resolver/asn/types/constraints.rs     | 23 ++++-----------
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 9f50ffd..c71d966 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -25,6 +25,34 @@ impl ConstraintValues {
         self.values.is_empty() && self.ranges.is_empty()
     }
 
+    // The values that are in both sets.
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let mut result = Self::new();
+        for r in &self.ranges {
+            for o in &other.ranges {
+                let start = std::cmp::max(r.start, o.start);
+                let end = std::cmp::min(r.end, o.end);
+                if start < end {
+                    result.ranges.push(Range { start, end });
+                }
+            }
+        }
+        result
+            .values
+            .extend(self.values.iter().filter(|v| other.contains(**v)));
+        result.values.extend(
+            other
+                .values
+                .iter()
+                .filter(|v| self.ranges.iter().any(|r| r.contains(v))),
+        );
+        result
+    }
+
+    fn contains(&self, value: i128) -> bool {
+        self.values.contains(&value) || self.ranges.iter().any(|r| r.contains(&value))
+    }
+
     pub(crate) fn min(&self) -> Option<i128> {
         let values_min = self.values.iter().min();
         let ranges_min = self.ranges.iter().map(|r| r.start).min();
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 42f62e4..afb7423 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -26,6 +26,9 @@ impl Asn1ResolvedInteger {
 
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
+        if value_set.root_values.is_empty() {
+            return Err(resolve_error!("No value satisfies the constraint of '{:#?}'", ty));
+        }
         if let Some(x) = value_set.root_values.min() {
             if x < 0 {
                 base.signed = true
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..d1cf572 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -237,26 +237,15 @@ impl IntersectionSet {
     }
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
+        let mut value_set: Option<ConstraintValues> = None;
         for element in &self.elements {
             let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
-                value_set.append(&element_set);
-            } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
-            }
+            value_set = Some(match value_set {
+                None => element_set,
+                Some(values) => values.intersection(&element_set),
+            });
         }
-        Ok(value_set)
+        Ok(value_set.unwrap_or_else(ConstraintValues::new))
     }
 
     fn dependent_references(&self) -> Vec<String> {
-- 
2.43.0


From ec0b535219e91646bc07eeaa0d83aebdfd6c55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 28/28] fix: apply the constraints of a type reference and
 serial constraints

---
 .../resolver/asn/structs/types/constraints.rs | 12 +++
 .../src/resolver/asn/types/base/integer.rs    | 37 ++++++---
 asn-compiler/src/resolver/asn/types/int.rs    | 81 +++++++++++++++++--
 3 files changed, 114 insertions(+), 16 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index c71d966..039dc37 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -84,6 +84,18 @@ pub(crate) struct Asn1ConstraintValueSet {
 }
 
 impl Asn1ConstraintValueSet {
+    // The value set of a constraint applied to a type that has the value set 'parent' (X.680 50.8,
+    // 50.9): the values allowed by both, extensible if this constraint is.
+    pub(crate) fn applied_to(self, parent: Option<&Self>) -> Self {
+        match parent {
+            None => self,
+            Some(parent) => Self {
+                root_values: parent.root_values.intersection(&self.root_values),
+                additional_values: self.additional_values,
+            },
+        }
+    }
+
     pub(crate) fn has_extension(&self) -> bool {
         self.additional_values.is_some()
     }
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index afb7423..3fa94df 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -3,7 +3,9 @@
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{base::Asn1TypeInteger, Asn1Type};
-use crate::resolver::asn::structs::types::base::Asn1ResolvedInteger;
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedInteger, constraints::Asn1ConstraintValueSet,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedInteger {
@@ -26,18 +28,34 @@ impl Asn1ResolvedInteger {
 
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
+        base.set_constraints(value_set)?;
+
+        // TODO: If we have named values, They should be added to Global list of resolved definitions.
+        if i.named_values.is_some() {}
+
+        Ok(base)
+    }
+
+    // Sets the values of this type, with the right bit width and signedness for them.
+    pub(crate) fn set_constraints(
+        &mut self,
+        value_set: Asn1ConstraintValueSet,
+    ) -> Result<(), Error> {
         if value_set.root_values.is_empty() {
-            return Err(resolve_error!("No value satisfies the constraint of '{:#?}'", ty));
+            return Err(resolve_error!(
+                "No value satisfies the constraint '{:#?}'",
+                value_set
+            ));
         }
         if let Some(x) = value_set.root_values.min() {
             if x < 0 {
-                base.signed = true
+                self.signed = true
             } else {
-                base.signed = false
+                self.signed = false
             }
         }
 
-        let bit_width = if base.signed {
+        let bit_width = if self.signed {
             let min = value_set.root_values.min().unwrap();
             let max = value_set.root_values.max().unwrap();
             // Two's complement: a sign bit and the bits of the value (min is negative).
@@ -51,7 +69,7 @@ impl Asn1ResolvedInteger {
             128 - max.leading_zeros()
         };
 
-        base.bits = if bit_width <= 8 {
+        self.bits = if bit_width <= 8 {
             8
         } else if bit_width <= 16 {
             16
@@ -63,10 +81,7 @@ impl Asn1ResolvedInteger {
             128
         };
 
-        // TODO: If we have named values, They should be added to Global list of resolved definitions.
-        if i.named_values.is_some() {}
-
-        let _ = base.resolved_constraints.replace(value_set);
-        Ok(base)
+        let _ = self.resolved_constraints.replace(value_set);
+        Ok(())
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..3b2e2f8 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -1,14 +1,22 @@
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    Asn1BuiltinType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
+    constraints::Asn1Constraint, Asn1BuiltinType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
 use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::{constraints::Asn1ConstraintValueSet, Asn1ResolvedType},
+            types::{
+                base::{
+                    Asn1ResolvedBitString, Asn1ResolvedCharacterString, Asn1ResolvedOctetString,
+                    ResolvedBaseType,
+                },
+                constraints::Asn1ConstraintValueSet,
+                constructed::ResolvedConstructedType,
+                Asn1ResolvedType,
+            },
         },
         types::{base::resolve_base_type, constructed::resolve_constructed_type},
     },
@@ -29,8 +37,17 @@ impl Asn1Type {
         let kind = &self.kind;
         match kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
+                let mut constraints = self.constraints.iter().flatten();
+                let first = constraints
+                    .next()
+                    .ok_or_else(|| constraint_error!("No constraint for '{:#?}'", self))?;
+                let mut value_set = first.get_integer_valueset(resolver)?;
+                for constraint in constraints {
+                    value_set = constraint
+                        .get_integer_valueset(resolver)?
+                        .applied_to(Some(&value_set));
+                }
+                Ok(value_set)
             }
             Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
                 Err(constraint_error!("Not Implemented!"))
@@ -55,6 +72,55 @@ pub(crate) fn resolve_type(
     }
 }
 
+// Resolves a reference with further subtype constraints: the referenced type with the values that
+// satisfy these, too.
+fn resolve_constrained_reference(
+    ty: &Asn1Type,
+    reference: &str,
+    resolver: &Resolver,
+) -> Result<Asn1ResolvedType, Error> {
+    let mut referenced = resolver.resolved_defs.get(reference);
+    while let Some(Asn1ResolvedDefinition::Type(Asn1ResolvedType::Reference(r))) = referenced {
+        referenced = resolver.resolved_defs.get(r);
+    }
+    let mut resolved = match referenced {
+        Some(Asn1ResolvedDefinition::Type(t)) => t.clone(),
+        _ => return Err(resolve_error!("No Type found for '{}'", reference)),
+    };
+    for constraint in ty.constraints.iter().flatten() {
+        match resolved {
+            Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref mut i)) => {
+                let value_set = constraint
+                    .get_integer_valueset(resolver)?
+                    .applied_to(i.resolved_constraints.as_ref());
+                i.set_constraints(value_set)?;
+            }
+            Asn1ResolvedType::Base(ResolvedBaseType::OctetString(Asn1ResolvedOctetString {
+                ref mut size,
+            }))
+            | Asn1ResolvedType::Base(ResolvedBaseType::BitString(Asn1ResolvedBitString {
+                ref mut size,
+                ..
+            }))
+            | Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(
+                Asn1ResolvedCharacterString { ref mut size, .. },
+            ))
+            | Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf {
+                size_values: ref mut size,
+                ..
+            }) if constraint.is_size_constraint() => {
+                *size = Some(
+                    constraint
+                        .get_size_valueset(resolver)?
+                        .applied_to(size.as_ref()),
+                );
+            }
+            _ => return Ok(Asn1ResolvedType::Reference(reference.to_string())),
+        }
+    }
+    Ok(resolved)
+}
+
 fn resolve_reference_type(
     ty: &Asn1Type,
     resolver: &mut Resolver,
@@ -66,7 +132,12 @@ fn resolve_reference_type(
                 match resolved {
                     Some(res) => match res {
                         Asn1ResolvedDefinition::Type(..) => {
-                            Ok(Asn1ResolvedType::Reference(r.to_string()))
+                            match ty.constraints.as_ref().and_then(|c| c.first()) {
+                                Some(Asn1Constraint::Subtype(..)) => {
+                                    resolve_constrained_reference(ty, r, resolver)
+                                }
+                                _ => Ok(Asn1ResolvedType::Reference(r.to_string())),
+                            }
                         }
                         _ => Err(resolve_error!(
                             "Expected a Resolved Type, found {:#?}",
-- 
2.43.0

