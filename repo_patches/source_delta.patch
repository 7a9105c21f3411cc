From 299c693d2e831685f2be4c78c329086f6a9f368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 01/16] fix: as_i64/as_i32 return IntegerTooLarge for positive
 values above the maximum

---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..5d2f99b 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -414,7 +414,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                i64::try_from(<u64>::from_be_bytes(decode_array_uint8(bytes)?))
+                    .map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
@@ -441,7 +442,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                i32::try_from(<u32>::from_be_bytes(decode_array_uint4(bytes)?))
+                    .map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
-- 
2.43.0


From 3528d87bef24fd9c7a3a7bbee6fa14f51e6400a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 02/16] fix: consuming iterator of an empty SEQUENCE or SET
 yields no element

---
 src/ber/ber.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 5d2f99b..d9f520c 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -786,8 +786,9 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         //     None
         // };
         let res = match self.val.content {
-            BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
-            BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            BerObjectContent::Sequence(ref v) | BerObjectContent::Set(ref v) => {
+                v.get(self.idx).cloned()
+            }
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From 76927c23b68d5936007f3612757866720f4bb963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 03/16] fix: BerObject::try_from(Any) accepts objects with
 indefinite length

---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index d9f520c..2b8a77b 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -731,7 +731,8 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            // data is already delimited (without End-Of-Content)
+            Length::Definite(data.len()),
             header.constructed(),
             MAX_RECURSION,
         )?;
@@ -748,7 +749,8 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            // data is already delimited (without End-Of-Content)
+            Length::Definite(data.len()),
             header.constructed(),
             MAX_RECURSION,
         )?;
-- 
2.43.0


From beab7fed3ba402d1c7764697f09df4edd0d544fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:02 +0000
Subject: [PATCH 04/16] fix: DER explicit optional and implicit parsers reject
 indefinite length

---
 src/der/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..1912e95 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -3,6 +3,7 @@ use crate::der::*;
 use crate::der_constraint_fail_if;
 use crate::error::*;
 use alloc::borrow::ToOwned;
+use alloc::boxed::Box;
 use asn1_rs::{Any, FromDer};
 use nom::bytes::streaming::take;
 use nom::number::streaming::be_u8;
@@ -313,7 +314,12 @@ pub fn parse_der_explicit_optional<F>(i: &[u8], tag: Tag, f: F) -> DerResult<'_>
 where
     F: Fn(&[u8]) -> DerResult,
 {
-    parse_ber_explicit_optional(i, tag, f)
+    parse_ber_optional(parse_der_tagged_explicit_g(tag, |content, hdr| {
+        let (rem, obj) = f(content)?;
+        let content = DerObjectContent::Tagged(hdr.class(), hdr.tag(), Box::new(obj));
+        let tagged = DerObject::from_header_and_content(hdr, content);
+        Ok((rem, tagged))
+    }))(i)
 }
 
 /// Parse an implicit tagged object, applying function to read content
@@ -361,7 +367,7 @@ where
     F: Fn(&'a [u8], &'_ Header, usize) -> BerResult<'a, DerObjectContent<'a>>,
     T: Into<Tag>,
 {
-    parse_ber_implicit(i, tag, f)
+    parse_der_tagged_implicit(tag, f)(i)
 }
 
 /// Parse DER object and try to decode it as a 32-bits signed integer
-- 
2.43.0


From 6a8c112cdd4ff336171f67fcd762629686689d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:37 +0000
Subject: [PATCH 05/16] fix: only the octets 00 00 terminate indefinite-length
 content

---
 src/ber/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..6a66ffc 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -37,7 +37,8 @@ pub(crate) fn ber_skip_object_content<'a>(
             loop {
                 let (i2, header2) = ber_read_element_header(i)?;
                 let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
-                if eoc {
+                // End-Of-Content is encoded as exactly two zero bytes (X.690 8.1.5)
+                if eoc && i.starts_with(&[0, 0]) {
                     // return false, since top object was not EndOfContent
                     return Ok((i3, false));
                 }
-- 
2.43.0


From dbc908c80eac897c2580d459e132eea62c25de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:37 +0000
Subject: [PATCH 06/16] fix: parse_ber_tagged_implicit accepts objects with
 indefinite length

---
 src/ber/tagged.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ber/tagged.rs b/src/ber/tagged.rs
index cef5642..0a5bff7 100644
--- a/src/ber/tagged.rs
+++ b/src/ber/tagged.rs
@@ -174,7 +174,9 @@ where
 {
     let tag = tag.into();
     parse_ber_tagged_implicit_g(tag, move |i, hdr, depth| {
-        let (rem, content) = f(i, &hdr, depth)?;
+        // content is already delimited (without End-Of-Content)
+        let content_hdr = hdr.clone().with_length(Length::Definite(i.len()));
+        let (rem, content) = f(i, &content_hdr, depth)?;
         // trailing bytes are ignored
         let obj = BerObject::from_header_and_content(hdr, content);
         Ok((rem, obj))
-- 
2.43.0


From cdc62fdbae5aeb229f46a25dea9c3f11211254e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:37 +0000
Subject: [PATCH 07/16] fix: DER BIT STRING content honours the recursion limit

---
 src/der/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 1912e95..31c04c6 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -496,6 +496,7 @@ pub fn der_read_element_content_as(
     if i.len() < l {
         return Err(Err::Incomplete(Needed::new(l)));
     }
+    custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     match tag {
         Tag::Boolean => {
             custom_check!(i, l != 1, BerError::InvalidLength)?;
-- 
2.43.0


From afc6dffdfdb3c14e1c0277094eb7ecf5443e3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:39 +0000
Subject: [PATCH 08/16] fix: parse_der applies DER constraints to nested
 SEQUENCE and SET elements

---
 src/der/parser.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 31c04c6..4503ff2 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -4,6 +4,7 @@ use crate::der_constraint_fail_if;
 use crate::error::*;
 use alloc::borrow::ToOwned;
 use alloc::boxed::Box;
+use alloc::vec::Vec;
 use asn1_rs::{Any, FromDer};
 use nom::bytes::streaming::take;
 use nom::number::streaming::be_u8;
@@ -549,6 +550,17 @@ pub fn der_read_element_content_as(
                 )));
             }
         }
+        Tag::Sequence | Tag::Set => {
+            custom_check!(i, !constructed, BerError::ConstructExpected)?;
+            // DER constraints also apply to the nested elements
+            let (rem, v) = der_read_content_elements(i, l, max_depth - 1)?;
+            let content = if tag == Tag::Sequence {
+                DerObjectContent::Sequence(v)
+            } else {
+                DerObjectContent::Set(v)
+            };
+            return Ok((rem, content));
+        }
         _ => (),
     }
     ber_read_element_content_as(i, tag, length, constructed, max_depth)
@@ -589,6 +601,25 @@ fn der_read_element_content_recursive<'a>(
     }
 }
 
+fn der_read_content_elements(
+    i: &[u8],
+    len: usize,
+    max_depth: usize,
+) -> BerResult<'_, Vec<DerObject<'_>>> {
+    let (rem, mut data) = take(len)(i)?;
+    let mut v = Vec::new();
+    while !data.is_empty() {
+        let (next, obj) = match parse_der_recursive(data, max_depth) {
+            // the container is complete, so the element is truncated
+            Err(Err::Incomplete(n)) => return Err(Err::Error(BerError::Incomplete(n))),
+            res => res?,
+        };
+        v.push(obj);
+        data = next;
+    }
+    Ok((rem, v))
+}
+
 fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectContent<'_>> {
     let (i, ignored_bits) = be_u8(i)?;
     if ignored_bits > 7 {
-- 
2.43.0


From 69b4a412a465b4a4c4d4e29e2c5bfefef43374e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:08 +0000
Subject: [PATCH 09/16] fix: ber_encode_header encodes tag numbers above 30
 instead of panicking

---
 src/ber/serialize.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..ace524a 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -44,10 +44,18 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         // identifier octets (X.690 8.1.2)
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
-        if hdr.tag().0 > 30 {
-            unimplemented!();
+        let tag = hdr.tag().0;
+        if tag > 30 {
+            // high-tag-number form (X.690 8.1.2.4)
+            let v: Vec<u8> = (0..5)
+                .rev()
+                .filter(|&n| n == 0 || tag >> (7 * n) != 0)
+                .map(|n| ((tag >> (7 * n)) & 0x7f) as u8 | if n > 0 { 0x80 } else { 0 })
+                .collect();
+            let byte_0 = class_u8 | pc_u8 | 0x1f;
+            return tuple((be_u8(byte_0), slice(v), encode_length(hdr.length())))(out);
         }
-        let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
+        let byte_0 = class_u8 | pc_u8 | (tag as u8);
         // length octets (X.690 8.1.3)
         tuple((be_u8(byte_0), encode_length(hdr.length())))(out)
     }
-- 
2.43.0


From 155f7af99c8addeee30642fb9ebf572c1f19d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:08 +0000
Subject: [PATCH 10/16] fix: encode EndOfContent with empty content

---
 src/ber/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index ace524a..21d0a4e 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -125,7 +125,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
-- 
2.43.0


From 07ff9d593e10a8a491f7a56c6b7a1441ddde3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:08 +0000
Subject: [PATCH 11/16] fix: encode enumerated value 0 with one content octet

---
 src/ber/serialize.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 21d0a4e..fe8b68d 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -137,13 +137,10 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
         BerObjectContent::OctetString(s) => slice(s)(out),
         BerObjectContent::Null => Ok(out),
         BerObjectContent::Enum(i) => {
-            let v: Vec<u8> = i
-                .to_be_bytes()
-                .iter()
-                .cloned()
-                .skip_while(|&b| b == 0)
-                .collect();
-            slice(v)(out)
+            let bytes = i.to_be_bytes();
+            // at least one content octet is required, even for 0 (X.690 8.4)
+            let start = bytes.iter().position(|&b| b != 0).unwrap_or(7);
+            slice(bytes[start..].to_vec())(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
         BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-- 
2.43.0


From f320747fa1ea0d34126e726cde9bbb1296985fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:09 +0000
Subject: [PATCH 12/16] fix: encode UTCTime with a 2-digit year, keep fraction
 digits and time zone

---
 src/ber/serialize.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index fe8b68d..fac17b2 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -1,7 +1,7 @@
 #![cfg(feature = "std")]
 use crate::ber::*;
 use crate::oid::Oid;
-use asn1_rs::ASN1DateTime;
+use asn1_rs::{ASN1DateTime, ASN1TimeZone};
 use cookie_factory::bytes::be_u8;
 use cookie_factory::combinator::slice;
 use cookie_factory::gen_simple;
@@ -68,9 +68,32 @@ fn ber_encode_oid<'a, W: Write + 'a>(oid: &'a Oid) -> impl SerializeFn<W> + 'a {
     }
 }
 
-fn ber_encode_datetime<'a, W: Write + 'a>(time: &'a ASN1DateTime) -> impl SerializeFn<W> + 'a {
+fn ber_encode_datetime<'a, W: Write + 'a>(
+    time: &'a ASN1DateTime,
+    utc: bool,
+) -> impl SerializeFn<W> + 'a {
     move |out| {
-        let s = format!("{}", time);
+        // UTCTime has a 2-digit year (X.680 47)
+        let mut s = if utc {
+            format!("{:02}", time.year % 100)
+        } else {
+            format!("{:04}", time.year)
+        };
+        s += &format!(
+            "{:02}{:02}{:02}{:02}{:02}",
+            time.month, time.day, time.hour, time.minute, time.second
+        );
+        if let Some(ms) = time.millisecond {
+            s += &format!(".{:03}", ms);
+        }
+        match time.tz {
+            ASN1TimeZone::Undefined => (),
+            ASN1TimeZone::Z => s.push('Z'),
+            ASN1TimeZone::Offset(h, m) => {
+                let sign = if h < 0 { '-' } else { '+' };
+                s += &format!("{}{:02}{:02}", sign, h.unsigned_abs(), m.unsigned_abs());
+            }
+        }
         slice(s)(out)
     }
 }
@@ -143,9 +166,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
             slice(bytes[start..].to_vec())(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-        BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-            ber_encode_datetime(time)(out)
-        }
+        BerObjectContent::UTCTime(time) => ber_encode_datetime(time, true)(out),
+        BerObjectContent::GeneralizedTime(time) => ber_encode_datetime(time, false)(out),
         BerObjectContent::NumericString(s)
         | BerObjectContent::GeneralString(s)
         | BerObjectContent::ObjectDescriptor(s)
-- 
2.43.0


From 162ca68437b7b60d2e5655fe9554e19369404070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:47 +0000
Subject: [PATCH 13/16] fix: strip leading zero bytes of integers without
 recursion

---
 src/ber/integer.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..634ede2 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -4,17 +4,16 @@ use crate::error::*;
 /// zeroes removed.
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
-fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
-    // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+fn remove_zeroes(mut bytes: &[u8]) -> Result<&[u8], BerError> {
+    // skip leading 0s, but keep the last byte (this must not be recursive: the number of leading
+    // zeroes is controlled by the input)
+    while let [0, rest @ ..] = bytes {
+        if rest.is_empty() {
+            break;
+        }
+        bytes = rest;
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From 66e20480da493837e5b19c4a00f46dfad7830ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 14/16] fix: der-oid-macro refuses object identifiers with a
 first component above 2

---
 der-oid-macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index afac8c2..3a2c589 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -12,7 +12,7 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
             }
             panic!("Need at least two components for non-relative oid");
         }
-        if dec[0] >= 7u8.into() || dec[1] >= 40u8.into() {
+        if dec[0] >= 3u8.into() || dec[1] >= 40u8.into() {
             panic!("First components are too big");
         }
         enc.push(dec[0].to_u8().unwrap() * 40 + dec[1].to_u8().unwrap());
-- 
2.43.0


From 76086607d638e36e53b5d544ccdee3ecdce93c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 15/16] fix: pretty printer takes Sequence/Set from the
 content, not from the header tag

---
 src/ber/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 3553815..ba3272d 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -3,7 +3,7 @@ use crate::ber::{BerObject, BerObjectContent};
 use alloc::string::{String, ToString};
 use alloc::vec;
 use alloc::vec::Vec;
-use asn1_rs::{Class, Header, Length, Tag};
+use asn1_rs::{Class, Header, Length};
 use core::fmt;
 use core::iter::FromIterator;
 use core::str;
@@ -174,7 +174,7 @@ impl fmt::Debug for PrettyBer<'_> {
             },
             BerObjectContent::Set(ref v) |
             BerObjectContent::Sequence(ref v)        => {
-                let ty = if self.obj.header.tag() == Tag::Sequence { "Sequence" } else { "Set" };
+                let ty = if let BerObjectContent::Sequence(_) = self.obj.content { "Sequence" } else { "Set" };
                 if self.is_recursive() {
                     writeln!(f, "{}[", ty)?;
                     for o in v {
-- 
2.43.0


From 24a147fc8b3aa4aa2c87de9e8ec1d0e79dbdefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:03 +0000
Subject: [PATCH 16/16] fix: pretty printing panicked on indentations above
 65535

---
 src/ber/print.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index ba3272d..056ac25 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -72,6 +72,14 @@ impl<'a> PrettyBer<'a> {
         }
     }
 
+    /// Write indentation (the width of a format specification is limited to 16 bits)
+    fn write_indent(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        for _ in 0..self.indent {
+            f.write_str(" ")?;
+        }
+        Ok(())
+    }
+
     #[inline]
     fn is_recursive(&self) -> bool {
         self.is_flag_set(PrettyPrinterFlag::Recursive)
@@ -102,9 +110,7 @@ fn dbg_header(header: &Header, f: &mut fmt::Formatter) -> fmt::Result {
 impl fmt::Debug for PrettyBer<'_> {
     #[rustfmt::skip]
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if self.indent > 0 {
-            write!(f, "{:1$}", " ", self.indent)?;
-        };
+        self.write_indent(f)?;
         if self.flags.contains(&PrettyPrinterFlag::ShowHeader) {
             dbg_header(&self.obj.header, f)?;
             write!(f, " ")?;
@@ -166,9 +172,7 @@ impl fmt::Debug for PrettyBer<'_> {
             BerObjectContent::Tagged(class, tag, ref obj) => {
                 writeln!(f, "ContextSpecific [{} {}] {{", class, tag.0)?;
                 write!(f, "{:?}", self.next_indent(obj))?;
-                if self.indent > 0 {
-                    write!(f, "{:1$}", " ", self.indent)?;
-                };
+                self.write_indent(f)?;
                 write!(f, "}}")?;
                 Ok(())
             },
@@ -180,9 +184,7 @@ impl fmt::Debug for PrettyBer<'_> {
                     for o in v {
                         write!(f, "{:?}", self.next_indent(o))?;
                     };
-                    if self.indent > 0 {
-                        write!(f, "{:1$}", " ", self.indent)?;
-                    };
+                    self.write_indent(f)?;
                     write!(f, "]")?;
                 } else {
                     write!(f, "{}", ty)?;
-- 
2.43.0

