From 28cd9ab13ff5a6994deba0aaa2dfba40944b33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:09 +0000
Subject: [PATCH 01/16] fix: decoding truncated bytes returns an error instead
 of panicking

---
 stacks/src/clarity/impl.rs        | 63 +++++++++++++++++++++++++++++++
 stacks/src/clarity/mod.rs         | 14 +++++++
 stacks/src/transaction/payload.rs | 11 ++++++
 3 files changed, 88 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..ce17e12 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -10,6 +10,7 @@ use std::fmt::Debug;
 use std::fmt::Display;
 
 use crate::clarity::decode_clarity_type;
+use crate::clarity::expect_len;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -46,10 +47,14 @@ impl Codec for Int {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(i128::from_be_bytes(buff)))
@@ -99,10 +104,14 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(u128::from_be_bytes(buff)))
@@ -153,11 +162,17 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        expect_len(bytes, 5 + len as usize)?;
+
         let mut offset = 5;
 
         let mut buff = vec![];
@@ -225,6 +240,8 @@ impl Codec for True {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -262,6 +279,8 @@ impl Codec for False {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -302,10 +321,14 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 22)?;
+
         let addr = c32_address(&bytes[2..22], bytes[1])?;
         Ok(Self::new(addr))
     }
@@ -361,10 +384,15 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 23)?;
+        expect_len(bytes, 23 + bytes[22] as usize)?;
+
         let addr = c32_address(&bytes[2..22], bytes[1])?;
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
@@ -412,6 +440,8 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -450,6 +480,8 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -488,6 +520,8 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -524,6 +558,8 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -568,10 +604,14 @@ impl Codec for List {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
@@ -701,17 +741,25 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
         let mut values = vec![];
 
         for _ in 0..len {
+            expect_len(bytes, offset + 1)?;
+
             let k_len = bytes[offset] as usize;
+            expect_len(bytes, offset + 1 + k_len)?;
+
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
@@ -782,11 +830,17 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        expect_len(bytes, 5 + len as usize)?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -823,7 +877,11 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        expect_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        expect_len(bytes, 5 + len as usize)?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -865,6 +923,9 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+        expect_len(bytes, 1 + bytes[0] as usize)?;
+
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
@@ -917,6 +978,8 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
+        expect_len(bytes, 4)?;
+
         let (len, mut remainder) = bytes.split_at(4);
         let num = u32::from_be_bytes(len.try_into()?) as usize;
 
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..399a41c 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// Decoding from bytes that end before the encoded value does.
+    #[error("Unexpected end of input - expected at least {0} bytes, received {1} bytes")]
+    UnexpectedEnd(usize, usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,8 +173,19 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Checks that the encoded bytes hold at least `len` bytes.
+pub(crate) fn expect_len(bytes: &[u8], len: usize) -> Result<(), Error> {
+    if bytes.len() < len {
+        return Err(Error::UnexpectedEnd(len, bytes.len()));
+    }
+
+    Ok(())
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    expect_len(bytes, 1)?;
+
     let tag = bytes[0];
 
     match tag {
diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..e8718b8 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -13,6 +13,7 @@ use dyn_clone::DynClone;
 
 use crate::clarity;
 use crate::clarity::decode_clarity_type;
+use crate::clarity::expect_len;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
@@ -38,6 +39,8 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         match bytes[0] {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
@@ -102,6 +105,8 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
@@ -113,6 +118,8 @@ impl Codec for TokenTransferPayload {
 
         offset += addr_len;
 
+        expect_len(bytes, offset + 8 + 34)?;
+
         let amount_bytes = &bytes[offset..offset + 8];
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
 
@@ -175,12 +182,16 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
 
         let mut offset = 1;
 
+        expect_len(bytes, offset + 1 + 20)?;
+
         let version = bytes[offset];
         offset += 1;
 
-- 
2.43.0


From dca8996fb534cd534be053b4e45bd25451616be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:35 +0000
Subject: [PATCH 02/16] fix: decoding function arguments does not allocate by
 the untrusted count

---
 stacks/src/clarity/impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index ce17e12..91c4ab6 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -983,7 +983,7 @@ impl Codec for FnArguments {
         let (len, mut remainder) = bytes.split_at(4);
         let num = u32::from_be_bytes(len.try_into()?) as usize;
 
-        let mut __value = Vec::with_capacity(num);
+        let mut __value = Vec::new();
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
-- 
2.43.0


From cc616e261fca389109ba14781b0c1d4214461539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:41 +0000
Subject: [PATCH 03/16] fix: decoding deeply nested values returns an error
 instead of overflowing the stack

---
 stacks/src/clarity/mod.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index 399a41c..736be0a 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -6,6 +6,7 @@
 //
 // Usage of this file is permitted solely under a sanctioned license.
 
+use std::cell::Cell;
 use std::fmt::Debug;
 use std::fmt::Display;
 
@@ -41,6 +42,9 @@ pub enum Error {
     /// Decoding from bytes that end before the encoded value does.
     #[error("Unexpected end of input - expected at least {0} bytes, received {1} bytes")]
     UnexpectedEnd(usize, usize),
+    /// Decoding a value that is nested too deeply.
+    #[error("Value is nested too deeply, max. {0} levels")]
+    NestedTooDeeply(usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -182,8 +186,39 @@ pub(crate) fn expect_len(bytes: &[u8], len: usize) -> Result<(), Error> {
     Ok(())
 }
 
+/// The maximum number of nested values that is decoded.
+const MAX_DECODE_DEPTH: usize = 128;
+
+thread_local! {
+    /// The number of nested values that are being decoded by the thread.
+    static DECODE_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Counts a nested value for as long as it is being decoded.
+struct DepthGuard;
+
+impl DepthGuard {
+    fn enter() -> Result<Self, Error> {
+        DECODE_DEPTH.with(|depth| {
+            if depth.get() >= MAX_DECODE_DEPTH {
+                return Err(Error::NestedTooDeeply(MAX_DECODE_DEPTH));
+            }
+
+            depth.set(depth.get() + 1);
+            Ok(Self)
+        })
+    }
+}
+
+impl Drop for DepthGuard {
+    fn drop(&mut self) {
+        DECODE_DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    let _guard = DepthGuard::enter()?;
     expect_len(bytes, 1)?;
 
     let tag = bytes[0];
-- 
2.43.0


From be6c77cc2bccc8559bc84f28f959c5dddc5ed298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:44 +0000
Subject: [PATCH 04/16] fix: StringUtf8::decode checks the type identifier

---
 stacks/src/clarity/impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 91c4ab6..3284c02 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -877,6 +877,12 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        expect_len(bytes, 1)?;
+
+        if bytes[0] != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        }
+
         expect_len(bytes, 5)?;
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-- 
2.43.0


From fd70a2c9fb47ed24e78744e343d8bc2d178ca468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:49 +0000
Subject: [PATCH 05/16] fix: decoding rejects non-ASCII ascii strings and names
 over 128 bytes

---
 stacks/src/clarity/impl.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 3284c02..a6cb110 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -36,6 +36,15 @@ use crate::crypto::bytes_to_hex;
 use crate::crypto::c32_address;
 use crate::crypto::c32_address_decode;
 
+/// Checks that a name is not longer than what can be encoded.
+fn expect_name_len(len: usize) -> Result<(), Error> {
+    if len > 128 {
+        return Err(Error::BadStringLength(len, 128));
+    }
+
+    Ok(())
+}
+
 impl Codec for Int {
     fn encode(&self) -> Result<Vec<u8>, Error> {
         let mut buff = vec![Self::id()];
@@ -394,6 +403,8 @@ impl Codec for PrincipalContract {
         expect_len(bytes, 23 + bytes[22] as usize)?;
 
         let addr = c32_address(&bytes[2..22], bytes[1])?;
+        expect_name_len(bytes[22] as usize)?;
+
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
     }
@@ -758,6 +769,7 @@ impl Codec for Tuple {
             expect_len(bytes, offset + 1)?;
 
             let k_len = bytes[offset] as usize;
+            expect_name_len(k_len)?;
             expect_len(bytes, offset + 1 + k_len)?;
 
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
@@ -842,6 +854,11 @@ impl Codec for StringAscii {
         expect_len(bytes, 5 + len as usize)?;
 
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
@@ -931,6 +948,7 @@ impl Codec for LengthPrefixedStr {
     {
         expect_len(bytes, 1)?;
         expect_len(bytes, 1 + bytes[0] as usize)?;
+        expect_name_len(bytes[0] as usize)?;
 
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
-- 
2.43.0


From b96aec6c07cbc09787d31225fc3f4e9ddc9907f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:05 +0000
Subject: [PATCH 06/16] fix: c32check and address functions reject malformed
 input instead of panicking

---
 stacks/src/crypto/c32.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..6818e61 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -216,6 +216,10 @@ where
 {
     let hash = hash.as_ref();
 
+    if version as usize >= C32_ALPHABET.len() {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
     let mut check = vec![version];
     check.extend_from_slice(hash);
     let checksum = DSha256Hash::from_slice(&check).checksum();
@@ -240,6 +244,10 @@ where
         return Err(Error::BadInput);
     }
 
+    if str.is_empty() {
+        return Err(Error::BadInput);
+    }
+
     let (ver, data) = str.split_at(1);
     let decoded = c32_decode(data)?;
 
@@ -291,7 +299,17 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (bytes, version) = c32check_decode(&str[1..])?;
+
+    if bytes.len() != 20 {
+        return Err(Error::BadAddress(str));
+    }
+
+    if ![22, 26, 20, 21].contains(&version) {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
+    Ok((bytes, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From 1b1a746bd9c73a3711dcf949112c1b92a4fa5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:30 +0000
Subject: [PATCH 07/16] fix: base58 encodes all-zero bytes exactly and rejects
 malformed text instead of panicking

---
 stacks/src/crypto/b58.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..1519e93 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -39,6 +39,9 @@ pub enum Error {
     /// Received an unknown bitcoin version byte.
     #[error("Unknown address version, received: {0}")]
     UnknownAddressVersion(u8),
+    /// Received too few bytes to hold a version and a checksum.
+    #[error("Bad length - received {0} bytes, min. 5 bytes")]
+    BadLength(usize),
     /// Conversion from a integer failed.
     #[error(transparent)]
     TryFromInt(#[from] std::num::TryFromIntError),
@@ -70,7 +73,7 @@ where
     }
 
     let mut result = Vec::with_capacity(data.len() * 138 / 100 + 1);
-    let mut buff = data.to_vec();
+    let mut buff = data[zeros..].to_vec();
 
     while !buff.is_empty() {
         let mut rem = 0;
@@ -116,7 +119,7 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
-        let index = B58_BYTE_MAP[c as usize];
+        let index = *B58_BYTE_MAP.get(c as usize).unwrap_or(&-1);
 
         if index == -1 {
             return Err(Error::BadChar(c));
@@ -175,6 +178,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From 6636eec3b84a7927078ea2d49c0f874b00f2320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:34 +0000
Subject: [PATCH 08/16] fix: values compare equal by their encoding, not by
 their text

---
 stacks/src/clarity/macro.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7d228a9..7076ab1 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -69,7 +69,12 @@ macro_rules! impl_clarity_primitive {
         }
         impl ::std::cmp::PartialEq for $name {
             fn eq(&self, other: &Self) -> bool {
-                self.to_string() == other.to_string()
+                use $crate::clarity::Codec;
+                match (self.encode(), other.encode()) {
+                    (Ok(a), Ok(b)) => a == b,
+                    (Err(_), Err(_)) => self.to_string() == other.to_string(),
+                    _ => false,
+                }
             }
         }
         impl ::std::cmp::Eq for $name {}
-- 
2.43.0


From 4a366b94c6735f628da00a948ed802d0a8637de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:39 +0000
Subject: [PATCH 09/16] fix: inserting an existing key into a tuple replaces
 its value

---
 stacks/src/clarity/impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index a6cb110..d10e658 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -707,6 +707,11 @@ impl Tuple {
     where
         T: Clarity,
     {
+        if let Some(current) = self.get_mut(&key) {
+            *current = Box::new(value);
+            return;
+        }
+
         self.__value.push((key, Box::new(value)));
     }
 
-- 
2.43.0


From 28ab7c9153f4bf4a1c68ddb17821135516c8cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:43 +0000
Subject: [PATCH 10/16] fix: tuples encode their fields in ascending key order

---
 stacks/src/clarity/impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index d10e658..28b3e1c 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -745,7 +745,10 @@ impl Codec for Tuple {
         let mut buff = vec![Self::id()];
         buff.extend_from_slice(&u32::try_from(self.__value.len())?.to_be_bytes());
 
-        for (k, v) in &self.__value {
+        let mut fields: Vec<_> = self.__value.iter().collect();
+        fields.sort_by(|(a, _), (b, _)| a.cmp(b));
+
+        for (k, v) in fields {
             buff.extend_from_slice(&LengthPrefixedStr::new((*k).to_string()).encode()?);
             buff.extend_from_slice(&v.encode()?);
         }
-- 
2.43.0


From 5c789014fe24c4206a4fc1a52bb363bd04ce42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:46 +0000
Subject: [PATCH 11/16] fix: the empty Buffer form of the clarity macro
 compiles

---
 stacks/src/clarity/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7076ab1..380c1fe 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -13,7 +13,7 @@ macro_rules! clarity {
     (Int, $x:expr) => ($crate::clarity::Int::new($x));
     (UInt, $x:expr) => ($crate::clarity::UInt::new($x));
     (Buffer, $x:expr) => ($crate::clarity::Buffer::new($x.to_vec()));
-    (Buffer) => (@empty, Buffer);
+    (Buffer) => (clarity!(@empty, Buffer));
     (True) => ($crate::clarity::True::new());
     (False) => ($crate::clarity::False::new());
     (PrincipalStandard, $x:expr) => ($crate::clarity::PrincipalStandard::new($x.to_string()));
-- 
2.43.0


From c7e1abfd775ed4457098c7c348326878cc6efb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 12/16] fix: token transfers reject a recipient that is not a
 principal

---
 stacks/src/transaction/payload.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index e8718b8..fe101e8 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -18,6 +18,8 @@ use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
 use crate::clarity::LengthPrefixedStr;
+use crate::clarity::PrincipalContract;
+use crate::clarity::PrincipalStandard;
 use crate::crypto::c32::Address;
 use crate::crypto::Hash160;
 
@@ -55,6 +57,17 @@ impl Codec for Box<dyn Payload> {
     }
 }
 
+/// Checks that the recipient of a token transfer is a principal.
+fn expect_principal(recipient: &dyn Clarity) -> Result<(), clarity::Error> {
+    let recipient = recipient.as_any();
+
+    if recipient.is::<PrincipalStandard>() || recipient.is::<PrincipalContract>() {
+        return Ok(());
+    }
+
+    Err(clarity::Error::BadDowncast)
+}
+
 /// The payload type for a transaction.
 #[derive(Debug, Clone)]
 pub struct TokenTransferPayload {
@@ -83,6 +96,8 @@ impl TokenTransferPayload {
 
 impl Codec for TokenTransferPayload {
     fn encode(&self) -> Result<Vec<u8>, clarity::Error> {
+        expect_principal(self.address.as_ref())?;
+
         let mut memo_bytes = vec![0; 34];
 
         if self.memo.len() > 34 {
@@ -114,6 +129,7 @@ impl Codec for TokenTransferPayload {
         let mut offset = 1;
 
         let address = decode_clarity_type(&bytes[offset..])?;
+        expect_principal(address.as_ref())?;
         let addr_len = address.len()?;
 
         offset += addr_len;
-- 
2.43.0


From c96c94ac595b30d7f4de338cf49e3919c9e6f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:38 +0000
Subject: [PATCH 13/16] fix: Auth::verify checks the signatures of a standard
 authorization

---
 stacks/src/transaction/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..e3f3601 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -93,6 +93,8 @@ impl Auth {
             let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
             let auth_type = AUTH_TYPE_SPONSORED;
             sponsor.verify(origin, auth_type)?;
+        } else {
+            self.verify_origin(hash)?;
         }
 
         Ok(())
-- 
2.43.0


From 97b78ae14d4696c256a00202dd10daf26a3de390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:42 +0000
Subject: [PATCH 14/16] fix: a new signer continues after the signatures the
 transaction already has

---
 stacks/src/transaction/auth.rs   | 27 +++++++++++++++++++++++++++
 stacks/src/transaction/signer.rs | 19 ++++++++++++++++---
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index e3f3601..2839b1a 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -39,6 +39,11 @@ pub(crate) const AUTH_ENCODING_TYPE_SIGNATURE: u8 = 0x02;
 pub trait SpendingCondition: Codec + DynClone + Debug {
     /// Verifies a spending condition against a signature hash.
     fn verify(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error>;
+    /// Returns the signature hash that follows the current signatures.
+    #[allow(unused_variables)]
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> SignatureHash {
+        hash
+    }
     /// Modifies a spending condition.
     fn modify(&mut self, cmd: Modification) -> Result<(), Error>;
     /// Resets the spending condition.
@@ -299,6 +304,15 @@ impl SpendingCondition for SpendingConditionStandard {
         Ok(next)
     }
 
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> SignatureHash {
+        if self.signatures() == 0 {
+            return hash;
+        }
+
+        let pre_sign = SignatureHash::make_presign_hash(hash, typ, self.fee, self.nonce);
+        SignatureHash::make_postsign_hash(pre_sign, self.signature)
+    }
+
     fn modify(&mut self, cmd: Modification) -> Result<(), Error> {
         match cmd {
             Modification::SetSignature(sig) => {
@@ -483,6 +497,19 @@ impl SpendingCondition for SpendingConditionMultiSig {
         Ok(next)
     }
 
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> SignatureHash {
+        let mut next = hash;
+
+        for field in &self.fields {
+            if let AuthField::MSG(msg) = field {
+                let pre_sign = SignatureHash::make_presign_hash(next, typ, self.fee, self.nonce);
+                next = SignatureHash::make_postsign_hash(pre_sign, *msg);
+            }
+        }
+
+        next
+    }
+
     fn modify(&mut self, cmd: Modification) -> Result<(), Error> {
         match cmd {
             Modification::AddSignature(sig) => {
diff --git a/stacks/src/transaction/signer.rs b/stacks/src/transaction/signer.rs
index 581f627..0122443 100644
--- a/stacks/src/transaction/signer.rs
+++ b/stacks/src/transaction/signer.rs
@@ -10,6 +10,8 @@ use secp256k1::PublicKey;
 use secp256k1::SecretKey;
 
 use crate::crypto::SignatureHash;
+use crate::transaction::auth::AUTH_TYPE_SPONSORED;
+use crate::transaction::auth::AUTH_TYPE_STANDARD;
 use crate::transaction::Error;
 use crate::transaction::SpendingCondition;
 use crate::transaction::Transaction;
@@ -32,12 +34,19 @@ pub struct TransactionSigner {
 impl TransactionSigner {
     /// Creates a new `Signer`.
     pub fn new(tx: Transaction) -> Result<Self, Error> {
-        let hash = tx.initial_hash()?;
+        let origin = tx.auth.origin();
+        let mut hash = origin.next_hash(tx.initial_hash()?, AUTH_TYPE_STANDARD);
+        let mut origin_signed = false;
+
+        if let Ok(sponsor) = tx.auth.sponsor() {
+            hash = sponsor.next_hash(hash, AUTH_TYPE_SPONSORED);
+            origin_signed = sponsor.signatures() > 0;
+        }
 
         Ok(Self {
             tx,
             hash,
-            origin_signed: false,
+            origin_signed,
             verify_oversign: true,
             verify_overlap: true,
         })
@@ -57,7 +66,11 @@ impl TransactionSigner {
         let hash = tx.verify_origin()?;
 
         let mut signer = Self::new(tx)?;
-        signer.hash = hash;
+        signer.hash = signer
+            .tx
+            .auth
+            .sponsor()?
+            .next_hash(hash, AUTH_TYPE_SPONSORED);
         signer.origin_signed = true;
         signer.verify_oversign = true;
         signer.verify_overlap = true;
-- 
2.43.0


From 0d0fc62fd1ab3cd494b243dac101df2dc043ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:58 +0000
Subject: [PATCH 15/16] fix: read-only calls percent-encode the function name
 in the request path

---
 stacks/src/rpc.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 4885f45..594f3df 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -177,6 +177,19 @@ pub struct ReadOnlyErr {
     pub cause: String,
 }
 
+/// Percent-encodes a path segment, function names may contain `?` or `/`.
+fn encode_segment(segment: &str) -> String {
+    segment
+        .bytes()
+        .map(|b| match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' => {
+                char::from(b).to_string()
+            }
+            _ => f!("%{b:02X}"),
+        })
+        .collect()
+}
+
 #[derive(Debug, Clone)]
 pub struct StacksRPC {
     /// The stacks rpc endpoint.
@@ -257,7 +270,7 @@ impl StacksRPC {
             self.__url,
             contract_addr,
             contract_name,
-            fn_name
+            encode_segment(fn_name)
         ));
 
         let arguments = fn_args
-- 
2.43.0


From 787e56e9247079e2f55cd49f94cdbc5e95528711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:06 +0000
Subject: [PATCH 16/16] fix: verifying a multi-sig authorization with very many
 fields overflowed instead of failing

---
 stacks/src/crypto/c32.rs       | 8 ++++----
 stacks/src/transaction/auth.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 6818e61..f233320 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -335,7 +335,7 @@ pub fn hash_p2wpkh(input: &[u8]) -> Hash160 {
 #[allow(clippy::cast_possible_truncation)]
 pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
     let mut buff = vec![];
-    buff.push(sigs + 80);
+    buff.push(sigs.wrapping_add(80));
 
     for key in keys {
         let bytes = key.serialize();
@@ -343,7 +343,7 @@ pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
         buff.extend_from_slice(&bytes);
     }
 
-    buff.push(keys.len() as u8 + 80);
+    buff.push((keys.len() as u8).wrapping_add(80));
     buff.push(174);
 
     Hash160::from_slice(&buff)
@@ -353,7 +353,7 @@ pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
 #[allow(clippy::cast_possible_truncation)]
 pub fn hash_p2wsh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
     let mut script = vec![];
-    script.push(sigs + 80);
+    script.push(sigs.wrapping_add(80));
 
     for key in keys {
         let bytes = key.serialize();
@@ -361,7 +361,7 @@ pub fn hash_p2wsh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
         script.extend_from_slice(&bytes);
     }
 
-    script.push(keys.len() as u8 + 80);
+    script.push((keys.len() as u8).wrapping_add(80));
     script.push(174);
 
     let hash = Sha256Hash::from_slice(&script);
diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index 2839b1a..343083e 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -462,7 +462,7 @@ impl SpendingCondition for SpendingConditionMultiSig {
         let mut public_keys = vec![];
         let mut next = hash;
 
-        let mut count = 0;
+        let mut count = 0u8;
         for field in &self.fields {
             match field {
                 AuthField::PK(pk) => {
@@ -473,7 +473,7 @@ impl SpendingCondition for SpendingConditionMultiSig {
                         SignatureHash::next_verify(next, typ, self.fee, self.nonce, *msg)?;
                     public_keys.push(pk);
                     next = hash;
-                    count += 1;
+                    count = count.saturating_add(1);
                 }
             }
         }
-- 
2.43.0

