From bfe671c045314ea545a09f745db2d55748db995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 01/27] fix: unsigned_integer range(Outside) used an undefined
 variable and did not compile

---
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..ab48f4f 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From 71019b548056f6dce1100e3bb06215e0c33bf3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 02/27] fix: integer validators reject numbers deserialized in
 the other signedness

---
 .../validator_handlers/signed_integer/mod.rs  | 16 +++++++++
 .../unsigned_integer/mod.rs                   | 16 +++++++++
 validators/src/result/serde_traits.rs         | 34 +++++++++++++++++++
 3 files changed, 66 insertions(+)

diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..78d6f1f 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,22 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateSignedInteger>::parse_i128(v as i128).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match i128::try_from(v) {
+                                                    Ok(v) => <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooLarge)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index ab48f4f..b13f90e 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -624,6 +624,22 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                self.visit_i128(v as i128)
+                                            }
+
+                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match u128::try_from(v) {
+                                                    Ok(v) => <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooSmall)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 5840f62..75470eb 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -1028,6 +1028,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_i128(v)))
             }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_i128(v as i128)))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match i128::try_from(v) {
+                    Ok(v) => T::parse_i128(v),
+                    Err(_) => Err(SignedIntegerError::TooLarge),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
@@ -1143,6 +1160,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_u128(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                self.visit_i128(v as i128)
+            }
+
+            #[inline]
+            fn visit_i128<E>(self, v: i128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match u128::try_from(v) {
+                    Ok(v) => T::parse_u128(v),
+                    Err(_) => Err(UnsignedIntegerError::TooSmall),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From af23cd8cf7ac2d2226bb3cb57ca29fb52fb870ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 03/27] fix: number validator cannot be deserialized from
 integers

---
 .../src/validator_handlers/number/mod.rs      | 28 +++++++++++++++++++
 validators/src/result/serde_traits.rs         | 28 +++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/validators-derive/src/validator_handlers/number/mod.rs b/validators-derive/src/validator_handlers/number/mod.rs
index 5dbff68..72cee50 100644
--- a/validators-derive/src/validator_handlers/number/mod.rs
+++ b/validators-derive/src/validator_handlers/number/mod.rs
@@ -433,6 +433,34 @@ impl ValidatorHandler for NumberHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateNumber>::parse_f32(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 75470eb..b8ec705 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -856,6 +856,34 @@ impl<'de, T: ValidateString<Error = NumberError> + ValidateNumber<Error = Number
                 E: DeError, {
                 Ok(Result::new(T::parse_f64(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_i128<E>(self, v: i128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From 83ad4e37a5ef0ddcaec305d09d7e6cc002611092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 04/27] fix: mac_address with optional separators panics on
 truncated input

---
 .../src/validator_handlers/mac_address/mod.rs  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..e7ec9c1 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -62,31 +62,31 @@ impl ValidatorHandler for MacAddressHandler {
                                 0
                             };
 
-                            let second = &bytes[(3 - no_colon_counter)..(5 - no_colon_counter)];
+                            let second = bytes.get((3 - no_colon_counter)..(5 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[5 - no_colon_counter] != #separator {
+                            if bytes.get(5 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let third = &bytes[(6 - no_colon_counter)..(8 - no_colon_counter)];
+                            let third = bytes.get((6 - no_colon_counter)..(8 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[8 - no_colon_counter] != #separator {
+                            if bytes.get(8 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let forth = &bytes[(9 - no_colon_counter)..(11 - no_colon_counter)];
+                            let forth = bytes.get((9 - no_colon_counter)..(11 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[11 - no_colon_counter] != #separator {
+                            if bytes.get(11 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let fifth = &bytes[(12 - no_colon_counter)..(14 - no_colon_counter)];
+                            let fifth = bytes.get((12 - no_colon_counter)..(14 - no_colon_counter)).ok_or(#error_path::Invalid)?;
 
-                            if bytes[14 - no_colon_counter] != #separator {
+                            if bytes.get(14 - no_colon_counter) != Some(&#separator) {
                                 no_colon_counter += 1;
                             }
 
-                            let sixth = &bytes[(15 - no_colon_counter)..];
+                            let sixth = bytes.get((15 - no_colon_counter)..).ok_or(#error_path::Invalid)?;
 
                             if sixth.len() != 2 {
                                 return Err(#error_path::Invalid);
-- 
2.43.0


From 5185294577a5f7a7abfa91d5577946892ebe2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 05/27] fix: MAC address and UUID strings contain the
 separator's byte number instead of the separator

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index e7ec9c1..5f72f62 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -291,7 +291,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                         validators_prelude::format!(
                                             "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}",
-                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator as char
                                         )
                                     }
                                 }
@@ -315,7 +315,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                     validators_prelude::format!(
                                         "{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}",
-                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator as char
                                     )
                                 }
                             }
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..c84fbb8 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for UuidHandler {
                                             bytes[2],
                                             bytes[1],
                                             bytes[0],
-                                            separator = #separator
+                                            separator = #separator as char
                                         )
                                     }
                                 }
@@ -335,7 +335,7 @@ impl ValidatorHandler for UuidHandler {
                                         bytes[2],
                                         bytes[1],
                                         bytes[0],
-                                        separator = #separator
+                                        separator = #separator as char
                                     )
                                 }
                             }
-- 
2.43.0


From c2f3ca3225707e988060a7c6788f12b4804df521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 06/27] fix: semver, semver_req and url deserialization
 recursed forever

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..4ccc0b9 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..0d0491c 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..573ded2 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
-- 
2.43.0


From 3fbd428f30a5eb1938c4f927c51c38750549cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 07/27] fix: length validator with min equal to max did not
 compile

---
 validators-derive/src/validator_handlers/length/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..1581f13 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,7 +77,7 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
-                                    match ::core::cmp::Ord::cmp(&length, &#min) {
+                                    match ::core::cmp::Ord::cmp(&CollectionLength::len(v), &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
                                         ::core::cmp::Ordering::Greater => return Err(#error_path::TooLarge),
-- 
2.43.0


From 1f7297d2c4a86376f18139ec38528213c619ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 08/27] fix: line and text with trimmed_min accept control
 characters in leading whitespace

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From 084d68428b51de7fa648cf405dc049bd19984dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 09/27] fix: line and text with char_length and trimmed_min
 report over-long input as too short

---
 .../src/validator_handlers/line/mod.rs        | 32 ++++++++++++-------
 .../src/validator_handlers/text/mod.rs        | 32 ++++++++++++-------
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 2954f39..011c834 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,12 +209,12 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -348,7 +352,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,12 +396,12 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 9f9eb45..e949d53 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,12 +209,12 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -348,7 +352,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,12 +396,12 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
-- 
2.43.0


From 5465f9fae057782925ad798757d7c57e89a6d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 10/27] fix: base32, base64 and base64_url accept unpadded text
 of a length no encoder produces

---
 validators-derive/src/validator_handlers/base32/mod.rs     | 5 ++++-
 validators-derive/src/validator_handlers/base64/mod.rs     | 5 ++++-
 validators-derive/src/validator_handlers/base64_url/mod.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32/mod.rs b/validators-derive/src/validator_handlers/base32/mod.rs
index 63690fd..aedad52 100644
--- a/validators-derive/src/validator_handlers/base32/mod.rs
+++ b/validators-derive/src/validator_handlers/base32/mod.rs
@@ -119,7 +119,10 @@ impl ValidatorHandler for Base32Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match p {
+                                    1 | 3 | 6 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64/mod.rs b/validators-derive/src/validator_handlers/base64/mod.rs
index 97dbf45..8698136 100644
--- a/validators-derive/src/validator_handlers/base64/mod.rs
+++ b/validators-derive/src/validator_handlers/base64/mod.rs
@@ -119,7 +119,10 @@ impl ValidatorHandler for Base64Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match p {
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_url/mod.rs b/validators-derive/src/validator_handlers/base64_url/mod.rs
index 0969658..c8c0c59 100644
--- a/validators-derive/src/validator_handlers/base64_url/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url/mod.rs
@@ -120,7 +120,10 @@ impl ValidatorHandler for Base64UrlHandler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match p {
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
-- 
2.43.0


From 3dc3a5262e0df3defae988aa1a5c516ba0b13a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 11/27] fix: decoded base32/base64/base64_url validators
 disagree between parsing and validating

---
 .../src/validator_handlers/base32_decoded/mod.rs   | 14 +++++++++-----
 .../src/validator_handlers/base64_decoded/mod.rs   | 14 +++++++++-----
 .../validator_handlers/base64_url_decoded/mod.rs   | 14 +++++++++-----
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..aa16286 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -72,7 +72,7 @@ impl ValidatorHandler for Base32DecodedHandler {
                                 }
                             }
 
-                            return Ok(());
+                            break;
                         }
                         _ => return Err(#error_path::Invalid),
                     }
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base32DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_validate_u8_slice(v)?;
 
                                 #decode
                             }
@@ -157,7 +155,7 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        break;
                                     }
 
                                     let e = last_bytes[p];
@@ -172,6 +170,12 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                                     p += 1;
                                 }
+
+                                // the last block may still have an impossible length or non-zero trailing bits
+                                let v = last_bytes;
+                                let decoded: Result<validators_prelude::Vec<u8>, #error_path> = { #decode };
+
+                                decoded.map(|_| ())
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..76b4fd6 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -72,7 +72,7 @@ impl ValidatorHandler for Base64DecodedHandler {
                                 }
                             }
 
-                            return Ok(());
+                            break;
                         }
                         _ => return Err(#error_path::Invalid),
                     }
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_validate_u8_slice(v)?;
 
                                 #decode
                             }
@@ -157,7 +155,7 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        break;
                                     }
 
                                     let e = last_bytes[p];
@@ -172,6 +170,12 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                                     p += 1;
                                 }
+
+                                // the last block may still have an impossible length or non-zero trailing bits
+                                let v = last_bytes;
+                                let decoded: Result<validators_prelude::Vec<u8>, #error_path> = { #decode };
+
+                                decoded.map(|_| ())
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..9003a13 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -72,7 +72,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                                 }
                             }
 
-                            return Ok(());
+                            break;
                         }
                         _ => return Err(#error_path::Invalid),
                     }
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_validate_u8_slice(v)?;
 
                                 #decode
                             }
@@ -157,7 +155,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        break;
                                     }
 
                                     let e = last_bytes[p];
@@ -172,6 +170,12 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                                     p += 1;
                                 }
+
+                                // the last block may still have an impossible length or non-zero trailing bits
+                                let v = last_bytes;
+                                let decoded: Result<validators_prelude::Vec<u8>, #error_path> = { #decode };
+
+                                decoded.map(|_| ())
                             }
                         }
                     });
-- 
2.43.0


From 5f5b5cbed9c1ea64e5b9c7af43c6da0f7b811cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 12/27] fix: domain validator returns the port as part of an
 IPv4 domain

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..f7945f8 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (domain_str.into(), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From 4aa8f328524b198f2199cafdfa4163e6d39fd78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 13/27] fix: domain validator policies could be bypassed by
 IPv4 addresses spelled with non-ASCII characters

---
 .../src/validator_handlers/domain/mod.rs      | 41 +++++++++----------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index f7945f8..c480817 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (domain_str.into(), port, true, is_local)
+                                (ascii_domain, port, true, is_local)
                             }
                         }
                     };
@@ -679,34 +679,33 @@ impl ValidatorHandler for DomainHandler {
                         };
 
                         quote! {
-                            match validators_prelude::idna::Config::default()
-                                .use_std3_ascii_rules(true)
-                                .verify_dns_length(true)
-                                .check_hyphens(true)
-                                .to_ascii(domain_str)
-                            {
-                                Ok(ascii_domain) => {
-                                    let port = #handle_port;
+                            let port = #handle_port;
 
-                                    let is_local = #handle_local_domain;
+                            let is_local = #handle_local_domain;
 
-                                    #check_at_least_two_labels
+                            #check_at_least_two_labels
 
-                                    #check_local
+                            #check_local
 
-                                    (ascii_domain, port, false, is_local)
-                                }
-                                Err(_) => return Err(#error_path::Invalid),
-                            }
+                            (ascii_domain, port, false, is_local)
                         }
                     };
 
                     quote! {
-                        match validators_prelude::parse_ipv4_allow_an_ended_dot(domain_str) {
-                            #handle_ipv4
-                            Err(_) => {
-                                #handle_none_ipv4
-                            }
+                        match validators_prelude::idna::Config::default()
+                            .use_std3_ascii_rules(true)
+                            .verify_dns_length(true)
+                            .check_hyphens(true)
+                            .to_ascii(domain_str)
+                        {
+                            // the policies are about the domain in ASCII form, which is the one to be returned
+                            Ok(ascii_domain) => match validators_prelude::parse_ipv4_allow_an_ended_dot(&ascii_domain) {
+                                #handle_ipv4
+                                Err(_) => {
+                                    #handle_none_ipv4
+                                }
+                            },
+                            Err(_) => return Err(#error_path::Invalid),
                         }
                     }
                 }
-- 
2.43.0


From 67df35710177b65e94bf799046dd0e105255c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 14/27] fix: host validator policies could be bypassed by hosts
 spelled with non-ASCII characters

---
 .../src/validator_handlers/host/mod.rs        | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..922195a 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -497,25 +497,15 @@ impl ValidatorHandler for HostHandler {
                 };
 
                 quote! {
-                    match validators_prelude::idna::Config::default()
-                        .use_std3_ascii_rules(true)
-                        .verify_dns_length(true)
-                        .check_hyphens(true)
-                        .to_ascii(domain_str)
-                    {
-                        Ok(ascii_domain) => {
-                            let port = #handle_port;
+                    let port = #handle_port;
 
-                            let is_local = #handle_local_domain;
+                    let is_local = #handle_local_domain;
 
-                            #check_at_least_two_labels
+                    #check_at_least_two_labels
 
-                            #check_local
+                    #check_local
 
-                            (validators_prelude::Host::Domain(ascii_domain), port, is_local)
-                        }
-                        Err(_) => return Err(#error_path::Invalid),
-                    }
+                    (validators_prelude::Host::Domain(ascii_domain), port, is_local)
                 }
             };
 
@@ -543,15 +533,26 @@ impl ValidatorHandler for HostHandler {
                                         }
                                     };
 
-                                    if domain_str.ends_with('.') {
-                                        return Err(#error_path::Invalid);
-                                    }
+                                    match validators_prelude::idna::Config::default()
+                                        .use_std3_ascii_rules(true)
+                                        .verify_dns_length(true)
+                                        .check_hyphens(true)
+                                        .to_ascii(domain_str)
+                                    {
+                                        // the policies are about the domain in ASCII form, which is the one to be returned
+                                        Ok(ascii_domain) => {
+                                            if ascii_domain.ends_with('.') {
+                                                return Err(#error_path::Invalid);
+                                            }
 
-                                    match ::std::net::Ipv4Addr::from_str(domain_str) {
-                                        #handle_ipv4
-                                        Err(_) => {
-                                            #handle_none_ipv4
+                                            match ::std::net::Ipv4Addr::from_str(&ascii_domain) {
+                                                #handle_ipv4
+                                                Err(_) => {
+                                                    #handle_none_ipv4
+                                                }
+                                            }
                                         }
+                                        Err(_) => return Err(#error_path::Invalid),
                                     }
                                 }
                             }
-- 
2.43.0


From 7be7c1f94ce76bff3101e72708013044418bb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 15/27] fix: phone validator with several countries fails when
 one of them cannot parse the number

---
 .../src/validator_handlers/phone/mod.rs       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/phone/mod.rs b/validators-derive/src/validator_handlers/phone/mod.rs
index b6a5fed..c33ce2a 100644
--- a/validators-derive/src/validator_handlers/phone/mod.rs
+++ b/validators-derive/src/validator_handlers/phone/mod.rs
@@ -99,19 +99,30 @@ impl ValidatorHandler for PhoneHandler {
                                     #[inline]
                                     fn v_parse_str(s: &str) -> Result<::std::collections::HashMap<validators_prelude::phonenumber::country::Id, validators_prelude::phonenumber::PhoneNumber>, #error_path> {
                                         let mut map = ::std::collections::HashMap::with_capacity(2);
+                                        let mut parse_error = None;
+                                        let mut parsed = false;
 
+                                        // a string which cannot be parsed for one country may still be a number of another country
                                         #(
-                                            let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
-
-                                            if let Some(id) = phonenumber.country().id() {
-                                                if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
-                                                    map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                            match validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s) {
+                                                Ok(phonenumber) => {
+                                                    parsed = true;
+
+                                                    if let Some(id) = phonenumber.country().id() {
+                                                        if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
+                                                            map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                                        }
+                                                    }
                                                 }
+                                                Err(err) => parse_error = Some(err),
                                             }
                                         )*
 
                                         if map.is_empty() {
-                                            Err(#error_path::Invalid)
+                                            match parse_error {
+                                                Some(err) if !parsed => Err(err.into()),
+                                                _ => Err(#error_path::Invalid),
+                                            }
                                         } else {
                                             Ok(map)
                                         }
-- 
2.43.0


From 6d44f11eed31f6e6f8ca921136663726bdec25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 16/27] fix: email validator underflows on a comment after a
 64-byte local part

---
 validators-derive/src/validator_handlers/email/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..8f26bd3 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -901,7 +901,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
-- 
2.43.0


From 5d1f49cf848397aff9423c1cad3e6c36aca42386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 17/27] fix: email validator accepts local parts longer than 64
 bytes when quoted after a comment or non-ASCII

---
 validators-derive/src/validator_handlers/email/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 8f26bd3..13f2d22 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -636,7 +636,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p == 63 {
+                        // too long or not allowed
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -651,7 +652,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p == 64 {
+                        // too long or not allowed
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -1008,7 +1010,7 @@ impl ValidatorHandler for EmailHandler {
                             // quoted
                             let mut p = local_part_length + 1;
 
-                            if p == 63 || p == length {
+                            if p >= 63 || p == length {
                                 // too long
                                 return Err(#error_path::Invalid);
                             }
-- 
2.43.0


From 8c4d3a338316fff58f2b85deffd75edee5934901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 18/27] fix: email validator drops characters following the
 last comment

---
 .../src/validator_handlers/email/mod.rs              | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 13f2d22..a2c602a 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -961,7 +961,11 @@ impl ValidatorHandler for EmailHandler {
 
             let handle_comment_4 = if type_attribute.comment.disallow() {
                 quote! {
-                    return Err(#error_path::CommentDisallow);
+                    if bytes[domain_part_length] == b'(' {
+                        return Err(#error_path::CommentDisallow);
+                    } else {
+                        return Err(#error_path::Invalid);
+                    }
                 }
             } else {
                 quote! {
@@ -972,6 +976,12 @@ impl ValidatorHandler for EmailHandler {
                             match bytes[domain_part_length..].iter().copied().position(|e| e == b')') {
                                 Some(mut index) => {
                                     index += domain_part_length;
+
+                                    if index + 1 != length {
+                                        // trailing characters
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     let comment =
                                         &s[domain_part_length..index];
 
-- 
2.43.0


From 3db3f32f28e25bb32c8fcdd3597401aa37ce3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 19/27] fix: email strings lose the quotes a local part needs
 when comments are disallowed

---
 .../src/validator_handlers/email/mod.rs            | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index a2c602a..0021bb3 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1536,13 +1536,21 @@ impl ValidatorHandler for EmailHandler {
             });
 
             token_stream.extend(if type_attribute.comment.disallow() {
+                let local_part = quote! {
+                    let local_part = if self.need_quoted {
+                        validators_prelude::format!("\"{}\"", self.local_part)
+                    } else {
+                        self.local_part.clone()
+                    };
+                };
+
                 match type_attribute.ip {
                     TriAllow::Allow => {
                         quote! {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    #local_part
 
                                     match &self.domain_part {
                                         validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
@@ -1558,7 +1566,7 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    #local_part
 
                                     match &self.domain_part {
                                         ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
@@ -1573,7 +1581,7 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
-                                    let local_part = &self.local_part;
+                                    #local_part
                                     let domain_part = &self.domain_part;
 
                                     validators_prelude::format!("{}@{}", local_part, domain_part)
-- 
2.43.0


From 57534a3c10c055a7b36f885bb8c9e85ccac589e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 20/27] fix: email validator accepts an unquoted local part
 ending with a dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 0021bb3..a8147fd 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1128,6 +1128,10 @@ impl ValidatorHandler for EmailHandler {
 
                                             escaping = false;
                                         } else {
+                                            if last_dot {
+                                                need_quoted = true;
+                                            }
+
                                             let local_part =
                                                 &s[(local_part_length + 1)..p];
 
@@ -1214,6 +1218,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From 4e817523b67c17fb8a540e16f680cfb0b5142d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 21/27] fix: email validator treats the character after an
 escaped blank as escaped

---
 validators-derive/src/validator_handlers/email/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index a8147fd..bf41152 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1110,6 +1110,8 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        last_dot = false;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p == 63 || !escaping {
-- 
2.43.0


From 0526973349a3053797696d51a3bf5bf5abb066e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 22/27] fix: email validator accepts too long domain parts
 after quoted local parts

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index bf41152..1dcf4fe 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1016,7 +1016,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1144,7 +1144,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted);
                                         }
                                     }
                                     _ => {
@@ -1230,7 +1230,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1266,11 +1266,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From 1e18ed5674bbb24f56d892ea2d303a9f6f420c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 23/27] fix: email validator accepts domains ending with a
 non-ASCII full stop

---
 validators-derive/src/validator_handlers/email/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 1dcf4fe..2d60014 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -826,10 +826,6 @@ impl ValidatorHandler for EmailHandler {
                         }
                     };
 
-                    if domain_str.ends_with(".") {
-                        return Err(#error_path::Invalid);
-                    }
-
                     match validators_prelude::idna::Config::default()
                         .use_std3_ascii_rules(true)
                         .verify_dns_length(true)
@@ -837,6 +833,10 @@ impl ValidatorHandler for EmailHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            if ascii_domain.ends_with('.') {
+                                return Err(#error_path::Invalid);
+                            }
+
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
-- 
2.43.0


From 6e5631caca9eb817172765f7350676baf47cd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 24/27] fix: empty ranges written in range syntax were accepted

---
 validators-derive/src/common/range.rs | 48 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/validators-derive/src/common/range.rs b/validators-derive/src/common/range.rs
index 37bc0d9..86b54da 100644
--- a/validators-derive/src/common/range.rs
+++ b/validators-derive/src/common/range.rs
@@ -77,6 +77,34 @@ impl<T: RangedNumber> Range<T>
 where
     T::Err: Display,
 {
+    /// Reject ranges which can never contain a value.
+    fn check_min_max(
+        min: Option<T>,
+        max: Option<T>,
+        inclusive: bool,
+        tokens: impl ToTokens,
+    ) -> syn::Result<()> {
+        if let Some(min) = min
+            && let Some(max) = max
+        {
+            if inclusive {
+                if min > max {
+                    return Err(syn::Error::new_spanned(
+                        tokens,
+                        format!("{min} > {max} (min > max)"),
+                    ));
+                }
+            } else if min >= max {
+                return Err(syn::Error::new_spanned(
+                    tokens,
+                    format!("{min} >= {max} (min >= max)"),
+                ));
+            }
+        }
+
+        Ok(())
+    }
+
     #[cfg(feature = "full")]
     #[inline]
     pub(crate) fn from_expr_range(range: &ExprRange) -> syn::Result<Self> {
@@ -104,6 +132,8 @@ where
             }
         }
 
+        Self::check_min_max(min, max, inclusive, range)?;
+
         Ok(Self {
             min,
             max,
@@ -206,23 +236,7 @@ where
             },
         }
 
-        if let Some(min) = min
-            && let Some(max) = max
-        {
-            if inclusive {
-                if min > max {
-                    return Err(syn::Error::new_spanned(
-                        meta.path(),
-                        format!("{min} > {max} (min > max)"),
-                    ));
-                }
-            } else if min >= max {
-                return Err(syn::Error::new_spanned(
-                    meta.path(),
-                    format!("{min} >= {max} (min >= max)"),
-                ));
-            }
-        }
+        Self::check_min_max(min, max, inclusive, meta.path())?;
 
         Ok(Self {
             min,
-- 
2.43.0


From ea913471efd5eecc3376a1a23d23b366448a68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:36 +0000
Subject: [PATCH 25/27] fix: line/text char_length(max = usize::MAX) overflowed
 while counting

---
 validators-derive/src/validator_handlers/line/mod.rs | 8 ++++----
 validators-derive/src/validator_handlers/text/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 011c834..942c995 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -174,7 +174,7 @@ impl ValidatorHandler for LineHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -247,7 +247,7 @@ impl ValidatorHandler for LineHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -361,7 +361,7 @@ impl ValidatorHandler for LineHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -432,7 +432,7 @@ impl ValidatorHandler for LineHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index e949d53..b1931ca 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -174,7 +174,7 @@ impl ValidatorHandler for TextHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -247,7 +247,7 @@ impl ValidatorHandler for TextHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -361,7 +361,7 @@ impl ValidatorHandler for TextHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -432,7 +432,7 @@ impl ValidatorHandler for TextHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
-- 
2.43.0


From e093186706b7312250c512cd83b5a1b0c7936dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:36 +0000
Subject: [PATCH 26/27] fix: the length validator did not implement the
 documented CollectionLength trait

---
 validators-derive/src/validator_handlers/length/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 1581f13..d585b10 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -154,6 +154,13 @@ impl ValidatorHandler for LengthHandler {
                         Ok(())
                     }
                 }
+
+                impl CollectionLength for #name {
+                    #[inline]
+                    fn len(&self) -> usize {
+                        CollectionLength::len(&self.0)
+                    }
+                }
             });
 
             #[cfg(feature = "serde")]
-- 
2.43.0


From 4f7f09b6f7a4da8a70d5a86433c0b23b929b1d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 27/27] fix: range(Unlimited(..)) ignored its arguments instead
 of refusing them

---
 validators-derive/src/common/range_option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/common/range_option.rs b/validators-derive/src/common/range_option.rs
index 3a8ece7..57ccb47 100644
--- a/validators-derive/src/common/range_option.rs
+++ b/validators-derive/src/common/range_option.rs
@@ -55,7 +55,7 @@ where
                             inclusive,
                         });
                     },
-                    "Unlimited" => return Ok(Self::Unlimited),
+                    "Unlimited" if matches!(meta, Meta::Path(_)) => return Ok(Self::Unlimited),
                     _ => (),
                 }
             }
-- 
2.43.0

