From d9624de44d1238c21c750f10093d79f64de1cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 01/18] fix: refuse user pins of nine digits

The pin length limit of eight digits was compared with ilog10, which is one less
than the number of digits.
---
 crates/openid4vci/src/access_token/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..7ab2152 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -106,7 +106,8 @@ impl Validatable for GrantType {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    // `ilog10` is one less than the number of digits
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From 0e620e9c421d35cb63e1557481fb76436b396c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 02/18] fix: serialise error codes under their specification
 names

`error` was written as `InvalidRequest` instead of `invalid_request`.
---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From 4e7aacf1e722b857e930b284049eb2d760f73c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 03/18] fix: write an issued credential as plain object or
 string

The credential in a success response was wrapped in the name of the enum variant.
---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From b9181a05d08aa750a1cfe47e7a23bee0a5c6fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:28 +0000
Subject: [PATCH 04/18] fix: refuse proofs with alg none or a MAC algorithm

The header must not use them, but nothing checked it.
---
 crates/openid4vci/src/jwt/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..dc099b7 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -556,7 +556,17 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
-        Ok(())
+        // `alg` MUST NOT be `none` or an identifier for a symmetric algorithm (MAC)
+        match self.alg {
+            ProofJwtAlgorithm::None
+            | ProofJwtAlgorithm::HS256
+            | ProofJwtAlgorithm::HS384
+            | ProofJwtAlgorithm::HS512 => Err(ValidationError::Any {
+                validation_message:
+                    "jwt header `alg` MUST NOT be `none` or a symmetric algorithm (MAC)".to_owned(),
+            }),
+            _ => Ok(()),
+        }
     }
 }
 
-- 
2.43.0


From f66eaab8a790a66d5698771551e318f14a2feb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:31 +0000
Subject: [PATCH 05/18] fix: check the validity window of the proof on
 evaluation

`nbf` and `exp` of the proof were never looked at.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..eed6d0b 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -535,6 +535,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
-- 
2.43.0


From 2a3a68f94eb7e503c8fdb2f7caaa19cd95d507bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 06/18] fix: refuse a proof at the instant it expires

`exp` is the time on or after which the JWT must not be accepted.
---
 crates/openid4vci/src/jwt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index dc099b7..ff95630 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -142,7 +142,7 @@ impl ProofJwt {
     /// # Errors
     ///
     /// - When the [`ProofJwtBody::not_before`] is greater than [`chrono::Utc::now`]
-    /// - When the [`ProofJwtBody::expires_at`] is smaller than [`chrono::Utc::now`]
+    /// - When the [`ProofJwtBody::expires_at`] is smaller than, or equal to, [`chrono::Utc::now`]
     pub fn verify(&self) -> JwtResult<()> {
         let now = Utc::now();
 
@@ -156,7 +156,7 @@ impl ProofJwt {
         }
 
         if let Some(expires_at) = self.body.expires_at {
-            if now > expires_at {
+            if now >= expires_at {
                 return Err(JwtError::NotValidAnymore {
                     valid_until: expires_at,
                     now,
-- 
2.43.0


From a7a9320f90c081bb43b74d7644f17a51ce2e4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:35 +0000
Subject: [PATCH 07/18] fix: validate the credential request on evaluation

A proof type other than `jwt` was only refused on pre-evaluation.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index eed6d0b..52c6452 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -510,6 +510,7 @@ impl CredentialIssuer {
         let credential_offer =
             credential_offer.ok_or(CredentialIssuerError::CredentialOfferMustBeSupplied)?;
         credential_offer.validate()?;
+        credential_request.validate()?;
 
         if let Some(authorization_server_metadata) = authorization_server_metadata {
             authorization_server_metadata.validate()?;
-- 
2.43.0


From b5002ef4d4e0e05b2befc4099daf8ac94f343130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:02 +0000
Subject: [PATCH 08/18] fix: take message and signature of a proof from its
 parts

They were found by splitting the re-serialised JSON at dots, and so were cut in the
wrong place whenever a header or body value contained a dot.
---
 crates/openid4vci/src/jwt/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index ff95630..33e1ecd 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -227,16 +227,13 @@ impl ProofJwt {
     ///
     /// - When it could not convert the JWT to a string
     pub fn to_signable_message(&self) -> JwtResult<Vec<u8>> {
-        // Convert the JWT into a string
-        let message: String = self.try_into()?;
-
-        // Remove the signature if its defined, detected by two occurences of "."
-        let message = if message.matches('.').count() == 2 {
-            let parts: Vec<_> = message.split('.').collect();
-            format!("{}.{}", parts[0], parts[1])
-        } else {
-            message
+        // Convert the JWT, without its signature, into a string. The signature is left out up
+        // front, as the header and body can contain any number of "." themselves.
+        let unsigned = Self {
+            signature: None,
+            ..self.clone()
         };
+        let message: String = (&unsigned).try_into()?;
 
         // Return the message as bytes
         Ok(message.as_bytes().to_vec())
@@ -248,6 +245,10 @@ impl ProofJwt {
     ///
     /// - When the signature is not defined
     pub fn extract_signature(&self) -> JwtResult<Vec<u8>> {
+        if let Some(signature) = &self.signature {
+            return Ok(signature.as_bytes().to_vec());
+        }
+
         // Convert the JWT into a string
         let s_jwt: String = self.try_into()?;
 
-- 
2.43.0


From 6fb181cc5d73b4ea9ff64381781942806f35f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 09/18] fix: append the offer to an endpoint that has a query

A second '?' made the offer part of the last query parameter's value.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 52c6452..cf5271a 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -454,7 +454,11 @@ impl CredentialIssuer {
         // This is a deeplink if no `credential_offer_endpoint` is provided
         let credential_offer_url_prefix = credential_offer_endpoint
             .clone()
-            .map_or("openid-credential-offer://".to_owned(), |u| format!("{u}?"));
+            .map_or("openid-credential-offer://".to_owned(), |u| {
+                // The endpoint may already have query parameters
+                let separator = if u.contains('?') { '&' } else { '?' };
+                format!("{u}{separator}")
+            });
 
         let credential_offer_url =
             format!("{credential_offer_url_prefix}credential_offer={credential_offer_url_encoded}");
-- 
2.43.0


From cdf8b00859d55beb89db9837019985f653810a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:06 +0000
Subject: [PATCH 10/18] fix: read and write
 cryptographic_binding_methods_supported

The parameter name was misspelt, so that the methods of others were lost.
---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..ea2b5d9 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,10 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(
+        rename = "cryptographic_binding_methods_supported",
+        alias = "cryptographic_binding_mehtods_supported"
+    )]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From ee0c9467b759311bbb5a279c768b071108368e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:09 +0000
Subject: [PATCH 11/18] fix: use the specification's name for value_type

It was written and read as `valueType` only.
---
 crates/openid4vci/src/types/credential.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..a04f83c 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -133,7 +133,11 @@ pub struct CredentialSubject {
     /// defined by this specification are string, number, and image media types such as image/jpeg
     /// as defined in [IANA media type registry for
     /// images](https://www.iana.org/assignments/media-types/media-types.xhtml#image).
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "value_type",
+        alias = "valueType",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub value_type: Option<String>,
 
     /// An array of objects, where each object contains display properties of a certain claim in
-- 
2.43.0


From 7b673624e79565db93d755d5d42008b896fc93cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 12/18] fix: do not panic on a nonce that expires in the far
 future

Creation time plus lifetime can exceed what a timestamp can hold.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index cf5271a..a6448b5 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -525,11 +525,13 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
+            // An expiry too far into the future to be represented is never reached
+            let expiry_timestamp = c_nonce_options.c_nonce_created_at.checked_add_signed(
+                Duration::seconds(c_nonce_options.c_nonce_expires_in.into()),
+            );
             let now = Utc::now();
 
-            if expiry_timestamp < now {
+            if let Some(expiry_timestamp) = expiry_timestamp.filter(|expiry| *expiry < now) {
                 return Err(CredentialIssuerError::CNonceIsExpired {
                     now,
                     expiry_timestamp,
-- 
2.43.0


From 194e0b7988964661a74b102797884adc4c5ead15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:41 +0000
Subject: [PATCH 13/18] fix: refuse a proof with more than three segments

Everything after the third one was dropped.
---
 crates/openid4vci/src/jwt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 33e1ecd..de4fae4 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -92,6 +92,12 @@ impl FromStr for ProofJwt {
 
         let signature = res.next();
 
+        if res.next().is_some() {
+            return Err(ValidationError::Any {
+                validation_message: "More than three segments found in the `JWT`".to_owned(),
+            });
+        }
+
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-- 
2.43.0


From f8fdaf46cb690b2eee8efb4ec52ab2579e5ccfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:43 +0000
Subject: [PATCH 14/18] fix: refuse a proof with several or unreadable key
 references

With two of kid, jwk and x5c one was ignored, and one that is not a string was treated
as if it were not there.
---
 crates/openid4vci/src/jwt/mod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index de4fae4..2918b7a 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -101,6 +101,8 @@ impl FromStr for ProofJwt {
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
+        ProofJwtHeader::check_key_references(&header)?;
+
         let header: ProofJwtHeader = serde_json::from_slice(&header)?;
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
 
@@ -339,6 +341,27 @@ pub struct ProofJwtHeader {
 }
 
 impl ProofJwtHeader {
+    /// Check that at most one of `kid`, `jwk` and `x5c` is used, and that it is a string. Otherwise
+    /// [`ProofJwtHeader::additional_header`] would be one of them, or none.
+    fn check_key_references(header: &[u8]) -> ValidationResult<()> {
+        let header: serde_json::Map<String, serde_json::Value> = serde_json::from_slice(header)?;
+
+        let key_references: Vec<_> = ["kid", "jwk", "x5c"]
+            .iter()
+            .filter_map(|name| header.get(*name))
+            .collect();
+
+        if key_references.len() > 1 || !key_references.iter().all(|value| value.is_string()) {
+            return Err(ValidationError::Any {
+                validation_message:
+                    "jwt header MUST have at most one of `kid`, `jwk` and `x5c`, as a string"
+                        .to_owned(),
+            });
+        }
+
+        Ok(())
+    }
+
     /// Extract the key and algorithm from the JWT header
     ///
     /// TODO: Not every method is implemented yet
-- 
2.43.0


From a13280c5172c9bec10a911b93547a27fb9207706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 15/18] fix: refuse a proof whose body is not a JSON object

An array of the values was read as if it were the body.
---
 crates/openid4vci/src/jwt/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 2918b7a..560e853 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -104,6 +104,9 @@ impl FromStr for ProofJwt {
         ProofJwtHeader::check_key_references(&header)?;
 
         let header: ProofJwtHeader = serde_json::from_slice(&header)?;
+
+        // The body must be an object, while a struct can be read from an array as well
+        serde_json::from_slice::<serde_json::Map<String, serde_json::Value>>(&body)?;
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
 
         Ok(ProofJwt {
-- 
2.43.0


From 414f69dedc5b6b00985c3739cf3012d0bc85b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:48 +0000
Subject: [PATCH 16/18] fix: read the token type case insensitively

As its documentation says; servers commonly send `bearer`.
---
 crates/openid4vci/src/types/token_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/types/token_type.rs b/crates/openid4vci/src/types/token_type.rs
index 550573b..8050918 100644
--- a/crates/openid4vci/src/types/token_type.rs
+++ b/crates/openid4vci/src/types/token_type.rs
@@ -4,6 +4,7 @@ use crate::validate::ValidationError;
 
 /// Enum containing token types for an access token response.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(try_from = "String")]
 pub enum AccessTokenType {
     /// `Bearer` token type, as defined in Section 6.1.1 of [OAuth 2.0 Bearer Token Usage](https://www.rfc-editor.org/rfc/rfc6750#section-6.1.1).
     Bearer,
@@ -21,8 +22,9 @@ impl TryFrom<String> for AccessTokenType {
     type Error = ValidationError;
 
     fn try_from(value: String) -> core::result::Result<Self, Self::Error> {
-        match value.as_str() {
-            "Bearer" => Ok(AccessTokenType::Bearer),
+        match value {
+            // The value is case insensitive
+            v if v.eq_ignore_ascii_case("Bearer") => Ok(AccessTokenType::Bearer),
             _ => Err(ValidationError::Any {
                 validation_message: "Invalid access token type".to_string(),
             }),
-- 
2.43.0


From 4eeba9e91e6f7f8fcb28f228a420eed39c8157a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 17/18] fix: refuse a kid that is not a DID URL

Any string was taken for a DID, and then handed out for resolution.
---
 crates/openid4vci/src/jwt/mod.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 560e853..27db70a 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -190,12 +190,7 @@ impl ProofJwt {
         if let Some(header) = &self.header.additional_header {
             match header {
                 ProofJwtAdditionalHeader::KeyId(key_id) => {
-                    let did = ssi_dids::DIDURL::try_from(key_id.clone()).map_err(|e| {
-                        JwtError::UnableToTransformIntoDid {
-                            kid: key_id.clone(),
-                            message: e.to_string(),
-                        }
-                    })?;
+                    let did = did_url_from_kid(key_id)?;
 
                     Ok(Some(did.did))
                 }
@@ -325,6 +320,20 @@ impl ProofJwt {
     }
 }
 
+/// Parse the `kid` as a did url. The did library does not check whether it is a did at all
+fn did_url_from_kid(kid: &str) -> JwtResult<ssi_dids::DIDURL> {
+    let unable_to_transform = |message: String| JwtError::UnableToTransformIntoDid {
+        kid: kid.to_owned(),
+        message,
+    };
+
+    if !kid.starts_with("did:") {
+        return Err(unable_to_transform("Not a did".to_owned()));
+    }
+
+    ssi_dids::DIDURL::try_from(kid.to_owned()).map_err(|e| unable_to_transform(e.to_string()))
+}
+
 /// Struct mapping of `jwt header` in the `proof types` as defined in section 7.2.1 of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#proof_types)
 #[derive(Debug, Serialize, Deserialize, Clone)]
@@ -381,12 +390,7 @@ impl ProofJwtHeader {
                     ProofJwtAdditionalHeader::KeyId(key_id) => {
                         // TODO: can the `key_id` also be anything other than a `did`
 
-                        let did = ssi_dids::DIDURL::try_from(key_id.clone()).map_err(|e| {
-                            JwtError::UnableToTransformIntoDid {
-                                kid: key_id.clone(),
-                                message: e.to_string(),
-                            }
-                        })?;
+                        let did = did_url_from_kid(key_id)?;
 
                         let did_document = did_document
                             .as_ref()
-- 
2.43.0


From 29f4036436859e9a72acecf1fdc9831371fb5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 18/18] fix: refuse a proof whose alg is not a string

An object with the algorithm's name as its only member was read as the algorithm.
---
 crates/openid4vci/src/jwt/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 27db70a..72904b7 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -101,7 +101,7 @@ impl FromStr for ProofJwt {
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-        ProofJwtHeader::check_key_references(&header)?;
+        ProofJwtHeader::check_members(&header)?;
 
         let header: ProofJwtHeader = serde_json::from_slice(&header)?;
 
@@ -353,11 +353,19 @@ pub struct ProofJwtHeader {
 }
 
 impl ProofJwtHeader {
-    /// Check that at most one of `kid`, `jwk` and `x5c` is used, and that it is a string. Otherwise
-    /// [`ProofJwtHeader::additional_header`] would be one of them, or none.
-    fn check_key_references(header: &[u8]) -> ValidationResult<()> {
+    /// Check that `alg` is a string, that at most one of `kid`, `jwk` and `x5c` is used, and that
+    /// it is a string. Otherwise [`ProofJwtHeader::additional_header`] would be one of them, or
+    /// none.
+    fn check_members(header: &[u8]) -> ValidationResult<()> {
         let header: serde_json::Map<String, serde_json::Value> = serde_json::from_slice(header)?;
 
+        // The name of an enum variant can be read from an object as well
+        if !header.get("alg").map_or(true, serde_json::Value::is_string) {
+            return Err(ValidationError::Any {
+                validation_message: "jwt header `alg` MUST be a string".to_owned(),
+            });
+        }
+
         let key_references: Vec<_> = ["kid", "jwk", "x5c"]
             .iter()
             .filter_map(|name| header.get(*name))
-- 
2.43.0

