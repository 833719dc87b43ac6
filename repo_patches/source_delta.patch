From 4eaff7914e4981e636de11f658e551bf39ae203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 01/22] fix: repair User::blind_request so that the aeonflux
 crate compiles

The method named a type which was never imported, and assigned a Keypair to an
Option<Keypair>, so no user-side operation could be built at all.
---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..4ea9b6e 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From 8e733e4faf11c21d493b13b184713b76355b68e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 02/22] fix: reject messages of the wrong length when verifying
 an aMAC

SecretKey::verify() zipped the key with the message, so a tag over (m1) also
verified for (m1, m2, ...) and, under a longer key, for any shorter message.
---
 aeonflux/src/amacs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..c1f4487 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -321,6 +321,9 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
         if mac.nonce == RISTRETTO_BASEPOINT_POINT {
             return Err(MacError::AuthenticationError);
         }
-- 
2.43.0


From dbb387326045267bf46c8f757485cce3062ba6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 03/22] fix: reject the identity, not the basepoint, as an aMAC
 nonce

The tag (identity, identity) verified for every message under every key, while
a correctly computed tag whose nonce happened to be the basepoint did not.
---
 aeonflux/src/amacs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index c1f4487..8a3da4b 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -324,7 +324,7 @@ impl SecretKey {
         if self.xn.len() != message.0.len() {
             return Err(MacError::MessageLengthError{ length: self.xn.len() });
         }
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
         let mut exponent = self.x0;
-- 
2.43.0


From 872ef0715977d5855625143d6aaf2f600f40d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:40 +0000
Subject: [PATCH 04/22] fix: reject presentations whose nonce is the identity

A presentation with rerandomized_nonce = identity could be made for any
attribute, by anyone, without ever having been issued a credential.
---
 aeonflux/src/issuer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..70d2bfb 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::Identity;
 
 use merlin::Transcript;
 
@@ -199,6 +200,11 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // Every MAC over the identity is the identity, whatever the key and the attributes.
+        if P == RistrettoPoint::identity() {
+            return Err(CredentialError::MacVerification);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From cba2445b2bc627e4117f42131d8f85781db5b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:40 +0000
Subject: [PATCH 05/22] fix: check the number of attributes when verifying a
 presentation

Issuer::verify() indexed out of bounds when a presentation carried no blinded
attribute, or more attributes than there are key elements, and let a revealed
and a blinded attribute share one key element.
---
 aeonflux/src/issuer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 70d2bfb..81faa2f 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -33,8 +33,11 @@ use credential::CredentialIssuance;
 use credential::CredentialRequest;
 use credential::CredentialPresentation;
 use credential::VerifiedCredential;
+use credential::PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES;
+use credential::PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES;
 use errors::CredentialError;
 use nonces::Ephemeral;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen::{self};
 use proofs::issuance_revealed;
@@ -205,6 +208,19 @@ impl Issuer {
             return Err(CredentialError::MacVerification);
         }
 
+        // The MAC must cover each of the attributes we issue for exactly once.
+        if presentation.attributes_revealed.len() != PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES ||
+            presentation.attributes_blinded.len() != PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES
+        {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        if self.keypair.public.Xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+        if self.keypair.secret.xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerKey);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From be78d2d81cd735e3fe8a81274bdcf87379fef55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 06/22] fix: return an error when decoding amacs keys which are
 too short

SecretKey::from_bytes() and Keypair::from_bytes() underflowed on fewer than 32
bytes, which panics (or, in release mode, asks for a huge allocation).
---
 aeonflux/src/amacs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index 8a3da4b..62fe30c 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -240,8 +240,8 @@ impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a multiple of 32, and there must always be an x0.
+        if length % 32 != 0 || length < 32 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -355,6 +355,11 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        // There must always be the x0 element of the secret key.
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
+
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
-- 
2.43.0


From f8c49cab553d13e99d598e94bdb4dc81918886d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 07/22] fix: return an error when decoding elGamal keys of the
 wrong length

The from_bytes() constructors asserted on the length of their input, although
they already return a Result.
---
 aeonflux/src/elgamal.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..68f001c 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != 64 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
-- 
2.43.0


From c74edda10f3a354d88257472bbfe40644b3113dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 08/22] fix: check the length when decoding a Pedersen
 commitment

Fewer than 32 bytes panicked, and bytes after the 32nd were silently ignored.
---
 aeonflux/src/pedersen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..30fc96e 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,6 +65,10 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let mut tmp: [u8; 32] = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[0..32]);
-- 
2.43.0


From ccd6524adeae011402caf786b1c13f0f50c85045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 09/22] fix: check the length when decoding issuances and
 presentations

Both from_bytes() constructors panicked on input which was too short, and
ignored any bytes following the proof.
---
 aeonflux/src/credential.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..6e9629d 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -41,6 +41,8 @@ use proofs::valid_credential;
 
 pub const SIZEOF_CREDENTIAL: usize = SIZEOF_TAG + NUMBER_OF_ATTRIBUTES * 32;
 pub const SIZEOF_CREDENTIAL_PRESENTATION: usize = 256;
+/// A commitment, a credential, and a proof of five length-prefixed scalars.
+pub const SIZEOF_CREDENTIAL_ISSUANCE: usize = 32 + SIZEOF_CREDENTIAL + 5 * 40;
 
 /// The number of revealed attributes on a `Credential` during issuance.
 pub const ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES: usize = 1;
@@ -209,6 +211,10 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() != SIZEOF_CREDENTIAL_ISSUANCE {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
@@ -267,8 +273,7 @@ impl CredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialPresentation, CredentialError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if length != SIZEOF_CREDENTIAL_PRESENTATION {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
-- 
2.43.0


From f0583c5821942be69abc59cf0e1e7effa7779097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 10/22] fix: check the length when decoding a
 SignalCredentialPresentation

Any bytes following the roster membership proof were ignored.
---
 signal-credential/src/credential.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/credential.rs b/signal-credential/src/credential.rs
index bc403a3..b7f840b 100644
--- a/signal-credential/src/credential.rs
+++ b/signal-credential/src/credential.rs
@@ -46,6 +46,12 @@ pub const NUMBER_OF_ATTRIBUTES: usize =
     ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES +
     ISSUANCE_NUMBER_OF_BLINDED_ATTRIBUTES;
 
+/// A roster entry commitment, a presentation, and a proof of four length-prefixed scalars.
+pub const SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION: usize =
+    SIZEOF_COMMITTED_PHONE_NUMBER +
+    SIZEOF_CREDENTIAL_PRESENTATION +
+    4 * 40;
+
 pub type SignalCredentialIssuance = CredentialIssuance;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -65,9 +71,9 @@ impl SignalCredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalCredentialPresentation, CredentialError> {
         const RE: usize = SIZEOF_COMMITTED_PHONE_NUMBER;
 
-        if bytes.len() < RE + SIZEOF_CREDENTIAL_PRESENTATION {
+        if bytes.len() != SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION {
             #[cfg(feature = "std")]
-            println!("The SignalCredentialPresentation bytes were not long enough, got {} bytes", bytes.len());
+            println!("The SignalCredentialPresentation bytes were not the right length, got {} bytes", bytes.len());
             return Err(CredentialError::MissingData);
         }
 
-- 
2.43.0


From 285c286b9ee05805b64be503e5d7851bb3dce14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 11/22] fix: return an error when decoding a roster entry of
 the wrong length

RosterEntryCommitment::from_bytes() panicked unless given exactly 64 bytes, and
ignored the high bit of the opening, or did not reduce it.
---
 signal-credential/src/phone_number.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..c2bfaa0 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -323,13 +323,17 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_COMMITTED_PHONE_NUMBER + 32 {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
+
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[SIZEOF_COMMITTED_PHONE_NUMBER..]);
 
-        let opening: Ephemeral = Scalar::from_bits(tmp).into();
+        let opening: Ephemeral = Scalar::from_canonical_bytes(tmp)?.into();
 
         Ok(RosterEntryCommitment { commitment, opening })
     }
-- 
2.43.0


From 3d13da074990a7df32681ccf4db80625e1018814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 12/22] fix: return an error when decoding a SignalUser which
 is too short

---
 signal-credential/src/user.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..f8d9a1e 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -44,6 +44,10 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
+        if bytes.len() < 32 {
+            return Err(CredentialError::MissingData);
+        }
+
         let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
         let user = User::from_bytes(&bytes[32..])?;
 
-- 
2.43.0


From f99b1583dc2ab68779baafbb5c42ca2ac41c5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 13/22] fix: reject non-canonical encodings of a PhoneNumber

from_bits() ignores the high bit and does not reduce, so distinct byte strings
decoded to equal phone numbers, and unequal ones to the same attribute.
---
 signal-credential/src/phone_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index c2bfaa0..935d25b 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -74,7 +74,7 @@ impl PhoneNumber {
 
         tmp.copy_from_slice(&bytes[00..32]);
 
-        Ok(PhoneNumber(Scalar::from_bits(tmp)))
+        Ok(PhoneNumber(Scalar::from_canonical_bytes(tmp)?))
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 8ee9bb95e85ebabc78104e8be57786c1e13a9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 14/22] fix: limit phone numbers to the length which can be
 encoded

Numbers of 28 to 32 digits indexed out of bounds, and those of 27 digits were
reduced modulo the group order, which destroyed their digits.
---
 signal-credential/src/errors.rs       | 2 +-
 signal-credential/src/phone_number.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/signal-credential/src/errors.rs b/signal-credential/src/errors.rs
index 67aae14..9697438 100644
--- a/signal-credential/src/errors.rs
+++ b/signal-credential/src/errors.rs
@@ -31,7 +31,7 @@ impl fmt::Display for PhoneNumberError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match *self {
             PhoneNumberError::LengthExceeded
-                => write!(f, "A canonicalised phone number cannot be more than 32 bytes"),
+                => write!(f, "A canonicalised phone number cannot be more than 26 bytes"),
             PhoneNumberError::InvalidPhoneNumber
                 => write!(f, "The user's proof of roster membership could not be verified"),
         }
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 935d25b..82cbb6f 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -40,6 +40,10 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+/// The maximum number of digits in a phone number.  There are two bytes before
+/// and three bytes after them, and the topmost byte must be zero for the number
+/// not to be reduced modulo the group order.
+pub const MAX_PHONE_NUMBER_LENGTH: usize = SIZEOF_PHONE_NUMBER - 6;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -135,7 +139,7 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -175,7 +179,7 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
-- 
2.43.0


From 04cbd3f8cad62182625c9be88cf020dc5fb5895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 15/22] fix: do not misread the length of a PhoneNumber

When converting to a String the suffix of an empty phone number was taken for
its length, and a scalar which doesn't encode any phone number could cause an
out of bounds access.
---
 signal-credential/src/phone_number.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 82cbb6f..0f46a23 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -213,7 +213,10 @@ impl From<PhoneNumber> for String {
             if source.0[i] == 0 {
                 continue;
             } else {
-                length = source[i] as usize;
+                // If the number is empty, then this is the suffix, not the length.
+                if source[i] as usize + 4 == i {
+                    length = source[i] as usize;
+                }
                 break;
             }
         }
-- 
2.43.0


From 8ad3ded3f45201cdcfb5b748db1bd91ebf902b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 16/22] fix: check the number of attributes before showing a
 credential

User::show() indexed out of bounds if there were no nonces, more nonces than
issuer parameters, or if the issuer had sent a credential without attributes.
---
 aeonflux/src/user.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4ea9b6e..c06eab4 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -38,6 +38,7 @@ use errors::CredentialError;
 use issuer::IssuerParameters;
 use nonces::Ephemeral;
 use nonces::Nonces;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen;
 use proofs::issuance_revealed;
@@ -187,6 +188,13 @@ impl User {
             None        => return Err(CredentialError::MissingData),
         };
 
+        if credential.attributes.len() != NUMBER_OF_ATTRIBUTES || nonces.0.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        if self.issuer_parameters.Xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+
         let mut transcript = Transcript::new(b"AEONFLUX SHOW");
         let mut csprng = transcript.fork_transcript().reseed_from_rng(rng);
 
-- 
2.43.0


From 41581566465908bb4cbbb8ce4cd8b8023c55d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 17/22] fix: refuse credentials with the wrong number of
 attributes

User::obtain_finish() stored a credential without attributes, which could then
neither be shown nor be decoded again.
---
 aeonflux/src/user.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index c06eab4..48753c7 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -150,6 +150,10 @@ impl User {
             Some(i) => i,
             None    => return Err(CredentialError::CredentialIssuance),
         };
+        if issue.credential.attributes.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+
         let X1: RistrettoPoint = match self.issuer_parameters.Xn.get(0) {
             None => return Err(CredentialError::NoIssuerParameters),
             Some(x) => *x,
-- 
2.43.0


From 2492436c51efe293d9928b6e7a053423274f4584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 18/22] fix: refuse a credential for someone else's phone
 number

SignalUser::obtain_finish() did not look at the attributes of the credential.
---
 signal-credential/src/user.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index f8d9a1e..a836543 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -93,6 +93,15 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        // The credential must be for our own phone number.
+        if let Some(issue) = issuance {
+            if issue.credential.attributes.len() != NUMBER_OF_ATTRIBUTES ||
+                issue.credential.attributes[0] != self.phone_number.0
+            {
+                return Err(CredentialError::BadAttribute);
+            }
+        }
+
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From 9f56d1086f5720f12634d4cec056b18b8b1a72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 19/22] fix: never choose the identity as the second basepoint

If the RNG returned 32 zero bytes, hunt_and_peck() set h to the identity, with
which neither Pedersen commitments nor the issuer's key hide anything.
---
 aeonflux/src/parameters.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..0d80622 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -16,6 +16,7 @@ use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use serde::{self, Serialize, Deserialize, Serializer, Deserializer};
 use serde::de::Visitor;
@@ -112,7 +113,9 @@ impl SystemParameters {
             csprng.fill_bytes(&mut tmp);
 
             // Extremely unlikely but we may as well be careful.
-            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
+            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED &&
+                CompressedRistretto(tmp) != CompressedRistretto::identity()
+            {
                 H = CompressedRistretto(tmp).decompress();
             }
         }
-- 
2.43.0


From ade4f37bd879c7c5f1b1c0868e01bbf7dd07a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:33 +0000
Subject: [PATCH 20/22] fix: read values from formats without byte strings

---
 aeonflux/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..d2f56f2 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,18 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Formats without byte strings, like JSON, have sequences of numbers instead.
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$t, A::Error>
+                        where A: serde::de::SeqAccess<'de>
+                    {
+                        let mut v: Vec<u8> = Vec::new();
+
+                        while let Some(byte) = seq.next_element()? {
+                            v.push(byte);
+                        }
+                        self.visit_bytes(&v)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0


From 71ead714d9f238f051cf1e29f6905e79f16b9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 21/22] fix: return a NULL pointer for an empty result

---
 ffi/src/macros.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..4473e89 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -22,7 +22,10 @@ macro_rules! slice_to_len_and_ptr {
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t {
+            len: 0,
+            ptr: ptr::null(),
+        }
     }
 }
 
-- 
2.43.0


From 0af621652ce24091c671b112c147f4347f3e4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 22/22] fix: leave the buffers of the C API alive for their
 caller

---
 ffi/src/c.rs                 | 18 ++++++++++++++++++
 ffi/src/include/credential.h | 13 +++++++++++++
 ffi/src/macros.rs            |  5 +++--
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..4dcf6b2 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -9,9 +9,13 @@
 
 //! C-like language FFI API.
 
+#[cfg(all(not(feature = "std"), feature = "alloc"))]
+use alloc::boxed::Box;
 #[cfg(all(not(feature = "std"), feature = "alloc"))]
 use alloc::vec::Vec;
 #[cfg(all(not(feature = "alloc"), feature = "std"))]
+use std::boxed::Box;
+#[cfg(all(not(feature = "alloc"), feature = "std"))]
 use std::vec::Vec;
 
 cfg_if! {
@@ -68,6 +72,20 @@ pub struct buf_t {
     pub ptr: *const uint8_t,
 }
 
+/// Free the memory of a `buf_t` which was returned from one of the functions below.
+#[no_mangle]
+pub extern "C" fn buf_free(
+    buf: buf_t,
+)
+{
+    if buf.ptr.is_null() {
+        return;
+    }
+    unsafe {
+        drop(Box::from_raw(slice::from_raw_parts_mut(buf.ptr as *mut uint8_t, buf.len as size_t)));
+    }
+}
+
 #[no_mangle]
 pub extern "C" fn system_parameters_create(
     seed: *const uint8_t,  // should be 32 bytes exactly
diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index fd73cca..6a95008 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -28,6 +28,19 @@ typedef struct buf_s {
   const uint8_t* ptr; /**< The `ptr` to some `uint8_t`s. */
 } buf_t;
 
+/**
+ * Free the memory of a `buf_t`.
+ *
+ * The memory of each `buf_t` returned by the functions below belongs to the
+ * caller, and remains valid until it is given back with this function.
+ *
+ * **Inputs**
+ *
+ * - `buf` is a `buf_t` which was returned by one of the functions below.  It
+ *   **MUST NOT** be used afterwards.
+ */
+void buf_free(buf_t buf);
+
 /**
  * Create some globally-agreed upon `SystemParameters` by seeding a CSPRNG.
  *
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 4473e89..e8c5237 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -10,11 +10,12 @@
 #[macro_export]
 macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
-        let x: &[u8] = $x;
+        // The caller owns the memory, and returns it to us with `buf_free()`.
+        let x: Box<[u8]> = Vec::from($x).into_boxed_slice();
 
         buf_t {
             len: x.len() as uint64_t,
-            ptr: x.as_ptr() as *const uint8_t,
+            ptr: Box::into_raw(x) as *const uint8_t,
         }
     }}
 }
-- 
2.43.0

