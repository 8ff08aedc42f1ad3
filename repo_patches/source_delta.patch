From a00709f6f10f0f5847416a6e279131a4d1cc66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:52 +0000
Subject: [PATCH 01/31] fix: validate falsy "aud", "exp", "iat" and "nbf"
 claims

A token with exp=0 (or a falsy claim of the wrong type) skipped its validation.
---
 src/psion/jose/jwt.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index c895f62..d222c3b 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -43,8 +43,8 @@ class JsonWebTokenClaims(dict):
         now = int(datetime.utcnow().timestamp())
 
         # Validate aud
-        if aud := claims.get("aud"):
-            if aud is not None and not isinstance(aud, (str, list)):
+        if (aud := claims.get("aud")) is not None:
+            if not isinstance(aud, (str, list)):
                 raise InvalidJWTClaim('Invalid claim "aud".')
 
             if isinstance(aud, list):
@@ -52,16 +52,16 @@ class JsonWebTokenClaims(dict):
                     raise InvalidJWTClaim('Invalid claim "aud".')
 
         # Validate exp
-        if exp := claims.get("exp"):
-            if exp is not None and type(exp) is not int:
+        if (exp := claims.get("exp")) is not None:
+            if type(exp) is not int:
                 raise InvalidJWTClaim('Invalid claim "exp".')
 
             if now >= exp:
                 raise ExpiredToken
 
         # Validate iat
-        if iat := claims.get("iat"):
-            if iat is not None and type(iat) is not int:
+        if (iat := claims.get("iat")) is not None:
+            if type(iat) is not int:
                 raise InvalidJWTClaim('Invalid claim "iat".')
 
             if now < iat:
@@ -76,8 +76,8 @@ class JsonWebTokenClaims(dict):
             raise InvalidJWTClaim('Invalid claim "jti".')
 
         # Validate nbf
-        if nbf := claims.get("nbf"):
-            if nbf is not None and type(nbf) is not int:
+        if (nbf := claims.get("nbf")) is not None:
+            if type(nbf) is not int:
                 raise InvalidJWTClaim('Invalid claim "nbf".')
 
             if now < nbf:
-- 
2.43.0


From 05676e10210b766b866cf0ffb14108855f97a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:18 +0000
Subject: [PATCH 02/31] fix: enforce every claim option

A list claim that matched its "values" option stopped the validation of the
remaining options, and a falsy expected "value" was not enforced at all.
---
 src/psion/jose/jwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index d222c3b..6fc45dd 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -107,7 +107,7 @@ class JsonWebTokenClaims(dict):
             if option.get("essential") and value is None:
                 raise InvalidJWTClaim(f'Missing required claim "{claim}".')
 
-            if option.get("value") and value != option.get("value"):
+            if option.get("value") is not None and value != option.get("value"):
                 raise InvalidJWTClaim(
                     f'Mismatching expected value "{option.get("value")}". Got "{value}".'
                 )
@@ -119,7 +119,7 @@ class JsonWebTokenClaims(dict):
                 if isinstance(value, list) and any(
                     item in option["values"] for item in value
                 ):
-                    break
+                    continue
 
                 for expected_value in option["values"]:
                     if value == expected_value:
-- 
2.43.0


From 518b4912ae9106f92ca057f870f8ce585546904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:21 +0000
Subject: [PATCH 03/31] fix: require an empty signature for the "none"
 algorithm

---
 src/psion/jose/jwa/jws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jws.py b/src/psion/jose/jwa/jws.py
index 8e75b62..c6ed01a 100644
--- a/src/psion/jose/jwa/jws.py
+++ b/src/psion/jose/jwa/jws.py
@@ -95,7 +95,8 @@ class none(JWSAlgorithm):
 
     @classmethod
     def verify(cls, signature: bytes, data: bytes, key: JsonWebKey = None) -> None:
-        pass
+        if signature != b"":
+            raise InvalidSignature
 
 
 class _HMAC(JWSAlgorithm):
-- 
2.43.0


From 764fe25e37583d81e19ef246ff3200a8157a1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:24 +0000
Subject: [PATCH 04/31] fix: export the raw bytes of a symmetric key

The raw secret was Base64url decoded once more before being exported.
---
 src/psion/jose/jwa/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index 304eeb1..a3699dd 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -571,7 +571,7 @@ class OCTKey(JWKAlgorithm):
         if public:
             warnings.warn("Secret keys do not have public info.", RuntimeWarning)
 
-        return base64.b64encode(base64url_decode(to_bytes(self._secret)))
+        return base64.b64encode(self._secret)
 
     def sign(self, data: bytes, algorithm: AlgType) -> bytes:
         """
-- 
2.43.0


From cc896042b86d4d0649a93cba149fbf1430d3d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:27 +0000
Subject: [PATCH 05/31] fix: encode the integer zero as one octet

It was encoded as an empty string, which b64_to_int cannot decode.
---
 src/psion/webtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index fcacbeb..56e09f7 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -155,7 +155,7 @@ def int_to_b64(data: int) -> bytes:
     if data < 0:
         raise ValueError("Must be a natural number.")
 
-    res = data.to_bytes((data.bit_length() + 7) // 8, "big", signed=False)
+    res = data.to_bytes(max(1, (data.bit_length() + 7) // 8), "big", signed=False)
     return base64url_encode(res)
 
 
-- 
2.43.0


From edd57f33462718671486eb88f135ff2ec9db61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:30 +0000
Subject: [PATCH 06/31] fix: accept raw keys that are not usable as a path

A secret longer than a file name, or with a null byte, raised an OSError or a
ValueError from open() instead of being used as the key.
---
 src/psion/jose/jwa/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index a3699dd..7203315 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -64,7 +64,7 @@ def _parse_raw(path_or_secret: os.PathLike | bytes) -> bytes:
     try:
         with open(path_or_secret, "rb") as f:
             return f.read()
-    except (FileNotFoundError, IsADirectoryError):
+    except (OSError, ValueError):
         return to_bytes(path_or_secret)
 
 
-- 
2.43.0


From 01ee51c13000df33e3ed4461b93a427a2a5a66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 07/31] fix: make JsonWebKeySet.load usable without an instance

It could only be called on a key set that had already been loaded.
---
 src/psion/jose/jwk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psion/jose/jwk.py b/src/psion/jose/jwk.py
index 51f5940..d31c320 100644
--- a/src/psion/jose/jwk.py
+++ b/src/psion/jose/jwk.py
@@ -243,7 +243,8 @@ class JsonWebKeySet:
 
         self.keys = keys
 
-    def load(self, keyset: dict[str, list[dict]]) -> JsonWebKeySet:
+    @classmethod
+    def load(cls, keyset: dict[str, list[dict]]) -> JsonWebKeySet:
         """
         Loads a raw Key Set into a JsonWebKeySet object.
 
@@ -257,7 +258,7 @@ class JsonWebKeySet:
         if list(keyset.keys()) != ["keys"]:
             raise InvalidKeySet("Invalid JWKS format.")
 
-        return JsonWebKeySet([JsonWebKey(key) for key in keyset["keys"]])
+        return cls([JsonWebKey(key) for key in keyset["keys"]])
 
     def dump(self, public: bool = True) -> dict[str, list[dict]]:
         """
-- 
2.43.0


From 685c8545033683e7b2a3decbd8bed4790a923c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:31 +0000
Subject: [PATCH 08/31] fix: keep None values out of FullDict.update

---
 src/psion/webtools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index 56e09f7..b31bae1 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -28,6 +28,10 @@ class FullDict(dict):
         if value is not None:
             super().__setitem__(key, value)
 
+    def update(self, *args: Any, **kwargs: Any):
+        data = dict(*args, **kwargs)
+        super().update({k: v for k, v in data.items() if v is not None})
+
 
 def to_bytes(data: Any, encoding: str = "utf-8") -> bytes:
     """
-- 
2.43.0


From af15b651aa540b396bfaac571a5dcde6d9356359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:49 +0000
Subject: [PATCH 09/31] fix: use the R || S signature format of RFC 7518 for
 ES256/384/512

The signatures were emitted and expected in DER format, which no other JWS
implementation understands.
---
 src/psion/jose/jwa/jws.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/psion/jose/jwa/jws.py b/src/psion/jose/jwa/jws.py
index c6ed01a..eaff2c7 100644
--- a/src/psion/jose/jwa/jws.py
+++ b/src/psion/jose/jwa/jws.py
@@ -1,6 +1,11 @@
 import abc
 import binascii
 
+from cryptography.hazmat.primitives.asymmetric.utils import (
+    decode_dss_signature,
+    encode_dss_signature,
+)
+
 from psion.jose.exceptions import InvalidKey, InvalidSignature
 from psion.jose.jwk import JsonWebKey
 from psion.webtools import base64url_decode, base64url_encode
@@ -176,6 +181,7 @@ class RS512(_RSA_PKCS1v15):
 
 class _EC(JWSAlgorithm):
     __curve__: str = None
+    __size__: int = None
     __key_type__: str = "EC"
 
     @classmethod
@@ -190,7 +196,8 @@ class _EC(JWSAlgorithm):
     @classmethod
     def sign(cls, data: bytes, key: JsonWebKey) -> bytes:
         cls.validate_key(key)
-        signature = key.sign(data, cls.__hash_name__)
+        r, s = decode_dss_signature(key.sign(data, cls.__hash_name__))
+        signature = r.to_bytes(cls.__size__, "big") + s.to_bytes(cls.__size__, "big")
         return base64url_encode(signature)
 
     @classmethod
@@ -203,24 +210,33 @@ class _EC(JWSAlgorithm):
         except binascii.Error:
             raise InvalidSignature
 
-        key.verify(raw_signature, data, cls.__hash_name__)
+        if len(raw_signature) != 2 * cls.__size__:
+            raise InvalidSignature
+
+        r = int.from_bytes(raw_signature[: cls.__size__], "big")
+        s = int.from_bytes(raw_signature[cls.__size__ :], "big")
+
+        key.verify(encode_dss_signature(r, s), data, cls.__hash_name__)
 
 
 class ES256(_EC):
     __algorithm__: str = "ES256"
     __curve__: str = "P-256"
+    __size__: int = 32
     __hash_name__: str = "SHA256"
 
 
 class ES384(_EC):
     __algorithm__: str = "ES384"
     __curve__: str = "P-384"
+    __size__: int = 48
     __hash_name__: str = "SHA384"
 
 
 class ES512(_EC):
     __algorithm__: str = "ES512"
     __curve__: str = "P-521"
+    __size__: int = 66
     __hash_name__: str = "SHA512"
 
 
-- 
2.43.0


From 959bd1fe699d9f8fbde0eabca5e621068c26d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:52 +0000
Subject: [PATCH 10/31] fix: use a PSS salt as long as the hash output, as RFC
 7518 requires

---
 src/psion/jose/jwa/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index 7203315..cce3464 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -899,7 +899,7 @@ class RSAKey(JWKAlgorithm):
 
         if rsa_padding == "PSS":
             return self._private.sign(
-                data, padding.PSS(padding.MGF1(alg), padding.PSS.MAX_LENGTH), alg
+                data, padding.PSS(padding.MGF1(alg), alg.digest_size), alg
             )
 
         raise InvalidKey("Unsupported RSA padding.")
@@ -939,7 +939,7 @@ class RSAKey(JWKAlgorithm):
                 return self._public.verify(
                     signature,
                     data,
-                    padding.PSS(padding.MGF1(alg), padding.PSS.MAX_LENGTH),
+                    padding.PSS(padding.MGF1(alg), alg.digest_size),
                     alg,
                 )
 
-- 
2.43.0


From 9ce3591fd2b848aa1409c53ffb2163b9a7ca7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:13 +0000
Subject: [PATCH 11/31] fix: refuse malformed tokens with the documented
 exceptions

Bad Base64 or JSON, an unhashable "alg" and claims that are not valid UTF-8
escaped as binascii, JSON, Unicode or type errors.
---
 src/psion/jose/jws.py | 12 ++++++++----
 src/psion/jose/jwt.py | 18 ++++++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/psion/jose/jws.py b/src/psion/jose/jws.py
index 50499c4..e44dd8f 100644
--- a/src/psion/jose/jws.py
+++ b/src/psion/jose/jws.py
@@ -103,7 +103,9 @@ class JsonWebSignatureHeader(dict):
         if "alg" not in header.keys():
             raise InvalidJWSHeader('Missing parameter "alg".')
 
-        if (alg := header.get("alg")) not in self.__algorithms__.keys():
+        alg = header.get("alg")
+
+        if not isinstance(alg, str) or alg not in self.__algorithms__.keys():
             raise UnsupportedAlgorithm(f'Unsupported algorithm "{alg}".')
 
     def validate_jku(self, header: dict) -> None:
@@ -306,10 +308,12 @@ class JsonWebSignature:
 
         try:
             header, payload, signature = token.split(b".")
-        except (AttributeError, ValueError):
+            raw_header = json_loads(base64url_decode(header))
+            raw_payload = base64url_decode(payload)
+        except (AttributeError, RecursionError, TypeError, ValueError):
             raise InvalidJWSSerialization
 
-        jws_header = JsonWebSignatureHeader(json_loads(base64url_decode(header)))
+        jws_header = JsonWebSignatureHeader(raw_header)
 
         if algorithm:
             if (alg := jws_header.get("alg")) != algorithm:
@@ -321,7 +325,7 @@ class JsonWebSignature:
             _validate_key(key, jws_header)
             jws_header.algorithm.verify(signature, b".".join([header, payload]), key)
 
-        return cls(base64url_decode(payload), jws_header)
+        return cls(raw_payload, jws_header)
 
 
 def _validate_key(key: JsonWebKey, header: JsonWebSignatureHeader):
diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index 6fc45dd..74160ef 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -165,7 +165,13 @@ class JsonWebToken:
     def __init__(self, claims: JsonWebTokenClaims, header: dict):
         self.header = JsonWebSignatureHeader(header)
         self.claims = JsonWebTokenClaims(claims)
-        self._jws = JsonWebSignature(to_bytes(json_dumps(self.claims)), self.header)
+
+        try:
+            payload = to_bytes(json_dumps(self.claims))
+        except UnicodeEncodeError:
+            raise InvalidJWTClaim("The claims MUST be valid UTF-8.")
+
+        self._jws = JsonWebSignature(payload, self.header)
 
     def __repr__(self):
         return f"<Header: {self.header}, Claims: {self.claims}>"
@@ -227,8 +233,12 @@ class JsonWebToken:
         """
 
         jws = JsonWebSignature.deserialize(to_bytes(token), key, algorithm, validate)
-        claims = JsonWebTokenClaims(
-            json_loads(jws.payload), options if validate else None
-        )
+
+        try:
+            payload = json_loads(jws.payload)
+        except (RecursionError, ValueError):
+            raise InvalidJWTClaim("The claims object MUST be a valid dict.")
+
+        claims = JsonWebTokenClaims(payload, options if validate else None)
 
         return cls(claims, jws.header)
-- 
2.43.0


From a42fbf0f56ff3c95bd906b2ee70521102bb5d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 12/31] fix: compare time claims to the real time in any time
 zone

utcnow().timestamp() interprets the UTC time as local time, which shifted the
clock by the UTC offset of the host.
---
 src/psion/jose/jwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psion/jose/jwt.py b/src/psion/jose/jwt.py
index 74160ef..bf0d1d1 100644
--- a/src/psion/jose/jwt.py
+++ b/src/psion/jose/jwt.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 from psion.jose.exceptions import ExpiredToken, InvalidJWTClaim, NotYetValidToken
 from psion.jose.jwk import JsonWebKey
@@ -40,7 +40,7 @@ class JsonWebTokenClaims(dict):
 
     def _validate_default_claims(self, claims: dict) -> None:
         # Used to validate the date attributes.
-        now = int(datetime.utcnow().timestamp())
+        now = int(datetime.now(timezone.utc).timestamp())
 
         # Validate aud
         if (aud := claims.get("aud")) is not None:
-- 
2.43.0


From b44bb7638cbc07839aa421117e3777bcf9e5c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:19 +0000
Subject: [PATCH 13/31] fix: answer a token request without an authorization
 code

The clean up of the code raised a KeyError out of the endpoint.
---
 src/psion/oauth2/grants/authorization_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psion/oauth2/grants/authorization_code.py b/src/psion/oauth2/grants/authorization_code.py
index 3c22008..8ca9f61 100644
--- a/src/psion/oauth2/grants/authorization_code.py
+++ b/src/psion/oauth2/grants/authorization_code.py
@@ -317,7 +317,8 @@ class AuthorizationCodeGrant(BaseGrant):
         finally:
             # Prevents replay attacks by deleting the code once it is used,
             # whether it succeeds or fails.
-            await self.adapter.delete_authorization_code(data["code"])
+            if data.get("code"):
+                await self.adapter.delete_authorization_code(data["code"])
 
     async def _validate_token_request(self, data: dict) -> dict:
         """
-- 
2.43.0


From 10f7c8b33c50759818dea91beb4510acff0dea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:21 +0000
Subject: [PATCH 14/31] fix: fail the S256 challenge for a non-ASCII code
 verifier

It raised an UnicodeEncodeError out of the token endpoint.
---
 src/psion/oauth2/grants/authorization_code.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psion/oauth2/grants/authorization_code.py b/src/psion/oauth2/grants/authorization_code.py
index 8ca9f61..b427243 100644
--- a/src/psion/oauth2/grants/authorization_code.py
+++ b/src/psion/oauth2/grants/authorization_code.py
@@ -22,9 +22,12 @@ def plain_challenge(challenge: str, verifier: str):
 
 
 def S256_challenge(challenge: str, verifier: str):
-    hashed_verifier = to_string(
-        base64url_encode(hashlib.sha256(to_bytes(verifier, "ascii")).digest())
-    )
+    try:
+        raw_verifier = to_bytes(verifier, "ascii")
+    except UnicodeEncodeError:
+        return False
+
+    hashed_verifier = to_string(base64url_encode(hashlib.sha256(raw_verifier).digest()))
     return challenge == hashed_verifier
 
 
-- 
2.43.0


From 5567e2ae366404c09bf01f8894a8fcf31e55b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:24 +0000
Subject: [PATCH 15/31] fix: answer a revocation request without a token

---
 src/psion/oauth2/endpoints/revocation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psion/oauth2/endpoints/revocation.py b/src/psion/oauth2/endpoints/revocation.py
index 6721e61..fbe8fc2 100644
--- a/src/psion/oauth2/endpoints/revocation.py
+++ b/src/psion/oauth2/endpoints/revocation.py
@@ -2,7 +2,12 @@ from __future__ import annotations
 
 from typing import Optional
 
-from psion.oauth2.exceptions import InvalidClient, OAuth2Error, UnsupportedTokenType
+from psion.oauth2.exceptions import (
+    InvalidClient,
+    InvalidRequest,
+    OAuth2Error,
+    UnsupportedTokenType,
+)
 from psion.oauth2.models import JSONResponse, Request
 
 from .base import BaseEndpoint
@@ -111,7 +116,7 @@ class RevocationEndpoint(BaseEndpoint):
             token_type_hint: Optional[str] = data.get("token_type_hint")
 
             if not token or not isinstance(token, str):
-                return
+                raise InvalidRequest(description='Invalid parameter "token".')
 
             if token_type_hint:
                 if token_type_hint not in self.__supported_tokens__:
-- 
2.43.0


From 496a79ad6fde24bd11a83a9e300fe0dbc5f3f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:27 +0000
Subject: [PATCH 16/31] fix: validate the client and the redirect uri before
 redirecting an error

A request without an user or with an unknown response type was redirected to
whatever redirect uri it carried.
---
 src/psion/oauth2/endpoints/authorization.py | 54 ++++++++++++---------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/psion/oauth2/endpoints/authorization.py b/src/psion/oauth2/endpoints/authorization.py
index 5f1c160..db8f8f2 100644
--- a/src/psion/oauth2/endpoints/authorization.py
+++ b/src/psion/oauth2/endpoints/authorization.py
@@ -77,6 +77,10 @@ class AuthorizationEndpoint(BaseEndpoint):
         try:
             self._validate_request(data)
 
+            client = await self._validate_client(
+                client_id=data["client_id"], redirect_uri=data["redirect_uri"]
+            )
+
             if (user := request.user) is None:
                 raise AccessDenied
 
@@ -84,9 +88,8 @@ class AuthorizationEndpoint(BaseEndpoint):
                 response_type=data.pop("response_type"), state=data.get("state")
             )
 
-            client = await self._validate_client(
-                client_id=data["client_id"],
-                redirect_uri=data["redirect_uri"],
+            self._validate_client_response_type(
+                client=client,
                 response_type=grant.__response_type__,
                 state=data.get("state"),
             )
@@ -118,8 +121,11 @@ class AuthorizationEndpoint(BaseEndpoint):
             self._validate_request(data)
 
             client = await self._validate_client(
-                client_id=data["client_id"],
-                redirect_uri=data["redirect_uri"],
+                client_id=data["client_id"], redirect_uri=data["redirect_uri"]
+            )
+
+            self._validate_client_response_type(
+                client=client,
                 response_type=data["response_type"],
                 state=data.get("state"),
             )
@@ -206,18 +212,11 @@ class AuthorizationEndpoint(BaseEndpoint):
                 state=state,
             )
 
-    async def _validate_client(
-        self,
-        client_id: str,
-        redirect_uri: str,
-        response_type: str,
-        state: Optional[str] = None,
-    ) -> ClientMixin:
+    async def _validate_client(self, client_id: str, redirect_uri: str) -> ClientMixin:
         """
         Validates the `client_id` parameter to ensure that a Client exists with this ID.
 
         Verifies if the Client is allowed to use the provided `redirect_uri`.
-        Verifies if the Client is allowed to use the requested `response_type`.
 
         :param client_id: ID of the Client requesting authorization.
         :type client_id: str
@@ -225,16 +224,9 @@ class AuthorizationEndpoint(BaseEndpoint):
         :param redirect_uri: Redirect URI provided by the Client in the Request.
         :type redirect_uri: str
 
-        :param response_type: Authorization Grant requested by the Client.
-        :type response_type: str
-
-        :param state: Client State provided in the Request, defaults to None.
-        :type state: str, optional
-
         :raises FatalError: Raised on any of the following conditions::
             - The provided Client is not registered within the Authorization Server.
             - The Client is not allowed to use the provided `redirect_uri`.
-        :raises UnauthorizedClient: The Client is not allowed to use the requested Grant.
 
         :return: Validated Client.
         :rtype: ClientMixin
@@ -250,7 +242,25 @@ class AuthorizationEndpoint(BaseEndpoint):
                 error=InvalidRequest.error, description="Invalid Redirect URI."
             )
 
+        return client
+
+    def _validate_client_response_type(
+        self, client: ClientMixin, response_type: str, state: Optional[str] = None
+    ) -> None:
+        """
+        Verifies if the Client is allowed to use the requested `response_type`.
+
+        :param client: Client of the request.
+        :type client: ClientMixin
+
+        :param response_type: Response type requested by the Client.
+        :type response_type: str
+
+        :param state: State of the Client prior to the request.
+        :type state: str, optional
+
+        :raises UnauthorizedClient: The Client is not allowed to use the requested Grant.
+        """
+
         if response_type not in client.get_response_types():
             raise UnauthorizedClient(state=state)
-
-        return client
-- 
2.43.0


From e4526ab3e23bb1dc9fc4cc32c1391f64db29bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:30 +0000
Subject: [PATCH 17/31] fix: return the state in every authorization error

---
 src/psion/oauth2/endpoints/authorization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psion/oauth2/endpoints/authorization.py b/src/psion/oauth2/endpoints/authorization.py
index db8f8f2..7fc35ce 100644
--- a/src/psion/oauth2/endpoints/authorization.py
+++ b/src/psion/oauth2/endpoints/authorization.py
@@ -82,7 +82,7 @@ class AuthorizationEndpoint(BaseEndpoint):
             )
 
             if (user := request.user) is None:
-                raise AccessDenied
+                raise AccessDenied(state=data.get("state"))
 
             grant = self._validate_response_type(
                 response_type=data.pop("response_type"), state=data.get("state")
@@ -132,7 +132,9 @@ class AuthorizationEndpoint(BaseEndpoint):
 
             # pylint: disable=E0601
             if not (scope := data.get("scope")) or not isinstance(scope, str):
-                raise InvalidRequest('Missing required parameter "scope".')
+                raise InvalidRequest(
+                    'Missing required parameter "scope".', state=data.get("state")
+                )
 
             scopes: list[str] = scope.split()
 
-- 
2.43.0


From 71ea37793af2b21c62222e939f62c125e6218d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:32 +0000
Subject: [PATCH 18/31] fix: keep the existing query of an url when adding
 parameters

---
 src/psion/webtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index b31bae1..8dc85af 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -223,7 +223,8 @@ def urlencode(url: str, **params) -> str:
     :rtype: str
     """
 
-    return f"{url}?{urlencode_(FullDict(params))}"
+    separator = "&" if "?" in url else "?"
+    return f"{url}{separator}{urlencode_(FullDict(params))}"
 
 
 def urldecode(query_string: str) -> dict:
-- 
2.43.0


From 1ab9786ed8d1ac8a310f260da373c548ff95c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 19/31] fix: ignore malformed Basic and Bearer authorization
 headers

An empty or non-ASCII token raised a ValueError out of the endpoints.
---
 src/psion/webtools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/psion/webtools.py b/src/psion/webtools.py
index 8dc85af..5b8e259 100644
--- a/src/psion/webtools.py
+++ b/src/psion/webtools.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import base64
-import binascii
 import copy
 import hashlib
 import json
@@ -257,14 +256,17 @@ def get_basic_authorization(headers: dict) -> tuple[str, str]:
     if not auth or not isinstance(auth, str) or " " not in auth:
         return None, None
 
-    method, token = auth.split(None, 1)
+    try:
+        method, token = auth.split(None, 1)
+    except ValueError:
+        return None, None
 
     if method.lower() != "basic":
         return None, None
 
     try:
         credentials = to_string(base64.b64decode(token))
-    except (binascii.Error, TypeError):
+    except (TypeError, ValueError):
         return None, None
 
     if ":" not in credentials:
@@ -294,7 +296,10 @@ def get_bearer_authorization(headers: dict) -> str:
     if not auth or not isinstance(auth, str) or " " not in auth:
         return None
 
-    method, token = auth.split(None, 1)
+    try:
+        method, token = auth.split(None, 1)
+    except ValueError:
+        return None
 
     if method.lower() != "bearer":
         return None
-- 
2.43.0


From 584c14406b4934b0a8d40594af7cadb79cf0899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:38 +0000
Subject: [PATCH 20/31] fix: refuse requests with more than one client
 authentication method

As documented by the class.
---
 .../authentication/client_authentication.py    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/psion/oauth2/authentication/client_authentication.py b/src/psion/oauth2/authentication/client_authentication.py
index 66ba557..c5d96de 100644
--- a/src/psion/oauth2/authentication/client_authentication.py
+++ b/src/psion/oauth2/authentication/client_authentication.py
@@ -50,16 +50,28 @@ class ClientAuthentication:
         :rtype: ClientMixin
         """
 
+        authenticated: ClientMixin = None
+
         for method in self.auth_methods:
             if methods and method.__method__ not in methods:
                 continue
 
+            # An authenticated Client MAY repeat its ID in the body of the request.
+            if authenticated and method.__method__ == "none":
+                continue
+
             client = await method.authenticate(request)
 
             if not client:
                 continue
 
-            request.client = client
-            return client
+            if authenticated:
+                raise InvalidClient("Multiple authentication methods on the request.")
+
+            authenticated = client
+
+        if not authenticated:
+            raise InvalidClient
 
-        raise InvalidClient
+        request.client = authenticated
+        return authenticated
-- 
2.43.0


From 973cdaa5f0e20758c955fa905adce219d961159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 21/31] fix: refuse a refresh token whose user does not exist
 anymore

---
 src/psion/oauth2/grants/refresh_token.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psion/oauth2/grants/refresh_token.py b/src/psion/oauth2/grants/refresh_token.py
index cf9a536..324e8b3 100644
--- a/src/psion/oauth2/grants/refresh_token.py
+++ b/src/psion/oauth2/grants/refresh_token.py
@@ -158,6 +158,9 @@ class RefreshTokenGrant(BaseGrant):
 
         user = await self.adapter.find_user(token.get_user_id())
 
+        if not user:
+            raise InvalidRequest(description="No user found for this token.")
+
         access_token = await self.adapter.create_access_token(client, user, scopes)
         refresh_token = (
             await self.adapter.create_refresh_token(client, user, scopes)
-- 
2.43.0


From 90fcde63e7793f9aeefcf1f9916de35669dcc4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:43 +0000
Subject: [PATCH 22/31] fix: do not share the hooks between grants and
 providers

---
 src/psion/oauth2/grants/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psion/oauth2/grants/base.py b/src/psion/oauth2/grants/base.py
index 5b516e3..aceea64 100644
--- a/src/psion/oauth2/grants/base.py
+++ b/src/psion/oauth2/grants/base.py
@@ -59,6 +59,7 @@ class BaseGrant:
     def __init__(self, adapter: BaseAdapter, config: Config):
         self.adapter = adapter
         self.config = config
+        self.__hooks__ = {name: set(hooks) for name, hooks in self.__hooks__.items()}
 
     def _create_token(
         self,
-- 
2.43.0


From cd42a81068f9746d2f62ba2cb625e5c573fd4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:46 +0000
Subject: [PATCH 23/31] fix: only issue an ID Token when the scope openid was
 granted

Any scope that contained the word was accepted, and a token without scopes
raised a KeyError.
---
 src/psion/oidc/flows/authorization_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index 85af632..248827b 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -36,7 +36,7 @@ class AuthorizationCodeFlow:
     async def token_response(
         self, token: dict, data: dict, client: ClientMixin, user: UserMixin
     ) -> dict:
-        if "openid" in token["scope"]:
+        if "openid" in token.get("scope", "").split():
             id_token = await self._generate_id_token(token, client, user)
             return {"id_token": id_token}
 
-- 
2.43.0


From c1aac72d247ea68d2a98b5c09a8b536e585a9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:48 +0000
Subject: [PATCH 24/31] fix: return the nonce of the authentication request in
 the ID Token

---
 src/psion/oidc/flows/authorization_code.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index 248827b..0379ad3 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -37,11 +37,11 @@ class AuthorizationCodeFlow:
         self, token: dict, data: dict, client: ClientMixin, user: UserMixin
     ) -> dict:
         if "openid" in token.get("scope", "").split():
-            id_token = await self._generate_id_token(token, client, user)
+            id_token = await self._generate_id_token(token, data, client, user)
             return {"id_token": id_token}
 
     async def _generate_id_token(
-        self, token: dict, client: ClientMixin, user: UserMixin
+        self, token: dict, data: dict, client: ClientMixin, user: UserMixin
     ) -> str:
         """
         Generates an ID Token containing the claims of the currently authenticated User
@@ -53,6 +53,9 @@ class AuthorizationCodeFlow:
         :param token: Token containing the Access Token and the scopes.
         :type token: dict
 
+        :param data: Data of the Token Request.
+        :type data: dict
+
         :param client: Client requesting authorization.
         :type client: ClientMixin
 
@@ -64,6 +67,7 @@ class AuthorizationCodeFlow:
         :rtype: str
         """
 
+        code = await self.adapter.get_authorization_code(data["code"])
         key_info = await self.adapter.get_key_info()
         userinfo = await self.adapter.get_userinfo(user, token["scope"].split())
         now = int(datetime.utcnow().timestamp())
@@ -76,6 +80,7 @@ class AuthorizationCodeFlow:
                 "aud": client.get_client_id(),
                 "exp": now + self.config.id_token_lifespan,
                 "iat": now,
+                "nonce": code.get_nonce(),
                 "at_hash": create_half_hash(token["access_token"], key_info["alg"]),
                 **userinfo,
             }
-- 
2.43.0


From 461ef4e42d12b796f7cc913dfaf7f7d64b2c6817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:50 +0000
Subject: [PATCH 25/31] fix: issue ID Tokens with the real time in any time
 zone

---
 src/psion/oidc/flows/authorization_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psion/oidc/flows/authorization_code.py b/src/psion/oidc/flows/authorization_code.py
index 0379ad3..63f8c21 100644
--- a/src/psion/oidc/flows/authorization_code.py
+++ b/src/psion/oidc/flows/authorization_code.py
@@ -1,4 +1,4 @@
-from datetime import datetime
+from datetime import datetime, timezone
 
 from psion.jose import JsonWebToken
 from psion.jose.jwk import JsonWebKey
@@ -70,7 +70,7 @@ class AuthorizationCodeFlow:
         code = await self.adapter.get_authorization_code(data["code"])
         key_info = await self.adapter.get_key_info()
         userinfo = await self.adapter.get_userinfo(user, token["scope"].split())
-        now = int(datetime.utcnow().timestamp())
+        now = int(datetime.now(timezone.utc).timestamp())
 
         key: JsonWebKey = key_info["key"]
 
-- 
2.43.0


From 57b0a9e26ce8b17e3fafc9b91d4ec441f3605ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:52 +0000
Subject: [PATCH 26/31] fix: validate the auth_time claim of the ID Token

---
 src/psion/oidc/claims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/oidc/claims.py b/src/psion/oidc/claims.py
index b63b99a..467356b 100644
--- a/src/psion/oidc/claims.py
+++ b/src/psion/oidc/claims.py
@@ -48,7 +48,7 @@ class IDToken(JsonWebTokenClaims):
         self._validate_nonce(claims)
 
     def _validate_auth_time(self, claims: dict) -> None:
-        auth_time = claims.get("max_age")
+        auth_time = claims.get("auth_time")
 
         if claims.get("max_age") and not auth_time:
             raise InvalidJWTClaim('Invalid claim "auth_time".')
-- 
2.43.0


From 2a6821d0dd385e17abaa9de4c9af3731ca4df188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:55 +0000
Subject: [PATCH 27/31] fix: refuse a JWK with missing or invalid parameters
 with InvalidKey

---
 src/psion/jose/jwk.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psion/jose/jwk.py b/src/psion/jose/jwk.py
index d31c320..c82c77c 100644
--- a/src/psion/jose/jwk.py
+++ b/src/psion/jose/jwk.py
@@ -38,11 +38,17 @@ class JsonWebKey:
         if not data or not isinstance(data, dict):
             raise InvalidKey
 
-        if (kty := data.get("kty")) not in self.__algorithms__.keys():
+        kty = data.get("kty")
+
+        if not isinstance(kty, str) or kty not in self.__algorithms__.keys():
             raise UnsupportedAlgorithm
 
         self.data = FullDict(data)
-        self._algorithm: JWKAlgorithm = self.__algorithms__[kty](**data)
+
+        try:
+            self._algorithm: JWKAlgorithm = self.__algorithms__[kty](**data)
+        except (TypeError, ValueError):
+            raise InvalidKey
 
     @classmethod
     def generate(cls, algorithm: str, option: Any = None, **params: Any) -> JsonWebKey:
-- 
2.43.0


From f09fe59e98576a026e6fcd818199b32d58e82e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:25 +0000
Subject: [PATCH 28/31] fix: nonce claim options of ID tokens are enforced like
 any other

A dict option such as {"nonce": {"value": ...}} was compared with the
claim itself, so that an ID token meeting it was always refused.
---
 src/psion/oidc/claims.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psion/oidc/claims.py b/src/psion/oidc/claims.py
index 467356b..41e4200 100644
--- a/src/psion/oidc/claims.py
+++ b/src/psion/oidc/claims.py
@@ -57,6 +57,9 @@ class IDToken(JsonWebTokenClaims):
             raise InvalidJWTClaim('Invalid claim "auth_time".')
 
     def _validate_nonce(self, claims: dict) -> None:
-        if nonce := self.options.get("nonce"):
+        nonce = self.options.get("nonce")
+
+        # A dict is a regular claim option, enforced with all the others.
+        if nonce and not isinstance(nonce, dict):
             if nonce != claims.get("nonce"):
                 raise InvalidJWTClaim('Invalid claim "nonce".')
-- 
2.43.0


From 45217955483b7ee2c00a85ef4670e3531a5b1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:02 +0000
Subject: [PATCH 29/31] fix: a number or boolean is not a symmetric secret

---
 src/psion/jose/jwa/jwk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index cce3464..80858cc 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -461,6 +461,9 @@ class OCTKey(JWKAlgorithm):
     kty: str = "oct"
 
     def __init__(self, k: str, **ignore) -> None:
+        if not isinstance(k, (bytes, str)):
+            raise InvalidKey('The argument "k" MUST be a bytes or str object.')
+
         self._secret = base64url_decode(to_bytes(k))
 
     @classmethod
-- 
2.43.0


From 32c6ca8042f5ca90b4da26c6172a0feb96ac4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:02 +0000
Subject: [PATCH 30/31] fix: EC keys were dumped without padding x, y and d to
 the size of the curve

---
 src/psion/jose/jwa/jwk.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index 80858cc..cbf271a 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -359,11 +359,12 @@ class ECKey(JWKAlgorithm):
         """
 
         numbers = self._public.public_numbers()
+        size = (numbers.curve.key_size + 7) // 8
         data = {
             "kty": self.kty,
             "crv": self.CURVES_NAMES[numbers.curve.name],
-            "x": to_string(int_to_b64(numbers.x)),
-            "y": to_string(int_to_b64(numbers.y)),
+            "x": to_string(base64url_encode(numbers.x.to_bytes(size, "big"))),
+            "y": to_string(base64url_encode(numbers.y.to_bytes(size, "big"))),
         }
 
         if public:
@@ -373,7 +374,9 @@ class ECKey(JWKAlgorithm):
             raise RuntimeError("This key is not a private key.")
 
         private_value = self._private.private_numbers().private_value
-        return FullDict(data, d=to_string(int_to_b64(private_value)))
+        return FullDict(
+            data, d=to_string(base64url_encode(private_value.to_bytes(size, "big")))
+        )
 
     def export(self, public: bool = False) -> bytes:
         """
-- 
2.43.0


From 1541bad1007be80adb89433c64b7251b6073002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:42 +0000
Subject: [PATCH 31/31] fix: the other primes of an RSA key were kept in its
 public form

---
 src/psion/jose/jwa/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psion/jose/jwa/jwk.py b/src/psion/jose/jwa/jwk.py
index cbf271a..36b5333 100644
--- a/src/psion/jose/jwa/jwk.py
+++ b/src/psion/jose/jwa/jwk.py
@@ -653,7 +653,7 @@ class RSAKey(JWKAlgorithm):
     :type qi: str, optional
     """
 
-    __allowed_attributes__ = frozenset(("n", "e", "d", "p", "q", "dp", "dq", "qi"))
+    __allowed_attributes__ = frozenset(("n", "e", "d", "p", "q", "dp", "dq", "qi", "oth"))
 
     kty: str = "RSA"
 
-- 
2.43.0

