From 7332b70c2ef931cd19d6b209fc00c2f7e8021c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 01/43] fix: get_attr with a default no longer reports an
 absent attribute as duplicated

---
 pycose/messages/cosebase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index d5b5754..799657d 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -69,16 +69,18 @@ class CoseBase(metaclass=abc.ABCMeta):
         :returns: If found returns a header attribute else 'None' or the default value
         """
 
-        p_attr = self._phdr.get(attribute, default)
-        u_attr = self._uhdr.get(attribute, default)
+        p_attr = self._phdr.get(attribute)
+        u_attr = self._uhdr.get(attribute)
 
         if p_attr is not None and u_attr is not None:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
         if p_attr is not None:
             return p_attr
-        else:
+        elif u_attr is not None:
             return u_attr
+        else:
+            return default
 
     @property
     def phdr(self) -> dict:
-- 
2.43.0


From dc6547095f99da9a843cceb1de01147c97868e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 02/43] fix: assigning message recipients replaces the previous
 list instead of appending to it

---
 pycose/messages/encmessage.py | 2 +-
 pycose/messages/recipient.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index cc43e07..b60f1d7 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -135,7 +135,7 @@ class EncMessage(enccommon.EncCommon):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 69ab52a..a6c540e 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -145,7 +145,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def get_kdf_context(self, algorithm: '_EncAlg') -> 'CoseKDFContext':
         """
-- 
2.43.0


From ff98068905899527b50d1be233ba6fb534633fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 03/43] fix: decoding no longer discards all recipients when
 one of them is malformed

---
 pycose/messages/encmessage.py | 8 +++-----
 pycose/messages/macmessage.py | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index b60f1d7..e0b7079 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -26,11 +26,9 @@ class EncMessage(enccommon.EncCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'EncMessage':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
-        try:
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
-                              in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = []
+        recipients = cose_obj.pop(0) if len(cose_obj) else []
+        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
+                          in recipients]
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 94befe8..36fada8 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -35,11 +35,9 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
-        try:
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
-                              in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = None
+        recipients = cose_obj.pop(0) if len(cose_obj) else []
+        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
+                          in recipients]
 
         return msg
 
-- 
2.43.0


From 13ef5b5f7fc04db462d26e74a4e4877fa4e2d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 04/43] fix: COSE_Sign signatures always cover the
 sign_protected field, also when it is empty

---
 pycose/messages/signer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index a186388..e664911 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -50,12 +50,11 @@ class CoseSignature(SignCommon):
         self._payload = value
 
     def _create_sig_structure(self, detached_payload: Optional[bytes] = None):
-        sign_structure = [self._parent.context, self._parent.phdr_encoded]
+        # an empty protected bucket is always represented by a zero-length byte string
+        sign_structure = [self._parent.context,
+                          self._parent.phdr_encoded if len(self._parent.phdr) else b'']
 
-        if len(self.phdr):
-            sign_structure.append(self.phdr_encoded)
-
-        sign_structure.append(self.external_aad)
+        sign_structure = self._base_structure(sign_structure)
 
         if detached_payload is None:
             if self._parent.payload is None:
-- 
2.43.0


From 16ae942f9d192a5e2b4cb8b4d65a9a89e56f44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 05/43] fix: a nonce derived from Base IV and Partial IV keeps
 the length of the Base IV

---
 pycose/messages/enccommon.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index f399270..7abcf42 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -83,8 +83,13 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
 
         if nonce is None and self.key.base_iv != b'':
             partial_iv = self.get_attr(headers.PartialIV)
+
+            if partial_iv is None:
+                raise CoseException('No IV or Partial IV found')
+
+            # left-pad the partial IV with zeros to the length of the base IV
             nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
-            nonce = nonce.to_bytes((nonce.bit_length() + 7) // 8, byteorder="big")
+            nonce = nonce.to_bytes(len(self.key.base_iv), byteorder="big")
 
         if nonce is None and self.key.base_iv == b'':
             raise CoseException('No IV found')
-- 
2.43.0


From 69cd50c6515d0b10d7fd9cf4d554d626ad536055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 06/43] fix: the KDF context covers the recipient's protected
 header as transmitted

---
 pycose/messages/context.py   | 14 +++++++++++---
 pycose/messages/recipient.py |  5 ++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index d21e4b4..e26f106 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Optional, Union
 
 import attr
 import cbor2
@@ -24,7 +24,7 @@ class PartyInfo:
 @attr.s(slots=True)
 class SuppPubInfo:
     _key_data_length: int = attr.ib()
-    protected: dict = attr.ib(factory=dict)
+    protected: Union[dict, bytes] = attr.ib(factory=dict)
     other: bytes = attr.ib(default=b'')
 
     @property
@@ -49,7 +49,15 @@ class SuppPubInfo:
     def encode(self) -> list:
         """ Encodes the supplementary public information. """
 
-        info = [self.key_data_length * 8, cbor2.dumps(self.protected, default=self._custom_cbor_encoder)]
+        if isinstance(self.protected, bytes):
+            # already serialized, an empty map is represented by a zero-length byte string
+            protected = self.protected
+        elif len(self.protected):
+            protected = cbor2.dumps(self.protected, default=self._custom_cbor_encoder)
+        else:
+            protected = b''
+
+        info = [self.key_data_length * 8, protected]
         if self.other != b'':
             info.append(self.other)
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index a6c540e..ccd05bc 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -165,7 +165,10 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         v_other = self.get_attr(headers.PartyVOther)
         v = PartyInfo(v_id, v_nonce, v_other)
 
-        supp_pub = SuppPubInfo(algorithm.get_key_length(), self.phdr, self.local_attrs.get(headers.SuppPubOther, b''))
+        # the context covers the protected header as it appears in the message
+        protected = self.phdr_encoded if len(self.phdr) else b''
+
+        supp_pub = SuppPubInfo(algorithm.get_key_length(), protected, self.local_attrs.get(headers.SuppPubOther, b''))
         supp_priv = self.local_attrs.get(headers.SuppPrivOther, b'')
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
-- 
2.43.0


From 24f944293e6c038df6398c0b2dd3449cc743c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 07/43] fix: validate the key length in SuppPubInfo and stop
 sharing the default PartyInfo

---
 pycose/messages/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index e26f106..e7282f3 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -42,7 +42,7 @@ class SuppPubInfo:
         else:
             raise ValueError(f"Not a valid key length: {new_length}")
 
-    def __attrs_post__init__(self):
+    def __attrs_post_init__(self):
         if self._key_data_length not in [16, 24, 32]:
             raise ValueError(f"Not a valid key length: {self._key_data_length}")
 
@@ -72,8 +72,8 @@ class SuppPubInfo:
 class CoseKDFContext:
     algorithm: '_EncAlg' = attr.ib()
     supp_pub_info: SuppPubInfo = attr.ib()
-    party_u_info: PartyInfo = attr.ib(default=PartyInfo())
-    party_v_info: PartyInfo = attr.ib(default=PartyInfo())
+    party_u_info: PartyInfo = attr.ib(factory=PartyInfo)
+    party_v_info: PartyInfo = attr.ib(factory=PartyInfo)
     supp_priv_info: bytes = attr.ib(default=b'')
 
     def encode(self) -> CBOR:
-- 
2.43.0


From 82b8a5d52b7a8b9742c3e76b9f017df3050f753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 08/43] fix: the Salt header parameter of a recipient is used
 in the key derivation

---
 pycose/algorithms.py         | 9 +++++++--
 pycose/messages/recipient.py | 6 ++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8a2b4c0..acd4e46 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -301,10 +301,15 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
         return shared_key
 
     @classmethod
-    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext') -> bytes:
+    def derive_kek(cls,
+                   curve: 'CoseCurve',
+                   private_key: 'EC2',
+                   public_key: 'EC2',
+                   context: 'CoseKDFContext',
+                   salt: Optional[bytes] = None) -> bytes:
         shared_secret = cls._ecdh(curve, private_key, public_key)
 
-        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=None,
+        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=salt,
                    info=context.encode(),
                    backend=default_backend())
         return kdf.derive(shared_secret)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index ccd05bc..58410df 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -436,7 +436,8 @@ class DirectKeyAgreement(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  self.get_attr(headers.Salt))
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> 'SK':
         alg = self.get_attr(headers.Algorithm)
@@ -519,7 +520,8 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                       self.get_attr(headers.Salt))
         return key_bytes
 
     def encrypt(self, target_alg) -> bytes:
-- 
2.43.0


From 54e091070247d4fb833769f6267c2d02d112c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 09/43] fix: refuse ECDSA and ECDH with keys on the wrong curve

---
 pycose/algorithms.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index acd4e46..e953980 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -179,14 +179,25 @@ class _Ecdsa(CoseAlgorithm, ABC):
     def get_hash_func(cls):
         raise NotImplementedError()
 
+    @classmethod
+    def _check_curve(cls, key: 'EC2') -> None:
+        curve_names = {NIST256p.name: 'P_256', NIST384p.name: 'P_384', NIST521p.name: 'P_521'}
+
+        if key.crv.fullname != curve_names[cls.get_curve().name]:
+            raise CoseException(f"Illegal curve for {cls.fullname}: {key.crv}")
+
     @classmethod
     def sign(cls, key: 'EC2', data: bytes) -> bytes:
+        cls._check_curve(key)
+
         sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())
 
         return sk.sign_deterministic(data, hashfunc=cls.get_hash_func())
 
     @classmethod
     def verify(cls, key: 'EC2', data: bytes, signature: bytes) -> bool:
+        cls._check_curve(key)
+
         p = Point(curve=cls.get_curve().curve, x=int(hexlify(key.x), 16), y=int(hexlify(key.y), 16))
 
         vk = VerifyingKey.from_public_point(p, cls.get_curve(), cls.get_hash_func(), validate_point=True)
@@ -289,6 +300,9 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
 
     @classmethod
     def _ecdh(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2') -> bytes:
+        if private_key.crv.identifier != public_key.crv.identifier:
+            raise CoseException(f"Keys on different curves: {private_key.crv} and {public_key.crv}")
+
         d_value = int(hexlify(private_key.d), 16)
         x_value = int(hexlify(public_key.x), 16)
         y_value = int(hexlify(public_key.y), 16)
-- 
2.43.0


From e9c1f995aec2771fcb3c72b3857c141779e8a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 10/43] fix: key wrap and key agreement recipients honour the
 alg and key_ops of the keys they use

---
 pycose/messages/recipient.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 58410df..668a0e1 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -341,6 +341,7 @@ class KeyWrap(CoseRecipient):
             key_ops = [WrapOp, EncryptOp]
             kek = SymmetricKey(k=self._compute_kek(target_alg, ops='encrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
+            self.key.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
             kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
@@ -358,6 +359,7 @@ class KeyWrap(CoseRecipient):
         if alg in {A128KW, A192KW, A256KW}:
             kek = SymmetricKey(k=self._compute_kek(target_alg, 'decrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
+            self.key.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
             kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
@@ -545,6 +547,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         key_bytes = self._compute_kek((self.get_attr(headers.Algorithm)).get_key_wrap_func(), peer_key, self.key, alg)
         wrap_func = alg.get_key_wrap_func()
 
@@ -562,6 +567,15 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
 
+        if peer_key is None:
+            raise CoseException("Unknown sender public key")
+
+        if self.key is None:
+            raise CoseException("Static receiver key cannot be None")
+
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
 
-- 
2.43.0


From d46c12d965d2cc7018c36a7e83794fff1d6f60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 11/43] fix: setting key_ops is all or nothing, and an empty
 list clears the restriction

---
 pycose/keys/ec2.py       | 4 ++--
 pycose/keys/okp.py       | 4 ++--
 pycose/keys/rsa.py       | 4 ++--
 pycose/keys/symmetric.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 57fcd4c..27ffa42 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -253,8 +253,8 @@ class EC2Key(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {EC2Key.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 7950ef0..186d9fe 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -218,8 +218,8 @@ class OKPKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {OKPKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index c2d7b45..2420927 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -296,8 +296,8 @@ class RSAKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_bits: int, optional_params: dict = None) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index a66fdae..31683d4 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -104,8 +104,8 @@ class SymmetricKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {SymmetricKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_len: int, optional_params: dict = None) -> 'SymmetricKey':
-- 
2.43.0


From 2b14e654253655f4fae1b2fb010114586479f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 12/43] fix: deleting the only key value of an OKP key is
 refused

---
 pycose/keys/okp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 186d9fe..df9b0f8 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -246,7 +246,7 @@ class OKPKey(CoseKey):
         if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
             if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
                 pass
-            if self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
-- 
2.43.0


From 01c0eae8de69aa5a5861574c5227211754ecb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 13/43] fix: unregistered parameters can be deleted from every
 key type

---
 pycose/keys/ec2.py       | 10 ++++++----
 pycose/keys/okp.py       |  8 +++++---
 pycose/keys/symmetric.py |  4 +++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 27ffa42..7adf22e 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -278,12 +278,14 @@ class EC2Key(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != EC2KpCurve:
-            if self._key_transform(key) == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param != KpKty and param != EC2KpCurve:
+            if param == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
                 pass
-            elif self._key_transform(key) == EC2KpX and EC2KpD not in self.store:
+            elif param == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (self._key_transform(key) == EC2KpX or self._key_transform(key) == EC2KpY) and EC2KpD in self.store:
+            elif (param == EC2KpX or param == EC2KpY) and EC2KpD in self.store:
                 super(EC2Key, self).__delitem__(EC2KpX)
                 super(EC2Key, self).__delitem__(EC2KpY)
                 return
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index df9b0f8..93be00c 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -243,10 +243,12 @@ class OKPKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
-            if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param != KpKty and param != OKPKpCurve:
+            if param == OKPKpD and OKPKpX not in self.store:
                 pass
-            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif param == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 31683d4..3d2b45b 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -71,7 +71,9 @@ class SymmetricKey(CoseKey):
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != SymKpK:
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param != KpKty and param != SymKpK:
             super().__delitem__(key)
         else:
             raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalide COSE Symmetric Key")
-- 
2.43.0


From 4fb86f1cbfd45f667e62081516f1f581637b66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 14/43] fix: deleting key parameters never leaves a
 half-deleted EC2 key or an RSA key without public values

---
 pycose/keys/ec2.py | 6 ++++--
 pycose/keys/rsa.py | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 7adf22e..cfb6266 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -286,8 +286,10 @@ class EC2Key(CoseKey):
             elif param == EC2KpX and EC2KpD not in self.store:
                 pass
             elif (param == EC2KpX or param == EC2KpY) and EC2KpD in self.store:
-                super(EC2Key, self).__delitem__(EC2KpX)
-                super(EC2Key, self).__delitem__(EC2KpY)
+                super(EC2Key, self).__delitem__(param)
+                # one coordinate is meaningless without the other
+                self.store.pop(EC2KpX, None)
+                self.store.pop(EC2KpY, None)
                 return
             else:
                 return super(EC2Key, self).__delitem__(key)
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 2420927..d0f802b 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -314,6 +314,14 @@ class RSAKey(CoseKey):
 
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    def __delitem__(self, key: Union['KeyParam', str, int]):
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param in (KpKty, RSAKpN, RSAKpE):
+            raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalid COSE RSA Key")
+
+        super().__delitem__(key)
+
     def __repr__(self):
         hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
         return hdr
-- 
2.43.0


From 5050cedf6742d9af9ef966fef15d89f04cad8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 15/43] fix: the key type cannot be changed, and item
 assignment parses the values of known key parameters

---
 pycose/keys/cosekey.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 119840b..458cd8c 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -209,7 +209,14 @@ class CoseKey(MutableMapping, ABC):
         return self.store[self._key_transform(key, allow_unknown_attrs=True)]
 
     def __setitem__(self, key, value):
-        self.store[self._key_transform(key, allow_unknown_attrs=True)] = value
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param is KpKty:
+            self.kty = value
+        elif hasattr(param, 'value_parser'):
+            self.store[param] = param.value_parser(value)
+        else:
+            self.store[param] = value
 
     def __delitem__(self, key):
         del self.store[self._key_transform(key, allow_unknown_attrs=True)]
@@ -231,7 +238,11 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KpKty.from_id(kty)
+        kty = KpKty.value_parser(kty)
+
+        # the key type is tied to the class of the key object
+        if kty != self.kty:
+            raise CoseIllegalKeyType(f"Cannot change the key type from {self.kty} to {kty}")
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From 4eaf06156f20c9fa41adc82ac0d19cdae5fc6f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 16/43] fix: messages with detached content have a text
 representation

---
 pycose/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 4a63441..74eba13 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from typing import Any, Callable
+from typing import Any, Callable, Optional
 
 from pycose.exceptions import CoseException
 
@@ -77,5 +77,9 @@ class _CoseAttribute(ABC):
         return f'<{self.fullname}: {self.identifier}>'
 
 
-def truncate(payload: bytes) -> str:
+def truncate(payload: Optional[bytes]) -> str:
+    if payload is None:
+        # detached content
+        return 'None'
+
     return f'{payload[:5]} ... ({len(payload)} B)'
-- 
2.43.0


From 8d1f5672c4aa98fe3bfb86c897b8c4bdf2b536c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 17/43] fix: the text representation of RSA keys does not
 contain the private key

---
 pycose/keys/rsa.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index d0f802b..a6de24b 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -3,6 +3,7 @@ from typing import List, TYPE_CHECKING, Optional, Type, Union
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric import rsa
 
+from pycose import utils
 from pycose.exceptions import CoseInvalidKey, CoseIllegalKeyType, CoseIllegalKeyOps
 from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
@@ -323,7 +324,16 @@ class RSAKey(CoseKey):
         super().__delitem__(key)
 
     def __repr__(self):
-        hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
+        _key = self._key_repr()
+
+        for kp in (RSAKpD, RSAKpP, RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpDi, RSAKpRi, RSAKpTi):
+            if kp.__name__ in _key and len(_key[kp.__name__]) > 0:
+                _key[kp.__name__] = utils.truncate(_key[kp.__name__])
+
+        if RSAKpOther.__name__ in _key:
+            _key[RSAKpOther.__name__] = f"{len(_key[RSAKpOther.__name__])} other primes"
+
+        hdr = f'<COSE_Key(RSAKey): {_key}>'
         return hdr
 
 
-- 
2.43.0


From 55da218807639dc553af32e39f9ed06e1c33f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 18/43] fix: SHAKE-128 and SHAKE-256 compute 256-bit and
 512-bit digests

---
 pycose/algorithms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index e953980..c9d6a71 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -454,6 +454,10 @@ class Shake256(_HashAlg):
     fullname = "SHAKE-256"
     hash_cls = SHAKE256
 
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return cls.hash_cls(digest_size=64)
+
 
 @CoseAlgorithm.register_attribute()
 class Sha512(_HashAlg):
@@ -894,6 +898,10 @@ class Shake128(_HashAlg):
     fullname = "SHAKE-128"
     hash_cls = SHAKE128
 
+    @classmethod
+    def get_hash_func(cls) -> HashAlgorithm:
+        return cls.hash_cls(digest_size=32)
+
 
 @CoseAlgorithm.register_attribute()
 class Sha512Trunc256(_HashAlg):
-- 
2.43.0


From ec049af2ede1860d3168178433cc3b6435fac006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 19/43] fix: a boolean y coordinate of an EC2 key selects the
 matching point

---
 pycose/keys/ec2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index cfb6266..393467d 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -140,6 +140,11 @@ class EC2Key(CoseKey):
         else:
             raise CoseInvalidKey("COSE curve cannot be None")
 
+        if isinstance(y, bool):
+            # compressed point: y only carries the sign bit
+            point = ec.EllipticCurvePublicKey.from_encoded_point(self.crv.curve_obj, (b'\x03' if y else b'\x02') + x)
+            y = point.public_numbers().y.to_bytes(self.crv.size, 'big')
+
         if not x and not y and not d:
             raise CoseInvalidKey("Either the public values or the private value must be specified")
 
-- 
2.43.0


From 5236a36788bec799642b8a6aa1bdc797596002a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 20/43] fix: COSE_Mac messages work with key wrap and key
 agreement recipients

---
 pycose/algorithms.py          |  4 ++++
 pycose/messages/macmessage.py | 30 +++++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index c9d6a71..254b851 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -243,6 +243,10 @@ class _AesMac(CoseAlgorithm, ABC):
 
 
 class _HMAC(CoseAlgorithm, ABC):
+    @classmethod
+    def get_key_length(cls) -> int:
+        return cls.get_hash_func().digest_size
+
     @classmethod
     @abstractmethod
     def get_digest_length(cls) -> int:
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 36fada8..af4b1e3 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -14,13 +14,16 @@ from typing import Optional, List, TYPE_CHECKING
 
 from pycose import utils, headers
 from pycose.exceptions import CoseException
-from pycose.keys.keyops import MacCreateOp
+from pycose.keys.keyops import MacCreateOp, MacVerifyOp
+from pycose.keys.keyparam import KpAlg, KpKeyOps
+from pycose.keys.symmetric import SymmetricKey
 from pycose.messages import cosemessage, maccommon
 from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyWrap, \
     KeyAgreementWithKeyWrap
 
 if TYPE_CHECKING:
-    from pycose.keys.symmetric import SK, SymmetricKey
+    from pycose.keys.symmetric import SK
+    from pycose.messages.recipient import Recipient
 
 CBOR = bytes
 
@@ -92,7 +95,7 @@ class MacMessage(maccommon.MacCommon):
                 else:
                     key_bytes = r.payload
                 r.encrypt(target_algorithm)
-            self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
+            self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
 
         else:
@@ -100,6 +103,27 @@ class MacMessage(maccommon.MacCommon):
 
         return payload
 
+    def verify_tag(self, recipient: Optional['Recipient'] = None, *args, **kwargs) -> bool:
+        """
+        Verifies the authentication tag of a received message.
+
+        :param recipient: The recipient to obtain the MAC key from. When omitted, the key of the message is used.
+        """
+
+        if recipient is not None:
+            if not CoseRecipient.has_recipient(recipient, self.recipients):
+                raise CoseException(f"Cannot find recipient: {recipient}")
+
+            r_types = CoseRecipient.verify_recipients(self.recipients)
+
+            # when using direct encryption, the key should already be known
+            if DirectEncryption not in r_types:
+                target_algorithm = self.get_attr(headers.Algorithm)
+                cek = recipient.compute_cek(target_algorithm, "decrypt")
+                self.key = SymmetricKey(k=cek.k, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacVerifyOp]})
+
+        return super(MacMessage, self).verify_tag()
+
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
 
-- 
2.43.0


From 1f7e8a91ca9f0c1c4237886b3aee66b11865bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 21/43] fix: DirectKeyAgreement generates its ephemeral key
 before deriving the content key

---
 pycose/messages/recipient.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 668a0e1..466ee7c 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -174,12 +174,12 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
 
     def _setup_ephemeral_key(self, peer_key, optional_params: dict = None):
-        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
-
         if self.get_attr(headers.EphemeralKey) is not None:
-            # public key was already set in the header bucket but we just generated a new ephemeral key.
+            # public key was already set in the header bucket, it cannot belong to the key we are about to generate.
             raise CoseException('Unrelated ephemeral public key found in COSE message header')
         else:
+            self.key = EC2Key.generate_key(peer_key.crv, optional_params)
+
             # strip private bytes from key
             ephemeral_public_key = dict(self.key)
             del ephemeral_public_key[EC2KpD]
@@ -458,6 +458,13 @@ class DirectKeyAgreement(CoseRecipient):
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
 
+        # if ephemeral and not set, generate ephemeral key pair
+        if self.key is None and ops == "encrypt" and alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
+            self._setup_ephemeral_key(peer_key)
+
+        if self.key is None:
+            raise CoseException("Local private key cannot be None")
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From d6fa0559ac5aa9b7741b1ae37022ae2f65aa8051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 22/43] fix: key agreement with key wrap refuses to omit the
 ephemeral key it used

---
 pycose/messages/recipient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 466ee7c..d1340c3 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -554,6 +554,10 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW} and self.get_attr(headers.EphemeralKey) is None:
+            raise CoseMalformedMessage(
+                f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry an ephemeral COSE key object')
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 6c574a0b1bf5b3ba42d9ecc5de4dc015de717459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 23/43] fix: content encryption refuses keys with the wrong
 length for the algorithm

---
 pycose/messages/enccommon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index 7abcf42..46d1c82 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -46,6 +46,7 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
             raise CoseException("Key cannot be None")
 
         self.key.verify(SymmetricKey, alg, [DecryptOp])
+        self._verify_key_length(alg)
 
         return alg.decrypt(key=self.key, ciphertext=self.payload, aad=self._enc_structure, nonce=nonce)
 
@@ -65,6 +66,7 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
         nonce = self._get_nonce()
 
         self.key.verify(SymmetricKey, alg, [EncryptOp])
+        self._verify_key_length(alg)
 
         return alg.encrypt(key=self.key, data=self.payload, aad=self._enc_structure, nonce=nonce)
 
@@ -78,6 +80,10 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
         aad = cbor2.dumps(enc_structure)
         return aad
 
+    def _verify_key_length(self, alg):
+        if len(self.key.k) != alg.get_key_length():
+            raise CoseException(f"Illegal key length for {alg.fullname}: {len(self.key.k)} bytes")
+
     def _get_nonce(self):
         nonce = self.get_attr(headers.IV)
 
-- 
2.43.0


From 0a32447363a7d0aaa584c4ff1695c08854ca9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 24/43] fix: AES-MAC refuses keys with the wrong length for the
 algorithm

---
 pycose/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 254b851..1f31ab4 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -216,6 +216,9 @@ class _AesMac(CoseAlgorithm, ABC):
 
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
+        if len(key.k) != cls.get_key_length():
+            raise CoseException(f"Illegal key length for {cls.fullname}: {len(key.k)} bytes")
+
         encryptor = Cipher(AES(key.k),
                            modes.CBC(unhexlify(b''.join([b'00'] * 16))),
                            backend=default_backend()).encryptor()
-- 
2.43.0


From 6064a8253380285d0b8f8a014cbcc3a7414910ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 25/43] fix: header labels and values set after construction
 are normalised like those given to the constructor

---
 pycose/messages/cosebase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 799657d..c7ec72a 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -90,7 +90,7 @@ class CoseBase(metaclass=abc.ABCMeta):
     def phdr(self, new_phdr: dict) -> None:
         if type(new_phdr) is not dict:
             raise TypeError("protected header should be of type 'dict'")
-        self._phdr = deepcopy(new_phdr)
+        self._phdr = CoseBase._parse_header(deepcopy(new_phdr), True)
         self._phdr_encoded = None
 
     @property
@@ -101,18 +101,18 @@ class CoseBase(metaclass=abc.ABCMeta):
     def uhdr(self, new_uhdr: dict) -> None:
         if type(new_uhdr) is not dict:
             raise TypeError("unprotected header should be of type 'dict'")
-        self._uhdr = deepcopy(new_uhdr)
+        self._uhdr = CoseBase._parse_header(deepcopy(new_uhdr), True)
 
     def phdr_update(self, phdr_params: dict) -> None:
         if type(phdr_params) is not dict:
             raise TypeError("protected header should be of type 'dict'")
-        self._phdr.update(phdr_params)
+        self._phdr.update(CoseBase._parse_header(phdr_params, True))
         self._phdr_encoded = None
 
     def uhdr_update(self, uhdr_params: dict) -> None:
         if type(uhdr_params) is not dict:
             raise TypeError("unprotected header should be of type 'dict'")
-        self._uhdr.update(uhdr_params)
+        self._uhdr.update(CoseBase._parse_header(uhdr_params, True))
 
     @property
     def local_attrs(self):
-- 
2.43.0


From c6c1faaee44e4df7c7f3b954541edd54443b3b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 26/43] fix: all recipients of a message wrap the same content
 key

---
 pycose/messages/encmessage.py | 15 ++++++++++-----
 pycose/messages/macmessage.py | 14 +++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index e0b7079..10e555a 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -84,12 +84,17 @@ class EncMessage(enccommon.EncCommon):
             payload = super(EncMessage, self).encrypt()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients carry the same CEK, possibly provided by the payload of a recipient
+            provided_ceks = {r.payload for r in self.recipients if r.payload != b''}
+            if len(provided_ceks) > 1:
+                raise CoseException("Recipients of one message cannot carry different CEKs")
+            elif len(provided_ceks) == 1:
+                key_bytes = provided_ceks.pop()
+            else:
+                key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [EncryptOp]})
             payload = super(EncMessage, self).encrypt()
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index af4b1e3..03e4d1b 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -87,13 +87,17 @@ class MacMessage(maccommon.MacCommon):
             payload = super(MacMessage, self).compute_tag()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # all recipients carry the same CEK, possibly provided by the payload of a recipient
+            provided_ceks = {r.payload for r in self.recipients if r.payload != b''}
+            if len(provided_ceks) > 1:
+                raise CoseException("Recipients of one message cannot carry different CEKs")
+            elif len(provided_ceks) == 1:
+                key_bytes = provided_ceks.pop()
+            else:
+                key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
 
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
-- 
2.43.0


From 5711201c012eb9bb65e3a61f1048469509cf78d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 27/43] fix: encoding a COSE_Sign message always signs its own
 contents

---
 pycose/messages/signmessage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index e35df1e..204ad32 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -76,6 +76,10 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
 
         message = [self.phdr_encoded, self.uhdr_encoded, self.payload]
 
+        # a signer object can be shared between messages, sign the contents of this one
+        for s in self.signers:
+            s._parent = self
+
         if len(self.signers):
             message.append([s.encode(detached_payload) for s in self.signers])
 
-- 
2.43.0


From d5a712c7bdae8febe062dbbd7ae6713af15cb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 28/43] fix: the recipients of a recipient are decoded instead
 of dropped

---
 pycose/messages/recipient.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index d1340c3..acfa9c0 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -84,7 +84,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
                 return True
             else:
                 if len(r.recipients):
-                    found = r.has_recipient(target, r.recipients)
+                    found = found or r.has_recipient(target, r.recipients)
 
         return found
 
@@ -103,6 +103,16 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
 
         return r_types
 
+    @classmethod
+    def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
+        msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+
+        recipients = cose_obj.pop(0) if len(cose_obj) else []
+        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
+                          recipients]
+
+        return msg
+
     def __init__(self,
                  phdr: Optional[dict] = None,
                  uhdr: Optional[dict] = None,
@@ -264,9 +274,6 @@ class KeyWrap(CoseRecipient):
         if msg.payload == b'':
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
@@ -494,9 +501,6 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
-- 
2.43.0


From 4250b842654ea39cd18b49abbcdc1e560a7dd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 29/43] fix: a key wrap recipient can obtain its key from its
 own recipients

---
 pycose/messages/recipient.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index acfa9c0..f29b612 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -301,14 +301,15 @@ class KeyWrap(CoseRecipient):
                 raise CoseException(f"No key found to {ops} the CEK")
             else:
                 r_types = CoseRecipient.verify_recipients(self.recipients)
+                alg = self.get_attr(headers.Algorithm)
 
                 if ops == 'encrypt':
 
                     if DirectKeyAgreement in r_types:
-                        self.key = self.recipients[0].compute_cek(target_alg)
+                        self.key = self.recipients[0].compute_cek(alg, ops)
 
                     elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        key_bytes = os.urandom(self.get_attr(headers.Algorithm))
+                        key_bytes = os.urandom(alg.get_key_length())
                         for r in self.recipients:
                             r.payload = key_bytes
                         self.key = SymmetricKey(k=key_bytes)
@@ -316,7 +317,9 @@ class KeyWrap(CoseRecipient):
                         raise CoseException('Unsupported COSE recipient class')
                 else:
                     if DirectKeyAgreement in r_types or KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        self.key = self.recipients[0].decrypt(self.get_attr(headers.Algorithm))
+                        # use the recipient for which we were given a key
+                        recipient = next((r for r in self.recipients if r.key is not None), self.recipients[0])
+                        self.key = recipient.compute_cek(alg, ops)
                     else:
                         raise CoseException('Unsupported COSE recipient class')
 
-- 
2.43.0


From ec562c661c66cf187c2a8fcc1306bfb859f4c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 30/43] fix: direct key agreement recipients carry no
 recipients and no ciphertext, when sending and receiving

---
 pycose/messages/recipient.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index f29b612..67f624c 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -397,6 +397,9 @@ class DirectKeyAgreement(CoseRecipient):
         if alg in {EcdhEsHKDF256, EcdhEsHKDF512} and msg.get_attr(headers.EphemeralKey) is None:
             raise CoseMalformedMessage(f'Recipient class {cls.__name__} must carry an ephemeral COSE key object')
 
+        if msg.payload != b"":
+            raise CoseMalformedMessage(f'Recipient class {cls.__name__} must have a zero-length ciphertext')
+
         if len(msg.recipients):
             raise CoseMalformedMessage(f'Recipient class {cls.__name__} cannot carry more recipients')
 
@@ -431,7 +434,7 @@ class DirectKeyAgreement(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None")
 
-        if len(self.recipients) > 1:
+        if len(self.recipients):
             raise CoseMalformedMessage(f'Recipient class DIRECT_KEY_AGREEMENT cannot carry more recipients')
 
         # only the ephemeral sender key MUST be included in the header, for the static sender it is recommended by not
@@ -441,9 +444,6 @@ class DirectKeyAgreement(CoseRecipient):
 
         recipient = [self.phdr_encoded, self.uhdr_encoded, b'']
 
-        if len(self.recipients):
-            recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
-
         return recipient
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
-- 
2.43.0


From dc4ea7d1d3131aa287dfea5c69c2fb89fa58ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 31/43] fix: a key obtained from nested recipients is not kept
 as the recipient's own key

---
 pycose/messages/recipient.py | 67 ++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 67f624c..0cf6284 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -293,40 +293,40 @@ class KeyWrap(CoseRecipient):
 
         return recipient
 
-    def _compute_kek(self, target_alg: '_EncAlg', ops: 'str') -> bytes:
+    def _compute_kek(self, target_alg: '_EncAlg', ops: 'str') -> 'SK':
 
-        if self.key is None:
-            #  try to derive from this recipients' recipient list
-            if not len(self.recipients):
-                raise CoseException(f"No key found to {ops} the CEK")
-            else:
-                r_types = CoseRecipient.verify_recipients(self.recipients)
-                alg = self.get_attr(headers.Algorithm)
+        if self.key is not None:
+            return self.key
 
-                if ops == 'encrypt':
+        #  try to derive from this recipients' recipient list, the result only holds for its current contents
+        if not len(self.recipients):
+            raise CoseException(f"No key found to {ops} the CEK")
 
-                    if DirectKeyAgreement in r_types:
-                        self.key = self.recipients[0].compute_cek(alg, ops)
+        r_types = CoseRecipient.verify_recipients(self.recipients)
+        alg = self.get_attr(headers.Algorithm)
 
-                    elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        key_bytes = os.urandom(alg.get_key_length())
-                        for r in self.recipients:
-                            r.payload = key_bytes
-                        self.key = SymmetricKey(k=key_bytes)
-                    else:
-                        raise CoseException('Unsupported COSE recipient class')
-                else:
-                    if DirectKeyAgreement in r_types or KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        # use the recipient for which we were given a key
-                        recipient = next((r for r in self.recipients if r.key is not None), self.recipients[0])
-                        self.key = recipient.compute_cek(alg, ops)
-                    else:
-                        raise CoseException('Unsupported COSE recipient class')
+        if ops == 'encrypt':
 
-        if self.key is None:
-            raise CoseException("No key found to decrypt the CEK")
+            if DirectKeyAgreement in r_types:
+                return self.recipients[0].compute_cek(alg, ops)
 
-        return self.key.k
+            elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
+                provided_keks = {r.payload for r in self.recipients if r.payload != b''}
+                if len(provided_keks) > 1:
+                    raise CoseException("Recipients of one recipient cannot carry different KEKs")
+                key_bytes = provided_keks.pop() if len(provided_keks) else os.urandom(alg.get_key_length())
+                for r in self.recipients:
+                    r.payload = key_bytes
+                return SymmetricKey(k=key_bytes)
+            else:
+                raise CoseException('Unsupported COSE recipient class')
+        else:
+            if DirectKeyAgreement in r_types or KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
+                # use the recipient for which we were given a key
+                recipient = next((r for r in self.recipients if r.key is not None), self.recipients[0])
+                return recipient.compute_cek(alg, ops)
+            else:
+                raise CoseException('Unsupported COSE recipient class')
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> Optional['SK']:
         if ops == "encrypt":
@@ -348,10 +348,7 @@ class KeyWrap(CoseRecipient):
             raise CoseException("The algorithm parameter should at least be included in the unprotected header")
 
         elif alg in {A128KW, A192KW, A256KW}:
-            key_ops = [WrapOp, EncryptOp]
-            kek = SymmetricKey(k=self._compute_kek(target_alg, ops='encrypt'),
-                               optional_params={KpAlg: alg, KpKeyOps: key_ops})
-            self.key.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
+            kek = self._compute_kek(target_alg, ops='encrypt')
             kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
@@ -364,12 +361,8 @@ class KeyWrap(CoseRecipient):
     def decrypt(self, target_alg: '_EncAlg') -> bytes:
         alg = self.get_attr(headers.Algorithm)
 
-        key_ops = [DecryptOp, UnwrapOp]
-
         if alg in {A128KW, A192KW, A256KW}:
-            kek = SymmetricKey(k=self._compute_kek(target_alg, 'decrypt'),
-                               optional_params={KpAlg: alg, KpKeyOps: key_ops})
-            self.key.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
+            kek = self._compute_kek(target_alg, 'decrypt')
             kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
-- 
2.43.0


From 3a76e635014551286c6a573bb06e6cabcb72a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:09 +0000
Subject: [PATCH 32/43] fix: decoding refuses structures whose fields have the
 wrong CBOR type

---
 pycose/messages/cosebase.py     | 9 +++++++++
 pycose/messages/encmessage.py   | 3 +++
 pycose/messages/mac0message.py  | 2 ++
 pycose/messages/macmessage.py   | 5 +++++
 pycose/messages/recipient.py    | 3 +++
 pycose/messages/sign1message.py | 2 +-
 pycose/messages/signer.py       | 1 +
 pycose/messages/signmessage.py  | 6 +++++-
 8 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index c7ec72a..9fdafb8 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -19,9 +19,18 @@ class CoseBase(metaclass=abc.ABCMeta):
 
     @classmethod
     def from_cose_obj(cls: Type['CB'], cose_obj: list, allow_unknown_attributes: bool) -> 'CB':
+        if type(cose_obj) is not list:
+            raise TypeError("COSE structure should be of type 'list'")
+
         phdr_encoded = cose_obj.pop(0)
         uhdr = cose_obj.pop(0)
 
+        if type(phdr_encoded) is not bytes:
+            raise TypeError("encoded protected header should be of type 'bytes'")
+
+        if type(uhdr) is not dict:
+            raise TypeError("unprotected header should be of type 'dict'")
+
         return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 10e555a..2b90e34 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -27,6 +27,9 @@ class EncMessage(enccommon.EncCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         recipients = cose_obj.pop(0) if len(cose_obj) else []
+        if type(recipients) is not list:
+            raise TypeError("COSE recipients should be of type 'list'")
+
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
                           in recipients]
         return msg
diff --git a/pycose/messages/mac0message.py b/pycose/messages/mac0message.py
index 383c6cd..7244f18 100644
--- a/pycose/messages/mac0message.py
+++ b/pycose/messages/mac0message.py
@@ -25,6 +25,8 @@ class Mac0Message(maccommon.MacCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'Mac0Message':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("authentication tag should be of type 'bytes'")
 
         return msg
 
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 03e4d1b..2517a08 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -37,8 +37,13 @@ class MacMessage(maccommon.MacCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'MacMessage':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("authentication tag should be of type 'bytes'")
 
         recipients = cose_obj.pop(0) if len(cose_obj) else []
+        if type(recipients) is not list:
+            raise TypeError("COSE recipients should be of type 'list'")
+
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                           in recipients]
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 0cf6284..38f75e1 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -108,6 +108,9 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         recipients = cose_obj.pop(0) if len(cose_obj) else []
+        if type(recipients) is not list:
+            raise TypeError("COSE recipients should be of type 'list'")
+
         msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
                           recipients]
 
diff --git a/pycose/messages/sign1message.py b/pycose/messages/sign1message.py
index d46448a..c6be58c 100644
--- a/pycose/messages/sign1message.py
+++ b/pycose/messages/sign1message.py
@@ -23,7 +23,7 @@ class Sign1Message(SignCommon):
     @classmethod
     def from_cose_obj(cls, cose_obj, allow_unknown_attributes: bool) -> 'Sign1Message':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
-        msg._signature = cose_obj.pop(0)
+        msg.signature = cose_obj.pop(0)
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index e664911..c580c5e 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -18,6 +18,7 @@ class CoseSignature(SignCommon):
         """ Parses COSE_Signature objects. """
 
         msg: 'CoseSignature' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+        msg.signature = msg.payload
 
         return msg
 
diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index 204ad32..b5e6378 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -32,7 +32,11 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
         msg: '_SignMessage' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         signers = []
-        for r in cose_obj.pop(0):
+        cose_signatures = cose_obj.pop(0)
+        if type(cose_signatures) is not list:
+            raise TypeError("COSE signatures should be of type 'list'")
+
+        for r in cose_signatures:
             signers.append(CoseSignature.from_cose_obj(r, allow_unknown_attributes))
 
         msg.signers = signers
-- 
2.43.0


From 6c3cf0dd01874c2587705a830debfe610c0633e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 33/43] fix: the keys of X448 have 56 bytes

---
 pycose/keys/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/curves.py b/pycose/keys/curves.py
index 056ecea..f817793 100644
--- a/pycose/keys/curves.py
+++ b/pycose/keys/curves.py
@@ -170,14 +170,14 @@ class X448(CoseCurve):
 
         **key_type**       *KtyOKP*
 
-        **size**           *57*
+        **size**           *56*
     """
 
     identifier = 5
     fullname = "X448"
     curve_obj = x448.X448PrivateKey
     key_type = KtyOKP
-    size = 57
+    size = 56
 
 
 @CoseCurve.register_attribute()
-- 
2.43.0


From 2f53cadc2c817d551d84bfa115ffabeab7f299ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 34/43] fix: assigning a key parameter as an item checks its
 value like the setter

---
 pycose/keys/cosekey.py   | 13 +++++++++++--
 pycose/keys/ec2.py       |  4 ++++
 pycose/keys/okp.py       |  4 ++++
 pycose/keys/rsa.py       |  5 +++++
 pycose/keys/symmetric.py |  4 ++++
 5 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 458cd8c..d064ff0 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -211,8 +211,11 @@ class CoseKey(MutableMapping, ABC):
     def __setitem__(self, key, value):
         param = self._key_transform(key, allow_unknown_attrs=True)
 
-        if param is KpKty:
-            self.kty = value
+        # parameters with a setter are checked the same way in both notations
+        name = self._checked_params().get(param) if isinstance(param, type) else None
+
+        if name is not None:
+            setattr(self, name, value)
         elif hasattr(param, 'value_parser'):
             self.store[param] = param.value_parser(value)
         else:
@@ -303,6 +306,12 @@ class CoseKey(MutableMapping, ABC):
     def _custom_cbor_encoder(cls, encoder, cose_attribute: 'CoseHeaderAttribute'):
         encoder.encode(cose_attribute.identifier)
 
+    @classmethod
+    def _checked_params(cls) -> dict:
+        """ Key parameters with a setter that checks their value. """
+
+        return {KpKty: 'kty', KpAlg: 'alg', KpKid: 'kid', KpKeyOps: 'key_ops', KpBaseIV: 'base_iv'}
+
     @staticmethod
     def _key_transform(key, allow_unknown_attrs=False):
         return KeyParam.from_id(key, allow_unknown_attrs)
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 393467d..7c8fe92 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -282,6 +282,10 @@ class EC2Key(CoseKey):
         
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    @classmethod
+    def _checked_params(cls) -> dict:
+        return {**super()._checked_params(), EC2KpCurve: 'crv', EC2KpX: 'x', EC2KpY: 'y', EC2KpD: 'd'}
+
     def __delitem__(self, key):
         param = self._key_transform(key, allow_unknown_attrs=True)
 
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 93be00c..90bfeb6 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -242,6 +242,10 @@ class OKPKey(CoseKey):
 
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    @classmethod
+    def _checked_params(cls) -> dict:
+        return {**super()._checked_params(), OKPKpCurve: 'crv', OKPKpX: 'x', OKPKpD: 'd'}
+
     def __delitem__(self, key: Union['KeyParam', str, int]):
         param = self._key_transform(key, allow_unknown_attrs=True)
 
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index a6de24b..214641d 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -315,6 +315,11 @@ class RSAKey(CoseKey):
 
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    @classmethod
+    def _checked_params(cls) -> dict:
+        return {**super()._checked_params(), RSAKpN: 'n', RSAKpE: 'e', RSAKpD: 'd', RSAKpP: 'p', RSAKpQ: 'q',
+                RSAKpDP: 'dp', RSAKpDQ: 'dq', RSAKpQInv: 'qinv'}
+
     def __delitem__(self, key: Union['KeyParam', str, int]):
         param = self._key_transform(key, allow_unknown_attrs=True)
 
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 3d2b45b..1686d2f 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -70,6 +70,10 @@ class SymmetricKey(CoseKey):
         else:
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
+    @classmethod
+    def _checked_params(cls) -> dict:
+        return {**super()._checked_params(), SymKpK: 'k'}
+
     def __delitem__(self, key):
         param = self._key_transform(key, allow_unknown_attrs=True)
 
-- 
2.43.0


From 7e18f62204ab5a250ca78b0024c54b3016d5fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 35/43] fix: the operations of RSAES-OAEP can be set on RSA
 keys

---
 pycose/keys/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 214641d..3952e33 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -9,7 +9,7 @@ from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
                                   RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpOther, RSAKpDi, RSAKpRi, RSAKpTi)
 from pycose.keys.keytype import KtyRSA
-from pycose.keys.keyops import SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp
+from pycose.keys.keyops import SignOp, VerifyOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp, DeriveKeyOp, DeriveBitsOp
 
 if TYPE_CHECKING:
     from pycose.keys.keyops import KEYOPS
@@ -293,7 +293,7 @@ class RSAKey(CoseKey):
 
     @key_ops.setter
     def key_ops(self, new_key_ops: List[Type['KEYOPS']]) -> None:
-        supported = {SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp}
+        supported = {SignOp, VerifyOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp, DeriveKeyOp, DeriveBitsOp}
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-- 
2.43.0


From 270237b9fa0976981317f427cfde79c0d693228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:23 +0000
Subject: [PATCH 36/43] fix: the recipients of a COSE_Mac message are checked
 and copied as those of COSE_Encrypt

---
 pycose/messages/macmessage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 2517a08..abd0c9f 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -64,6 +64,21 @@ class MacMessage(maccommon.MacCommon):
         self._recipients = []
         self.recipients = recipients
 
+    @property
+    def recipients(self) -> List['Recipient']:
+        return self._recipients
+
+    @recipients.setter
+    def recipients(self, recipients: Optional[List['Recipient']]) -> None:
+
+        if recipients is None:
+            self._recipients = []
+        else:
+            for r in recipients:
+                if not issubclass(type(r), CoseRecipient):
+                    raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
+            self._recipients = list(recipients)
+
     def encode(self, tag: bool = True, mac: bool = True, *args, **kwargs) -> CBOR:
         """ Encodes and protects the COSE_Mac message. """
 
-- 
2.43.0


From 66938ad6f90f09a4518ad2efbc8b0e22e6e469a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 37/43] fix: a key wrap recipient without a ciphertext is
 refused

---
 pycose/messages/recipient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 38f75e1..cca4589 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -274,7 +274,7 @@ class KeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f"Recipient class KEY_WRAP with alg {alg} must have a zero-length protected header")
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
         return msg
@@ -496,7 +496,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.context = kwargs.get('context')
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-- 
2.43.0


From a8f76c7b683c825c086aa788a72ca14e3163fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 38/43] fix: a received ECDH-ES key wrap recipient without
 ephemeral key is refused

---
 pycose/messages/recipient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index cca4589..f8e2600 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -500,6 +500,10 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
+        alg = msg.get_attr(headers.Algorithm)
+        if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW} and msg.get_attr(headers.EphemeralKey) is None:
+            raise CoseMalformedMessage(f'Recipient class {cls.__name__} must carry an ephemeral COSE key object')
+
         return msg
 
     @property
-- 
2.43.0


From 1ff6911e381bc6f49adee11e8da5737e963ad2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 39/43] fix: verify_tag() of COSE_Mac checks the combination of
 recipients also without a given recipient

---
 pycose/messages/macmessage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index abd0c9f..8a6b796 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -134,12 +134,12 @@ class MacMessage(maccommon.MacCommon):
         :param recipient: The recipient to obtain the MAC key from. When omitted, the key of the message is used.
         """
 
+        r_types = CoseRecipient.verify_recipients(self.recipients)
+
         if recipient is not None:
             if not CoseRecipient.has_recipient(recipient, self.recipients):
                 raise CoseException(f"Cannot find recipient: {recipient}")
 
-            r_types = CoseRecipient.verify_recipients(self.recipients)
-
             # when using direct encryption, the key should already be known
             if DirectEncryption not in r_types:
                 target_algorithm = self.get_attr(headers.Algorithm)
-- 
2.43.0


From 6e4dfc9650fde263c1e4d932b275e61686fbc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 40/43] fix: a direct encryption recipient with an algorithm of
 another class is not sent

---
 pycose/messages/recipient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index f8e2600..082943a 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -238,6 +238,9 @@ class DirectEncryption(CoseRecipient):
         if alg is None:
             raise CoseException("Message must carry an algorithm parameter when using DIRECT_ENCRYPTION mode")
 
+        if alg not in {Direct, DirectHKDFSHA256, DirectHKDFAES256}:
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
+
         if len(self.recipients):
             raise CoseException(f"Recipient class DIRECT_ENCRYPTION cannot carry recipients.")
 
-- 
2.43.0


From 2a34768400ccc8b5c07a9d4da066f80f3ef3c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 41/43] fix: RSA keys keep the parameters of additional primes

---
 pycose/keys/rsa.py | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 3952e33..fe52273 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -285,6 +285,46 @@ class RSAKey(CoseKey):
             raise TypeError("parameter dq must be of type 'bytes'")
         self.store[RSAKpQInv] = qinv
 
+    @property
+    def other(self) -> List[dict]:
+        return self.store.get(RSAKpOther, [])
+
+    @other.setter
+    def other(self, other: List[dict]):
+        if not isinstance(other, list):
+            raise TypeError("parameter other must be of type 'list'")
+        self.store[RSAKpOther] = list(other)
+
+    @property
+    def r_i(self) -> bytes:
+        return self.store.get(RSAKpRi, b'')
+
+    @r_i.setter
+    def r_i(self, r_i: bytes):
+        if type(r_i) is not bytes:
+            raise TypeError("parameter r_i must be of type 'bytes'")
+        self.store[RSAKpRi] = r_i
+
+    @property
+    def d_i(self) -> bytes:
+        return self.store.get(RSAKpDi, b'')
+
+    @d_i.setter
+    def d_i(self, d_i: bytes):
+        if type(d_i) is not bytes:
+            raise TypeError("parameter d_i must be of type 'bytes'")
+        self.store[RSAKpDi] = d_i
+
+    @property
+    def t_i(self) -> bytes:
+        return self.store.get(RSAKpTi, b'')
+
+    @t_i.setter
+    def t_i(self, t_i: bytes):
+        if type(t_i) is not bytes:
+            raise TypeError("parameter t_i must be of type 'bytes'")
+        self.store[RSAKpTi] = t_i
+
     @property
     def key_ops(self) -> List[Type['KEYOPS']]:
         """ Returns the value of the :class:`~pycose.keys.keyparam.KpKeyOps` key parameter """
@@ -318,7 +358,8 @@ class RSAKey(CoseKey):
     @classmethod
     def _checked_params(cls) -> dict:
         return {**super()._checked_params(), RSAKpN: 'n', RSAKpE: 'e', RSAKpD: 'd', RSAKpP: 'p', RSAKpQ: 'q',
-                RSAKpDP: 'dp', RSAKpDQ: 'dq', RSAKpQInv: 'qinv'}
+                RSAKpDP: 'dp', RSAKpDQ: 'dq', RSAKpQInv: 'qinv', RSAKpOther: 'other', RSAKpRi: 'r_i',
+                RSAKpDi: 'd_i', RSAKpTi: 't_i'}
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
         param = self._key_transform(key, allow_unknown_attrs=True)
-- 
2.43.0


From e51c152837869bd0939459245eb689d3bc189ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 42/43] fix: an RSA signature shorter than the modulus does not
 verify

---
 pycose/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 1f31ab4..1e4e5ec 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -111,6 +111,10 @@ class _Rsa(CoseAlgorithm, ABC):
         public_nums = rsa.RSAPublicNumbers(e=int.from_bytes(key.e, 'big'), n=int.from_bytes(key.n, 'big'))
         pk = public_nums.public_key(backend=default_backend())
 
+        # RFC 8017, sections 8.1.2 and 8.2.2: a signature is as long as the modulus
+        if len(signature) != (pk.key_size + 7) // 8:
+            return False
+
         try:
             pk.verify(signature, data, pad, hash_cls())
             return True
-- 
2.43.0


From 947b928942abc3fadd0b405d150afe5dec944bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 43/43] fix: verify certificate chains of a single certificate

---
 pycose/extensions/x509.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 5c1aacb..3d20fdb 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -74,9 +74,12 @@ class X5Chain:
             self.verify_chain({'digital_signature'})
 
     def verify_chain(self, key_usage: Set[str]):
+        # a chain of one certificate is represented by the certificate itself
+        certs = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
+
         val = CertificateValidator(
-            end_entity_cert=self.cert_chain[0],
-            intermediate_certs=self.cert_chain[1:],
+            end_entity_cert=certs[0],
+            intermediate_certs=certs[1:],
         )
         return val.validate_usage(key_usage)
 
-- 
2.43.0

