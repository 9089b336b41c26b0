From d516030a9bafc5726501783417df193dbc6b271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 01/52] fix: get_attr with a default value reported duplicates
 or hid a present unprotected value

---
 pycose/messages/cosebase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index d5b5754..799657d 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -69,16 +69,18 @@ class CoseBase(metaclass=abc.ABCMeta):
         :returns: If found returns a header attribute else 'None' or the default value
         """
 
-        p_attr = self._phdr.get(attribute, default)
-        u_attr = self._uhdr.get(attribute, default)
+        p_attr = self._phdr.get(attribute)
+        u_attr = self._uhdr.get(attribute)
 
         if p_attr is not None and u_attr is not None:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
         if p_attr is not None:
             return p_attr
-        else:
+        elif u_attr is not None:
             return u_attr
+        else:
+            return default
 
     @property
     def phdr(self) -> dict:
-- 
2.43.0


From c59b10acbcb28921623011c67dc3bbd293d75211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 02/52] fix: nonce built from a partial IV lost leading zeroes,
 and a missing or too long partial IV crashed

---
 pycose/messages/enccommon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index f399270..fcb3c6a 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -39,12 +39,13 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
         :returns: plaintext as bytes
         """
 
-        alg = self.get_attr(headers.Algorithm)
-        nonce = self._get_nonce()
-
+        # first check if key is set (since a part of the nonce can be stored in the key)
         if self.key is None:
             raise CoseException("Key cannot be None")
 
+        alg = self.get_attr(headers.Algorithm)
+        nonce = self._get_nonce()
+
         self.key.verify(SymmetricKey, alg, [DecryptOp])
 
         return alg.decrypt(key=self.key, ciphertext=self.payload, aad=self._enc_structure, nonce=nonce)
@@ -83,8 +84,13 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
 
         if nonce is None and self.key.base_iv != b'':
             partial_iv = self.get_attr(headers.PartialIV)
+            if partial_iv is None:
+                raise CoseException('No IV found')
+            if len(partial_iv) > len(self.key.base_iv):
+                raise CoseException('Partial IV is longer than the base IV')
+            # left-pad the partial IV with zeroes, the nonce keeps the length of the base IV
             nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
-            nonce = nonce.to_bytes((nonce.bit_length() + 7) // 8, byteorder="big")
+            nonce = nonce.to_bytes(len(self.key.base_iv), byteorder="big")
 
         if nonce is None and self.key.base_iv == b'':
             raise CoseException('No IV found')
-- 
2.43.0


From 5dafdc355a6252ad3793a8cc67970eb9709a73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 03/52] fix: has_recipient forgot a nested match when a later
 sibling had recipients

---
 pycose/messages/recipient.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 69ab52a..7476d11 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -77,16 +77,13 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
 
     @classmethod
     def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
-        found = False
-
         for r in recipients:
             if target is r:
                 return True
-            else:
-                if len(r.recipients):
-                    found = r.has_recipient(target, r.recipients)
+            elif len(r.recipients) and r.has_recipient(target, r.recipients):
+                return True
 
-        return found
+        return False
 
     @classmethod
     def verify_recipients(cls, recipients: List['Recipient']) -> set:
-- 
2.43.0


From 4ca8e56b49a708b24ac878b83bc1f3dd98e76fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 04/52] fix: deleting a key attribute could remove the last OKP
 key value or refuse a private attribute

---
 pycose/keys/ec2.py       | 10 ++++++----
 pycose/keys/okp.py       |  8 +++++---
 pycose/keys/symmetric.py |  4 +++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 57fcd4c..d6cd072 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -278,12 +278,14 @@ class EC2Key(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != EC2KpCurve:
-            if self._key_transform(key) == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+        attr = self._key_transform(key, allow_unknown_attrs=True)
+
+        if attr != KpKty and attr != EC2KpCurve:
+            if attr == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
                 pass
-            elif self._key_transform(key) == EC2KpX and EC2KpD not in self.store:
+            elif attr == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (self._key_transform(key) == EC2KpX or self._key_transform(key) == EC2KpY) and EC2KpD in self.store:
+            elif (attr == EC2KpX or attr == EC2KpY) and EC2KpD in self.store:
                 super(EC2Key, self).__delitem__(EC2KpX)
                 super(EC2Key, self).__delitem__(EC2KpY)
                 return
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 7950ef0..9689a42 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -243,10 +243,12 @@ class OKPKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
-            if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
+        attr = self._key_transform(key, allow_unknown_attrs=True)
+
+        if attr != KpKty and attr != OKPKpCurve:
+            if attr == OKPKpD and OKPKpX not in self.store:
                 pass
-            if self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif attr == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index a66fdae..e6b9000 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -71,7 +71,9 @@ class SymmetricKey(CoseKey):
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != SymKpK:
+        attr = self._key_transform(key, allow_unknown_attrs=True)
+
+        if attr != KpKty and attr != SymKpK:
             super().__delitem__(key)
         else:
             raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalide COSE Symmetric Key")
-- 
2.43.0


From 91c6939209492177cfed175446cd9c7580c5fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 05/52] fix: assigning recipients appended to the previous list
 instead of replacing it

---
 pycose/messages/encmessage.py | 2 +-
 pycose/messages/recipient.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index cc43e07..b60f1d7 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -135,7 +135,7 @@ class EncMessage(enccommon.EncCommon):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 7476d11..195886e 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -142,7 +142,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def get_kdf_context(self, algorithm: '_EncAlg') -> 'CoseKDFContext':
         """
-- 
2.43.0


From d20d78a25607643cf8152794c3dcf60980a54b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 06/52] fix: recipients carried inside a recipient were dropped
 when decoding

---
 pycose/messages/recipient.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 195886e..d97ec46 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -75,6 +75,17 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         else:
             raise CoseException("No algorithm specified in recipient structure")
 
+    @classmethod
+    def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
+        msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+
+        # a recipient can carry its own list of recipients
+        if len(cose_obj):
+            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient')
+                              for r in cose_obj.pop(0)]
+
+        return msg
+
     @classmethod
     def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
         for r in recipients:
@@ -258,9 +269,6 @@ class KeyWrap(CoseRecipient):
         if msg.payload == b'':
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
@@ -478,9 +486,6 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
-- 
2.43.0


From a5b535f1791ae52cd746a2e82c8f0d527a8157e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 07/52] fix: a malformed recipient made decoding drop the whole
 recipient list silently

---
 pycose/messages/encmessage.py | 4 ++--
 pycose/messages/macmessage.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index b60f1d7..78aeb5c 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -26,10 +26,10 @@ class EncMessage(enccommon.EncCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'EncMessage':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
+        else:
             msg.recipients = []
         return msg
 
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 94befe8..3ec04cf 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -35,11 +35,11 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = None
+        else:
+            msg.recipients = []
 
         return msg
 
-- 
2.43.0


From 0479b98324c7e337ea7d68497b5334cb6d4d43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 08/52] fix: COSE_Mac with key wrap or key agreement
 recipients, or without recipients, crashed

---
 pycose/algorithms.py          |  6 ++++++
 pycose/messages/macmessage.py | 22 ++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8a2b4c0..8d3ff30 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -242,6 +242,12 @@ class _HMAC(CoseAlgorithm, ABC):
     def get_hash_func(cls) -> HashAlgorithm:
         raise NotImplementedError()
 
+    @classmethod
+    def get_key_length(cls) -> int:
+        """ Generated and derived HMAC keys are as long as the output of the hash function. """
+
+        return cls.get_hash_func().digest_size
+
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
         h = HMAC(key.k, cls.get_hash_func(), backend=default_backend())
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 3ec04cf..c54c59d 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -15,12 +15,15 @@ from typing import Optional, List, TYPE_CHECKING
 from pycose import utils, headers
 from pycose.exceptions import CoseException
 from pycose.keys.keyops import MacCreateOp
+from pycose.keys.keyparam import KpAlg, KpKeyOps
+from pycose.keys.symmetric import SymmetricKey
 from pycose.messages import cosemessage, maccommon
 from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyWrap, \
     KeyAgreementWithKeyWrap
 
 if TYPE_CHECKING:
-    from pycose.keys.symmetric import SK, SymmetricKey
+    from pycose.keys.symmetric import SK
+    from pycose.messages.recipient import Recipient
 
 CBOR = bytes
 
@@ -94,7 +97,7 @@ class MacMessage(maccommon.MacCommon):
                 else:
                     key_bytes = r.payload
                 r.encrypt(target_algorithm)
-            self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
+            self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
 
         else:
@@ -102,6 +105,21 @@ class MacMessage(maccommon.MacCommon):
 
         return payload
 
+    @property
+    def recipients(self) -> List['Recipient']:
+        return self._recipients
+
+    @recipients.setter
+    def recipients(self, recipients: Optional[List['Recipient']]) -> None:
+
+        if recipients is None:
+            self._recipients = []
+        else:
+            for r in recipients:
+                if not issubclass(type(r), CoseRecipient):
+                    raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
+            self._recipients = list(recipients)
+
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
 
-- 
2.43.0


From af46b2eaee0e42afb888d23f35947b072d352abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 09/52] fix: recipients before one with a preset CEK were given
 a different, random CEK

---
 pycose/messages/encmessage.py |  7 +------
 pycose/messages/macmessage.py |  7 +------
 pycose/messages/recipient.py  | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 78aeb5c..062a1e6 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -1,4 +1,3 @@
-import os
 from typing import List, Optional, TYPE_CHECKING
 
 from pycose import utils, headers
@@ -86,12 +85,8 @@ class EncMessage(enccommon.EncCommon):
             payload = super(EncMessage, self).encrypt()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            key_bytes = CoseRecipient.setup_cek(self.recipients, target_algorithm)
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [EncryptOp]})
             payload = super(EncMessage, self).encrypt()
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index c54c59d..3d00dd9 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -9,7 +9,6 @@ COSE_Mac = [
 ]
 """
 
-import os
 from typing import Optional, List, TYPE_CHECKING
 
 from pycose import utils, headers
@@ -89,13 +88,9 @@ class MacMessage(maccommon.MacCommon):
             payload = super(MacMessage, self).compute_tag()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            key_bytes = CoseRecipient.setup_cek(self.recipients, target_algorithm)
 
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index d97ec46..883f08b 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -111,6 +111,22 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
 
         return r_types
 
+    @classmethod
+    def setup_cek(cls, recipients: List['Recipient'], target_alg: '_EncAlg') -> bytes:
+        """ Gives all recipients the same content encryption key: a preset one or else a random one. """
+
+        preset = [r.payload for r in recipients if r.payload]
+
+        if any(cek != preset[0] for cek in preset):
+            raise CoseException('Recipients of one message must carry the same content encryption key')
+
+        cek = preset[0] if len(preset) else os.urandom(target_alg.get_key_length())
+
+        for r in recipients:
+            r.payload = cek
+
+        return cek
+
     def __init__(self,
                  phdr: Optional[dict] = None,
                  uhdr: Optional[dict] = None,
-- 
2.43.0


From 14c64541244e9657b639eb20ce0cad9845edd982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 10/52] fix: direct key agreement with an ephemeral key crashed
 unless the caller made the key

---
 pycose/messages/recipient.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 883f08b..f40d124 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -473,6 +473,13 @@ class DirectKeyAgreement(CoseRecipient):
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
 
+        # if ephemeral and not set, generate ephemeral key pair
+        if self.key is None:
+            if ops == "encrypt" and alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
+                self._setup_ephemeral_key(peer_key)
+            else:
+                raise CoseException("Key cannot be None")
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 15db02660cff86eb80b0973053b7253b7aaffc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 11/52] fix: signatures in COSE_Sign left out the field of an
 empty signer protected header

---
 pycose/messages/signer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index a186388..db405bc 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -50,12 +50,15 @@ class CoseSignature(SignCommon):
         self._payload = value
 
     def _create_sig_structure(self, detached_payload: Optional[bytes] = None):
-        sign_structure = [self._parent.context, self._parent.phdr_encoded]
+        sign_structure = [self._parent.context]
 
-        if len(self.phdr):
-            sign_structure.append(self.phdr_encoded)
+        # empty maps are always represented by a zero-length byte string
+        if len(self._parent.phdr):
+            sign_structure.append(self._parent.phdr_encoded)
+        else:
+            sign_structure.append(b'')
 
-        sign_structure.append(self.external_aad)
+        sign_structure = self._base_structure(sign_structure)
 
         if detached_payload is None:
             if self._parent.payload is None:
-- 
2.43.0


From bdf4754f199f6e05e1d6417f02cd256fe615b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 12/52] fix: KDF context re-encoded the protected header, with
 an empty one as a map, and never checked the key length

---
 pycose/messages/context.py   | 16 ++++++++++++----
 pycose/messages/recipient.py |  4 +++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index d21e4b4..8e2aa83 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Optional, Union
 
 import attr
 import cbor2
@@ -24,7 +24,7 @@ class PartyInfo:
 @attr.s(slots=True)
 class SuppPubInfo:
     _key_data_length: int = attr.ib()
-    protected: dict = attr.ib(factory=dict)
+    protected: Union[dict, bytes] = attr.ib(factory=dict)
     other: bytes = attr.ib(default=b'')
 
     @property
@@ -42,14 +42,22 @@ class SuppPubInfo:
         else:
             raise ValueError(f"Not a valid key length: {new_length}")
 
-    def __attrs_post__init__(self):
+    def __attrs_post_init__(self):
         if self._key_data_length not in [16, 24, 32]:
             raise ValueError(f"Not a valid key length: {self._key_data_length}")
 
     def encode(self) -> list:
         """ Encodes the supplementary public information. """
 
-        info = [self.key_data_length * 8, cbor2.dumps(self.protected, default=self._custom_cbor_encoder)]
+        if isinstance(self.protected, bytes):
+            # already serialized
+            protected = self.protected
+        elif len(self.protected):
+            protected = cbor2.dumps(self.protected, default=self._custom_cbor_encoder)
+        else:
+            protected = b''
+
+        info = [self.key_data_length * 8, protected]
         if self.other != b'':
             info.append(self.other)
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index f40d124..891a291 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -189,7 +189,9 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         v_other = self.get_attr(headers.PartyVOther)
         v = PartyInfo(v_id, v_nonce, v_other)
 
-        supp_pub = SuppPubInfo(algorithm.get_key_length(), self.phdr, self.local_attrs.get(headers.SuppPubOther, b''))
+        supp_pub = SuppPubInfo(algorithm.get_key_length(),
+                               self.phdr_encoded if len(self.phdr) else b'',
+                               self.local_attrs.get(headers.SuppPubOther, b''))
         supp_priv = self.local_attrs.get(headers.SuppPrivOther, b'')
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
-- 
2.43.0


From 23e04cac785c4350ce160385463427d7e6123eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 13/52] fix: the salt header parameter was ignored in key
 derivation

---
 pycose/algorithms.py         | 5 +++--
 pycose/messages/recipient.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8d3ff30..06ccc52 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -307,10 +307,11 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
         return shared_key
 
     @classmethod
-    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext') -> bytes:
+    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext',
+                   salt: Optional[bytes] = None) -> bytes:
         shared_secret = cls._ecdh(curve, private_key, public_key)
 
-        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=None,
+        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=salt,
                    info=context.encode(),
                    backend=default_backend())
         return kdf.derive(shared_secret)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 891a291..1828193 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -456,7 +456,8 @@ class DirectKeyAgreement(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  self.get_attr(headers.Salt))
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> 'SK':
         alg = self.get_attr(headers.Algorithm)
@@ -543,7 +544,8 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  self.get_attr(headers.Salt))
         return key_bytes
 
     def encrypt(self, target_alg) -> bytes:
-- 
2.43.0


From ce86a23fe8fd7490709bdc266e84c234585fd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 14/52] fix: ECDSA and ECDH used a key's numbers on another
 curve than the key's own

---
 pycose/algorithms.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 06ccc52..322624f 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -169,6 +169,9 @@ class _RsaPkcs1(_Rsa, ABC):
 
 
 class _Ecdsa(CoseAlgorithm, ABC):
+    #: COSE names of the curves used with these algorithms
+    _curve_names = {NIST256p.name: "P_256", NIST384p.name: "P_384", NIST521p.name: "P_521"}
+
     @classmethod
     @abstractmethod
     def get_curve(cls):
@@ -179,14 +182,23 @@ class _Ecdsa(CoseAlgorithm, ABC):
     def get_hash_func(cls):
         raise NotImplementedError()
 
+    @classmethod
+    def _verify_curve(cls, key: 'EC2') -> None:
+        if key.crv.fullname != cls._curve_names[cls.get_curve().name]:
+            raise CoseException(f"Illegal curve for {cls.fullname}: {key.crv}")
+
     @classmethod
     def sign(cls, key: 'EC2', data: bytes) -> bytes:
+        cls._verify_curve(key)
+
         sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())
 
         return sk.sign_deterministic(data, hashfunc=cls.get_hash_func())
 
     @classmethod
     def verify(cls, key: 'EC2', data: bytes, signature: bytes) -> bool:
+        cls._verify_curve(key)
+
         p = Point(curve=cls.get_curve().curve, x=int(hexlify(key.x), 16), y=int(hexlify(key.y), 16))
 
         vk = VerifyingKey.from_public_point(p, cls.get_curve(), cls.get_hash_func(), validate_point=True)
@@ -295,6 +307,9 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
 
     @classmethod
     def _ecdh(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2') -> bytes:
+        if private_key.crv.identifier != public_key.crv.identifier:
+            raise CoseException("The private and public key must be on the same curve")
+
         d_value = int(hexlify(private_key.d), 16)
         x_value = int(hexlify(public_key.x), 16)
         y_value = int(hexlify(public_key.y), 16)
-- 
2.43.0


From d1da9c14267e5527cc82aa8886098dec214bcef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 15/52] fix: key wrap recipients ignored the algorithm and key
 operations of the caller's key

---
 pycose/messages/recipient.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 1828193..2adcfc0 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -336,6 +336,10 @@ class KeyWrap(CoseRecipient):
         if self.key is None:
             raise CoseException("No key found to decrypt the CEK")
 
+        self.key.verify(SymmetricKey,
+                        self.get_attr(headers.Algorithm),
+                        [WrapOp, EncryptOp] if ops == 'encrypt' else [UnwrapOp, DecryptOp])
+
         return self.key.k
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> Optional['SK']:
@@ -569,6 +573,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         key_bytes = self._compute_kek((self.get_attr(headers.Algorithm)).get_key_wrap_func(), peer_key, self.key, alg)
         wrap_func = alg.get_key_wrap_func()
 
@@ -586,6 +593,12 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
 
+        if peer_key is None or self.key is None:
+            raise CoseException("Both the public key of the sender and the key of the receiver must be known")
+
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
 
-- 
2.43.0


From e68cf392a715967017bd7f96547aecfc55f4c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 16/52] fix: SHAKE128 and SHAKE256 could not be computed

---
 pycose/algorithms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 322624f..1dab75e 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -46,11 +46,16 @@ class CoseAlgorithm(_CoseAttribute, ABC):
 class _HashAlg(CoseAlgorithm, ABC):
     #: Set in derived class to hash constructor
     hash_cls = None
+    #: Set in derived class to the digest size in byte count, for hashes with a variable output
+    digest_size: Optional[int] = None
     #: Set in derived class to optional truncation size in byte count
     trunc_size: Optional[int] = None
 
     @classmethod
     def get_hash_func(cls) -> HashAlgorithm:
+        if cls.digest_size:
+            return cls.hash_cls(cls.digest_size)
+
         return cls.hash_cls()
 
     @classmethod
@@ -456,6 +461,7 @@ class Shake256(_HashAlg):
     identifier = -45
     fullname = "SHAKE-256"
     hash_cls = SHAKE256
+    digest_size = 64
 
 
 @CoseAlgorithm.register_attribute()
@@ -896,6 +902,7 @@ class Shake128(_HashAlg):
     identifier = -18
     fullname = "SHAKE-128"
     hash_cls = SHAKE128
+    digest_size = 32
 
 
 @CoseAlgorithm.register_attribute()
-- 
2.43.0


From 72b67ffd3015ec51f3e7dcc8dec9da9fe545fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 17/52] fix: EC2 keys with a compressed y coordinate got the
 wrong point or were rejected

---
 pycose/keys/ec2.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index d6cd072..bd54a0e 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -102,7 +102,7 @@ class EC2Key(CoseKey):
     def __init__(self,
                  crv: Union[Type['CoseCurve'], str, int],
                  x: bytes = b'',
-                 y: bytes = b'',
+                 y: Union[bytes, bool] = b'',
                  d: bytes = b'',
                  optional_params: Optional[dict] = None,
                  allow_unknown_key_attrs: bool = True):
@@ -155,16 +155,21 @@ class EC2Key(CoseKey):
             else:
                 x = public_nums.x.to_bytes(self.crv.size, 'big')
 
-            if y:
+            if isinstance(y, bool):
+                # sign bit of a compressed point
+                assert y == bool(public_nums.y & 1)
+                y = public_nums.y.to_bytes(self.crv.size, 'big')
+            elif y:
                 assert y == public_nums.y.to_bytes(self.crv.size, 'big')
             else:
                 y = public_nums.y.to_bytes(self.crv.size, 'big')
 
-        if x and not y:
-            # try to derive y from x
+        if x and (isinstance(y, bool) or not y):
+            # try to derive y from x, a boolean y is the sign bit of a compressed point
             key = ec.EllipticCurvePublicKey.from_encoded_point(self.crv.curve_obj,
-                                                               # don't care which of the two possible Y values we get
-                                                               b'\x03' +
+                                                               # without sign bit, we don't care which of the two
+                                                               # possible Y values we get
+                                                               (b'\x02' if y is False else b'\x03') +
                                                                x  # or [::-1]?
                                                                )
             # Just to check the endianness of the conversions -- if we get the
-- 
2.43.0


From 96c40afa78fc391dec0bb196209cde5bdc8743df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 18/52] fix: a rejected list of key operations was stored
 nevertheless and an empty list did not clear them

---
 pycose/keys/cosekey.py   | 5 ++++-
 pycose/keys/ec2.py       | 4 ++--
 pycose/keys/okp.py       | 4 ++--
 pycose/keys/rsa.py       | 4 ++--
 pycose/keys/symmetric.py | 4 ++--
 5 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 119840b..3507fd8 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -263,7 +263,10 @@ class CoseKey(MutableMapping, ABC):
 
     @key_ops.setter
     def key_ops(self, new_key_ops: List[Type['KEYOPS']]) -> None:
-        if isinstance(new_key_ops, list):
+        if isinstance(new_key_ops, list) and len(new_key_ops) == 0:
+            # no restrictions, the parameter cannot be an empty array
+            self.store.pop(KpKeyOps, None)
+        elif isinstance(new_key_ops, list):
             self.store[KpKeyOps] = [KeyOps.from_id(k) for k in new_key_ops]
         else:
             raise ValueError("Key operations should be a list with KeyOps values.")
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index bd54a0e..0c40e0c 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -258,8 +258,8 @@ class EC2Key(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {EC2Key.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 9689a42..4782b16 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -218,8 +218,8 @@ class OKPKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {OKPKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index c2d7b45..2420927 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -296,8 +296,8 @@ class RSAKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_bits: int, optional_params: dict = None) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index e6b9000..4fe8fc2 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -106,8 +106,8 @@ class SymmetricKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {SymmetricKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_len: int, optional_params: dict = None) -> 'SymmetricKey':
-- 
2.43.0


From 966875a67b767fc2fd5f18e30c30d0f75d554f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 19/52] fix: X448 coordinates are 56 bytes long

---
 pycose/keys/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/curves.py b/pycose/keys/curves.py
index 056ecea..f817793 100644
--- a/pycose/keys/curves.py
+++ b/pycose/keys/curves.py
@@ -170,14 +170,14 @@ class X448(CoseCurve):
 
         **key_type**       *KtyOKP*
 
-        **size**           *57*
+        **size**           *56*
     """
 
     identifier = 5
     fullname = "X448"
     curve_obj = x448.X448PrivateKey
     key_type = KtyOKP
-    size = 57
+    size = 56
 
 
 @CoseCurve.register_attribute()
-- 
2.43.0


From d7d1f21e837cd391cabadfc460f038eee3b04712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 20/52] fix: AES algorithms accepted keys of another length
 than their own

---
 pycose/algorithms.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 1dab75e..f31d8d8 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -20,7 +20,7 @@ from ecdsa.curves import Curve, NIST521p, NIST384p, NIST256p
 from ecdsa.ellipticcurve import Point
 from ecdsa.keys import SigningKey, VerifyingKey, BadSignatureError
 
-from pycose.exceptions import CoseException
+from pycose.exceptions import CoseException, CoseInvalidKey
 from pycose.headers import Algorithm
 from pycose.utils import _CoseAttribute
 
@@ -76,6 +76,11 @@ class _EncAlg(CoseAlgorithm, ABC):
     def get_key_length(cls) -> int:
         raise NotImplementedError()
 
+    @classmethod
+    def _verify_key_length(cls, key: 'SK') -> None:
+        if len(key.k) != cls.get_key_length():
+            raise CoseInvalidKey(f"Key has the wrong length for {cls.fullname}")
+
 
 class _Rsa(CoseAlgorithm, ABC):
     """ RSA signing and (key-wrap) encryption. """
@@ -220,8 +225,16 @@ class _AesMac(CoseAlgorithm, ABC):
     def get_digest_length(cls) -> int:
         raise NotImplementedError()
 
+    @classmethod
+    @abstractmethod
+    def get_key_length(cls) -> int:
+        raise NotImplementedError()
+
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
+        if len(key.k) != cls.get_key_length():
+            raise CoseInvalidKey(f"Key has the wrong length for {cls.fullname}")
+
         encryptor = Cipher(AES(key.k),
                            modes.CBC(unhexlify(b''.join([b'00'] * 16))),
                            backend=default_backend()).encryptor()
@@ -341,11 +354,13 @@ class _AesGcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESGCM(key=key.k)
         return cipher.encrypt(nonce=nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESGCM(key=key.k)
         return cipher.decrypt(nonce=nonce, data=ciphertext, associated_data=aad)
 
@@ -359,11 +374,13 @@ class _AesCcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESCCM(key.k, tag_length=cls.get_tag_length())
         return cipher.encrypt(nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        cls._verify_key_length(key)
         cipher = AESCCM(key=key.k, tag_length=cls.get_tag_length())
         return cipher.decrypt(nonce, data=ciphertext, associated_data=aad)
 
-- 
2.43.0


From 595999a3bf87406244b7131a79a3d5567aa2ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 21/52] fix: decoding a key of an unknown type raised KeyError

---
 pycose/keys/cosekey.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 3507fd8..a0d7e7d 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -86,15 +86,18 @@ class CoseKey(MutableMapping, ABC):
         """
 
         if KpKty in received:
-            key_obj = cls._key_types[received[KpKty]].from_dict(received)
+            kty = received[KpKty]
         elif KpKty.identifier in received:
-            key_obj = cls._key_types[received[KpKty.identifier]].from_dict(received)
+            kty = received[KpKty.identifier]
         elif KpKty.fullname in received:
-            key_obj = cls._key_types[received[KpKty.fullname]].from_dict(received)
+            kty = received[KpKty.fullname]
         else:
+            kty = None
+
+        if kty not in cls._key_types:
             raise CoseIllegalKeyType("Could not decode CoseKey type, KpKty not set or unknown.")
 
-        return key_obj
+        return cls._key_types[kty].from_dict(received)
 
     @staticmethod
     def from_pem_private_key(
-- 
2.43.0


From 38ecad0b00fe5c4a23e5cfd381546e7103c6d36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 22/52] fix: base64decode returned None for a string of an
 impossible length

---
 pycose/keys/cosekey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index a0d7e7d..93c8ff2 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -170,6 +170,8 @@ class CoseKey(MutableMapping, ABC):
             to_decode = to_decode + "="
             return base64.b64decode(to_decode)
 
+        raise ValueError("Invalid length of the BASE64 encoded key")
+
     @staticmethod
     def base64encode(to_encode: bytes) -> str:
         """
-- 
2.43.0


From 0b9512eec6feec3cb79a031ceb174470a9a401ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 23/52] fix: verify X5Chain of a single certificate

---
 pycose/extensions/x509.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 5c1aacb..5039b76 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -74,9 +74,11 @@ class X5Chain:
             self.verify_chain({'digital_signature'})
 
     def verify_chain(self, key_usage: Set[str]):
+        # a chain of one certificate is kept as that certificate
+        chain = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
         val = CertificateValidator(
-            end_entity_cert=self.cert_chain[0],
-            intermediate_certs=self.cert_chain[1:],
+            end_entity_cert=chain[0],
+            intermediate_certs=chain[1:],
         )
         return val.validate_usage(key_usage)
 
-- 
2.43.0


From 22303b70a1dcb134869e5e5cf974884a2914f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 24/52] fix: RSA key wrap without a key raises CoseException

---
 pycose/messages/recipient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 2adcfc0..99a2248 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -368,6 +368,8 @@ class KeyWrap(CoseRecipient):
             kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
+            if kek is None:
+                raise CoseException("No key found to encrypt the CEK")
             kek.verify(RSAKey, alg, [WrapOp, EncryptOp])
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} for {self.__name__}")
@@ -385,6 +387,8 @@ class KeyWrap(CoseRecipient):
             kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
+            if kek is None:
+                raise CoseException("No key found to decrypt the CEK")
             kek.verify(RSAKey, alg, [UnwrapOp, DecryptOp])
         else:
             raise CoseException(f"Unsupported algorithm for key unwrapping: {alg}")
-- 
2.43.0


From c213f7f5cc8c7838781fce2e7492faabe5dc7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:20 +0000
Subject: [PATCH 25/52] fix: a protected header of nil was decoded as an empty
 one

---
 pycose/messages/cosebase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 799657d..44f1d96 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -22,6 +22,9 @@ class CoseBase(metaclass=abc.ABCMeta):
         phdr_encoded = cose_obj.pop(0)
         uhdr = cose_obj.pop(0)
 
+        if not isinstance(phdr_encoded, bytes):
+            raise TypeError("encoded protected header should be of type 'bytes'")
+
         return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
-- 
2.43.0


From c509bf27133e9f6f76272ce5fc562d29cc191e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 26/52] fix: refuse signatures and tags that are not byte
 strings when decoding

---
 pycose/messages/mac0message.py  | 3 +++
 pycose/messages/macmessage.py   | 3 +++
 pycose/messages/sign1message.py | 2 +-
 pycose/messages/signer.py       | 3 +++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pycose/messages/mac0message.py b/pycose/messages/mac0message.py
index 383c6cd..6ca4311 100644
--- a/pycose/messages/mac0message.py
+++ b/pycose/messages/mac0message.py
@@ -26,6 +26,9 @@ class Mac0Message(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
+        if not isinstance(msg.auth_tag, bytes):
+            raise TypeError("authentication tag should be of type 'bytes'")
+
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 3d00dd9..f795630 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -37,6 +37,9 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
+        if not isinstance(msg.auth_tag, bytes):
+            raise TypeError("authentication tag should be of type 'bytes'")
+
         if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
diff --git a/pycose/messages/sign1message.py b/pycose/messages/sign1message.py
index d46448a..c6be58c 100644
--- a/pycose/messages/sign1message.py
+++ b/pycose/messages/sign1message.py
@@ -23,7 +23,7 @@ class Sign1Message(SignCommon):
     @classmethod
     def from_cose_obj(cls, cose_obj, allow_unknown_attributes: bool) -> 'Sign1Message':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
-        msg._signature = cose_obj.pop(0)
+        msg.signature = cose_obj.pop(0)
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index db405bc..8ed99b8 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -19,6 +19,9 @@ class CoseSignature(SignCommon):
 
         msg: 'CoseSignature' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
+        if not isinstance(msg.signature, bytes):
+            raise TypeError("Signature must be of type 'bytes'")
+
         return msg
 
     def __init__(self,
-- 
2.43.0


From a0ef8d65ea9d34bdb365a521c865bb502449ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:43 +0000
Subject: [PATCH 27/52] fix: an unprotected header of nil was decoded as an
 empty one

---
 pycose/messages/cosebase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 44f1d96..f729ced 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -25,6 +25,9 @@ class CoseBase(metaclass=abc.ABCMeta):
         if not isinstance(phdr_encoded, bytes):
             raise TypeError("encoded protected header should be of type 'bytes'")
 
+        if type(uhdr) is not dict:
+            raise TypeError("unprotected header should be of type 'dict'")
+
         return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
-- 
2.43.0


From 7c1434d442def4fe09b89dd5b546de65d3706e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 28/52] fix: SignMessage took objects that are no signers, and
 adopted part of a refused list

---
 pycose/messages/signmessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index e35df1e..c5b8761 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -65,6 +65,8 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
     @signers.setter
     def signers(self, signers: List['Signer']):
         if isinstance(signers, list):
+            if not all(isinstance(s, CoseSignature) for s in signers):
+                raise TypeError("Signers must be of type 'CoseSignature'")
             for s in signers:
                 s._parent = self
             self._signers = signers
-- 
2.43.0


From e1289b6d4bb6a442ad3dc9e831ae6d61f970f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 29/52] fix: KDF contexts shared one default PartyInfo

---
 pycose/messages/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index 8e2aa83..0f78d60 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -72,8 +72,8 @@ class SuppPubInfo:
 class CoseKDFContext:
     algorithm: '_EncAlg' = attr.ib()
     supp_pub_info: SuppPubInfo = attr.ib()
-    party_u_info: PartyInfo = attr.ib(default=PartyInfo())
-    party_v_info: PartyInfo = attr.ib(default=PartyInfo())
+    party_u_info: PartyInfo = attr.ib(factory=PartyInfo)
+    party_v_info: PartyInfo = attr.ib(factory=PartyInfo)
     supp_priv_info: bytes = attr.ib(default=b'')
 
     def encode(self) -> CBOR:
-- 
2.43.0


From cbe4f4d5d11f950760537fdc22e66f50a0adf6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 30/52] fix: surplus elements of messages, signers and
 recipients, and lists of signers or recipients of another type, were dropped
 silently

---
 pycose/messages/cosemessage.py |  3 +++
 pycose/messages/encmessage.py  |  4 ++--
 pycose/messages/macmessage.py  |  4 ++--
 pycose/messages/recipient.py   | 14 ++++++++++++--
 pycose/messages/signer.py      |  4 ++++
 pycose/messages/signmessage.py |  6 +++++-
 6 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/pycose/messages/cosemessage.py b/pycose/messages/cosemessage.py
index 817d449..acf5737 100644
--- a/pycose/messages/cosemessage.py
+++ b/pycose/messages/cosemessage.py
@@ -66,6 +66,9 @@ class CoseMessage(CoseBase, metaclass=abc.ABCMeta):
             except KeyError as e:
                 raise KeyError("CBOR tag is not recognized", e)
 
+            if len(cose_obj):
+                raise TypeError("COSE message has too many elements")
+
             if not isinstance(decoded, cls):
                 raise TypeError(f"CBOR tag {cbor_tag} does not match the expected message type {cls.__name__}.")
 
diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 062a1e6..1cc8497 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -26,8 +26,8 @@ class EncMessage(enccommon.EncCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         if len(cose_obj):
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
-                              in cose_obj.pop(0)]
+            msg.recipients = CoseRecipient.create_recipients(cose_obj.pop(0), allow_unknown_attributes,
+                                                             context='Enc_Recipient')
         else:
             msg.recipients = []
         return msg
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index f795630..8c61131 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -41,8 +41,8 @@ class MacMessage(maccommon.MacCommon):
             raise TypeError("authentication tag should be of type 'bytes'")
 
         if len(cose_obj):
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
-                              in cose_obj.pop(0)]
+            msg.recipients = CoseRecipient.create_recipients(cose_obj.pop(0), allow_unknown_attributes,
+                                                             context='Mac_Recipient')
         else:
             msg.recipients = []
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 99a2248..adc6f5f 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -75,14 +75,24 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         else:
             raise CoseException("No algorithm specified in recipient structure")
 
+    @classmethod
+    def create_recipients(cls, recipients: list, allow_unknown_attributes: bool, context: str) -> List['CoseRecipient']:
+        if not isinstance(recipients, list):
+            raise TypeError("recipients should be of type 'list'")
+
+        return [cls.create_recipient(r, allow_unknown_attributes, context) for r in recipients]
+
     @classmethod
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         # a recipient can carry its own list of recipients
         if len(cose_obj):
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient')
-                              for r in cose_obj.pop(0)]
+            msg.recipients = CoseRecipient.create_recipients(cose_obj.pop(0), allow_unknown_attributes,
+                                                             context='Rec_Recipient')
+
+        if len(cose_obj):
+            raise TypeError("COSE_recipient has too many elements")
 
         return msg
 
diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index 8ed99b8..1cdbb96 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -19,6 +19,10 @@ class CoseSignature(SignCommon):
 
         msg: 'CoseSignature' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
+        if len(cose_obj):
+            raise TypeError("COSE_Signature has too many elements")
+
+
         if not isinstance(msg.signature, bytes):
             raise TypeError("Signature must be of type 'bytes'")
 
diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index c5b8761..1eb9118 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -32,7 +32,11 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
         msg: '_SignMessage' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         signers = []
-        for r in cose_obj.pop(0):
+        cose_signatures = cose_obj.pop(0)
+        if not isinstance(cose_signatures, list):
+            raise TypeError("signatures should be of type 'list'")
+
+        for r in cose_signatures:
             signers.append(CoseSignature.from_cose_obj(r, allow_unknown_attributes))
 
         msg.signers = signers
-- 
2.43.0


From be2ed08906395bfdc55ebd45173598c5257f61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 31/52] fix: assigning a key type stored a key parameter, and
 took the type of another key class

---
 pycose/keys/cosekey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 93c8ff2..e0e30f8 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -236,7 +236,10 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KpKty.from_id(kty)
+        kty = KpKty.value_parser(kty)
+        if kty != self.kty:
+            raise CoseIllegalKeyType(f"Illegal key type for {type(self).__name__}: {kty}")
+        self.store[KpKty] = kty
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From ae42d7ccb4a917fbeabe2f41d0b7adff891913f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 32/52] fix: keys with more than two primes lost their
 additional parameters when encoded

---
 pycose/keys/rsa.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 2420927..1810ef6 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -284,6 +284,46 @@ class RSAKey(CoseKey):
             raise TypeError("parameter dq must be of type 'bytes'")
         self.store[RSAKpQInv] = qinv
 
+    @property
+    def other(self) -> List[dict]:
+        return self.store.get(RSAKpOther, [])
+
+    @other.setter
+    def other(self, other: List[dict]):
+        if type(other) is not list:
+            raise TypeError("parameter other must be of type 'list'")
+        self.store[RSAKpOther] = other
+
+    @property
+    def r_i(self) -> bytes:
+        return self.store.get(RSAKpRi, b'')
+
+    @r_i.setter
+    def r_i(self, r_i: bytes):
+        if type(r_i) is not bytes:
+            raise TypeError("parameter r_i must be of type 'bytes'")
+        self.store[RSAKpRi] = r_i
+
+    @property
+    def d_i(self) -> bytes:
+        return self.store.get(RSAKpDi, b'')
+
+    @d_i.setter
+    def d_i(self, d_i: bytes):
+        if type(d_i) is not bytes:
+            raise TypeError("parameter d_i must be of type 'bytes'")
+        self.store[RSAKpDi] = d_i
+
+    @property
+    def t_i(self) -> bytes:
+        return self.store.get(RSAKpTi, b'')
+
+    @t_i.setter
+    def t_i(self, t_i: bytes):
+        if type(t_i) is not bytes:
+            raise TypeError("parameter t_i must be of type 'bytes'")
+        self.store[RSAKpTi] = t_i
+
     @property
     def key_ops(self) -> List[Type['KEYOPS']]:
         """ Returns the value of the :class:`~pycose.keys.keyparam.KpKeyOps` key parameter """
-- 
2.43.0


From 923b181054771adfbbdd2e6bfb4acdfc8d596694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 33/52] fix: deleting a parameter of an RSA key could leave no
 valid key

---
 pycose/keys/rsa.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 1810ef6..d9fe57a 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -354,6 +354,17 @@ class RSAKey(CoseKey):
 
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    def __delitem__(self, key: Union['KeyParam', str, int]):
+        attr = self._key_transform(key, allow_unknown_attrs=True)
+
+        rsa_params = {RSAKpN, RSAKpE, RSAKpD, RSAKpP, RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpOther, RSAKpRi,
+                      RSAKpDi, RSAKpTi}
+
+        if attr == KpKty or (attr in self.store and attr in rsa_params):
+            raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalid COSE RSA Key")
+
+        super(RSAKey, self).__delitem__(key)
+
     def __repr__(self):
         hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
         return hdr
-- 
2.43.0


From 11088c65e6bc6d3e20f393ace26f6c6004f0327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 34/52] fix: assigning an empty value to a key parameter left a
 key that does not decode

---
 pycose/keys/ec2.py |  6 ++++++
 pycose/keys/okp.py |  4 ++++
 pycose/keys/rsa.py | 24 ++++++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 0c40e0c..c9be712 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -216,6 +216,8 @@ class EC2Key(CoseKey):
     def x(self, x: bytes):
         if type(x) is not bytes:
             raise TypeError("public x coordinate must be of type 'bytes'")
+        if not len(x):
+            raise CoseInvalidKey("public x coordinate cannot be empty")
         self.store[EC2KpX] = x
 
     @property
@@ -230,6 +232,8 @@ class EC2Key(CoseKey):
     def y(self, y: bytes):
         if type(y) is not bytes:
             raise TypeError("public y coordinate must be of type 'bytes'")
+        if not len(y):
+            raise CoseInvalidKey("public y coordinate cannot be empty")
         self.store[EC2KpY] = y
 
     @property
@@ -244,6 +248,8 @@ class EC2Key(CoseKey):
     def d(self, d: bytes):
         if type(d) is not bytes:
             raise TypeError("private key must be of type 'bytes'")
+        if not len(d):
+            raise CoseInvalidKey("private key cannot be empty")
         self.store[EC2KpD] = d
 
     @property
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 4782b16..6e936c2 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -190,6 +190,8 @@ class OKPKey(CoseKey):
     def x(self, x: bytes):
         if type(x) is not bytes:
             raise TypeError("Public x-coordinate must be of type 'bytes'")
+        if not len(x):
+            raise CoseInvalidKey("Public x-coordinate cannot be empty")
         self.store[OKPKpX] = x
 
     @property
@@ -204,6 +206,8 @@ class OKPKey(CoseKey):
     def d(self, d: bytes):
         if type(d) is not bytes:
             raise TypeError("Private key must be of type 'bytes'")
+        if not len(d):
+            raise CoseInvalidKey("Private key cannot be empty")
         self.store[OKPKpD] = d
 
     @property
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index d9fe57a..b2c3860 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -212,6 +212,8 @@ class RSAKey(CoseKey):
     def n(self, n: bytes):
         if type(n) is not bytes:
             raise TypeError("parameter n must be of type 'bytes'")
+        if not len(n):
+            raise CoseInvalidKey("parameter n cannot be empty")
         self.store[RSAKpN] = n
 
     @property
@@ -222,6 +224,8 @@ class RSAKey(CoseKey):
     def e(self, e: bytes):
         if type(e) is not bytes:
             raise TypeError("parameter e must be of type 'bytes'")
+        if not len(e):
+            raise CoseInvalidKey("parameter e cannot be empty")
         self.store[RSAKpE] = e
 
     @property
@@ -232,6 +236,8 @@ class RSAKey(CoseKey):
     def d(self, d: bytes):
         if type(d) is not bytes:
             raise TypeError("parameter d must be of type 'bytes'")
+        if not len(d):
+            raise CoseInvalidKey("parameter d cannot be empty")
         self.store[RSAKpD] = d
 
     @property
@@ -242,6 +248,8 @@ class RSAKey(CoseKey):
     def p(self, p: bytes):
         if type(p) is not bytes:
             raise TypeError("parameter p must be of type 'bytes'")
+        if not len(p):
+            raise CoseInvalidKey("parameter p cannot be empty")
         self.store[RSAKpP] = p
 
     @property
@@ -252,6 +260,8 @@ class RSAKey(CoseKey):
     def q(self, q: bytes):
         if type(q) is not bytes:
             raise TypeError("parameter q must be of type 'bytes'")
+        if not len(q):
+            raise CoseInvalidKey("parameter q cannot be empty")
         self.store[RSAKpQ] = q
 
     @property
@@ -262,6 +272,8 @@ class RSAKey(CoseKey):
     def dp(self, dp: bytes):
         if type(dp) is not bytes:
             raise TypeError("parameter dp must be of type 'bytes'")
+        if not len(dp):
+            raise CoseInvalidKey("parameter dp cannot be empty")
         self.store[RSAKpDP] = dp
 
     @property
@@ -272,6 +284,8 @@ class RSAKey(CoseKey):
     def dq(self, dq: bytes):
         if type(dq) is not bytes:
             raise TypeError("parameter dq must be of type 'bytes'")
+        if not len(dq):
+            raise CoseInvalidKey("parameter dq cannot be empty")
         self.store[RSAKpDQ] = dq
 
     @property
@@ -282,6 +296,8 @@ class RSAKey(CoseKey):
     def qinv(self, qinv: bytes):
         if type(qinv) is not bytes:
             raise TypeError("parameter dq must be of type 'bytes'")
+        if not len(qinv):
+            raise CoseInvalidKey("parameter dq cannot be empty")
         self.store[RSAKpQInv] = qinv
 
     @property
@@ -292,6 +308,8 @@ class RSAKey(CoseKey):
     def other(self, other: List[dict]):
         if type(other) is not list:
             raise TypeError("parameter other must be of type 'list'")
+        if not len(other):
+            raise CoseInvalidKey("parameter other cannot be empty")
         self.store[RSAKpOther] = other
 
     @property
@@ -302,6 +320,8 @@ class RSAKey(CoseKey):
     def r_i(self, r_i: bytes):
         if type(r_i) is not bytes:
             raise TypeError("parameter r_i must be of type 'bytes'")
+        if not len(r_i):
+            raise CoseInvalidKey("parameter r_i cannot be empty")
         self.store[RSAKpRi] = r_i
 
     @property
@@ -312,6 +332,8 @@ class RSAKey(CoseKey):
     def d_i(self, d_i: bytes):
         if type(d_i) is not bytes:
             raise TypeError("parameter d_i must be of type 'bytes'")
+        if not len(d_i):
+            raise CoseInvalidKey("parameter d_i cannot be empty")
         self.store[RSAKpDi] = d_i
 
     @property
@@ -322,6 +344,8 @@ class RSAKey(CoseKey):
     def t_i(self, t_i: bytes):
         if type(t_i) is not bytes:
             raise TypeError("parameter t_i must be of type 'bytes'")
+        if not len(t_i):
+            raise CoseInvalidKey("parameter t_i cannot be empty")
         self.store[RSAKpTi] = t_i
 
     @property
-- 
2.43.0


From b86fe42738c8f7548fb1321cfd10130b0847dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 35/52] fix: item assignment on keys stored unresolved
 spellings and illegal values

---
 pycose/keys/cosekey.py   | 10 +++++++++-
 pycose/keys/ec2.py       |  1 +
 pycose/keys/okp.py       |  1 +
 pycose/keys/rsa.py       |  3 +++
 pycose/keys/symmetric.py |  1 +
 5 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index e0e30f8..842e1ec 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -27,6 +27,9 @@ class CoseKey(MutableMapping, ABC):
 
     _key_types = {}
 
+    # parameters with a property that resolves and checks their value
+    _properties = {KpKty: 'kty', KpAlg: 'alg', KpKid: 'kid', KpKeyOps: 'key_ops', KpBaseIV: 'base_iv'}
+
     @classmethod
     def decode(cls, received: bytes) -> 'CK':
         """
@@ -214,7 +217,12 @@ class CoseKey(MutableMapping, ABC):
         return self.store[self._key_transform(key, allow_unknown_attrs=True)]
 
     def __setitem__(self, key, value):
-        self.store[self._key_transform(key, allow_unknown_attrs=True)] = value
+        attr = self._key_transform(key, allow_unknown_attrs=True)
+
+        if attr in self._properties:
+            setattr(self, self._properties[attr], value)
+        else:
+            self.store[attr] = value
 
     def __delitem__(self, key):
         del self.store[self._key_transform(key, allow_unknown_attrs=True)]
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index c9be712..194f5d4 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -17,6 +17,7 @@ if TYPE_CHECKING:
 
 @CoseKey.record_kty(KtyEC2)
 class EC2Key(CoseKey):
+    _properties = {**CoseKey._properties, EC2KpCurve: 'crv', EC2KpX: 'x', EC2KpY: 'y', EC2KpD: 'd'}
 
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 6e936c2..5be0fad 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -19,6 +19,7 @@ if TYPE_CHECKING:
 
 @CoseKey.record_kty(KtyOKP)
 class OKPKey(CoseKey):
+    _properties = {**CoseKey._properties, OKPKpCurve: 'crv', OKPKpX: 'x', OKPKpD: 'd'}
 
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index b2c3860..b6aec98 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -20,6 +20,9 @@ def to_bstr(dec):
 
 @CoseKey.record_kty(KtyRSA)
 class RSAKey(CoseKey):
+    _properties = {**CoseKey._properties, RSAKpN: 'n', RSAKpE: 'e', RSAKpD: 'd', RSAKpP: 'p', RSAKpQ: 'q',
+                   RSAKpDP: 'dp', RSAKpDQ: 'dq', RSAKpQInv: 'qinv', RSAKpOther: 'other', RSAKpRi: 'r_i',
+                   RSAKpDi: 'd_i', RSAKpTi: 't_i'}
 
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 4fe8fc2..7c78f60 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -14,6 +14,7 @@ if TYPE_CHECKING:
 
 @CoseKey.record_kty(KtySymmetric)
 class SymmetricKey(CoseKey):
+    _properties = {**CoseKey._properties, SymKpK: 'k'}
 
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'SymmetricKey':
-- 
2.43.0


From fb4564c93d634816d1911089c465f43eee99439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 36/52] fix: names of key parameters and key types in other
 than capital letters were refused or not checked

---
 pycose/keys/cosekey.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 842e1ec..ed3215a 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -63,21 +63,24 @@ class CoseKey(MutableMapping, ABC):
     @classmethod
     def _extract_from_dict(cls, cose_key: dict, parameter: Type['KP'], default=b''):
         if parameter in cose_key:
-            v = cose_key[parameter]
-        elif parameter.identifier in cose_key:
-            v = cose_key[parameter.identifier]
-        elif parameter.fullname in cose_key:
-            v = cose_key[parameter.fullname]
-        else:
-            v = default
+            return cose_key[parameter]
+
+        if parameter.identifier in cose_key:
+            return cose_key[parameter.identifier]
+
+        for label, value in cose_key.items():
+            if isinstance(label, str) and label.upper() == parameter.fullname:
+                return value
 
-        return v
+        return default
 
     @classmethod
     def _remove_from_dict(cls, cose_key: dict, parameter: Type['KP']):
         cose_key.pop(parameter, None)
         cose_key.pop(parameter.identifier, None)
-        cose_key.pop(parameter.fullname, None)
+
+        for label in [k for k in cose_key if isinstance(k, str) and k.upper() == parameter.fullname]:
+            del cose_key[label]
 
     @classmethod
     def from_dict(cls, received: dict) -> 'CK':
@@ -88,14 +91,10 @@ class CoseKey(MutableMapping, ABC):
         :return: An initialized COSE Key object.
         """
 
-        if KpKty in received:
-            kty = received[KpKty]
-        elif KpKty.identifier in received:
-            kty = received[KpKty.identifier]
-        elif KpKty.fullname in received:
-            kty = received[KpKty.fullname]
-        else:
-            kty = None
+        kty = CoseKey._extract_from_dict(received, KpKty, None)
+
+        if isinstance(kty, str):
+            kty = kty.upper()
 
         if kty not in cls._key_types:
             raise CoseIllegalKeyType("Could not decode CoseKey type, KpKty not set or unknown.")
-- 
2.43.0


From b96450185a9133f099084e4c8fa6afa705dc12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 37/52] fix: values given as optional parameters bypassed the
 checks of the key types

---
 pycose/keys/cosekey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index ed3215a..30fe23f 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -9,7 +9,8 @@ from cryptography.hazmat.primitives.serialization import NoEncryption, load_pem_
 
 from pycose import utils
 from pycose.algorithms import CoseAlgorithm
-from pycose.exceptions import CoseException, CoseIllegalKeyType, CoseIllegalAlgorithm, CoseIllegalKeyOps
+from pycose.exceptions import CoseException, CoseIllegalKeyType, CoseIllegalAlgorithm, CoseIllegalKeyOps, \
+    CoseInvalidKey
 from pycose.headers import EphemeralKey, StaticKey
 from pycose.keys.keyops import KeyOps
 from pycose.keys.keyparam import KpKty, KpKeyOps, KpAlg, KpKid, KpBaseIV, KeyParam
@@ -191,6 +192,10 @@ class CoseKey(MutableMapping, ABC):
         if KpKeyOps in key_dict and len(key_dict[KpKeyOps]) == 0:
             del key_dict[KpKeyOps]
 
+        for attr in key_dict:
+            if attr in self._properties and attr not in CoseKey._properties:
+                raise CoseInvalidKey(f"{attr} cannot be an optional parameter of {type(self).__name__}")
+
         self.store.update(key_dict)
 
     def verify(self, key_type: Type['CK'], algorithm: Type['CoseAlg'], key_ops: List[Type['KEYOPS']]):
-- 
2.43.0


From e567259204e2aa246e42009872a449fa0551061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 38/52] fix: a refused ephemeral key leaves the recipient
 without a key

---
 pycose/messages/recipient.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index adc6f5f..1b9c57a 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -207,18 +207,18 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
 
     def _setup_ephemeral_key(self, peer_key, optional_params: dict = None):
-        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
-
         if self.get_attr(headers.EphemeralKey) is not None:
-            # public key was already set in the header bucket but we just generated a new ephemeral key.
+            # public key was already set in the header bucket but we would have to generate a new ephemeral key.
             raise CoseException('Unrelated ephemeral public key found in COSE message header')
-        else:
-            # strip private bytes from key
-            ephemeral_public_key = dict(self.key)
-            del ephemeral_public_key[EC2KpD]
 
-            # add to unprotected header
-            self.uhdr_update({headers.EphemeralKey: ephemeral_public_key})
+        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
+
+        # strip private bytes from key
+        ephemeral_public_key = dict(self.key)
+        del ephemeral_public_key[EC2KpD]
+
+        # add to unprotected header
+        self.uhdr_update({headers.EphemeralKey: ephemeral_public_key})
 
 
 @CoseRecipient.record_rc([Direct, DirectHKDFSHA256, DirectHKDFAES256])
-- 
2.43.0


From b03f9338f21d3b61074e72cd0d85dd367def68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 39/52] fix: name the recipient class when its algorithm is
 refused

---
 pycose/messages/recipient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 1b9c57a..43607f1 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -382,7 +382,7 @@ class KeyWrap(CoseRecipient):
                 raise CoseException("No key found to encrypt the CEK")
             kek.verify(RSAKey, alg, [WrapOp, EncryptOp])
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} for {self.__class__.__name__}")
 
         return alg.key_wrap(kek, self.payload)
 
@@ -489,7 +489,7 @@ class DirectKeyAgreement(CoseRecipient):
                 else:
                     peer_key = self.get_attr(headers.EphemeralKey)
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
 
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
@@ -605,7 +605,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         elif alg in {EcdhSsA256KW, EcdhSsA192KW, EcdhSsA128KW}:
             peer_key = self.get_attr(headers.StaticKey)
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
 
         if peer_key is None or self.key is None:
             raise CoseException("Both the public key of the sender and the key of the receiver must be known")
-- 
2.43.0


From 283ac8bda41c031cf7cb7131590d575ac65b7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 40/52] fix: booleans are not registered numbers

---
 pycose/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 4a63441..094424e 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -27,7 +27,8 @@ class _CoseAttribute(ABC):
 
     @classmethod
     def from_id(cls, attribute: Any, allow_unknown_attributes: bool = False) -> Any:
-        if isinstance(attribute, int) and attribute in cls.get_registered_classes():
+        if isinstance(attribute, int) and not isinstance(attribute, bool) and \
+                attribute in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute]
         elif isinstance(attribute, str) and attribute.upper() in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute.upper()]
-- 
2.43.0


From 9cd7582f30164538fe7bca65e813272fa8565e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 41/52] fix: a list is no algorithm, curve or key type, and key
 operations do not nest

---
 pycose/keys/keyparam.py | 11 +++++++++--
 pycose/utils.py         |  3 ---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pycose/keys/keyparam.py b/pycose/keys/keyparam.py
index bc4ade5..4a01170 100644
--- a/pycose/keys/keyparam.py
+++ b/pycose/keys/keyparam.py
@@ -1,6 +1,6 @@
 import pprint
 from abc import ABC
-from typing import TypeVar, Union, Type
+from typing import Any, TypeVar, Union, Type
 
 from pycose.algorithms import CoseAlgorithm
 from pycose.keys.curves import CoseCurve
@@ -223,8 +223,15 @@ class SymKpK(SymmetricKeyParam):
     fullname = "K"
 
 
+def key_ops_is_array(value: Any):
+    if not isinstance(value, list):
+        raise ValueError("Key operations should be a list with KeyOps values.")
+
+    return [KeyOps.from_id(op) for op in value]
+
+
 KpKty.value_parser = KTY.from_id
-KpKeyOps.value_parser = KeyOps.from_id
+KpKeyOps.value_parser = key_ops_is_array
 KpAlg.value_parser = CoseAlgorithm.from_id
 OKPKpCurve.value_parser = CoseCurve.from_id
 EC2KpCurve.value_parser = CoseCurve.from_id
diff --git a/pycose/utils.py b/pycose/utils.py
index 094424e..5986ec4 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -32,9 +32,6 @@ class _CoseAttribute(ABC):
             return cls.get_registered_classes()[attribute]
         elif isinstance(attribute, str) and attribute.upper() in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute.upper()]
-        elif isinstance(attribute, list):
-            translated_list = [cls.from_id(attr) for attr in attribute]
-            return translated_list
         elif hasattr(attribute, 'identifier') and attribute.identifier in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute.identifier]
         else:
-- 
2.43.0


From e169572fdbabd929ed1b25589717111c01207179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 42/52] fix: booleans are no content type or critical label

---
 pycose/headers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycose/headers.py b/pycose/headers.py
index 692742b..9d9e885 100644
--- a/pycose/headers.py
+++ b/pycose/headers.py
@@ -176,14 +176,15 @@ def is_bstr(value: Any):
 
 
 def crit_is_array(value: Any):
-    if not isinstance(value, list) or len(value) < 1 or not all(isinstance(x, (int, str)) for x in value):
+    if not isinstance(value, list) or len(value) < 1 or \
+            not all(isinstance(x, (int, str)) and not isinstance(x, bool) for x in value):
         raise ValueError("CRITICAL should be a list with at least one integer or string element")
 
     return value
 
 
 def content_type_is_uint_or_tstr(value: Any):
-    if (not isinstance(value, int) and not isinstance(value, str)) or (
+    if (not isinstance(value, int) and not isinstance(value, str)) or isinstance(value, bool) or (
             True if isinstance(value, int) and value < 0 else False):
         raise ValueError("CONTENT TYPE should be an unsigned integer or string")
 
-- 
2.43.0


From deda33c00235fc47e748393fb7b760803c032714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 43/52] fix: key identifiers and base IVs of a key are byte
 strings

---
 pycose/keys/keyparam.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycose/keys/keyparam.py b/pycose/keys/keyparam.py
index 4a01170..1184f05 100644
--- a/pycose/keys/keyparam.py
+++ b/pycose/keys/keyparam.py
@@ -230,7 +230,16 @@ def key_ops_is_array(value: Any):
     return [KeyOps.from_id(op) for op in value]
 
 
+def is_bstr(value: Any):
+    if not isinstance(value, bytes):
+        raise TypeError("key parameter must be of type 'bytes'")
+
+    return value
+
+
 KpKty.value_parser = KTY.from_id
+KpKid.value_parser = is_bstr
+KpBaseIV.value_parser = is_bstr
 KpKeyOps.value_parser = key_ops_is_array
 KpAlg.value_parser = CoseAlgorithm.from_id
 OKPKpCurve.value_parser = CoseCurve.from_id
-- 
2.43.0


From c2705e866e382878699ba4fb1f538fcfdeafa658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 44/52] fix: refuse to encode recipients with an algorithm of
 another class

---
 pycose/messages/recipient.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 43607f1..b5273fc 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -258,6 +258,9 @@ class DirectEncryption(CoseRecipient):
         if alg is None:
             raise CoseException("Message must carry an algorithm parameter when using DIRECT_ENCRYPTION mode")
 
+        if alg not in {Direct, DirectHKDFSHA256, DirectHKDFAES256}:
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
+
         if len(self.recipients):
             raise CoseException(f"Recipient class DIRECT_ENCRYPTION cannot carry recipients.")
 
@@ -552,8 +555,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def encode(self, *args, **kwargs) -> list:
 
-        recipient = [self.phdr_encoded, self.uhdr_encoded,
-                     self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())]
+        recipient = [self.phdr_encoded, self.uhdr_encoded, self.encrypt(kwargs.get('target_alg'))]
 
         if len(self.recipients):
             recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
@@ -579,6 +581,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         if alg is None:
             raise CoseException("The algorithm parameter should at least be included in the unprotected header")
 
+        if alg not in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW, EcdhSsA128KW, EcdhSsA192KW, EcdhSsA256KW}:
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
+
         # if ephemeral and not set, generate ephemeral key pair
         if self.key is None:
             if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW}:
-- 
2.43.0


From cc92fce36dfe731c138e32222e4beca2e1868497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 45/52] fix: key operations are assigned by name in any case

---
 pycose/keys/cosekey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 30fe23f..fe2825b 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -321,6 +321,9 @@ class CoseKey(MutableMapping, ABC):
 
     @classmethod
     def _supported_by_key_type(cls, attribute, supported: Set[Any]):
+        if isinstance(attribute, str):
+            attribute = attribute.upper()
+
         return attribute in supported \
                or attribute in map(lambda x: getattr(x, 'identifier'), supported) \
                or attribute in map(lambda x: getattr(x, 'fullname'), supported)
-- 
2.43.0


From 3032c0a10aae5eeee6ff138e83602c2eb5f5fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 46/52] fix: messages without a payload could not be printed

---
 pycose/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 5986ec4..04bd192 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from typing import Any, Callable
+from typing import Any, Callable, Optional
 
 from pycose.exceptions import CoseException
 
@@ -75,5 +75,8 @@ class _CoseAttribute(ABC):
         return f'<{self.fullname}: {self.identifier}>'
 
 
-def truncate(payload: bytes) -> str:
+def truncate(payload: Optional[bytes]) -> str:
+    if payload is None:
+        return 'None'
+
     return f'{payload[:5]} ... ({len(payload)} B)'
-- 
2.43.0


From 24d4f37c1e9a89471c6bb681b3c7dcfec7e989c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 47/52] fix: printing an RSA key revealed its private values

---
 pycose/keys/rsa.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index b6aec98..33a6f3f 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -3,6 +3,7 @@ from typing import List, TYPE_CHECKING, Optional, Type, Union
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric import rsa
 
+from pycose import utils
 from pycose.exceptions import CoseInvalidKey, CoseIllegalKeyType, CoseIllegalKeyOps
 from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
@@ -393,7 +394,16 @@ class RSAKey(CoseKey):
         super(RSAKey, self).__delitem__(key)
 
     def __repr__(self):
-        hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
+        _key = self._key_repr()
+
+        for kp in ('RSAKpE', 'RSAKpN', 'RSAKpD', 'RSAKpP', 'RSAKpQ', 'RSAKpDP', 'RSAKpDQ', 'RSAKpQInv', 'RSAKpRi',
+                   'RSAKpDi', 'RSAKpTi'):
+            if kp in _key and len(_key[kp]) > 0:
+                _key[kp] = utils.truncate(_key[kp])
+        if 'RSAKpOther' in _key:
+            _key['RSAKpOther'] = f"({len(_key['RSAKpOther'])} additional primes)"
+
+        hdr = f'<COSE_Key(RSAKey): {_key}>'
         return hdr
 
 
-- 
2.43.0


From 8fc90c6be9226320692ef66d7bb5522e69aa9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 48/52] fix: a header parameter with a nil value was looked up
 as an absent one

---
 pycose/messages/cosebase.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index f729ced..afbd378 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -75,16 +75,16 @@ class CoseBase(metaclass=abc.ABCMeta):
         :returns: If found returns a header attribute else 'None' or the default value
         """
 
-        p_attr = self._phdr.get(attribute)
-        u_attr = self._uhdr.get(attribute)
+        in_phdr = attribute in self._phdr
+        in_uhdr = attribute in self._uhdr
 
-        if p_attr is not None and u_attr is not None:
+        if in_phdr and in_uhdr:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
-        if p_attr is not None:
-            return p_attr
-        elif u_attr is not None:
-            return u_attr
+        if in_phdr:
+            return self._phdr[attribute]
+        elif in_uhdr:
+            return self._uhdr[attribute]
         else:
             return default
 
-- 
2.43.0


From c48291bf382432cf61a9a7f8cf0b1bb3ee24b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 49/52] fix: an RSA-PSS signature without its leading zero
 bytes was accepted

---
 pycose/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index f31d8d8..ed81fe3 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -121,6 +121,10 @@ class _Rsa(CoseAlgorithm, ABC):
         public_nums = rsa.RSAPublicNumbers(e=int.from_bytes(key.e, 'big'), n=int.from_bytes(key.n, 'big'))
         pk = public_nums.public_key(backend=default_backend())
 
+        # a signature without its leading zeros is not one, although the backend accepts it for PSS
+        if len(signature) != (pk.key_size + 7) // 8:
+            return False
+
         try:
             pk.verify(signature, data, pad, hash_cls())
             return True
-- 
2.43.0


From 6ec9c4d1861700d179e935147da07ac8ce6a65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 50/52] fix: ephemeral-static key agreement with key wrap went
 without an ephemeral key

---
 pycose/messages/recipient.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index b5273fc..58ad42d 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -533,6 +533,10 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
+        alg = msg.get_attr(headers.Algorithm)
+        if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW} and msg.get_attr(headers.EphemeralKey) is None:
+            raise CoseMalformedMessage(f'Recipient class {cls.__name__} must carry an ephemeral COSE key object')
+
         return msg
 
     @property
@@ -592,6 +596,10 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        # the receiver cannot derive the key without the ephemeral sender key
+        if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW} and self.get_attr(headers.EphemeralKey) is None:
+            raise CoseMalformedMessage(f'Recipient class {self.__class__.__name__} must carry an ephemeral COSE key object')
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 02c8b05ba1d17c4f3ae4a08dd50c5bf40297e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 51/52] fix: RSA keys could not be assigned the operations of
 key transport

---
 pycose/keys/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 33a6f3f..0bbbcaa 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -9,7 +9,7 @@ from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
                                   RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpOther, RSAKpDi, RSAKpRi, RSAKpTi)
 from pycose.keys.keytype import KtyRSA
-from pycose.keys.keyops import SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp
+from pycose.keys.keyops import SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp
 
 if TYPE_CHECKING:
     from pycose.keys.keyops import KEYOPS
@@ -360,7 +360,7 @@ class RSAKey(CoseKey):
 
     @key_ops.setter
     def key_ops(self, new_key_ops: List[Type['KEYOPS']]) -> None:
-        supported = {SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp}
+        supported = {SignOp, VerifyOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp, DeriveKeyOp, DeriveBitsOp}
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-- 
2.43.0


From 9f1bf9273909234a8e881c3ccee57ae4440ec271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 52/52] fix: a key-wrap recipient takes its key from its own
 recipients

The derivation from nested recipients raised TypeError in every mode: the
random key was requested with the algorithm class as its length, compute_cek
was called without its second argument and decrypt's bytes used as a key.
---
 pycose/messages/recipient.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 58ad42d..0b32b47 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -321,39 +321,30 @@ class KeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', ops: 'str') -> bytes:
 
-        if self.key is None:
+        key = self.key
+        alg = self.get_attr(headers.Algorithm)
+
+        if key is None:
             #  try to derive from this recipients' recipient list
             if not len(self.recipients):
                 raise CoseException(f"No key found to {ops} the CEK")
             else:
                 r_types = CoseRecipient.verify_recipients(self.recipients)
 
-                if ops == 'encrypt':
-
-                    if DirectKeyAgreement in r_types:
-                        self.key = self.recipients[0].compute_cek(target_alg)
+                if DirectKeyAgreement in r_types:
+                    key = self.recipients[0].compute_cek(alg, ops)
 
-                    elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        key_bytes = os.urandom(self.get_attr(headers.Algorithm))
-                        for r in self.recipients:
-                            r.payload = key_bytes
-                        self.key = SymmetricKey(k=key_bytes)
+                elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
+                    if ops == 'encrypt':
+                        key = SymmetricKey(k=CoseRecipient.setup_cek(self.recipients, alg))
                     else:
-                        raise CoseException('Unsupported COSE recipient class')
+                        key = self.recipients[0].compute_cek(alg, ops)
                 else:
-                    if DirectKeyAgreement in r_types or KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-                        self.key = self.recipients[0].decrypt(self.get_attr(headers.Algorithm))
-                    else:
-                        raise CoseException('Unsupported COSE recipient class')
-
-        if self.key is None:
-            raise CoseException("No key found to decrypt the CEK")
+                    raise CoseException('Unsupported COSE recipient class')
 
-        self.key.verify(SymmetricKey,
-                        self.get_attr(headers.Algorithm),
-                        [WrapOp, EncryptOp] if ops == 'encrypt' else [UnwrapOp, DecryptOp])
+        key.verify(SymmetricKey, alg, [WrapOp, EncryptOp] if ops == 'encrypt' else [UnwrapOp, DecryptOp])
 
-        return self.key.k
+        return key.k
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> Optional['SK']:
         if ops == "encrypt":
-- 
2.43.0

