From 5ddcfab1bc75c57cc640694f873bf5b8d13b069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 01/59] fix: BitsSerializer: accept lengths that are a multiple
 of eight

Deserializing a Bits whose length was a multiple of eight raised IndexError
(empty) or AssertionError (anything else), so e.g. merbinner tree inner nodes
with byte aligned prefixes could not be read back. Non-zero padding is now a
DeserializationError.
---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..ae529b7 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -311,7 +311,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('Unused tail bits must be zero')
         return r
 
-- 
2.43.0


From 2a9835ab5e6add1d402cd352d839a1da980cf9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 02/59] fix: BitsSerializer: check_instance() must raise, not
 return a bool

Every caller ignores the return value, so anything at all was accepted as Bits.
---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index ae529b7..cc4856b 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -295,7 +295,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From 5af82fd1fddc5e20e789e1433c014e322d207847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 03/59] fix: Bits: make the ordering consistent with equality

Bits differing only by trailing zero bits in the last byte were unequal, yet
neither was less than the other.
---
 lib/python-proofmarshal/proofmarshal/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index cc4856b..6b41eb8 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -135,7 +135,7 @@ class Bits:
             return True
 
         elif self_fwp == rhs_fwp:
-            return self.__tail_bits() < rhs.__tail_bits()
+            return (self.__tail_bits(), self.__length) < (rhs.__tail_bits(), rhs.__length)
 
         else:
             return False
-- 
2.43.0


From e849c6b930218abcaed056deab0a07f89846e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 04/59] fix: import DeserializationError in proof.py

A bad union class number raised NameError.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..3740252 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,7 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag, DeserializationError
 
 """Proof representation
 
-- 
2.43.0


From de0ab0324607fba819a645f746c9d8ab05330fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 05/59] fix: Proof: propagate is_pruned from ProofUnion
 attributes

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 3740252..9153ae7 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -53,7 +53,7 @@ class Proof(HashingSerializer):
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
 
-            if issubclass(ser_cls, Proof):
+            if isinstance(value, Proof):
                 is_pruned |= value.is_pruned
 
         object.__setattr__(self, 'is_fully_pruned', False)
-- 
2.43.0


From f130b6cf93f349fdfbe49ef3bb4b7bd186575397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 06/59] fix: Proof: don't depend on a lazily initialised,
 inherited, attribute table

Accessing an attribute of a deserialized fully pruned proof raised TypeError
rather than PrunedError if no instance had been created in that process yet,
and subclasses of an already instantiated class got the attributes of their
parent.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 9153ae7..448594f 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -39,16 +39,12 @@ class Proof(HashingSerializer):
 
     __slots__ = ['is_pruned', 'is_fully_pruned','__orig_instance','data_hash','hash']
     SERIALIZED_ATTRS = ()
-    SERIALIZED_ATTRS_BY_NAME = None
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
-            cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
-
         is_pruned = False
         self = object.__new__(cls)
-        for name, ser_cls in cls.SERIALIZED_ATTRS_BY_NAME.items():
+        for name, ser_cls in cls.SERIALIZED_ATTRS:
             value = kwargs[name]
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
@@ -120,7 +116,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if name in [attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS]:
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From 8bdb1cdde878e465c640a704ecb1bd70ebbafb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 07/59] fix: VarProof: keep the variant of fully pruned
 instances when serializing

The variant was dropped, so a fully pruned VarProof came back as an instance of
the base class without a HASHTAG, and the hash of it - or of anything that
contained it, such as a pruned MMR - couldn't be calculated.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 55 +++++++++++++------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 448594f..12f6399 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -175,6 +175,9 @@ class Proof(HashingSerializer):
     def get_hash(self):
         return self.hash
 
+    def _ctx_serialize_pruned(self, ctx):
+        ctx.write_bytes(self.data_hash)
+
     def _ctx_serialize(self, ctx):
         for attr_name, ser_cls in self.SERIALIZED_ATTRS:
             attr = getattr(self, attr_name)
@@ -183,7 +186,7 @@ class Proof(HashingSerializer):
     def ctx_serialize(self, ctx):
         if self.is_fully_pruned:
             ctx.write_bool(True)
-            ctx.write_bytes(self.data_hash)
+            self._ctx_serialize_pruned(ctx)
 
         else:
             ctx.write_bool(False)
@@ -207,20 +210,24 @@ class Proof(HashingSerializer):
         return Proof.__new__(cls, **kwargs)
 
     @classmethod
-    def ctx_deserialize(cls, ctx):
-        fully_pruned = ctx.read_bool()
+    def _ctx_deserialize_pruned(cls, ctx):
+        self = object.__new__(cls)
 
-        if fully_pruned:
-            self = object.__new__(cls)
+        data_hash = ctx.read_bytes(32) # FIXME
+        object.__setattr__(self, 'data_hash', data_hash)
 
-            data_hash = ctx.read_bytes(32) # FIXME
-            object.__setattr__(self, 'data_hash', data_hash)
+        object.__setattr__(self, 'is_fully_pruned', True)
+        object.__setattr__(self, 'is_pruned', True)
+        object.__setattr__(self, '_Proof__orig_instance', None)
 
-            object.__setattr__(self, 'is_fully_pruned', True)
-            object.__setattr__(self, 'is_pruned', True)
-            object.__setattr__(self, '_Proof__orig_instance', None)
+        return self
+
+    @classmethod
+    def ctx_deserialize(cls, ctx):
+        fully_pruned = ctx.read_bool()
 
-            return self
+        if fully_pruned:
+            return cls._ctx_deserialize_pruned(ctx)
 
         else:
             return cls._ctx_deserialize(ctx)
@@ -262,7 +269,7 @@ class VarProof(Proof):
 
         return subclass
 
-    def _ctx_serialize(self, ctx):
+    def _ctx_serialize_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
             if isinstance(self, cls):
                 ctx.write_varuint(i)
@@ -271,18 +278,34 @@ class VarProof(Proof):
         else:
             raise SerializerTypeError('bad class')
 
-        super()._ctx_serialize(ctx)
-
     @classmethod
-    def _ctx_deserialize(cls, ctx):
+    def _ctx_deserialize_variant(cls, ctx):
         i = ctx.read_varuint()
 
         try:
-            union_cls = cls.UNION_CLASSES[i]
+            return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
             raise DeserializationError('bad union class number %d' % i)
 
+    def _ctx_serialize_pruned(self, ctx):
+        # The hash depends on the HASHTAG of the variant, so a pruned instance
+        # without its variant would have a different hash when read back.
+        self._ctx_serialize_variant(ctx)
+        super()._ctx_serialize_pruned(ctx)
+
+    def _ctx_serialize(self, ctx):
+        self._ctx_serialize_variant(ctx)
+        super()._ctx_serialize(ctx)
+
+    @classmethod
+    def _ctx_deserialize_pruned(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
+        return super(VarProof, union_cls)._ctx_deserialize_pruned(ctx)
+
+    @classmethod
+    def _ctx_deserialize(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
         return super(VarProof, union_cls)._ctx_deserialize(ctx)
 
 class ProofUnion(HashingSerializer):
-- 
2.43.0


From e03d50dc187892a29efd90508bc529f9dd3ea061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 08/59] fix: TxProof: make the hash of pruned instances survive
 serialization

The serialized form of a pruned proof is its data hash, but the hash of a
TxProof isn't derived from the default data hash, so neither the hash nor the
txhash was available after reading a pruned TxProof back (TypeError, as there
is no HASHTAG) even though txhash is documented as being available if pruned.
---
 proofchains/core/bitcoin.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..cfd735f 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,15 +66,21 @@ class TxProof(proofmarshal.proof.Proof):
 
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
-    def calc_hash(self):
+    def calc_data_hash(self):
         if self.is_pruned:
-            return super().calc_hash()
+            return super().calc_data_hash()
 
         else:
-            # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
-            # with a fixed pad. This still guarantees global uniqueness, yet
-            # lets us convert the proof hash to a bitcoin hash and back.
-            return bytes([b^p for b,p in zip(self.tx.GetHash(), self.TX_HASH_XOR_PAD)])
+            return self.tx.GetHash()
+
+    def calc_hash(self):
+        # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
+        # with a fixed pad. This still guarantees global uniqueness, yet
+        # lets us convert the proof hash to a bitcoin hash and back.
+        #
+        # The data hash is the txhash itself, so this works even if the tx is
+        # pruned.
+        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
 
     @property
     def txhash(self):
-- 
2.43.0


From 6606608d6b0fc155c9b2b485cdb755b2097634b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 09/59] fix: Serializer.deserialize(): reject junk at end of
 serialized value

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..55682e2 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -234,8 +234,6 @@ class BytesDeserializationContext(StreamDeserializationContext):
         """Deserialize from bytes"""
         super().__init__(io.BytesIO(buf))
 
-    # FIXME: need to check that there isn't extra crap at end of object
-
 class Serializer:
     """(De)serialize an instance of a class
 
@@ -278,7 +276,8 @@ class Serializer:
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
         r = cls.ctx_deserialize(ctx)
-        # FIXME: check for junk at end
+        if ctx.fd.read(1):
+            raise DeserializationError('Junk at end of serialized value')
         return r
 
 class SerBool(Serializer):
-- 
2.43.0


From 3ad2df494d547c022d9bcd4d5ea1cc19e655e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 10/59] fix: read_varuint(): reject non-minimal encodings

Otherwise the same value can be serialized in any number of ways, which the
deterministic round-trip encoding is meant to rule out.
---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 55682e2..ac21e55 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -207,6 +207,8 @@ class StreamDeserializationContext(DeserializationContext):
             b = self.fd_read(1)[0]
             value |= (b & 0b01111111) << shift
             if not (b & 0b10000000):
+                if b == 0 and shift:
+                    raise DeserializationError('Non-minimal varuint encoding')
                 break
             shift += 7
 
-- 
2.43.0


From 5f3ec5241076bd3cb07deaf2866ee461750b97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 11/59] fix: fd_read(): lengths too large to read are
 truncation errors

A serialized length of 2**63 or more raised OverflowError.
---
 lib/python-proofmarshal/proofmarshal/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index ac21e55..45311ff 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -181,7 +181,10 @@ class StreamDeserializationContext(DeserializationContext):
         self.fd = fd
 
     def fd_read(self, l):
-        r = self.fd.read(l)
+        try:
+            r = self.fd.read(l)
+        except OverflowError:
+            raise TruncationError('Tried to read %d bytes' % l)
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
-- 
2.43.0


From 53d6a23ed00e94163bf09199c7c065729142dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 12/59] fix: MMR: slices whose stop isn't after their start are
 empty

If start and stop were on different sides of an inner node items outside of the
slice were returned, e.g. MMR(range(8))[5:3] returned four items.
---
 lib/python-proofmarshal/proofmarshal/mmr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..f766cef 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -424,6 +424,9 @@ def make_mmr_subclass(subclass):
                     # ourselves
                     return self
 
+                if stop <= start:
+                    return self.EmptyNodeClass()
+
                 if start < len(self.left):
                     # Left side satisfies at least part of the slice.
                     r = self.left[start:stop:step]
-- 
2.43.0


From f2b20d0399692bd9969519427cfadf87f9b51c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 13/59] fix: MerbinnerTree.put(): replace the value if the key
 is already set

Raised AssertionError.
---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..3352256 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -152,8 +152,13 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             return new_leaf
 
         else:
-            # The two leaves are joined by an inner node
-            new_tip = self.InnerNodeClass(new_leaf, closest_node)
+            if closest_node.__class__ is self.LeafNodeClass and closest_node.key == key:
+                # The key is already set, so its leaf is replaced
+                new_tip = new_leaf
+
+            else:
+                # The two leaves are joined by an inner node
+                new_tip = self.InnerNodeClass(new_leaf, closest_node)
 
             # And we rebuild the inner nodes along the path from the siblings
             for sibling in siblings:
-- 
2.43.0


From e5b23e01950de4a34ee8e8a23eb0b6cbfac5ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 14/59] fix: MerbinnerTree, GuMap: default key2prefix() must
 return Bits

It returned bytes, which have neither startswith(Bits) nor common_prefix(), so
the default was unusable.
---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 2 +-
 proofchains/core/uniquebits/gumap.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index 3352256..67ce73f 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -96,7 +96,7 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
 
     @staticmethod
     def key2prefix(key):
-        return key.hash
+        return Bits.from_bytes(key.hash)
 
     def __new__(cls, iterable=()):
         """Create a new merbinner tree"""
diff --git a/proofchains/core/uniquebits/gumap.py b/proofchains/core/uniquebits/gumap.py
index 8195f62..5793ed7 100644
--- a/proofchains/core/uniquebits/gumap.py
+++ b/proofchains/core/uniquebits/gumap.py
@@ -26,7 +26,7 @@ class GuMap(VarProof):
 
     @staticmethod
     def key2prefix(key):
-        return key.hash
+        return proofmarshal.bits.Bits.from_bytes(key.hash)
 
     SEAL_CLASS = None
     WITNESS_CLASS = None
-- 
2.43.0


From b901097b154c955cace7c18c0575ac35dd93ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 15/59] fix: proofchains.core.bitcoin: NameError in
 check_instance() error path

---
 proofchains/core/bitcoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index cfd735f..12ef6e2 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -42,7 +42,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From 9436bcc677a8896e7c47eda690fdcd6a777643ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 16/59] fix: Proof.check_instance(): actually check the
 instance

A proof of any class - or anything else with an is_pruned attribute - was
accepted for an attribute of another class, which then was serialized as
something that couldn't be read back.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 12f6399..87cfa3e 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -63,7 +63,8 @@ class Proof(HashingSerializer):
 
         Raises SerializerTypeError if not
         """
-        # FIXME
+        if not isinstance(instance, cls):
+            raise SerializerTypeError('Expected %s; got %r' % (cls.__qualname__, instance.__class__))
 
     def __eq__(self, other):
         if isinstance(other, Proof):
-- 
2.43.0


From 973611a0e66bf3b4617c83659c3ddfcaef0210a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 17/59] fix: make immutable copies of mutable outpoints and
 txins work

COutPoint.from_outpoint() and CTxIn.from_txin(), and with them
CTransaction.from_tx(), raised NameError/AttributeError for anything mutable.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..18095a8 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -157,8 +157,8 @@ class COutPoint(ImmutableSerializable):
         If output is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From 8bb1e95d3d4b29737f37ddae4eb9852f26abd0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 18/59] fix: CScript.GetSigOpCount(): fix accurate mode and
 invalid pushdata ops

Accurate mode called a nonexistant method of int, and should have used the
opcode preceeding the CHECKMULTISIG. Scripts with an invalid pushdata op raised
CScriptInvalidError, which made CheckBlock() fail with something other than a
ValidationError; Bitcoin Core counts up to the invalid op.
---
 lib/python-bitcoinlib/bitcoin/core/script.py | 24 ++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..ad5708e 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,21 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+
+        except CScriptInvalidError:
+            # Sigops prior to the invalid pushdata op count, matching the
+            # behavior in Bitcoin Core.
+            pass
         return n
 
 
-- 
2.43.0


From f967ccb30ca66042fcd908b7b48186e3f3345c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 19/59] fix: CheckBlock(): check the coinbase transaction too

CheckTransaction() is documented to be called for every transaction, yet the
coinbase, and the sigops in it, was skipped.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 18095a8..d0c34a4 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -714,8 +714,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From d97c3ca34685bbb1165c776a5a9fc462a41b37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 20/59] fix: uint256_from_compact(): handle the sign bit and
 exponents less than three

CheckProofOfWork() raised ValueError for the latter, and accepted negative
targets as though the sign was part of the mantissa.
---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..280c38e 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -311,8 +311,12 @@ def uint256_from_compact(c):
     Used for the nBits compact encoding of the target in the block header.
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
-    return v
+    v = c & 0x7FFFFF
+    if nbytes <= 3:
+        v >>= 8 * (3 - nbytes)
+    else:
+        v <<= 8 * (nbytes - 3)
+    return -v if c & 0x800000 else v
 
 
 def uint256_to_shortstr(u):
-- 
2.43.0


From a0ffdf30298003ae983c333f8ae4d6f0de30d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 21/59] fix: EvalScript(): false is the empty vector

OP_EQUAL, OP_CHECKSIG, OP_CHECKMULTISIG and OP_WITHIN pushed a zero byte, which
is observable, e.g. with OP_SIZE or OP_EQUAL.
---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..640d8c6 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -199,7 +199,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -484,7 +484,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -520,7 +520,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -657,7 +657,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From 63f7767e1df426a83e1d624f05e8747c7ffa4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 22/59] fix: EvalScript(): apply the stack size limit to pushes
 too

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 640d8c6..4d3b007 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -394,7 +394,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From 5db302adeaf0eede97871d1ef8fbb84e7159b116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 23/59] fix: scripteval: use the SCRIPT_VERIFY_* flags of the
 script module

Both modules export them, but as distinct objects, so passing the ones from
bitcoin.core.script to VerifyScript() silently did nothing.
---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 4d3b007..0582e1b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From c0b394cdc2c95d7946354c596a7857b95fd2d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 24/59] fix: EvalScriptError: actually save the execution state

---
 .../bitcoin/core/scripteval.py                | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0582e1b..7a7c375 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -52,18 +52,18 @@ class EvalScriptError(bitcoin.core.ValidationError):
                  altstack=None, vfExec=None, pbegincodehash=None, nOpCount=None):
         super(EvalScriptError, self).__init__('EvalScript: %s' % msg)
 
-        sop = sop
-        sop_data = sop_data
-        sop_pc = sop_pc
-        stack = stack
-        scriptIn = scriptIn
-        txTo = txTo
-        inIdx = inIdx
-        flags = flags
-        altstack = altstack
-        vfExec = vfExec
-        pbegincodehash = pbegincodehash
-        nOpCount = nOpCount
+        self.sop = sop
+        self.sop_data = sop_data
+        self.sop_pc = sop_pc
+        self.stack = stack
+        self.scriptIn = scriptIn
+        self.txTo = txTo
+        self.inIdx = inIdx
+        self.flags = flags
+        self.altstack = altstack
+        self.vfExec = vfExec
+        self.pbegincodehash = pbegincodehash
+        self.nOpCount = nOpCount
 
 class MaxOpCountError(EvalScriptError):
     def __init__(self, **kwargs):
-- 
2.43.0


From a8eeb9f8875af5e1db97b55d4fa8a52c3e1163dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 25/59] fix: MainParams must inherit from CoreMainParams

After SelectParams('mainnet') there was no genesis block or proof-of-work limit,
making CheckProofOfWork() raise TypeError.
---
 lib/python-bitcoinlib/bitcoin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/__init__.py b/lib/python-bitcoinlib/bitcoin/__init__.py
index de56cd5..4fade2f 100644
--- a/lib/python-bitcoinlib/bitcoin/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/__init__.py
@@ -13,7 +13,7 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 import bitcoin.core
 
-class MainParams(bitcoin.core.CoreChainParams):
+class MainParams(bitcoin.core.CoreMainParams):
     MESSAGE_START = b'\xf9\xbe\xb4\xd9'
     DEFAULT_PORT = 8333
     RPC_PORT = 8332
-- 
2.43.0


From d4a8a966b0d304554924b95236f666885f7387ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 26/59] fix: CBloomFilter.stream_deserialize(): make it work

Nothing in it did: self was used prior to being assigned, _ser_read doesn't
exist, __init__() requires arguments, and vData must be mutable.
---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..26b9d74 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -169,9 +169,9 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
-        self.vData = vData
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        self = cls.__new__(cls)
+        self.vData = bytearray(vData)
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
         self.nFlags = nFlags
-- 
2.43.0


From b574c1046806a61ba71ecf2ce44f868cfc19fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 27/59] fix: MsgSerializable.stream_deserialize(): message
 lengths are unsigned

A negative length read everything left in the stream.
---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..0ca0e92 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -84,7 +84,7 @@ class MsgSerializable(Serializable):
 
         # remaining header fields: command, msg length, checksum
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
-        msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
+        msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
 
         # read message body
-- 
2.43.0


From 4dc92da88ff16bad85693b6522472f4ad1f20464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 28/59] fix: intVectorSerialzer.stream_deserialize(): return
 the ints

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 280c38e..02c2f74 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
-- 
2.43.0


From a0f367e2dfc6219069cd1a89e47b46447a1b0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 29/59] fix: CUnsignedAlert: make (de)serialization work

It was written in terms of functions that no longer exist.
---
 lib/python-bitcoinlib/bitcoin/net.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..8258c87 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -18,6 +18,8 @@ from binascii import hexlify
 from bitcoin.core.serialize import (
         Serializable,
         VarStringSerializer,
+        VectorSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,14 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = VectorSerializer.stream_deserialize(VarStringSerializer, f)
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +145,14 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VectorSerializer.stream_serialize(VarStringSerializer, self.setSubVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From c896adb81c5e8ba0764c0e6f17d3eab3dda766a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 30/59] fix: rpc: don't pass key_file and cert_file to
 HTTPSConnection

None was the default anyway, and the arguments were removed in Python 3.12.
---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From a5360452bceb13895aa8d0c34b622b771f0fc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 31/59] fix: CBase58Data: reject data too short for a version
 and checksum

Otherwise the version byte is part of the checksum; 3y6uvf decoded successfully.
---
 lib/python-bitcoinlib/bitcoin/base58.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..6b9b537 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -103,6 +103,8 @@ class CBase58Data(bytes):
     """
     def __new__(cls, s):
         k = decode(s)
+        if len(k) < 5:
+            raise Base58ChecksumError('Data too short for a version and checksum: %r' % k)
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
         if check0 != check1:
-- 
2.43.0


From 5198ca7ae86197ee501fafaabeb1d07c36220a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 32/59] fix: CBitcoinAddress: reject data that isn't 20 bytes
 long

The scriptPubKey of such an address isn't P2PKH/P2SH, and can't be spent.
---
 lib/python-bitcoinlib/bitcoin/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index 9273259..1da3073 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -38,6 +38,9 @@ class CBitcoinAddress(bitcoin.base58.CBase58Data):
     def from_bytes(cls, data, nVersion):
         self = super(CBitcoinAddress, cls).from_bytes(data, nVersion)
 
+        if len(self) != 20:
+            raise CBitcoinAddressError('Address data must be exactly 20 bytes; got %d bytes' % len(self))
+
         if nVersion == bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']:
             self.__class__ = P2SHBitcoinAddress
 
-- 
2.43.0


From 5bfac4ced262032183a677a7e6c7c5817ec9ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 33/59] fix: CECKey: don't truncate 64-bit pointers returned by
 OpenSSL

set_secretbytes() and get_raw_ecdh_key() only worked if everything happened to
be allocated in the low 2GiB of the address space; otherwise they crash.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..cb3f465 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -36,6 +36,13 @@ def _check_result (val, func, args):
 _ssl.EC_KEY_new_by_curve_name.restype = ctypes.c_void_p
 _ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
 
+# Same goes for every other pointer we pass back to OpenSSL: by default they'd
+# be truncated to an int.
+for _f in (_ssl.BN_new, _ssl.BN_bin2bn, _ssl.BN_CTX_new, _ssl.EC_POINT_new,
+           _ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key):
+    _f.restype = ctypes.c_void_p
+    _f.errcheck = _check_result
+
 class CECKey:
     """Wrapper around OpenSSL's EC_KEY"""
 
-- 
2.43.0


From c3428f9308d7dad7bed1e8eeb2c713c1e44ef464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 34/59] fix: CECKey.set_secretbytes(): check that the secret is
 32 bytes long

32 bytes were read from it regardless of its actual length.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index cb3f465..f8f51e3 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -58,6 +58,8 @@ class CECKey:
         self.k = None
 
     def set_secretbytes(self, secret):
+        if len(secret) != 32:
+            raise ValueError('Secret must be exactly 32 bytes long; got %d bytes' % len(secret))
         priv_key = _ssl.BN_bin2bn(secret, 32, _ssl.BN_new())
         group = _ssl.EC_KEY_get0_group(self.k)
         pub_key = _ssl.EC_POINT_new(group)
-- 
2.43.0


From 4edd56697b009b884d085f1079c121d75e87526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 35/59] fix: sus-tool: mkseal must provide a nonce

It always failed with a KeyError, leaving an empty seal file behind.
---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From 6e3a1bf1813ae6431a56f71a278107df53b74884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 36/59] fix: sus-tool: verifywitness must not ignore
 --seal-file and --seal-id

Witnesses for any other seal were accepted.
---
 sus-tool.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..c4e8604 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -214,7 +214,13 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        seal = BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        if witness.seal != seal:
+            args.parser.error("Witness is for a different seal than '%s'" % args.seal_file.name)
+
+    if args.seal_id is not None and witness.seal.hash != args.seal_id:
+        args.parser.error("Witness is for a different seal than %s" % b2x(args.seal_id))
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From 4bde35a8b6f3d131cf163a6edb16018d3ee4799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 37/59] fix: sus-tool: show the outpoint txid in the usual byte
 order in witnessinfo

---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index c4e8604..473521f 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -252,7 +252,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From ab3bb019de4bc3e809a8e9368970e9ef9c04a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 38/59] fix: CECKey: no signature is valid under the point at
 infinity

OpenSSL accepts the one byte pubkey 00, and anyone can make signatures that are
valid under it: CHECKSIG with that pubkey could be satisfied without any
secret. In Bitcoin Core it's invalid.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index f8f51e3..854358a 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -49,6 +49,9 @@ class CECKey:
     POINT_CONVERSION_COMPRESSED = 2
     POINT_CONVERSION_UNCOMPRESSED = 4
 
+    # Whether the pubkey is the point at infinity
+    _is_infinity = False
+
     def __init__(self):
         self.k = _ssl.EC_KEY_new_by_curve_name(_NID_secp256k1)
 
@@ -78,6 +81,7 @@ class CECKey:
         return _ssl.d2i_ECPrivateKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
 
     def set_pubkey(self, key):
+        self._is_infinity = key[0:1] == b'\x00'
         self.mb = ctypes.create_string_buffer(key)
         return _ssl.o2i_ECPublicKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
 
@@ -123,6 +127,9 @@ class CECKey:
 
     def verify(self, hash, sig):
         """Verify a DER signature"""
+        if self._is_infinity:
+            # Anyone can make signatures that OpenSSL accepts
+            return False
         return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) == 1
 
     def set_compressed(self, compressed):
-- 
2.43.0


From eada9269512e3d7e3ffca7f17d7550422e4154ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 39/59] fix: CECKey.set_secretbytes left a copy of the secret
 behind

The BIGNUM made from the secret was never freed: every key leaked one, with the
secret in it.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 854358a..98f2962 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -72,6 +72,7 @@ class CECKey:
         _ssl.EC_POINT_mul(group, pub_key, priv_key, None, None, ctx)
         _ssl.EC_KEY_set_private_key(self.k, priv_key)
         _ssl.EC_KEY_set_public_key(self.k, pub_key)
+        _ssl.BN_clear_free(priv_key)
         _ssl.EC_POINT_free(pub_key)
         _ssl.BN_CTX_free(ctx)
         return self.k
-- 
2.43.0


From 5156a8301ee4ee8df01405dfe5016d6381a3d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 40/59] fix: CECKey: detect NULL results from OpenSSL

With a c_void_p restype a NULL pointer is returned as None, so the comparison
to 0 never matched and the failure was passed on to the next call.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 98f2962..c44c453 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -28,7 +28,7 @@ _NID_secp256k1 = 714 # from openssl/obj_mac.h
 
 # Thx to Sam Devlin for the ctypes magic 64-bit fix.
 def _check_result (val, func, args):
-    if val == 0:
+    if not val: # NULL is returned as None
         raise ValueError
     else:
         return ctypes.c_void_p(val)
-- 
2.43.0


From 0a6a404d10510d7e68fb699faa34839daea37ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 41/59] fix: CECKey.get_pubkey: raise rather than crash if
 there is no public key

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index c44c453..2033340 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -93,6 +93,7 @@ class CECKey:
         return mb_pri.raw
 
     def get_pubkey(self):
+        _ssl.EC_KEY_get0_public_key(self.k) # raises ValueError if not set
         size = _ssl.i2o_ECPublicKey(self.k, 0)
         mb = ctypes.create_string_buffer(size)
         _ssl.i2o_ECPublicKey(self.k, ctypes.byref(ctypes.pointer(mb)))
-- 
2.43.0


From e5a24c4db38c2cd568e9495fc6388288df07f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 42/59] fix: CBloomFilter: don't divide by zero if the filter
 is empty

A peer can send such a filter (CVE-2013-5700); like Bitcoin Core, treat it as
full.
---
 lib/python-bitcoinlib/bitcoin/bloom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 26b9d74..e42898e 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -131,7 +131,7 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
-        if len(self.vData) == 1 and self.vData[0] == 0xff:
+        if not self.vData or (len(self.vData) == 1 and self.vData[0] == 0xff):
             return
 
         for i in range(0, self.nHashFuncs):
@@ -147,7 +147,7 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
-        if len(self.vData) == 1 and self.vData[0] == 0xff:
+        if not self.vData or (len(self.vData) == 1 and self.vData[0] == 0xff):
             return True
 
         for i in range(0, self.nHashFuncs):
-- 
2.43.0


From 367d67113d05369a957f71540937757bee664234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 43/59] fix: prune() of a pruned proof: using the result
 changed the proof it was created from

---
 lib/python-proofmarshal/proofmarshal/proof.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 87cfa3e..8825a95 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -96,7 +96,11 @@ class Proof(HashingSerializer):
         # Start with a blank instance with absolutely no attributes set at all.
         pruned_self = object.__new__(self.__class__)
 
-        object.__setattr__(pruned_self, '_Proof__orig_instance', self)
+        # If we are pruned ourselves use the instance we were created from;
+        # going through us would bring attributes back into view here too.
+        orig_instance = self if self.__orig_instance is None else self.__orig_instance
+
+        object.__setattr__(pruned_self, '_Proof__orig_instance', orig_instance)
         object.__setattr__(pruned_self, 'is_fully_pruned', True)
         object.__setattr__(pruned_self, 'is_pruned', True)
 
-- 
2.43.0


From f4c64509c17b5620124225a8e43055987aceabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 44/59] fix: MerkleMountainRange: repr() of a pruned instance
 brought its items into view

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index f766cef..5e2de2f 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -254,6 +254,11 @@ class MerkleMountainRange(proofmarshal.proof.VarProof):
         return r
 
     def __repr__(self):
+        if self.is_pruned:
+            # Looking at the items would bring them into view, if they're
+            # available at all.
+            return super().__repr__()
+
         # Why __base__? Because this will be called in subclasses, and we want
         # to represent a MMR with the base class name, which will in turn be a
         # subclass of this class.
-- 
2.43.0


From 94941935c1bf586e9e947e06ecc231b11a477432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 45/59] fix: CTxIn: an immutable input kept the mutable
 outpoint it was given

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index d0c34a4..1caad01 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -186,7 +186,7 @@ class CTxIn(ImmutableSerializable):
             raise ValueError('CTxIn: nSequence must be an integer between 0x0 and 0xffffffff; got %x' % nSequence)
         object.__setattr__(self, 'nSequence', nSequence)
 
-        object.__setattr__(self, 'prevout', prevout)
+        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))
         object.__setattr__(self, 'scriptSig', scriptSig)
 
     @classmethod
-- 
2.43.0


From 811e855e7c245e7258a6e9d98c3a63770a597a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 46/59] fix: CInv: repr() of an inventory item of an unknown
 type raised KeyError

---
 lib/python-bitcoinlib/bitcoin/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 8258c87..7033941 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -82,7 +82,7 @@ class CInv(Serializable):
         f.write(self.hash)
 
     def __repr__(self):
-        return "CInv(type=%s hash=%s)" % (self.typemap[self.type], hexlify(self.hash))
+        return "CInv(type=%s hash=%s)" % (self.typemap.get(self.type, self.type), hexlify(self.hash))
 
 
 class CBlockLocator(Serializable):
-- 
2.43.0


From 4ba2abdf23285a60b567767fd452d76d06c27f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 47/59] fix: CBlockHeader: repr() printed the hashes without
 quotes, so it was no expression

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 1caad01..bd0f1fa 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -432,7 +432,7 @@ class CBlockHeader(ImmutableSerializable):
     difficulty = property(lambda self: CBlockHeader.calc_difficulty(self.nBits))
 
     def __repr__(self):
-        return "%s(%i, lx(%s), lx(%s), %s, 0x%08x, 0x%08x)" % \
+        return "%s(%i, lx(%r), lx(%r), %s, 0x%08x, 0x%08x)" % \
                 (self.__class__.__name__, self.nVersion, b2lx(self.hashPrevBlock), b2lx(self.hashMerkleRoot),
                  self.nTime, self.nBits, self.nNonce)
 
-- 
2.43.0


From 92ced3d52c35d8795827c467b72da571b7de53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 48/59] fix: msg_version: repr() failed for some times and for
 messages of old versions

---
 lib/python-bitcoinlib/bitcoin/messages.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 0ca0e92..dbf6efe 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -159,7 +159,14 @@ class msg_version(MsgSerializable):
         f.write(struct.pack(b"<i", self.nStartingHeight))
 
     def __repr__(self):
-        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=0x%016X strSubVer=%s nStartingHeight=%i)" % (self.nVersion, self.nServices, time.ctime(self.nTime), repr(self.addrTo), repr(self.addrFrom), self.nNonce, self.strSubVer, self.nStartingHeight)
+        try:
+            nTime = time.ctime(self.nTime)
+        except (OSError, OverflowError, ValueError):
+            # Not every time a peer can send is one the platform can print
+            nTime = '%i' % self.nTime
+        # Messages of old versions lack the last fields
+        nNonce = None if self.nNonce is None else '0x%016X' % self.nNonce
+        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=%s strSubVer=%s nStartingHeight=%s)" % (self.nVersion, self.nServices, nTime, repr(self.addrTo), repr(self.addrFrom), nNonce, self.strSubVer, self.nStartingHeight)
 
 
 class msg_verack(MsgSerializable):
-- 
2.43.0


From 519b864331bdde993dcd47430061164fdf2fd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 49/59] fix: refuse secret key texts with anything but the
 compressed flag after the secret

They were read as uncompressed keys, so many texts stood for one secret and
a flag that is damaged, or not known yet, gave the address of another pubkey.
---
 lib/python-bitcoinlib/bitcoin/wallet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index 1da3073..2410547 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -244,6 +244,11 @@ class CBitcoinSecret(bitcoin.base58.CBase58Data, CKey):
             raise CBitcoinSecretError('Not a base58-encoded secret key: got nVersion=%d; expected nVersion=%d' % \
                                       (self.nVersion, bitcoin.params.BASE58_PREFIXES['SECRET_KEY']))
 
+        # Only the secret itself, or with the flag of a compressed pubkey
+        if len(self) > 32 and self[32:] != b'\x01':
+            raise CBitcoinSecretError('Not a base58-encoded secret key: %d unknown bytes after the secret' % \
+                                      (len(self) - 32))
+
         CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)
 
 
-- 
2.43.0


From 013d1997b9f934ff3973684642fdcfc5c3a727ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 50/59] fix: CBlockHeader: difficulty of a zero target raised
 ZeroDivisionError

nBits comes from the wire, and is zero by default. Bitcoin Core gets infinity
from its floating point division.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index bd0f1fa..4850d89 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -421,6 +421,9 @@ class CBlockHeader(ImmutableSerializable):
     def calc_difficulty(nBits):
         """Calculate difficulty from nBits target"""
         nShift = (nBits >> 24) & 0xff
+        if not nBits & 0x00ffffff:
+            # Division by zero in Bitcoin Core gives infinity
+            return float('inf')
         dDiff = float(0x0000ffff) / float(nBits & 0x00ffffff)
         while nShift < 29:
             dDiff *= 256.0
-- 
2.43.0


From c0778a0489938eaa10251270f9f483126da279fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 51/59] fix: a copy of a CECKey has an EC_KEY of its own

copy.copy() made two instances that each freed the same EC_KEY.
---
 lib/python-bitcoinlib/bitcoin/core/key.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 2033340..c111b66 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -39,7 +39,7 @@ _ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
 # Same goes for every other pointer we pass back to OpenSSL: by default they'd
 # be truncated to an int.
 for _f in (_ssl.BN_new, _ssl.BN_bin2bn, _ssl.BN_CTX_new, _ssl.EC_POINT_new,
-           _ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key):
+           _ssl.EC_KEY_get0_group, _ssl.EC_KEY_get0_public_key, _ssl.EC_KEY_dup):
     _f.restype = ctypes.c_void_p
     _f.errcheck = _check_result
 
@@ -60,6 +60,14 @@ class CECKey:
             _ssl.EC_KEY_free(self.k)
         self.k = None
 
+    def __copy__(self):
+        # Every instance frees its EC_KEY, so the copy needs one of its own
+        r = self.__class__.__new__(self.__class__)
+        r.__dict__.update(self.__dict__)
+        r.k = None
+        r.k = _ssl.EC_KEY_dup(self.k)
+        return r
+
     def set_secretbytes(self, secret):
         if len(secret) != 32:
             raise ValueError('Secret must be exactly 32 bytes long; got %d bytes' % len(secret))
-- 
2.43.0


From 81ac71f4d2206df6b4f64d666dbacf8a67b5cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 52/59] fix: transactions and outpoints in proofs must be
 encoded exactly

A badly encoded transaction or outpoint inside of a proof was refused with an
error of python-bitcoinlib's own instead of a DeserializationError, and one
with its lengths in a longer form was accepted, so that different serialized
proofs were read as one.
---
 proofchains/core/bitcoin.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 12ef6e2..8affbaf 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -17,6 +17,21 @@ import bitcoin.core
 
 from proofmarshal.serialize import HashTag
 
+def _deserialize_exactly(cls, serialized_obj):
+    """Deserialize a Bitcoin structure, whose encoding must be the one we would write
+
+    Raises DeserializationError otherwise.
+    """
+    try:
+        obj = cls.deserialize(serialized_obj)
+    except bitcoin.core.serialize.SerializationError as exp:
+        raise proofmarshal.serialize.DeserializationError('Invalid %s: %s' % (cls.__name__, exp))
+
+    # Bitcoin structures have non-minimal encodings too
+    if obj.serialize() != serialized_obj:
+        raise proofmarshal.serialize.DeserializationError('Non-minimal %s encoding' % cls.__name__)
+    return obj
+
 class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
@@ -35,7 +50,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         serialized_tx = ctx.read_bytes(l)
-        tx = bitcoin.core.CTransaction.deserialize(serialized_tx)
+        tx = _deserialize_exactly(bitcoin.core.CTransaction, serialized_tx)
         return tx
 
 class COutPointSerializer(proofmarshal.serialize.Serializer):
@@ -56,7 +71,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         serialized_outpoint = ctx.read_bytes(l)
-        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint)
+        outpoint = _deserialize_exactly(bitcoin.core.COutPoint, serialized_outpoint)
         return outpoint
 
 class TxProof(proofmarshal.proof.Proof):
-- 
2.43.0


From 931ff5d3496bf8376ea201ba87a46d41446a27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:10 +0000
Subject: [PATCH 53/59] fix: CECKey: signatures could be forged for an invalid
 public key

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index c111b66..4beb825 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -49,9 +49,6 @@ class CECKey:
     POINT_CONVERSION_COMPRESSED = 2
     POINT_CONVERSION_UNCOMPRESSED = 4
 
-    # Whether the pubkey is the point at infinity
-    _is_infinity = False
-
     def __init__(self):
         self.k = _ssl.EC_KEY_new_by_curve_name(_NID_secp256k1)
 
@@ -90,7 +87,6 @@ class CECKey:
         return _ssl.d2i_ECPrivateKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
 
     def set_pubkey(self, key):
-        self._is_infinity = key[0:1] == b'\x00'
         self.mb = ctypes.create_string_buffer(key)
         return _ssl.o2i_ECPublicKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
 
@@ -137,8 +133,13 @@ class CECKey:
 
     def verify(self, hash, sig):
         """Verify a DER signature"""
-        if self._is_infinity:
-            # Anyone can make signatures that OpenSSL accepts
+        try:
+            pub_key = _ssl.EC_KEY_get0_public_key(self.k)
+        except ValueError: # not set
+            return False
+        if _ssl.EC_POINT_is_at_infinity(_ssl.EC_KEY_get0_group(self.k), pub_key):
+            # Anyone can make signatures that OpenSSL accepts. Note that an
+            # invalid pubkey leaves us with the point at infinity too.
             return False
         return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) == 1
 
-- 
2.43.0


From d49c318fd93f248bc0d4d7db0e35385b2903b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 54/59] fix: CECKey.set_pubkey: an invalid public key was set
 nevertheless

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 4beb825..9bb6afe 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -88,6 +88,15 @@ class CECKey:
 
     def set_pubkey(self, key):
         self.mb = ctypes.create_string_buffer(key)
+
+        # OpenSSL may set a pubkey even if it reports that it's invalid, so try
+        # it on another EC_KEY first.
+        k = _ssl.EC_KEY_new_by_curve_name(_NID_secp256k1)
+        r = _ssl.o2i_ECPublicKey(ctypes.byref(k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
+        _ssl.EC_KEY_free(k)
+        if not r:
+            return r
+
         return _ssl.o2i_ECPublicKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
 
     def get_privkey(self):
@@ -138,8 +147,7 @@ class CECKey:
         except ValueError: # not set
             return False
         if _ssl.EC_POINT_is_at_infinity(_ssl.EC_KEY_get0_group(self.k), pub_key):
-            # Anyone can make signatures that OpenSSL accepts. Note that an
-            # invalid pubkey leaves us with the point at infinity too.
+            # Anyone can make signatures that OpenSSL accepts
             return False
         return _ssl.ECDSA_verify(0, hash, len(hash), sig, len(sig), self.k) == 1
 
-- 
2.43.0


From c4c1f280fbf9df07c3b3a008bc4e0aba20e08565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 55/59] fix: FindAndDelete: scripts that end inside a push

---
 lib/python-bitcoinlib/bitcoin/core/script.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index ad5708e..7b89129 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -786,12 +786,24 @@ SIGHASH_NONE = 2
 SIGHASH_SINGLE = 3
 SIGHASH_ANYONECANPAY = 0x80
 
+def _valid_ops(script):
+    """The operations of a script up to the first invalid pushdata op
+
+    Matches the behavior of Bitcoin Core, which leaves that op and everything
+    after it as is.
+    """
+    try:
+        for op in script.raw_iter():
+            yield op
+    except CScriptInvalidError:
+        pass
+
 def FindAndDelete(script, sig):
     """Consensus critical, see FindAndDelete() in Satoshi codebase"""
     r = b''
     last_sop_idx = sop_idx = 0
-    skip = True
-    for (opcode, data, sop_idx) in script.raw_iter():
+    skip = False
+    for (opcode, data, sop_idx) in _valid_ops(script):
         if not skip:
             r += script[last_sop_idx:sop_idx]
         last_sop_idx = sop_idx
@@ -801,6 +813,9 @@ def FindAndDelete(script, sig):
             skip = False
     if not skip:
         r += script[last_sop_idx:]
+    else:
+        # Only something if an invalid pushdata op follows
+        r += script[last_sop_idx + len(sig):]
     return CScript(r)
 
 
-- 
2.43.0


From 7859f1de05d8d88ba3fb11ba34fe03ddfca419f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 56/59] fix: StreamDeserializationContext.fd_read: MemoryError
 on lengths no file can hold

A length of 2**62, say, read from untrusted data made a buffered file's
read() raise MemoryError rather than OverflowError.
---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 45311ff..927aeb1 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -183,7 +183,7 @@ class StreamDeserializationContext(DeserializationContext):
     def fd_read(self, l):
         try:
             r = self.fd.read(l)
-        except OverflowError:
+        except (OverflowError, MemoryError):
             raise TruncationError('Tried to read %d bytes' % l)
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
-- 
2.43.0


From 3e1a5290f09e5abfcbd01d1be6c940607be78744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 57/59] fix: proofmarshal: errors about huge integers

Python refuses to format integers of more than 4300 digits in decimal, so an
untrusted varuint of some 2000 bytes or more raised a plain ValueError instead
of DeserializationError.
---
 lib/python-proofmarshal/proofmarshal/proof.py     | 4 ++--
 lib/python-proofmarshal/proofmarshal/serialize.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 8825a95..6d0155c 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -291,7 +291,7 @@ class VarProof(Proof):
             return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
-            raise DeserializationError('bad union class number %d' % i)
+            raise DeserializationError('bad union class number 0x%x' % i)
 
     def _ctx_serialize_pruned(self, ctx):
         # The hash depends on the HASHTAG of the variant, so a pruned instance
@@ -361,6 +361,6 @@ class ProofUnion(HashingSerializer):
             union_cls = cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
-            raise DeserializationError('bad union class number %d' % i)
+            raise DeserializationError('bad union class number 0x%x' % i)
 
         return union_cls.ctx_deserialize(ctx)
diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 927aeb1..5f23494 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -184,7 +184,7 @@ class StreamDeserializationContext(DeserializationContext):
         try:
             r = self.fd.read(l)
         except (OverflowError, MemoryError):
-            raise TruncationError('Tried to read %d bytes' % l)
+            raise TruncationError('Tried to read 0x%x bytes' % l)
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
@@ -380,7 +380,7 @@ class VarBytes(Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):
-            raise DeserializationError('Serialized length out of range; %d not in range (%d,%d)' % \
+            raise DeserializationError('Serialized length out of range; 0x%x not in range (%d,%d)' % \
                                            (l, cls.MIN_LENGTH, cls.MAX_LENGTH))
         return ctx.read_bytes(l)
 
@@ -395,7 +395,7 @@ class UInt(Serializer):
             raise SerializerTypeError('Expected an int; got %r' % value.__class__)
 
         if not (0 <= value <= cls.MAX_INT):
-            raise SerializerValueError('Integer out of range; 0 <= %d <= %d' % (value, cls.MAX_INT))
+            raise SerializerValueError('Integer out of range; 0 <= 0x%x <= %d' % (value, cls.MAX_INT))
 
     @classmethod
     def ctx_serialize(cls, self, ctx):
@@ -405,7 +405,7 @@ class UInt(Serializer):
     def ctx_deserialize(cls, ctx):
         r = ctx.read_varuint()
         if not (0 <= r <= cls.MAX_INT):
-            raise DeserializationError('Deserialized integer out of range; 0 <= %d <= %d' % (r, cls.MAX_INT))
+            raise DeserializationError('Deserialized integer out of range; 0 <= 0x%x <= %d' % (r, cls.MAX_INT))
         return r
 
 class UInt8(UInt):
-- 
2.43.0


From c21436cdcb2860ec8b1a55f889af9e5dd2d355f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 58/59] fix: rpc: credentials in bitcoin.conf may contain any
 character

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9c89777..54e94d7 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -65,6 +65,7 @@ class RawProxy(object):
 
         Unlike Proxy no conversion is done from the raw JSON objects.
         """
+        authpair = None
 
         if service_url is None:
             # Figure out the path to the bitcoin.conf file
@@ -100,9 +101,10 @@ class RawProxy(object):
                 else:
                     raise ValueError('Unknown rpcssl value %r' % conf['rpcssl'])
 
-                service_url = ('%s://%s:%s@localhost:%d' %
+                # Not part of the URL, as they may contain any character
+                authpair = '%s:%s' % (conf['rpcuser'], conf['rpcpassword'])
+                service_url = ('%s://localhost:%d' %
                     ('https' if conf['rpcssl'] else 'http',
-                     conf['rpcuser'], conf['rpcpassword'],
                      conf['rpcport']))
 
         self.__service_url = service_url
@@ -112,7 +114,8 @@ class RawProxy(object):
         else:
             port = self.__url.port
         self.__id_count = 0
-        authpair = "%s:%s" % (self.__url.username, self.__url.password)
+        if authpair is None:
+            authpair = "%s:%s" % (self.__url.username, self.__url.password)
         authpair = authpair.encode('utf8')
         self.__auth_header = b"Basic " + base64.b64encode(authpair)
 
-- 
2.43.0


From ee9e6aa04eae1f6d33545296b473da67ffcfaf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:10 +0000
Subject: [PATCH 59/59] fix: make_close_seal_tx_template: the template is
 mutable, as documented

---
 proofchains/uniquebits/singleuseseal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/uniquebits/singleuseseal.py b/proofchains/uniquebits/singleuseseal.py
index 3580871..c4062ee 100644
--- a/proofchains/uniquebits/singleuseseal.py
+++ b/proofchains/uniquebits/singleuseseal.py
@@ -12,7 +12,7 @@
 """Single use seals - non-consensus-critical functionality"""
 
 from bitcoin.core.script import CScript, OP_RETURN, OP_HASH160, OP_EQUAL, OP_DUP, OP_EQUALVERIFY, OP_CHECKSIG
-from bitcoin.core import Hash160, CTransaction, CTxIn, CTxOut
+from bitcoin.core import Hash160, CTransaction, CMutableTransaction, CTxIn, CTxOut
 
 def make_close_seal_tx_template(digest, *seals, meth='op_return', dust=600):
     """Make a transaction that would to close a seal(s) if mined
@@ -31,4 +31,4 @@ def make_close_seal_tx_template(digest, *seals, meth='op_return', dust=600):
 
     txins = [CTxIn(seal.outpoint) for seal in seals]
 
-    return CTransaction(txins, [txout])
+    return CMutableTransaction.from_tx(CTransaction(txins, [txout]))
-- 
2.43.0

