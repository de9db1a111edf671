From 3293bda96b20c09cb3f6b1a8bc4d9da867ed0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:18 +0000
Subject: [PATCH 01/25] fix: report oversized byte string lengths as
 insufficient data

A bytes or string length too large for stream.read() escaped as
OverflowError instead of InsufficientDataBytes.
---
 eth_abi/decoding.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..d01d4ef 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -596,7 +596,13 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        try:
+            data = stream.read(padded_length)
+        except OverflowError:
+            # no stream holds this many bytes
+            raise InsufficientDataBytes(
+                f"Tried to read {padded_length} bytes, more than any stream can hold"
+            )
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 0695bf2a0e9048d3dd1151e47bb1d94516e5ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:18 +0000
Subject: [PATCH 02/25] fix: do not truncate byte strings in non-strict
 decoding

Non-strict mode may ignore padding, but content that ends before its
declared length was silently returned cut short.
---
 eth_abi/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index d01d4ef..148f00b 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -615,6 +615,10 @@ class ByteStringDecoder(SingleDecoder):
                 raise NonEmptyPaddingBytes(
                     f"Padding bytes were not empty: {repr(padding_bytes)}"
                 )
+        elif len(data) < data_length:
+            raise InsufficientDataBytes(
+                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
+            )
 
         return data[:data_length]
 
-- 
2.43.0


From 0682eb0392308c4600b84b0b609c4020fb046021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:18 +0000
Subject: [PATCH 03/25] fix: apply strict=False to nested byte strings and to
 this call only

The flag was set on the outermost decoder alone, so byte strings in
tuples and arrays stayed strict, and it was set on the registered
object itself, so for decoders registered as instances one non-strict
call made later strict calls lenient.
---
 eth_abi/registry.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..3223e15 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -277,6 +277,31 @@ def is_base_tuple(type_str):
     return isinstance(abi_type, grammar.TupleType) and abi_type.arrlist is None
 
 
+def _with_strict(decoder, strict):
+    """
+    Returns a decoder equivalent to ``decoder`` but with the given ``strict`` flag,
+    also on the decoders nested in it.  Only dynamic decoders should be allowed the
+    looser constraints.  All other decoders keep the default value of ``True``.  The
+    given decoder itself may be in use elsewhere and is never modified.
+    """
+    if not getattr(decoder, "is_dynamic", False):
+        return decoder
+    if getattr(decoder, "strict", None) == strict:
+        return decoder
+
+    decoder = copy.copy(decoder)
+    decoder.strict = strict
+
+    if isinstance(decoder, decoding.HeadTailDecoder):
+        decoder.tail_decoder = _with_strict(decoder.tail_decoder, strict)
+    elif isinstance(decoder, decoding.TupleDecoder):
+        decoder.decoders = tuple(_with_strict(d, strict) for d in decoder.decoders)
+    elif isinstance(decoder, decoding.BaseArrayDecoder):
+        decoder.item_decoder = _with_strict(decoder.item_decoder, strict)
+
+    return decoder
+
+
 def _clear_encoder_cache(old_method: Callable[..., None]) -> Callable[..., None]:
     @functools.wraps(old_method)
     def new_method(self: "ABIRegistry", *args: Any, **kwargs: Any) -> None:
@@ -474,13 +499,7 @@ class ABIRegistry(Copyable, BaseRegistry):
     def _get_decoder_uncached(self, type_str, strict=True):
         decoder = self._get_registration(self._decoders, type_str)
 
-        if hasattr(decoder, "is_dynamic") and decoder.is_dynamic:
-            # Set a transient flag each time a call is made to ``get_decoder()``.
-            # Only dynamic decoders should be allowed these looser constraints. All
-            # other decoders should keep the default value of ``True``.
-            decoder.strict = strict
-
-        return decoder
+        return _with_strict(decoder, strict)
 
     def copy(self):
         """
-- 
2.43.0


From b6fd31f8a9a1868e0a91be2c89af4a0ab6db73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:18 +0000
Subject: [PATCH 04/25] fix: refuse text without a UTF-8 form as an illegal
 value

is_encodable returned True for strings with lone surrogates while encode
raised UnicodeEncodeError.
---
 eth_abi/encoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..12dcd79 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -544,6 +544,11 @@ class TextStringEncoder(BaseEncoder):
         if not is_text(value):
             cls.invalidate_value(value)
 
+        try:
+            codecs.encode(value, "utf8")
+        except UnicodeEncodeError as e:
+            cls.invalidate_value(value, exc=IllegalValue, msg=str(e))
+
     @classmethod
     def encode(cls, value):
         cls.validate_value(value)
-- 
2.43.0


From 6766246ef9c16a3a08a49b8220b3a1f096f72cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:18 +0000
Subject: [PATCH 05/25] fix: report huge integers as out of bounds instead of
 failing to print them

repr() of an int beyond the int/str conversion limit raises ValueError,
which replaced the EncodingError being built.
---
 eth_abi/utils/string.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/string.py b/eth_abi/utils/string.py
index abd76b8..459aeee 100644
--- a/eth_abi/utils/string.py
+++ b/eth_abi/utils/string.py
@@ -8,7 +8,11 @@ def abbr(value: Any, limit: int = 79) -> str:
     Converts a value into its string representation and abbreviates that
     representation based on the given length `limit` if necessary.
     """
-    rep = repr(value)
+    try:
+        rep = repr(value)
+    except ValueError:
+        # e.g. integers beyond the interpreter's limit for string conversion
+        rep = f"<{type(value).__name__} instance>"
 
     if len(rep) > limit:
         if limit < 3:
-- 
2.43.0


From 95169ba0f970d79686a8199fef64a195b9fe637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 06/25] fix: make the byte alias usable on its own

'byte' is a documented alias of bytes1 and worked inside tuples and
arrays, where it is normalised first, but had no registration of its own.
---
 eth_abi/registry.py          | 11 +++++++++++
 eth_abi/tools/_strategies.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 3223e15..0be7349 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -574,6 +574,12 @@ registry.register(
     decoding.BytesDecoder,
     label="function",
 )
+registry.register(
+    BaseEquals("byte", with_sub=False),
+    encoding.BytesEncoder,
+    decoding.BytesDecoder,
+    label="byte",
+)
 registry.register(
     BaseEquals("string"),
     encoding.TextStringEncoder,
@@ -640,6 +646,11 @@ registry_packed.register_encoder(
     encoding.PackedBytesEncoder,
     label="function",
 )
+registry_packed.register_encoder(
+    BaseEquals("byte", with_sub=False),
+    encoding.PackedBytesEncoder,
+    label="byte",
+)
 registry_packed.register_encoder(
     BaseEquals("string"),
     encoding.PackedTextStringEncoder,
diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index 201ff74..fb66b6e 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -218,6 +218,11 @@ strategy_registry.register_strategy(
     get_bytes_strategy,
     label="function",
 )
+strategy_registry.register_strategy(
+    BaseEquals("byte", with_sub=False),
+    get_bytes_strategy,
+    label="byte",
+)
 strategy_registry.register_strategy(
     BaseEquals("string", with_sub=False),
     string_strategy,
-- 
2.43.0


From b1cfe2d998018d4963dac6ca985357a750518201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 07/25] fix: reject bool types with a suffix

bool8 and bool8x7 are not ABI types but were coded as bool.
---
 eth_abi/grammar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index fe24044..16228ac 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -395,6 +395,11 @@ class BasicType(ABIType):
             if sub is not None:
                 self.invalidate("address cannot have suffix")
 
+        # Check validity of bool type
+        elif base == "bool":
+            if sub is not None:
+                self.invalidate("bool cannot have suffix")
+
 
 TYPE_ALIASES = {
     "int": "int256",
-- 
2.43.0


From 499f2183b9f6e5a27382a4bb7c2209673d0dc75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 08/25] fix: reject pointers into the static parts of a tuple's
 head

The head length counted one word per static member, or the outermost
dimension of a fixed array, so pointers into nested static tuples and
multi-dimensional arrays were accepted.
---
 eth_abi/decoding.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 148f00b..c32bb5b 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -193,31 +193,30 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
-        end_of_offsets = current_location + 32 * len_of_head
         total_stream_length = len(stream.getbuffer())
+        pointers = []
         for decoder in self.decoders:
             if isinstance(decoder, HeadTailDecoder):
                 # the next 32 bytes are a pointer
-                offset = decode_uint_256(stream)
-                indicated_idx = current_location + offset
-                if (
-                    indicated_idx < end_of_offsets
-                    or indicated_idx >= total_stream_length
-                ):
-                    # the pointer is indicating its data is located either within the
-                    # offsets section of the stream or beyond the end of the stream,
-                    # both of which are invalid
-                    raise InvalidPointer(
-                        "Invalid pointer in tuple at location "
-                        f"{stream.tell() - 32} in payload"
-                    )
+                pointer_location = stream.tell()
+                pointers.append((pointer_location, decode_uint_256(stream)))
             else:
                 # the next 32 bytes are not a pointer, so progress the stream per
                 # the decoder
                 decoder(stream)
+        # static parts may be wider than 32 bytes, so the end of the head is only
+        # known now
+        end_of_offsets = stream.tell()
+        for pointer_location, offset in pointers:
+            indicated_idx = current_location + offset
+            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
+                # the pointer is indicating its data is located either within the
+                # offsets section of the stream or beyond the end of the stream,
+                # both of which are invalid
+                raise InvalidPointer(
+                    "Invalid pointer in tuple at location "
+                    f"{pointer_location} in payload"
+                )
         # return the stream to its original location for actual decoding
         stream.seek(current_location)
 
-- 
2.43.0


From c509d0291f6aefc39d4710a7084ed59c2c76c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 09/25] fix: decode nested static tuples once

Each level of static tuple nesting decoded its members twice, so the
work was exponential in the depth of the type.
---
 eth_abi/decoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index c32bb5b..9ac8176 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -192,6 +192,11 @@ class TupleDecoder(BaseDecoder):
         """
         Verify that all pointers point to a valid location in the stream.
         """
+        if not self.is_dynamic:
+            # there are no pointers; decoding the static parts just to skip them would
+            # double the work at every level of nesting
+            return
+
         current_location = stream.tell()
         total_stream_length = len(stream.getbuffer())
         pointers = []
-- 
2.43.0


From da2ffd0ec3acf68fe5b7ec520dd20209b1a0fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 10/25] fix: drop the label when unregistering by an equal
 predicate

The registration was removed by equality but its label was looked up by
identity, leaving a stale label that blocked registering it again.
---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 0be7349..5d61d25 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From bce2c6bbecc26b8d7882101ca7e1c3edb4cbc633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 11/25] fix: honour label when registering under a type string

The label argument was ignored for type string lookups.
---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 5d61d25..c4ba31c 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -328,7 +328,7 @@ class BaseRegistry:
             return
 
         if isinstance(lookup, str):
-            mapping.add(Equals(lookup), value, lookup)
+            mapping.add(Equals(lookup), value, lookup if label is None else label)
             return
 
         raise TypeError(
-- 
2.43.0


From 8b8ae0adac79f68b8b8ed556736efeb36e2ffa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:28 +0000
Subject: [PATCH 12/25] fix: support callables as coders of array items

Plain callables may be registered and worked at top level and in tuples,
but arrays of such a type failed with AttributeError.
---
 eth_abi/decoding.py | 4 ++--
 eth_abi/encoding.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 9ac8176..a4c8cba 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -276,7 +276,7 @@ class BaseArrayDecoder(BaseDecoder):
         super().__init__(**kwargs)
 
         # Use a head-tail decoder to decode dynamic elements
-        if self.item_decoder.is_dynamic:
+        if getattr(self.item_decoder, "is_dynamic", False):
             self.item_decoder = HeadTailDecoder(
                 tail_decoder=self.item_decoder,
             )
@@ -333,7 +333,7 @@ class SizedArrayDecoder(BaseArrayDecoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_decoder.is_dynamic
+        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
     @to_tuple
     def decode(self, stream):
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 12dcd79..a76a5ed 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -592,7 +592,10 @@ class BaseArrayEncoder(BaseEncoder):
             )
 
         for item in value:
-            self.item_encoder.validate_value(item)
+            try:
+                self.item_encoder.validate_value(item)
+            except AttributeError:
+                self.item_encoder(item)
 
     def encode_elements(self, value):
         self.validate_value(value)
@@ -668,7 +671,7 @@ class SizedArrayEncoder(BaseArrayEncoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_encoder.is_dynamic
+        self.is_dynamic = getattr(self.item_encoder, "is_dynamic", False)
 
     def validate(self):
         super().validate()
-- 
2.43.0


From 03e9eda386ffd4608c91bcc3ccb19a2c85f11c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:28 +0000
Subject: [PATCH 13/25] fix: refuse complex numbers and fractions for
 fixed-point types

They passed the type check and then failed with TypeError in the bounds
check or decimal arithmetic, in encode as well as in is_encodable.
---
 eth_abi/encoding.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index a76a5ed..389e793 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -18,7 +18,6 @@ from eth_utils import (
     is_bytes,
     is_integer,
     is_list_like,
-    is_number,
     is_text,
     to_canonical_address,
 )
@@ -334,7 +333,7 @@ class BaseFixedEncoder(NumberEncoder):
 
     @staticmethod
     def type_check_fn(value):
-        return is_number(value) and not isinstance(value, float)
+        return isinstance(value, (int, decimal.Decimal))
 
     @staticmethod
     def illegal_value_fn(value):
-- 
2.43.0


From 040fb79d643496a34c409a826cfa464150a83e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:28 +0000
Subject: [PATCH 14/25] fix: do not let tiny fixed-point values underflow to
 zero

Decimals with an exponent below the context's Emin were reduced to zero
before the precision check, which then accepted them.
---
 eth_abi/utils/numeric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/numeric.py b/eth_abi/utils/numeric.py
index b44e4dc..800caf4 100644
--- a/eth_abi/utils/numeric.py
+++ b/eth_abi/utils/numeric.py
@@ -5,7 +5,12 @@ import decimal
 
 ABI_DECIMAL_PREC = 999
 
-abi_decimal_context = decimal.Context(prec=ABI_DECIMAL_PREC)
+# The exponent limits are as wide as possible so that no operand underflows to zero
+abi_decimal_context = decimal.Context(
+    prec=ABI_DECIMAL_PREC,
+    Emin=decimal.MIN_EMIN,
+    Emax=decimal.MAX_EMAX,
+)
 
 ZERO = decimal.Decimal(0)
 TEN = decimal.Decimal(10)
-- 
2.43.0


From c18952e988e5b5ad02c0d434dbf498f383442263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:28 +0000
Subject: [PATCH 15/25] fix: refuse strategies for invalid types

get_abi_strategy returned strategies for types such as uint7, bytes33 or
fixed7x99 whose values no codec accepts, and failed with TypeError for
others.
---
 eth_abi/tools/_strategies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index fb66b6e..d7a7041 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -73,6 +73,7 @@ class StrategyRegistry(BaseRegistry):
             # type to get an appropriate hypothesis strategy.
             normalized_type_str = normalize(type_str)
             abi_type = parse(normalized_type_str)
+            abi_type.validate()
             strategy = registration(abi_type, self)
 
             return strategy  # type: ignore[no-any-return] # clarify return type
-- 
2.43.0


From 49bf7b3b0fc1011e871695c23a5c5a2c792ddbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:19 +0000
Subject: [PATCH 16/25] fix: do not set a strict flag on dynamic decoder
 callables that have none

Decoding with a custom dynamic callable set an attribute on the caller's own
object, and failed with AttributeError where it accepts none.
---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index c4ba31c..6ae2e50 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -286,7 +286,7 @@ def _with_strict(decoder, strict):
     """
     if not getattr(decoder, "is_dynamic", False):
         return decoder
-    if getattr(decoder, "strict", None) == strict:
+    if getattr(decoder, "strict", strict) == strict:
         return decoder
 
     decoder = copy.copy(decoder)
-- 
2.43.0


From 75db447a2e8e395bfc01f1283319a148b4992712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 17/25] fix: refuse a SizedArrayDecoder without array_size when
 it is created

---
 eth_abi/decoding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index a4c8cba..63405e4 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -335,6 +335,12 @@ class SizedArrayDecoder(BaseArrayDecoder):
 
         self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
+    def validate(self):
+        super().validate()
+
+        if self.array_size is None:
+            raise ValueError("No `array_size` set")
+
     @to_tuple
     def decode(self, stream):
         if self.item_decoder is None:
-- 
2.43.0


From 70e30ed3d881068f0e029cd05fa47ebaf2e06459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 18/25] fix: refuse an AddressDecoder with a value width other
 than 160 bits

---
 eth_abi/decoding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 63405e4..6483623 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -461,6 +461,12 @@ class AddressDecoder(Fixed32ByteSizeDecoder):
     is_big_endian = True
     decoder_fn = staticmethod(to_normalized_address)
 
+    def validate(self):
+        super().validate()
+
+        if self.value_bit_size != 20 * 8:
+            raise ValueError("Addresses must be 160 bits in length")
+
     @parse_type_str("address")
     def from_type_str(cls, abi_type, registry):
         return cls()
-- 
2.43.0


From b4880e04e763c17de3b03338d6f7ae9803c729a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 19/25] fix: refuse to make a tuple coder from an array of
 tuples type string

---
 eth_abi/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eth_abi/base.py b/eth_abi/base.py
index 309cd1d..5b4b4d1 100644
--- a/eth_abi/base.py
+++ b/eth_abi/base.py
@@ -100,6 +100,14 @@ def parse_tuple_type_str(old_from_type_str):
                     type_str_repr,
                 )
             )
+        if abi_type.arrlist is not None:
+            raise ValueError(
+                "Cannot create {} for type {}: expected type with "
+                "no array dimension list".format(
+                    cls.__name__,
+                    type_str_repr,
+                )
+            )
 
         abi_type.validate()
 
-- 
2.43.0


From e057bd11235b51aa88816cba1613d1bdbb393b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 20/25] fix: bytes and bytes<M> coders refuse each other's type
 strings with ValueError

---
 eth_abi/base.py     | 12 +++++++++++-
 eth_abi/decoding.py |  4 ++--
 eth_abi/encoding.py |  6 +++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/eth_abi/base.py b/eth_abi/base.py
index 5b4b4d1..679660d 100644
--- a/eth_abi/base.py
+++ b/eth_abi/base.py
@@ -8,7 +8,7 @@ from .grammar import (
 )
 
 
-def parse_type_str(expected_base=None, with_arrlist=False):
+def parse_type_str(expected_base=None, with_arrlist=False, with_sub=None):
     """
     Used by BaseCoder subclasses as a convenience for implementing the
     ``from_type_str`` method required by ``ABIRegistry``.  Useful if normalizing
@@ -64,6 +64,16 @@ def parse_type_str(expected_base=None, with_arrlist=False):
                     )
                 )
 
+            if with_sub is not None and (abi_type.sub is not None) != with_sub:
+                raise ValueError(
+                    "Cannot create {} for type {}: expected type with "
+                    "{}sub type".format(
+                        cls.__name__,
+                        type_str_repr,
+                        "" if with_sub else "no ",
+                    )
+                )
+
             # Perform general validation of default solidity types
             abi_type.validate()
 
diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 6483623..cb4f2ba 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -529,7 +529,7 @@ class BytesDecoder(Fixed32ByteSizeDecoder):
     def decoder_fn(data):
         return data
 
-    @parse_type_str("bytes")
+    @parse_type_str("bytes", with_sub=True)
     def from_type_str(cls, abi_type, registry):
         return cls(value_bit_size=abi_type.sub * 8)
 
@@ -641,7 +641,7 @@ class ByteStringDecoder(SingleDecoder):
     def validate_padding_bytes(self, value, padding_bytes):
         pass
 
-    @parse_type_str("bytes")
+    @parse_type_str("bytes", with_sub=False)
     def from_type_str(cls, abi_type, registry):
         return cls()
 
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 389e793..b83cb3d 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -489,13 +489,13 @@ class BytesEncoder(Fixed32ByteSizeEncoder):
     def encode_fn(value):
         return value
 
-    @parse_type_str("bytes")
+    @parse_type_str("bytes", with_sub=True)
     def from_type_str(cls, abi_type, registry):
         return cls(value_bit_size=abi_type.sub * 8)
 
 
 class PackedBytesEncoder(BytesEncoder):
-    @parse_type_str("bytes")
+    @parse_type_str("bytes", with_sub=True)
     def from_type_str(cls, abi_type, registry):
         return cls(
             value_bit_size=abi_type.sub * 8,
@@ -521,7 +521,7 @@ class ByteStringEncoder(BaseEncoder):
 
         return encoded_size + padded_value
 
-    @parse_type_str("bytes")
+    @parse_type_str("bytes", with_sub=False)
     def from_type_str(cls, abi_type, registry):
         return cls()
 
-- 
2.43.0


From c1a206c4b24898d879abc6a946200379fb503ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:36 +0000
Subject: [PATCH 21/25] fix: report several matches for a type string as such
 whatever it contains

Whether a lookup found nothing or too much was told from the text of the error
message, which includes the type string. For an unparsable type string that
contains 'No matching', several matches were reported as a ParseError.
---
 eth_abi/registry.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 6ae2e50..72920ec 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -353,11 +353,10 @@ class BaseRegistry:
     def _get_registration(self, mapping, type_str):
         try:
             value = mapping.find(type_str)
-        except ValueError as e:
-            if "No matching" in e.args[0]:
-                # If no matches found, attempt to parse in case lack of matches
-                # was due to unparsability
-                grammar.parse(type_str)
+        except NoEntriesFound:
+            # If no matches found, attempt to parse in case lack of matches
+            # was due to unparsability
+            grammar.parse(type_str)
 
             raise
 
-- 
2.43.0


From 9162f2dcbd69ae393fcd5cd3132bf07bc9d49e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:23 +0000
Subject: [PATCH 22/25] fix: validate the value before taking its length in
 DynamicArrayEncoder

---
 eth_abi/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index b83cb3d..f9290d5 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -699,8 +699,8 @@ class DynamicArrayEncoder(BaseArrayEncoder):
     is_dynamic = True
 
     def encode(self, value):
-        encoded_size = encode_uint_256(len(value))
         encoded_elements = self.encode_elements(value)
+        encoded_size = encode_uint_256(len(value))
         encoded_value = encoded_size + encoded_elements
 
         return encoded_value
-- 
2.43.0


From 0370c9720483bff3e348c84349f38ce1766042c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:07 +0000
Subject: [PATCH 23/25] fix: search a snapshot of the registrations

A lookup in one thread raised RuntimeError (dictionary changed size during
iteration) when another thread registered or unregistered a coder meanwhile.
---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 72920ec..442e9a9 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -80,7 +80,7 @@ class PredicateMapping(Copyable):
     def find(self, type_str):
         results = tuple(
             (predicate, value)
-            for predicate, value in self._values.items()
+            for predicate, value in tuple(self._values.items())
             if predicate(type_str)
         )
 
-- 
2.43.0


From 8464f9ed7cdf68d17ab2a2359cd3c87049ed9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 24/25] fix: forget cached lookups after a registry change, not
 before it

A lookup made by another thread while a coder was being registered or
unregistered could leave the old coder cached for good.
---
 eth_abi/registry.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 442e9a9..f0e5ed7 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -305,8 +305,12 @@ def _with_strict(decoder, strict):
 def _clear_encoder_cache(old_method: Callable[..., None]) -> Callable[..., None]:
     @functools.wraps(old_method)
     def new_method(self: "ABIRegistry", *args: Any, **kwargs: Any) -> None:
-        self.get_encoder.cache_clear()
-        return old_method(self, *args, **kwargs)
+        try:
+            return old_method(self, *args, **kwargs)
+        finally:
+            # Replaced after the change, not emptied before it, so that no lookup made
+            # by another thread meanwhile stays cached
+            self._get_encoder_cached = functools.cache(self._get_encoder_uncached)
 
     return new_method
 
@@ -314,8 +318,12 @@ def _clear_encoder_cache(old_method: Callable[..., None]) -> Callable[..., None]
 def _clear_decoder_cache(old_method: Callable[..., None]) -> Callable[..., None]:
     @functools.wraps(old_method)
     def new_method(self: "ABIRegistry", *args: Any, **kwargs: Any) -> None:
-        self.get_decoder.cache_clear()
-        return old_method(self, *args, **kwargs)
+        try:
+            return old_method(self, *args, **kwargs)
+        finally:
+            # Replaced after the change, not emptied before it, so that no lookup made
+            # by another thread meanwhile stays cached
+            self._get_decoder_cached = functools.cache(self._get_decoder_uncached)
 
     return new_method
 
@@ -367,8 +375,8 @@ class ABIRegistry(Copyable, BaseRegistry):
     def __init__(self):
         self._encoders = PredicateMapping("encoder registry")
         self._decoders = PredicateMapping("decoder registry")
-        self.get_encoder = functools.cache(self._get_encoder_uncached)
-        self.get_decoder = functools.cache(self._get_decoder_uncached)
+        self._get_encoder_cached = functools.cache(self._get_encoder_uncached)
+        self._get_decoder_cached = functools.cache(self._get_decoder_uncached)
 
     def _get_registration(self, mapping, type_str):
         coder = super()._get_registration(mapping, type_str)
@@ -476,6 +484,9 @@ class ABIRegistry(Copyable, BaseRegistry):
         self.unregister_encoder(label)
         self.unregister_decoder(label)
 
+    def get_encoder(self, type_str):
+        return self._get_encoder_cached(type_str)
+
     def _get_encoder_uncached(self, type_str):
         return self._get_registration(self._encoders, type_str)
 
@@ -495,6 +506,9 @@ class ABIRegistry(Copyable, BaseRegistry):
 
         return True
 
+    def get_decoder(self, type_str, strict=True):
+        return self._get_decoder_cached(type_str, strict)
+
     def _get_decoder_uncached(self, type_str, strict=True):
         decoder = self._get_registration(self._decoders, type_str)
 
-- 
2.43.0


From c2f377c1012a8711c9f577568e44b4a7e630f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:24 +0000
Subject: [PATCH 25/25] fix: search a snapshot of the labels

---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index f0e5ed7..9129f36 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -122,7 +122,7 @@ class PredicateMapping(Copyable):
     def _label_for_predicate(self, predicate):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
-        for key, value in self._labeled_predicates.items():
+        for key, value in tuple(self._labeled_predicates.items()):
             if value == predicate:
                 return key
 
-- 
2.43.0

