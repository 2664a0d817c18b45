From d0661dc2c7b69d1057b4f1d6dd43edfd41b56ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 01/50] fix: count the leading empty rows of a column in its
 length

---
 rxls/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/series.py b/rxls/series.py
index 55c1f88..48e6f30 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -70,7 +70,8 @@ class xl_series:  # noqa: N801
         self.__binary = binary
 
     def __len__(self) -> int:
-        return self.__e_row - self.__s_row + 1
+        # NOTE: rows before the first value count too: they are nulls of this column
+        return self.__e_row + 1
 
     def __pull_chunk(self) -> None:
         """Normalize chunk and add it to underlying list."""
-- 
2.43.0


From 5078640375cdf4e9436f90d6308725b8b3b8ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 02/50] fix: return the de-duplicated column names

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8a3a5b3..5f40c66 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -65,7 +65,7 @@ def __make_header(
 
         result_hdrs.append(n)
 
-    return hdrs
+    return result_hdrs
 
 
 def __find_header(
-- 
2.43.0


From b9e31b49cda0a77faf1212ace71303a63c12e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 03/50] fix: give an empty table when there are no rows below
 the header

---
 rxls/chunk/chunk.py   | 1 +
 rxls/reader/common.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d0f1841..66e9533 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -534,4 +534,5 @@ class chunk:  # noqa: D101, N801
 
         return pa.chunked_array(
             [x.arrow(dest_dtype=dtype) for x in chunks],  # type: ignore
+            type=dtype,
         ).combine_chunks()  # type: ignore
diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 5f40c66..bfb6370 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -238,7 +238,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             raise ValueError(msg)
 
     g_offset = header_height + first_row + skip_rows_after_header
-    g_length = max_len - header_height - skip_rows_after_header
+    g_length = max(max_len - header_height - skip_rows_after_header, 0)
 
     idx = None
     if filters:
-- 
2.43.0


From 30add5064d0264cd15d224096109983026bed9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 04/50] fix: resolve shared strings before parsing them as
 dates

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 66e9533..895edc6 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -245,7 +245,7 @@ class chunk:  # noqa: D101, N801
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
             return chunk(self.data, self.type | REPR_TEMPORAL)
         return chunk(
-            mf_strptime(self.data, formats),  # type: ignore
+            mf_strptime(self.arrow(), formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
         )  # type: ignore
 
-- 
2.43.0


From 5a89d97872534760908091042a63f9942d870cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 05/50] fix: apply conflict conversions only when all of them
 succeed

---
 rxls/chunk/chunk.py | 46 ++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 895edc6..21337c8 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -234,6 +234,7 @@ class chunk:  # noqa: D101, N801
         return chunk(
             _unsafe_array(self.arrow(dest_dtype=F__8), np.float64),
             TYPE_NUMERIC | REPR_PREPARED,
+            self.size,
         )
 
     def as_temporal(self, formats: tuple[str, ...] | None = None) -> chunk:
@@ -242,11 +243,12 @@ class chunk:  # noqa: D101, N801
             if self.type & REPR_TEMPORAL:
                 return self
             if self.type & REPR_PREPARED:
-                return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
-            return chunk(self.data, self.type | REPR_TEMPORAL)
+                return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL, self.size)
+            return chunk(self.data, self.type | REPR_TEMPORAL, self.size)
         return chunk(
             mf_strptime(self.arrow(), formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
+            self.size,
         )  # type: ignore
 
     def take(self, index: int | pa.BooleanArray | slice) -> chunk:
@@ -476,36 +478,38 @@ class chunk:  # noqa: D101, N801
 
         utf8_fallback = False
 
-        if temp_idx:  # noqa: PLR1702
+        # NOTE: conversions are applied only if all of them are successful
+        converted = list(chunks)
+
+        if temp_idx:
             if conf_to_datetime:
-                if nums_idx:
+                try:
                     for i in nums_idx:
-                        chunks[i] = chunks[i].as_temporal()
-                if utf8_idx:
+                        converted[i] = chunks[i].as_temporal()
                     for i in utf8_idx:
                         try:
-                            chunks[i] = chunks[i].as_temporal(datetime_formats)
-                        except pa.ArrowInvalid:  # noqa: PERF203
-                            if conf_to_numerics:
-                                try:
-                                    chunks[i] = chunks[i].as_numeric().as_temporal()
-                                except pa.ArrowInvalid:
-                                    utf8_fallback = True
-                            else:
-                                utf8_fallback = True
+                            converted[i] = chunks[i].as_temporal(datetime_formats)
+                        except pa.ArrowInvalid:
+                            if not conf_to_numerics:
+                                raise
+                            converted[i] = chunks[i].as_numeric().as_temporal()
+                except pa.ArrowInvalid:
+                    utf8_fallback = True
             elif nums_idx or utf8_idx:
                 utf8_fallback = True
         elif nums_idx and utf8_idx:
             if conf_to_numerics:
-                for i in utf8_idx:
-                    try:
-                        chunks[i] = chunks[i].as_numeric()
-                    except pa.ArrowInvalid:  # noqa: PERF203
-                        utf8_fallback = True
-                        break
+                try:
+                    for i in utf8_idx:
+                        converted[i] = chunks[i].as_numeric()
+                except pa.ArrowInvalid:
+                    utf8_fallback = True
             else:
                 utf8_fallback = True
 
+        if not utf8_fallback:
+            chunks = converted
+
         if utf8_fallback:
             dtype = UTF8
         elif temp_idx:
-- 
2.43.0


From 7d63fabb553dd2dc3b1609d2d031be844826efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 06/50] fix: take every chunk after the offset when no length
 is given

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 21337c8..4543b0a 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -409,7 +409,7 @@ class chunk:  # noqa: D101, N801
                 if _chunk.size:
                     result.append(_chunk)
 
-                if cum_len >= length:
+                if length and cum_len >= length:
                     break
 
         if length and cum_len < length:
-- 
2.43.0


From dcdfc9c9cbc1ad708b654ee3532fd9aed37084ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 07/50] fix: check bounds of shared string indices

---
 rxls/chunk/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/arrow.py b/rxls/chunk/arrow.py
index 68915db..b882c8c 100644
--- a/rxls/chunk/arrow.py
+++ b/rxls/chunk/arrow.py
@@ -111,7 +111,7 @@ def and_(x: PaArray, y: PaValue, /) -> pa.BooleanArray:
     raise NotImplementedError
 
 
-@arrow_fn("array_take", pc.TakeOptions(boundscheck=False))
+@arrow_fn("array_take", pc.TakeOptions(boundscheck=True))
 def take(
     arr: MonoArray,
     indices: PaArray | list[int],
-- 
2.43.0


From 4f08515898335ebdc3d51d0bd90fcb159f6e499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 08/50] fix: parse midnight, 1970-01-01 and earlier dates from
 text, and two-digit years

---
 rxls/chunk/casts.py | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 3182876..bde29da 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -19,6 +19,7 @@ __all__ = [
     "rk_to_f8",
 ]
 
+import re
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -603,6 +604,27 @@ def _unsafe_strings_to_array(
 
 _unsafe_strings_to_array = np.fromiter  # type: ignore
 
+NAT = np.iinfo(np.int64).min
+"Mark of values, which cannot be parsed as temporal"
+
+# NOTE: formats without any of these directives have time of day only
+RE_DATE_DIRECTIVE = re.compile(r"%[^A-Za-z%]*[aAbBcCdDeFgGhjmsuUvVwWxyY+]")
+
+
+def _strptime_result(arr: pa.Array, format: str, /) -> NDArray[np.int64]:
+    """Milliseconds since 1970-01-01 of parsed timestamps, with `NAT` where `arr` is null"""
+    valid = arr.is_valid().to_numpy(zero_copy_only=False)
+    ret = arr.cast(pa.int64()).fill_null(0).to_numpy(zero_copy_only=False)
+
+    if not RE_DATE_DIRECTIVE.search(format):
+        ret = ret % np.int64(86_400_000)
+    elif "%Y" in format:
+        # NOTE: two-digit year must not be taken as full year (-30_610_224_000_000 == 1000-01-01)
+        valid = valid & (ret >= np.int64(-30_610_224_000_000))
+
+    return np.where(valid, ret, NAT)
+
+
 if POLARS_AVAILABLE:
     import polars as pl
 
@@ -623,16 +645,15 @@ if POLARS_AVAILABLE:
 
         Returns:
         -------
-            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
+            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01), `NAT` where not parsed
 
         """
-        ret = _unsafe_array(
+        return _strptime_result(
             pl.from_arrow(arr)
             .str.strptime(pl.Datetime("ms"), format, strict=False)  # type: ignore
             .to_arrow(),
-            np.int64,
+            format,
         )
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
 
 else:
     DEFAULT_TIME_FORMATS: tuple[str, ...] = (
@@ -653,11 +674,10 @@ else:
 
         Returns:
         -------
-            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
+            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01), `NAT` where not parsed
 
         """
-        ret = _unsafe_array(strptime(arr, format, "ms", True), np.int64)
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
+        return _strptime_result(strptime(arr, format, "ms", True), format)
 
 
 DEFAULT_DATE_FORMATS: tuple[str, ...] = (
@@ -722,7 +742,7 @@ def mf_strptime(
         If one or more values cannot be recognized as temporal, using given formats.
 
     """
-    result = np.repeat(np.int64(0), len(arr))
+    result = np.repeat(np.int64(NAT), len(arr))
 
     if not formats:
         formats = (
@@ -732,11 +752,11 @@ def mf_strptime(
         )
 
     for format in formats:
-        result = np.where(result == 0, _strptime(arr, format), result)
+        result = np.where(result == NAT, _strptime(arr, format), result)
 
-        if np.all(result > np.int64(0)):
+        if not np.any(result == NAT):
             return result
 
-    if strict and np.any(result == 0):
+    if strict and np.any(result == NAT):
         raise pa.ArrowInvalid
-    return result
+    return np.where(result == NAT, np.int64(0), result)
-- 
2.43.0


From 7cc8fc5c76e25542bf54d1ba17a981749bc500d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 09/50] fix: round date serials to the nearest millisecond

---
 rxls/chunk/casts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index bde29da..70aa9d8 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -91,7 +91,7 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
     # NOTE 2: 25_569 - actual days for backward compatibility reason (for dates greater or equal to 1900-03-01)
     # NOTE 3: 86_400_000 - milliseconds per day
 
-    return (
+    return np.rint(
         (
             arr
             - (
@@ -283,7 +283,7 @@ if NUMBA_AVAILABLE:
             out[:] = (arr.astype(np.int32) << np.int32(2) | np.int32(2)).view(np.uint32)
 
         def __gu_f8_to_ms_win(arr: NDArray[np.float64], out: NDArray[np.int64]) -> None:
-            out[:] = (
+            out[:] = np.rint(
                 (
                     arr
                     - (
-- 
2.43.0


From 3a37d6cd5abbe77a1f342630bdc342f005bfa47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 10/50] fix: keep floats beyond the int64 range as float64

---
 rxls/chunk/casts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 70aa9d8..35b67c1 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -178,7 +178,11 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
         Is rounded input potentially integer array, or not
 
     """
-    return ~np.any(np.trunc(arr) != np.round(arr, int_threshold))
+    # NOTE: floats outside of [-2**63, 2**63) cannot be represented as int64
+    return ~np.any(
+        (np.trunc(arr) != np.round(arr, int_threshold))
+        | ~(np.abs(arr) < np.float64(2.0**63)),
+    )
 
 
 def dt_has_t(arr: NDArray[np.int64]) -> np.bool_:
-- 
2.43.0


From 50a42ecc4dcc906a74bd6485ebc3d33212fb4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 11/50] fix: compare whole types, not only type ids, in dtypes

---
 rxls/reader/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index bfb6370..85cdf8b 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -299,7 +299,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     if dtypes is not None:  # noqa: PLR1702
         if isinstance(dtypes, pa.DataType):
             for i in range(len(arrays)):
-                if arrays[i].type.id != dtypes.id:  # type: ignore
+                if arrays[i].type != dtypes:  # type: ignore
                     try:
                         arrays[i] = arrays[i].cast(dtypes)
                     except Exception:  # noqa: BLE001
@@ -311,7 +311,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             for i, col in enumerate(header):
                 if col in dtypes:
                     dtype = dtypes[col]
-                    if arrays[i].type.id != dtype.id:
+                    if arrays[i].type != dtype:
                         try:
                             arrays[i] = arrays[i].cast(dtype)
                         except Exception:  # noqa: BLE001
@@ -327,7 +327,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 )
 
             for i, dtype in enumerate(dtypes):
-                if arrays[i].type.id != dtype.id:
+                if arrays[i].type != dtype:
                     try:
                         arrays[i] = arrays[i].cast(dtype)
                     except Exception:  # noqa: BLE001
-- 
2.43.0


From 8308bf92aecefa7fb14f0abe05515048bac1f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 12/50] fix: write wide strings without BOM and count their
 code units

---
 rxls/biff_recs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index defd16f..ff06a26 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -38,14 +38,15 @@ class xstr:
         (sz,) = u4_u(io.read(4))
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(io.read(sz * 2).decode("utf-16"))
+        return xstr(io.read(sz * 2).decode("utf-16-le"))
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
             io.write(b"\xff\xff\xff\xff")
         elif self.s:
-            io.write(u4_p(len(self.s)))
-            io.write(self.s.encode("utf-16"))
+            data = self.s.encode("utf-16-le")
+            io.write(u4_p(len(data) // 2))
+            io.write(data)
         else:
             io.write(b"\x00\x00\x00\x00")
 
@@ -56,7 +57,7 @@ class xstr:
         (sz,) = u4_u(b[:4])
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(b[4 : 4 + sz * 2].decode("utf-16"))
+        return xstr(b[4 : 4 + sz * 2].decode("utf-16-le"))
 
     @staticmethod
     def from_string(s: str) -> xstr:
-- 
2.43.0


From cfa70b9cc000c9effcadaae2d508174428283486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 13/50] fix: escape attributes of relationships

---
 rxls/rels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index 16c5367..77670e4 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 __all__ = ["Relationship"]
 
 from typing import IO
+from xml.sax.saxutils import quoteattr
 
 from pyexpat import ParserCreate
 
@@ -42,5 +43,5 @@ class Relationship:
 
     def dump_xml(self, io: IO[bytes]) -> None:
         io.write(
-            f'<Relationship Id="{self.Id}" Type="{RELS_NS}/{self.Type}" Target="{self.Target}"/>'.encode(),
+            f'<Relationship Id={quoteattr(self.Id)} Type={quoteattr(f"{RELS_NS}/{self.Type}")} Target={quoteattr(self.Target)}/>'.encode(),
         )
-- 
2.43.0


From 24b9f1f8b418e9cb2952de37d0820f5a25ba698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 14/50] fix: convert timestamps before 1970 to serials

---
 rxls/chunk/casts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 35b67c1..50175db 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -132,7 +132,7 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
     return (
         arr
         + (
-            (arr >= ms_per_dy)
+            ((arr >= ms_per_dy) | (arr < 0))
             * (2_209_075_200_000 + (arr >= np.int64(-2_203_891_200_000)) * ms_per_dy)
         )
     ) / ms_per_dy
@@ -304,7 +304,7 @@ if NUMBA_AVAILABLE:
             out[:] = (
                 arr
                 + (
-                    (arr >= ms_per_dy)
+                    ((arr >= ms_per_dy) | (arr < 0))
                     * (
                         2_209_075_200_000
                         + (arr >= np.int64(-2_203_891_200_000)) * ms_per_dy
-- 
2.43.0


From 0cb26d7848bf049dbca82ab60e0e7f7efefb3b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 15/50] fix: encode negative and large numbers to RK without
 loss

---
 rxls/chunk/casts.py | 47 ++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 50175db..b2e50e5 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -139,16 +139,19 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
 
 
 def f8_to_rk(arr: NDArray[np.float64]) -> NDArray[np.uint32]:
+    cents = np.rint(arr * np.float64(100.0))
+
+    # NOTE: only signed 30-bit integers can be stored
+    is_i = (arr == np.trunc(arr)) & (np.abs(arr) < np.float64(2**29))
+    is_c = (arr == cents / np.float64(100.0)) & (np.abs(cents) < np.float64(2**29))
+
+    ints = np.where(is_i, arr, np.where(is_c, cents, np.float64(0.0)))
+
     return np.where(
-        arr == np.round(arr, 2),
-        np.where(
-            np.trunc(arr) == np.round(arr, 2),
-            ((arr + np.float64(0.001)).astype(np.int32) << np.int32(2)) | np.int32(2),
-            (
-                (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
-                << np.int32(2)
-            )
-            | np.int32(3),
+        is_i | is_c,
+        (
+            (ints.astype(np.int32) << np.int32(2))
+            | np.where(is_i, np.int32(2), np.int32(3))
         ).view(np.uint32),
         (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
         & np.uint32(0xFFFFFFFC),
@@ -261,20 +264,20 @@ if NUMBA_AVAILABLE:
             )
 
         def __gu_f8_to_rk(arr: NDArray[np.float64], out: NDArray[np.uint32]) -> None:
+            cents = np.rint(arr * np.float64(100.0))
+
+            is_i = (arr == np.trunc(arr)) & (np.abs(arr) < np.float64(2**29))
+            is_c = (arr == cents / np.float64(100.0)) & (
+                np.abs(cents) < np.float64(2**29)
+            )
+
+            ints = np.where(is_i, arr, np.where(is_c, cents, np.float64(0.0)))
+
             out[:] = np.where(
-                arr == np.round(arr, 2),
-                np.where(
-                    np.trunc(arr) == np.round(arr, 2),
-                    (
-                        (arr + np.float64(0.001)).astype(np.int64).astype(np.int32)
-                        << np.int32(2)
-                    )
-                    | np.int32(2),
-                    (
-                        (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
-                        << np.int32(2)
-                    )
-                    | np.int32(3),
+                is_i | is_c,
+                (
+                    (ints.astype(np.int32) << np.int32(2))
+                    | np.where(is_i, np.int32(2), np.int32(3))
                 ).view(np.uint32),
                 (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
                 & np.uint32(0xFFFFFFFC),
-- 
2.43.0


From 33e95452aa93132a443277cbdeec4d78341bd8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 16/50] fix: count skipped rows, so that skip_rows and
 take_rows work together

---
 rxls/reader/xlsb.py | 6 ++++--
 rxls/reader/xlsx.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 0a51fe1..431b466 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -209,7 +209,8 @@ class XlsbWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
         row = -1
         is_empty_row = False
 
@@ -227,7 +228,8 @@ class XlsbWorkbook:  # noqa: D101
             # * 402: BrtEndSheetData
             for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
                 if not r.rec_id:
-                    if not is_empty_row or take_rows_non_empty:
+                    # ? Skipped rows are always counted
+                    if row < skip_rows or not is_empty_row or take_rows_non_empty:
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 39d1a8f..99a2590 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -284,7 +284,8 @@ class XlsxWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
 
         def worker(
             io: IO[bytes],
@@ -397,7 +398,8 @@ class XlsxWorkbook:  # noqa: D101
                 if tag == "row":
                     # ? Row number for cells increases here only.
                     # * If row was empty and take_non_empty, do not increase row number
-                    if not is_empty_row or take_non_empty:
+                    # * Skipped rows are always counted
+                    if row < skip_rows or not is_empty_row or take_non_empty:
                         row += 1
 
                     if callback is not None:
-- 
2.43.0


From 56950da78625c4d2b0cad4b0e072345dd24fd4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 17/50] fix: drop or keep empty rows inside of an XLSX sheet as
 asked

---
 rxls/reader/xlsx.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 99a2590..8f2e163 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -386,7 +386,7 @@ class XlsxWorkbook:  # noqa: D101
                         is_empty_row = False
 
             def cell_eh(tag: str) -> None:
-                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, take_rows, l_tag
+                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, l_tag
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -405,12 +405,9 @@ class XlsxWorkbook:  # noqa: D101
                     if callback is not None:
                         callback()
 
-                    if is_empty_row:
-                        take_rows += take_non_empty
+                    # ? Next row is empty until its first value
+                    is_empty_row = True
 
-                    # ? If entire row is empty, just increase max row count
-                    if take_non_empty:
-                        take_rows += is_empty_row
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
                         raise GeneratorExit
-- 
2.43.0


From 094ef33388622656e46887603966ab3b48881f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 18/50] fix: read all runs of XLSX shared rich text, and texts
 of any length

---
 rxls/reader/xlsx.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 8f2e163..fc44555 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -160,27 +160,37 @@ class XlsxWorkbook:  # noqa: D101
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
         with self.zf.open("xl/sharedStrings.xml") as io:
-            must_be = False
+            parts: list[str] = []
+            in_text = False
+            in_phonetic = False
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
-                nonlocal must_be
+                nonlocal in_text, in_phonetic
                 if tag == "si":
-                    must_be = True
+                    parts.clear()
+                elif tag == "rPh":
+                    in_phonetic = True
+                elif tag == "t":
+                    in_text = not in_phonetic
 
             def cell_th(txt: str) -> None:
-                nonlocal must_be, ret
-                if must_be and (txt := txt.strip()):
-                    if self.null_values(txt):
-                        return
-                    ret.append(txt)
-                    must_be = False
+                if in_text:
+                    parts.append(txt)
 
             def cell_eh(tag: str) -> None:
-                nonlocal must_be
-                if tag == "si" and must_be:
-                    ret.append(None)  # type: ignore
-                    self.null_shared.add(str(len(ret) - 1))
-                    must_be = False
+                nonlocal in_text, in_phonetic
+                if tag == "t":
+                    in_text = False
+                elif tag == "rPh":
+                    in_phonetic = False
+                elif tag == "si":
+                    # ? Text of all runs is the text of shared string
+                    txt = "".join(parts).strip()
+                    if not txt or self.null_values(txt):
+                        ret.append(None)  # type: ignore
+                        self.null_shared.add(str(len(ret) - 1))
+                    else:
+                        ret.append(txt)
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From e133eadaa9f11df253ca133795f36d5f311bdd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 19/50] fix: apply null values to the texts of XLSX shared
 strings, not to their indices

---
 rxls/reader/xlsx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index fc44555..3a12536 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -317,7 +317,6 @@ class XlsxWorkbook:  # noqa: D101
             "Number of current row"
 
             is_empty_row: bool = True
-            is_sharedstr: bool = False
 
             # cell fields
             c_row: int = 0
@@ -365,7 +364,6 @@ class XlsxWorkbook:  # noqa: D101
                     c_typ, \
                     l_tag, \
                     is_empty_row, \
-                    is_sharedstr, \
                     nullss, \
                     nullpd, \
                     skip_rows, \
@@ -375,7 +373,7 @@ class XlsxWorkbook:  # noqa: D101
                     return
 
                 if l_tag == "v" and (txt := txt.strip()):
-                    if is_sharedstr:
+                    if c_typ == TYPE_STRING | REPR_SHARED:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
                             return
@@ -448,6 +446,9 @@ class XlsxWorkbook:  # noqa: D101
         o_q: Queue[cell] = Queue()
         sentinel = object()
 
+        # ? Shared strings must be loaded before the worker uses `null_shared`
+        _ = self.shared
+
         with self.zf.open(sheet_path) as io:
             Thread(
                 target=worker,
-- 
2.43.0


From 1288ecedf38394a7e34648660c738fe42f940259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 20/50] fix: keep text cells with number or date styles as text

---
 rxls/reader/xlsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 3a12536..e28514b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -342,6 +342,9 @@ class XlsxWorkbook:  # noqa: D101
                         # ? check, if value is shared string index:
                         if attrs.get("t") == "s":
                             c_typ = TYPE_STRING | REPR_SHARED
+                        # ? check, if value is text, whatever its style is
+                        elif attrs.get("t") in {"str", "inlineStr"}:
+                            c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
                             c_typ = typ
-- 
2.43.0


From 853a134cceb3025db00aa7a11bc3a8ed18943021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 21/50] fix: read inline strings and texts of any length in
 XLSX cells

---
 rxls/reader/xlsx.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index e28514b..3daf396 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -326,6 +326,9 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
+            parts: list[str] = []
+            "Pieces of text of current cell"
+
             # ? First row started event:
             row += 1
             if callback is not None:
@@ -352,30 +355,26 @@ class XlsxWorkbook:  # noqa: D101
                             c_typ = TYPE_STRING | REPR_PREPARED
 
                         c_row = row
+                        parts.clear()
                     else:
                         return
+                elif l_tag == "rPh":
+                    # ? Phonetic hints are not a part of the text
+                    return
                 # ? Add to tags only if it is already contains something.
                 # ? Also, add if it is empty and current tag == 'c'
                 l_tag = tag
                 # tags.append(l_tag := tag)
 
             def cell_th(txt: str) -> None:
-                nonlocal \
-                    o_q, \
-                    row, \
-                    l_col, \
-                    c_typ, \
-                    l_tag, \
-                    is_empty_row, \
-                    nullss, \
-                    nullpd, \
-                    skip_rows, \
-                    skip_cols
-
-                if skip_rows > row:
-                    return
+                # ? Text may be splitted into several runs or pieces
+                if l_tag in {"v", "t"}:
+                    parts.append(txt)
+
+            def put_cell() -> None:
+                nonlocal is_empty_row
 
-                if l_tag == "v" and (txt := txt.strip()):
+                if txt := "".join(parts).strip():
                     if c_typ == TYPE_STRING | REPR_SHARED:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
@@ -424,9 +423,14 @@ class XlsxWorkbook:  # noqa: D101
                         raise GeneratorExit
 
                 elif tag == "c":
+                    if l_tag:
+                        put_cell()
                     c_typ = 0
                     l_tag = None
 
+                elif l_tag and (l_tag != "rPh" or tag == "rPh"):
+                    l_tag = "c"
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-- 
2.43.0


From 08b3c164035126570064b343f3719080b0f3db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 22/50] fix: raise errors of the XLSX worker thread instead of
 returning a shortened table

---
 rxls/reader/xlsx.py | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 3daf396..04148a4 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -313,6 +313,9 @@ class XlsxWorkbook:  # noqa: D101
         ) -> None:
             tags: list[str] = []
 
+            finish = GeneratorExit()
+            "Stops the parser, when there is nothing to read anymore"
+
             row = -1
             "Number of current row"
 
@@ -331,8 +334,6 @@ class XlsxWorkbook:  # noqa: D101
 
             # ? First row started event:
             row += 1
-            if callback is not None:
-                callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
@@ -419,8 +420,8 @@ class XlsxWorkbook:  # noqa: D101
                     is_empty_row = True
 
                     # ? Simple way to break in generator, that works in background thread
-                    if 0 < take_rows < row:
-                        raise GeneratorExit
+                    if stop or 0 < take_rows < row:
+                        raise finish
 
                 elif tag == "c":
                     if l_tag:
@@ -438,26 +439,30 @@ class XlsxWorkbook:  # noqa: D101
             parser.buffer_text = True
 
             try:
+                if callback is not None:
+                    callback()
                 parser.ParseFile(io)
-            except ValueError as e:
-                if e.args[0] != "read from closed file.":
-                    raise
-            except AttributeError as e:
-                if e.args[0] != "'NoneType' object has no attribute 'tell'":
-                    raise
-            except GeneratorExit:
-                pass
+            except BaseException as e:  # noqa: BLE001
+                # ? Will be raised by the consumer
+                if e is not finish:
+                    errors.append(e)
             finally:
                 o_q.put(sentinel)
 
         o_q: Queue[cell] = Queue()
         sentinel = object()
 
+        errors: list[BaseException] = []
+        "Errors of the worker"
+
+        stop: list[bool] = []
+        "Becomes non-empty, when cells are not needed anymore"
+
         # ? Shared strings must be loaded before the worker uses `null_shared`
         _ = self.shared
 
         with self.zf.open(sheet_path) as io:
-            Thread(
+            thread = Thread(
                 target=worker,
                 args=(
                     io,
@@ -472,6 +477,14 @@ class XlsxWorkbook:  # noqa: D101
                     sentinel,
                     row_callback,
                 ),
-            ).start()
+            )
+            thread.start()
+
+            try:
+                yield from iter(o_q.get, sentinel)
+            finally:
+                stop.append(True)
+                thread.join()
 
-            yield from iter(o_q.get, sentinel)
+            if errors:
+                raise errors[0]
-- 
2.43.0


From cd574037a27e1011472510ea34ca8d3001b39ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 23/50] fix: read workbooks without shared strings or styles

---
 rxls/reader/xlsb.py | 8 ++++++++
 rxls/reader/xlsx.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 431b466..bbb42dc 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -127,6 +127,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # NOTE: workbook without any shared string may have no such part
+        if "xl/sharedStrings.bin" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())
+
         with self.zf.open("xl/sharedStrings.bin") as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
@@ -144,6 +148,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # NOTE: workbook without any style may have no such part
+        if "xl/styles.bin" not in self.zf.namelist():
+            return frozenset()
+
         with self.zf.open("xl/styles.bin") as io:
             ret: set[bytes] = set()
             # ! [0]: Get full styles list from styles.bin (3-bytes little-endian XF ID and 2-bytes little-endian FMT ID)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 04148a4..0056a40 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -159,6 +159,10 @@ class XlsxWorkbook:  # noqa: D101
 
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
+        # NOTE: workbook without any shared string may have no such part
+        if "xl/sharedStrings.xml" not in self.zf.namelist():
+            return ret.finish().cast("large_string")
+
         with self.zf.open("xl/sharedStrings.xml") as io:
             parts: list[str] = []
             in_text = False
@@ -216,6 +220,10 @@ class XlsxWorkbook:  # noqa: D101
 
         fms: dict[str, str] = {}
 
+        # NOTE: workbook without any style may have no such part
+        if "xl/styles.xml" not in self.zf.namelist():
+            return {}
+
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-- 
2.43.0


From 0f28f60e2bc75757ab943b52443996e92cc8fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 24/50] fix: resolve absolute targets of sheet relationships

---
 rxls/reader/xlsb.py | 4 ++--
 rxls/reader/xlsx.py | 2 +-
 rxls/rels.py        | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index bbb42dc..bbbebd4 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -113,8 +113,8 @@ class XlsbWorkbook:  # noqa: D101
             for _sheet in scan_biff(io, {412}):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
-                sheet_file = "xl/" + next(
-                    x.Target for x in wb_rels if x.Id == _sheet.strRelID.value
+                sheet_file = next(
+                    x.part_name for x in wb_rels if x.Id == _sheet.strRelID.value
                 )
 
                 s_sheet_idx[_sheet.strName.value] = sheet_file
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 0056a40..9bda9ec 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -136,7 +136,7 @@ class XlsxWorkbook:  # noqa: D101
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
             for rel in wb_rels:
                 if rel.Type == "worksheet":
-                    rId_to_file[rel.Id] = f"xl/{rel.Target}"
+                    rId_to_file[rel.Id] = rel.part_name
 
         rId_to_name = {}  # noqa: N806
         with self.zf.open("xl/workbook.xml") as io:
diff --git a/rxls/rels.py b/rxls/rels.py
index 77670e4..ddafb57 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 __all__ = ["Relationship"]
 
+from posixpath import join, normpath
 from typing import IO
 from xml.sax.saxutils import quoteattr
 
@@ -19,6 +20,11 @@ class Relationship:
     Type: str
     Target: str
 
+    @property
+    def part_name(self) -> str:
+        """Name of the part inside of the archive (relative targets are relative to the `xl` folder)"""
+        return normpath(join("/xl", self.Target)).lstrip("/")
+
     @staticmethod
     def scan_xml(io: IO[bytes]) -> list[Relationship]:
         ret = []
-- 
2.43.0


From dcd3bccff0e81b5bdf4a5f44f333980ebf4dd2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 25/50] fix: skip chartsheets when looking for worksheets

---
 rxls/reader/xlsb.py | 11 +++++++++--
 rxls/reader/xlsx.py |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index bbbebd4..83a5b2c 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -114,10 +114,17 @@ class XlsbWorkbook:  # noqa: D101
                 _sheet = BrtBundleSh.loadr(_sheet)
 
                 sheet_file = next(
-                    x.part_name for x in wb_rels if x.Id == _sheet.strRelID.value
+                    (
+                        x.part_name
+                        for x in wb_rels
+                        if x.Id == _sheet.strRelID.value and x.Type == "worksheet"
+                    ),
+                    None,
                 )
 
-                s_sheet_idx[_sheet.strName.value] = sheet_file
+                # NOTE: chartsheets etc. are not worksheets
+                if sheet_file is not None:
+                    s_sheet_idx[_sheet.strName.value] = sheet_file
         return s_sheet_idx
 
     @cached_property
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 9bda9ec..5c0584b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -149,7 +149,10 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = st_handler
             parser.ParseFile(io)
-        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name}
+        # NOTE: chartsheets etc. are not worksheets
+        return {
+            rId_to_name[x]: rId_to_file[x] for x in rId_to_name if x in rId_to_file
+        }
 
     @cached_property
     def shared(self) -> pa.LargeStringArray:
-- 
2.43.0


From 67e8b69888fd6934f214095a4030405839dc7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 26/50] fix: classify XLSX formats with fractions of seconds as
 temporal

---
 rxls/reader/xlsx.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 5c0584b..e472044 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -37,6 +37,8 @@ if TYPE_CHECKING:
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
+re_fs = re.compile(r"(?<!\\)[sS]\]?\.0")
+
 re_date = re.compile(r"[ydYD]")
 re_time = re.compile(r"[hsHS]")
 re_span = re.compile(
@@ -247,10 +249,13 @@ class XlsxWorkbook:  # noqa: D101
 
         for f_id, fmt in fms.items():
             xf_id = [x for x, y in xfs.items() if y == f_id]
-            if fmt == "0" or ".00" in fmt:
+            txt = re_xt.sub("", fmt)
+
+            # NOTE: fraction of seconds is not a fraction of number
+            if fmt == "0" or (".00" in fmt and not re_fs.search(txt)):
                 ret_numerics.update(xf_id)
 
-            elif re_dt.search(re_xt.sub("", fmt)):
+            elif re_dt.search(txt):
                 ret_temporal.update(xf_id)
 
         ret_temporal.update(
-- 
2.43.0


From dfc1a34603af658f70a762704eb0b6399bb4ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 27/50] fix: find XLSX cell formats without optional attributes

---
 rxls/reader/xlsx.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index e472044..9119040 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -230,19 +230,30 @@ class XlsxWorkbook:  # noqa: D101
             return {}
 
         with self.zf.open("xl/styles.xml") as io:
+            in_cell_xfs = False
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id
+                nonlocal xfs, fms, xfs_id, in_cell_xfs
 
                 if tag == "numFmt":
                     fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
 
-                elif tag == "xf" and "xfId" in attrs:
-                    xfs[str(xfs_id)] = attrs["numFmtId"]
+                elif tag == "cellXfs":
+                    in_cell_xfs = True
+
+                elif tag == "xf" and in_cell_xfs:
+                    xfs[str(xfs_id)] = attrs.get("numFmtId", "0")
                     xfs_id += 1
 
+            def cell_eh(tag: str) -> None:
+                nonlocal in_cell_xfs
+
+                if tag == "cellXfs":
+                    in_cell_xfs = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
+            parser.EndElementHandler = cell_eh
             parser.buffer_text = True
 
             parser.ParseFile(io)
-- 
2.43.0


From 923943b8742dd79120f8d087ae75ee1f77688f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 28/50] fix: take the length prefix off XLSB format codes

---
 rxls/reader/xlsb.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 83a5b2c..73c4864 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -11,7 +11,7 @@ from zipfile import ZipFile
 import pyarrow as pa
 
 from ..biff import scan_biff
-from ..biff_recs import BrtBundleSh
+from ..biff_recs import BrtBundleSh, xstr
 from ..cell import cell
 from ..constants import (
     REPR_BOOLEAN,
@@ -173,17 +173,13 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[2:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: xstr.from_binary(r.data[2:]).value.split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
             for f_id, fmt in fms.items():
                 xf_ids = [x for x, y in xfs.items() if y == f_id]
-                if fmt == "0":
-                    ret.update(dict.fromkeys(xf_ids, 0x10))
-
-                    continue
                 if re_dt.search(re_xt.sub("", fmt)):
                     ret.update(xf_ids)
 
-- 
2.43.0


From 69b55e4ade8a1e5fbfbce22609e1b0e4ca1ef456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 29/50] fix: compare whole ids of XLSB number formats

---
 rxls/core.py        | 6 ++++++
 rxls/reader/xlsb.py | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rxls/core.py b/rxls/core.py
index 0a22143..82da138 100644
--- a/rxls/core.py
+++ b/rxls/core.py
@@ -14,6 +14,7 @@ __all__ = [
     "struct_u",
     "u1_p",
     "u2_p",
+    "u2_u",
     "u4_p",
     "u4_u",
 ]
@@ -190,6 +191,11 @@ def u4_p(i: int) -> bytes:
     end_decl()
 
 
+@struct_u("<H")
+def u2_u(b: bytes) -> tuple[int]:
+    end_decl()
+
+
 @struct_p("<H")
 def u2_p(i: int) -> bytes:
     end_decl()
diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 73c4864..a9073c9 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -22,7 +22,7 @@ from ..constants import (
     TYPE_NUMERIC,
     TYPE_STRING,
 )
-from ..core import u2_p, u4_p, u4_u
+from ..core import u2_p, u2_u, u4_p, u4_u
 from ..rels import Relationship
 
 if TYPE_CHECKING:
@@ -184,7 +184,9 @@ class XlsbWorkbook:  # noqa: D101
                     ret.update(xf_ids)
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
-            ret.update((x for x, y in xfs.items() if y[0] in TEMPORAL_STYLES))
+            ret.update(
+                (x for x, y in xfs.items() if u2_u(y)[0] in TEMPORAL_STYLES),
+            )
 
             return frozenset(ret)  # type: ignore
 
-- 
2.43.0


From 47fc67648480e8d85ae33a1e3237065473596d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 30/50] fix: compare XLSB texts with error strings as text

---
 rxls/reader/xlsb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index a9073c9..6fa232f 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -35,8 +35,7 @@ re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
 ERROR_STRINGS = frozenset(
-    x.encode("utf-16")
-    for x in (
+    (
         "#NULL!",
         "#DIV/0!",
         "#VALUE!",
@@ -51,7 +50,7 @@ ERROR_STRINGS = frozenset(
         "#ИМЯ?",
         "#ЧИСЛО!",
         "#Н/Д",  # noqa: RUF001
-    )
+    ),
 )
 
 TEMPORAL_STYLES = frozenset(
-- 
2.43.0


From b41a4ec00efcd6bd0b0ecb6f7498281f3064c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 31/50] fix: load XLSB shared strings before the first cell

---
 rxls/reader/xlsb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 6fa232f..2c5bcf1 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -223,6 +223,9 @@ class XlsbWorkbook:  # noqa: D101
 
         if take_rows:
             take_rows += skip_rows
+        # ? Shared strings must be loaded before use of `null_shared`
+        _ = self.shared
+
         row = -1
         is_empty_row = False
 
-- 
2.43.0


From 727d36e9f8cd92c2e7cc2ab1dd31a3a3b41f2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 32/50] fix: decode XLSB texts as little-endian UTF-16 without
 BOM

---
 rxls/reader/xlsb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 2c5bcf1..9abc8d5 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -141,7 +141,7 @@ class XlsbWorkbook:  # noqa: D101
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
                 if self.null_values(
-                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16"),
+                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16-le"),
                 )
                 else y
                 for i, r in enumerate(scan_biff(io, {19}))
@@ -276,7 +276,7 @@ class XlsbWorkbook:  # noqa: D101
                 if r.rec_id in {6, 8}:
                     # NOTE: The slowest case, due to utf-16 encoding.
                     cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
-                        "utf-16",
+                        "utf-16-le",
                     )
                     if self.null_values(cell_data):
                         continue
-- 
2.43.0


From 2c32b161decd0e7040e178ef72a868f906037fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 33/50] fix: read XLSX error cells with any error code as nulls

---
 rxls/reader/xlsx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 9119040..052e03d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -366,7 +366,8 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
-                    if tag == "c" and row >= skip_rows:
+                    # ? Error values are nulls, whatever error it is.
+                    if tag == "c" and row >= skip_rows and attrs.get("t") != "e":
                         # ? get cell coordinates
                         l_col = attrs["r"]
 
-- 
2.43.0


From 6518288dbdc01576e25a36f36b3e4ea45ce2da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 34/50] fix: read XLSX cells without references

---
 rxls/reader/xlsx.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 052e03d..f55715d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -352,7 +352,7 @@ class XlsxWorkbook:  # noqa: D101
             c_row: int = 0
             c_typ: int = 0
 
-            l_col: str = ""
+            c_col: int = -1
 
             l_tag: str | None = None
 
@@ -363,13 +363,19 @@ class XlsxWorkbook:  # noqa: D101
             row += 1
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
+                nonlocal row, tags, c_col, c_typ, c_row, styles, l_tag, skip_rows
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
-                    # ? Error values are nulls, whatever error it is.
-                    if tag == "c" and row >= skip_rows and attrs.get("t") != "e":
-                        # ? get cell coordinates
-                        l_col = attrs["r"]
+                    if tag == "c" and row >= skip_rows:
+                        # ? get cell coordinates (without them, cell is next to the previous one)
+                        if "r" in attrs:
+                            c_col = col_idx(attrs["r"].encode())
+                        else:
+                            c_col += 1
+
+                        # ? error values are nulls, whatever error it is
+                        if attrs.get("t") == "e":
+                            return
 
                         # ? check, if value is shared string index:
                         if attrs.get("t") == "s":
@@ -412,7 +418,6 @@ class XlsxWorkbook:  # noqa: D101
                     elif nullpd(txt):
                         return
 
-                    c_col = col_idx(l_col.encode())
                     if not skip_cols or c_col not in skip_cols:
                         o_q.put(
                             cell(
@@ -425,7 +430,7 @@ class XlsxWorkbook:  # noqa: D101
                         is_empty_row = False
 
             def cell_eh(tag: str) -> None:
-                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, l_tag
+                nonlocal tags, row, is_empty_row, callback, c_col, c_typ, c_row, l_tag
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -446,6 +451,7 @@ class XlsxWorkbook:  # noqa: D101
 
                     # ? Next row is empty until its first value
                     is_empty_row = True
+                    c_col = -1
 
                     # ? Simple way to break in generator, that works in background thread
                     if stop or 0 < take_rows < row:
-- 
2.43.0


From 4c0f14e11dbf472655885e56ecbfc5d7c62425c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 35/50] fix: never read beyond the data of damaged XLSB cells

---
 rxls/chunk/chunk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 4543b0a..29451ea 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -22,7 +22,6 @@ from .casts import (
     _unsafe_array,
     _unsafe_arrow,
     _unsafe_data_to_array,
-    _unsafe_data_to_arrow,
     _unsafe_strings_to_array,
     f8_is_i8,
     f8_to_ms_win,
@@ -154,7 +153,8 @@ class chunk:  # noqa: D101, N801
             if shareds is None:
                 shareds = EMPTY_SHAREDS
             return chunk(
-                _unsafe_data_to_arrow(data, UI_4),
+                # NOTE: length of array must not exceed length of data
+                _unsafe_arrow(_unsafe_data_to_array(data, np.uint32), UI_4),
                 TYPE_STRING | REPR_SHARED,
                 data_len,
                 shareds,
-- 
2.43.0


From e220449060b28c06236a6950919517b02c10c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 36/50] fix: raise when an XLSB sheet ends before its data

---
 rxls/reader/xlsb.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 9abc8d5..8b35aa6 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -256,16 +256,16 @@ class XlsbWorkbook:  # noqa: D101
                     is_empty_row = True
                     continue
 
-                # ? If upcoming row number is less than skip_rows, no data processing.
-                if skip_rows > row:
-                    continue
-
                 if r.rec_id == 402:
                     row += 1
                     if row_callback:
                         row_callback()
                     break
 
+                # ? If upcoming row number is less than skip_rows, no data processing.
+                if skip_rows > row:
+                    continue
+
                 (col,) = u4_u(r.data[:4])
 
                 if skip_cols and col in skip_cols:
@@ -318,3 +318,5 @@ class XlsbWorkbook:  # noqa: D101
                     )
 
                 is_empty_row = False
+            else:
+                raise ValueError("Unexpected end of the sheet")
-- 
2.43.0


From 058d96732375c4d160ec6be838941541934e5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 37/50] fix: decode escaped characters of XLSX texts

---
 rxls/reader/xlsx.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index f55715d..a5eb8cd 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -65,6 +65,16 @@ ERROR_STRINGS = frozenset(
 )
 
 
+re_esc = re.compile(r"_x((?![dD][89a-fA-F])[0-9a-fA-F]{4})_")
+
+
+def unescape(txt: str) -> str:
+    """Replace escaped characters (`_x000D_`) by characters itself"""
+    if "_x" not in txt:
+        return txt
+    return re_esc.sub(lambda m: chr(int(m[1], 16)), txt)
+
+
 def col_idx(col: bytes) -> int:
     a = -1
     i = 0
@@ -194,7 +204,7 @@ class XlsxWorkbook:  # noqa: D101
                     in_phonetic = False
                 elif tag == "si":
                     # ? Text of all runs is the text of shared string
-                    txt = "".join(parts).strip()
+                    txt = unescape("".join(parts)).strip()
                     if not txt or self.null_values(txt):
                         ret.append(None)  # type: ignore
                         self.null_shared.add(str(len(ret) - 1))
@@ -409,7 +419,7 @@ class XlsxWorkbook:  # noqa: D101
             def put_cell() -> None:
                 nonlocal is_empty_row
 
-                if txt := "".join(parts).strip():
+                if txt := unescape("".join(parts)).strip():
                     if c_typ == TYPE_STRING | REPR_SHARED:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
-- 
2.43.0


From 2af341b305aa8966f83b0266b96a94ec5d250e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 38/50] fix: read rich text cells of XLSB

---
 rxls/reader/xlsb.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 8b35aa6..21bda18 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -240,8 +240,9 @@ class XlsbWorkbook:  # noqa: D101
             # * 8: BrtFmlaString    | TYPE_STRING | REPR_PREPARED
             # * 9: BrtFmlaNum       | TYPE_NUMERIC | [REPR_TEMPORAL | REPR_PREPARED]
             # * 10: BrtFmlaBool     | TYPE_NUMERIC | REPR_BOOLEAN
+            # * 62: BrtCellRString   | TYPE_STRING | REPR_PREPARED
             # * 402: BrtEndSheetData
-            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
+            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 62, 402}):
                 if not r.rec_id:
                     # ? Skipped rows are always counted
                     if row < skip_rows or not is_empty_row or take_rows_non_empty:
@@ -273,9 +274,13 @@ class XlsbWorkbook:  # noqa: D101
 
                 adv_repr = REPR_TEMPORAL if r.data[4:7] in self.styles else 0
 
-                if r.rec_id in {6, 8}:
+                if r.rec_id in {6, 8, 62}:
+                    # NOTE: Rich text has one byte of flags before the text.
+                    offset = 13 if r.rec_id == 62 else 12
                     # NOTE: The slowest case, due to utf-16 encoding.
-                    cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
+                    cell_data = r.data[
+                        offset : u4_u(r.data[offset - 4 : offset])[0] * 2 + offset
+                    ].decode(
                         "utf-16-le",
                     )
                     if self.null_values(cell_data):
-- 
2.43.0


From 205df765862b43de561d2f15030b7004e72e6daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 39/50] fix: formats of conditional formatting are not formats
 of cells

---
 rxls/reader/xlsx.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index a5eb8cd..163d6d4 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -241,11 +241,16 @@ class XlsxWorkbook:  # noqa: D101
 
         with self.zf.open("xl/styles.xml") as io:
             in_cell_xfs = False
+            in_num_fmts = False
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id, in_cell_xfs
+                nonlocal xfs, fms, xfs_id, in_cell_xfs, in_num_fmts
 
-                if tag == "numFmt":
+                if tag == "numFmts":
+                    in_num_fmts = True
+
+                # NOTE: differential formats (`dxfs`) have number formats of their own
+                elif tag == "numFmt" and in_num_fmts:
                     fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
 
                 elif tag == "cellXfs":
@@ -256,11 +261,14 @@ class XlsxWorkbook:  # noqa: D101
                     xfs_id += 1
 
             def cell_eh(tag: str) -> None:
-                nonlocal in_cell_xfs
+                nonlocal in_cell_xfs, in_num_fmts
 
                 if tag == "cellXfs":
                     in_cell_xfs = False
 
+                elif tag == "numFmts":
+                    in_num_fmts = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-- 
2.43.0


From b4b1677fdd9e2b04895f5d49b501bbfe3e65bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 40/50] fix: read styles of XLSB before the sheet is open

---
 rxls/reader/xlsb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 21bda18..d28612a 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -225,6 +225,8 @@ class XlsbWorkbook:  # noqa: D101
             take_rows += skip_rows
         # ? Shared strings must be loaded before use of `null_shared`
         _ = self.shared
+        # ? Positions of parts stored without compression are shared, so the sheet is the last one to open
+        styles = self.styles
 
         row = -1
         is_empty_row = False
@@ -272,7 +274,7 @@ class XlsbWorkbook:  # noqa: D101
                 if skip_cols and col in skip_cols:
                     continue
 
-                adv_repr = REPR_TEMPORAL if r.data[4:7] in self.styles else 0
+                adv_repr = REPR_TEMPORAL if r.data[4:7] in styles else 0
 
                 if r.rec_id in {6, 8, 62}:
                     # NOTE: Rich text has one byte of flags before the text.
-- 
2.43.0


From f8f647c8f96251b13828c547ef00378b8a85f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 41/50] fix: rows omitted from the file count for skip_rows,
 take_rows and take_rows_non_empty

---
 rxls/reader/xlsb.py | 15 +++++++++++++++
 rxls/reader/xlsx.py | 23 +++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index d28612a..e1255f0 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -58,6 +58,9 @@ TEMPORAL_STYLES = frozenset(
 )
 
 
+MAX_ROW = 0xFFFFF
+
+
 class XlsbWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
 
@@ -229,6 +232,7 @@ class XlsbWorkbook:  # noqa: D101
         styles = self.styles
 
         row = -1
+        n_row = -1
         is_empty_row = False
 
         with self.zf.open(sheet_path) as io:
@@ -249,6 +253,17 @@ class XlsbWorkbook:  # noqa: D101
                     # ? Skipped rows are always counted
                     if row < skip_rows or not is_empty_row or take_rows_non_empty:
                         row += 1
+                    # ? Rows without cells may be omitted from the file
+                    n_row += 1
+                    if omitted := max(
+                        min(u4_u(r.data[:4])[0], MAX_ROW) - n_row,
+                        0,
+                    ):
+                        n_row += omitted
+                        if take_rows_non_empty:
+                            row += omitted
+                        elif row < skip_rows:
+                            row = min(row + omitted, skip_rows)
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
                         break
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 163d6d4..5568d7c 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -98,6 +98,9 @@ TEMPORAL_STYLES = frozenset(
 NUMERIC_STYLES = frozenset([0x01, 0x02, 0x03, 0x04, 0x25, 0x26, 0x27, 0x28, 0x30])
 
 
+MAX_ROW = 0xFFFFF
+
+
 class XlsxWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
 
@@ -364,6 +367,9 @@ class XlsxWorkbook:  # noqa: D101
             row = -1
             "Number of current row"
 
+            n_row = 0
+            "Number of current row in the sheet"
+
             is_empty_row: bool = True
 
             # cell fields
@@ -381,8 +387,19 @@ class XlsxWorkbook:  # noqa: D101
             row += 1
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal row, tags, c_col, c_typ, c_row, styles, l_tag, skip_rows
+                nonlocal row, n_row, tags, c_col, c_typ, c_row, styles, l_tag, skip_rows
                 if not l_tag:
+                    # ? Rows without cells may be omitted from the file
+                    if tag == "row" and "r" in attrs:
+                        omitted = max(min(int(attrs["r"]) - 1, MAX_ROW) - n_row, 0)
+                        n_row += omitted
+                        if take_non_empty:
+                            row += omitted
+                        elif row < skip_rows:
+                            row = min(row + omitted, skip_rows)
+                        if 0 < take_rows < row:
+                            raise finish
+
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
                         # ? get cell coordinates (without them, cell is next to the previous one)
@@ -448,7 +465,8 @@ class XlsxWorkbook:  # noqa: D101
                         is_empty_row = False
 
             def cell_eh(tag: str) -> None:
-                nonlocal tags, row, is_empty_row, callback, c_col, c_typ, c_row, l_tag
+                nonlocal tags, row, n_row, is_empty_row
+                nonlocal callback, c_col, c_typ, c_row, l_tag
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -463,6 +481,7 @@ class XlsxWorkbook:  # noqa: D101
                     # * Skipped rows are always counted
                     if row < skip_rows or not is_empty_row or take_non_empty:
                         row += 1
+                    n_row += 1
 
                     if callback is not None:
                         callback()
-- 
2.43.0


From 03c8f81cc6e64d83fa5a7e8c8a4df84a1d781da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 42/50] fix: size of sliced null chunk is the number of
 selected cells

---
 rxls/chunk/chunk.py | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 29451ea..d5f359e 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -50,28 +50,7 @@ T_MS = pa.timestamp("ms")
 
 
 def null_slice(x: int, index: slice) -> int:
-    if not x:
-        return 0
-
-    start = index.start or 0
-    if start < 0:
-        start = x + start
-
-    stop = index.stop or x
-    if stop < 0:
-        stop = x + stop
-
-    step = index.step or 1
-
-    if step < 0:
-        stop, start = start, stop
-        step = -step
-
-    if stop <= start:
-        return 0
-
-    itvl = stop - start
-    return itvl // step + bool(itvl % step)
+    return len(range(*index.indices(x)))
 
 
 @as_dataclass(mapping=True)
-- 
2.43.0


From 4c0459e6cbfb3bb65f63e9e0ea6616517f3dc0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 43/50] fix: numeric chunk sliced with a step converts to arrow

---
 rxls/chunk/casts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index b2e50e5..6ed88eb 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -488,6 +488,8 @@ def _unsafe_arrow(
         Arrow array of expected dtype
 
     """
+    # NOTE: slice with step is not contiguous
+    arr = np.ascontiguousarray(arr)
     return from_buffers(dtype, len(arr), (None, pa.py_buffer(arr.data)), 0)
 
 
-- 
2.43.0


From b55756c1e0ac7a41b06865fd0e00c203a27641f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 44/50] fix: null chunk stays null when prepared

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d5f359e..b4a9155 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -194,7 +194,7 @@ class chunk:  # noqa: D101, N801
 
     def prepare(self) -> Self:
         """Compile inner data to actual representation, and return in new chunk."""
-        if not (self.type & REPR_PREPARED):
+        if self.type and not (self.type & REPR_PREPARED):
             if self.type & TYPE_STRING:
                 self.data = take(self.sref, self.data)  # type: ignore
                 self.type = TYPE_STRING | REPR_PREPARED
-- 
2.43.0


From aaa470dd7b0faaad64aec14ded23c192ab7c9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 45/50] fix: boolean in a date formatted cell of XLSX is not a
 date

---
 rxls/reader/xlsx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 5568d7c..806f305 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -420,7 +420,8 @@ class XlsxWorkbook:  # noqa: D101
                             c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
-                            c_typ = typ
+                            # NOTE: boolean is not a date, even if its style is
+                            c_typ = TYPE_NUMERIC if attrs.get("t") == "b" else typ
                         else:
                             c_typ = TYPE_STRING | REPR_PREPARED
 
-- 
2.43.0


From 0106a0286459653ce766bf8ee29b8465ea49f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 46/50] fix: bitmask longer than a byte converts to numpy in
 its order

---
 rxls/chunk/casts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 6ed88eb..697876c 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -578,9 +578,11 @@ def _unsafe_bool_arrow_to_numpy(arr: pa.BooleanArray) -> NDArray[np.bool_]:
         Output numpy boolean array
 
     """
-    return np.unpackbits(np.frombuffer(arr.buffers()[-1], np.uint8))[-len(arr) :][  # type: ignore
-        ::-1
-    ].view(np.bool_)
+    return np.unpackbits(
+        np.frombuffer(arr.buffers()[-1], np.uint8),  # type: ignore
+        count=arr.offset + len(arr),
+        bitorder="little",
+    )[arr.offset :].view(np.bool_)
 
 
 def _unsafe_strings_to_array(
-- 
2.43.0


From 56a425a4e306436adb2e909e1ff85b2c958aa27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 47/50] fix: midnight of 1970-01-02 and everything before 1970
 are dates

---
 rxls/chunk/casts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 697876c..ba10b9e 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -221,7 +221,8 @@ def dt_has_d(arr: NDArray[np.int64]) -> np.bool_:
         Have any of this timestamps date part or not
 
     """
-    return np.any(arr > np.uint64(86_400_000))
+    # NOTE: everything outside of the first day of 1970 is a date (see `f8_to_ms_win`)
+    return np.any((arr >= np.int64(86_400_000)) | (arr < 0))
 
 
 if NUMBA_AVAILABLE:
-- 
2.43.0


From 43f0d6ea66ad2f72110226ac0bcb4e82e5ccb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 48/50] fix: padding, filler and quoted characters of a format
 code are not dates or separators

---
 rxls/reader/xlsb.py |  8 ++++++--
 rxls/reader/xlsx.py | 10 +++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index e1255f0..f61e2a3 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -34,6 +34,10 @@ if TYPE_CHECKING:
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
+# NOTE: character after `\`, `_` (space of its width) or `*` (filler) is not a directive or separator
+re_sk = re.compile(r'("[^"]*"|\[[^\]]*\])|[\\_*].')
+re_fm = re.compile(r'(?:"[^"]*"|\[[^\]]*\]|[\\_*].|[^;])*')
+
 ERROR_STRINGS = frozenset(
     (
         "#NULL!",
@@ -175,14 +179,14 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: xstr.from_binary(r.data[2:]).value.split(";", 1)[0]
+                r.data[:2]: re_fm.match(xstr.from_binary(r.data[2:]).value)[0]  # type: ignore
                 for r in scan_biff(io, {44})
             }
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
             for f_id, fmt in fms.items():
                 xf_ids = [x for x, y in xfs.items() if y == f_id]
-                if re_dt.search(re_xt.sub("", fmt)):
+                if re_dt.search(re_xt.sub("", re_sk.sub(r"\1", fmt))):
                     ret.update(xf_ids)
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 806f305..a0fcd2e 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -37,6 +37,10 @@ if TYPE_CHECKING:
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
+# NOTE: character after `\`, `_` (space of its width) or `*` (filler) is not a directive or separator
+re_sk = re.compile(r'("[^"]*"|\[[^\]]*\])|[\\_*].')
+re_fm = re.compile(r'(?:"[^"]*"|\[[^\]]*\]|[\\_*].|[^;])*')
+
 re_fs = re.compile(r"(?<!\\)[sS]\]?\.0")
 
 re_date = re.compile(r"[ydYD]")
@@ -254,7 +258,7 @@ class XlsxWorkbook:  # noqa: D101
 
                 # NOTE: differential formats (`dxfs`) have number formats of their own
                 elif tag == "numFmt" and in_num_fmts:
-                    fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
+                    fms[attrs["numFmtId"]] = re_fm.match(attrs["formatCode"])[0]  # type: ignore
 
                 elif tag == "cellXfs":
                     in_cell_xfs = True
@@ -281,10 +285,10 @@ class XlsxWorkbook:  # noqa: D101
 
         for f_id, fmt in fms.items():
             xf_id = [x for x, y in xfs.items() if y == f_id]
-            txt = re_xt.sub("", fmt)
+            txt = re_xt.sub("", re_sk.sub(r"\1", fmt))
 
             # NOTE: fraction of seconds is not a fraction of number
-            if fmt == "0" or (".00" in fmt and not re_fs.search(txt)):
+            if fmt == "0" or (".00" in txt and not re_fs.search(txt)):
                 ret_numerics.update(xf_id)
 
             elif re_dt.search(txt):
-- 
2.43.0


From b12123bc86071dd79a0d702e176df268f683d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 49/50] fix: elapsed time in capitals ([H], [MM], [SS]) is a
 time format

---
 rxls/reader/xlsb.py | 2 +-
 rxls/reader/xlsx.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index f61e2a3..d19f6e2 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -32,7 +32,7 @@ if TYPE_CHECKING:
     from typing_extensions import Self
 
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:[hH]{1,2}|[mM]{1,2}|[sS]{1,2})\])[^\]]*\])')
 
 # NOTE: character after `\`, `_` (space of its width) or `*` (filler) is not a directive or separator
 re_sk = re.compile(r'("[^"]*"|\[[^\]]*\])|[\\_*].')
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index a0fcd2e..640e3c8 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -35,7 +35,7 @@ if TYPE_CHECKING:
     T = TypeVar("T")
 
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:[hH]{1,2}|[mM]{1,2}|[sS]{1,2})\])[^\]]*\])')
 
 # NOTE: character after `\`, `_` (space of its width) or `*` (filler) is not a directive or separator
 re_sk = re.compile(r'("[^"]*"|\[[^\]]*\])|[\\_*].')
-- 
2.43.0


From 86b13a25445b22b56731dac8b5d0e8660815112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:27 +0000
Subject: [PATCH 50/50] fix: null_values concern texts, not numbers and dates
 of XLSX sheets

---
 rxls/reader/xlsx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 640e3c8..0e1a2b0 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -455,7 +455,8 @@ class XlsxWorkbook:  # noqa: D101
                         if txt in nullss:
                             return
                     # ? Check, that null value predicate is false for this string
-                    elif nullpd(txt):
+                    # NOTE: numbers and dates are not strings, whatever their text is
+                    elif c_typ & TYPE_STRING and nullpd(txt):
                         return
 
                     if not skip_cols or c_col not in skip_cols:
-- 
2.43.0

