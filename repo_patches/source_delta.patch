From 58ef882635ba64338b1d709cf0ed66bdd40af1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:49 +0000
Subject: [PATCH 01/43] fix: resolve 64 bit pack offsets in
 PackIndexFile.offsets()

---
 gitdb/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..22b2921 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -409,6 +409,9 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
+            # words with the high bit set are indices into the 64 bit offset table
+            if any(ofs & 0x80000000 for ofs in a):
+                return tuple(self.offset(index) for index in range(self.size()))
             return a
         else:
             return tuple(self.offset(index) for index in range(self.size()))
-- 
2.43.0


From 65a7ebc9aa9cf188cb912c9055cfd1032b203746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 02/43] fix: report abbreviations matching several ids of one
 pack index as ambiguous

---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 22b2921..3979410 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -487,7 +487,7 @@ class PackIndexFile(LazyMixin):
                 next_sha = None
                 if lo + 1 < self.size():
                     next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
+                if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
             # END if we have a match
-- 
2.43.0


From 5b41f8287387691c0ab817da32a03e7de91caf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:36 +0000
Subject: [PATCH 03/43] fix: keep reading when a compressed window yields no
 data

---
 gitdb/stream.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..5dd0568 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -310,10 +310,10 @@ class DecompressMemMapReader(LazyMixin):
         # it can happen, depending on the compression, that we get less bytes
         # than ordered as it needs the final portion of the data as well.
         # Recursively resolve that.
-        # Note: dcompdat can be empty even though we still appear to have bytes
-        # to read, if we are called by compressed_bytes_read - it manipulates
-        # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
+        # Note: a window may yield nothing at all, and we can still appear to have
+        # bytes to read after the end of the stream if we are called by
+        # compressed_bytes_read - it manipulates us to empty the stream
+        if indata and not self._zip.eof and (len(dcompdat) - len(dat)) < size and self._br < self._s:
             dcompdat += self.read(size - len(dcompdat))
         # END handle special case
         return dcompdat
-- 
2.43.0


From 08ba7e830822241ad0940a9468eb0e923d0c3686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 04/43] fix: drop data buffered behind the object header when
 rewinding

---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 5dd0568..a10358e 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -206,6 +206,8 @@ class DecompressMemMapReader(LazyMixin):
 
         self._zip = zlib.decompressobj()
         self._br = self._cws = self._cwe = self._cbr = 0
+        self._buf = None
+        self._buflen = 0
         if self._phi:
             self._phi = False
             del(self._s)        # trigger header parsing on first access
-- 
2.43.0


From d8ea4d8dc360eb597d3894315537eb6404ae56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 05/43] fix: don't read too much if a read continues behind
 buffered header data

---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index a10358e..946a4a3 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -316,7 +316,7 @@ class DecompressMemMapReader(LazyMixin):
         # bytes to read after the end of the stream if we are called by
         # compressed_bytes_read - it manipulates us to empty the stream
         if indata and not self._zip.eof and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
+            dcompdat += self.read(size - (len(dcompdat) - len(dat)))
         # END handle special case
         return dcompdat
 
-- 
2.43.0


From 927dc6ecfd6335f47671db93b46605f9cb4aa531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:32 +0000
Subject: [PATCH 06/43] fix: determine the compressed size of empty objects
 without hanging

---
 gitdb/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 946a4a3..eb9ba0c 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -174,8 +174,8 @@ class DecompressMemMapReader(LazyMixin):
         # bytes we were to have.
         if self._br == self._s and not self._zip.unused_data:
             # manipulate the bytes-read to allow our own read method to continue
-            # but keep the window at its current position
-            self._br = 0
+            # (even if the object is empty) but keep the window at its current position
+            self._br = self._s - mmap.PAGESIZE
             if hasattr(self._zip, 'status'):
                 while self._zip.status == zlib.Z_OK:
                     self.read(mmap.PAGESIZE)
-- 
2.43.0


From c9ac35a0583594cb08ecf75132177dc8d9a3d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:23 +0000
Subject: [PATCH 07/43] fix: fail on delta copy commands outside of the base
 even if they come last

---
 gitdb/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..1b03aa8 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -664,7 +664,7 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
             rbound = cp_off + cp_size
             if (rbound < cp_size or
                     rbound > src_buf_size):
-                break
+                raise ValueError("delta copy command reaches outside of the base")
             write(src_buf[cp_off:cp_off + cp_size])
         elif c:
             write(db[i:i + c])
-- 
2.43.0


From d657d2b8f47fd52fb42c091e3836c2f49431aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:50 +0000
Subject: [PATCH 08/43] fix: resolve offset deltas found below reference deltas
 relative to their own offset

---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 3979410..c81a6db 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -892,7 +892,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From f55f27d84dbeeebe721eee9b0346d12f8b131c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:41 +0000
Subject: [PATCH 09/43] fix: merge delta chains of bytes

---
 gitdb/fun.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 1b03aa8..7ab345a 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -23,7 +23,7 @@ from gitdb.typ import (
     str_tag_type,
 )
 
-from io import StringIO
+from io import BytesIO
 
 # INVARIANTS
 OFS_DELTA = 6
@@ -154,7 +154,7 @@ def _closest_index(dcl, absofs):
     lo = 0
     hi = len(dcl)
     while lo < hi:
-        mid = (lo + hi) / 2
+        mid = (lo + hi) // 2
         dc = dcl[mid]
         if dc.to > absofs:
             hi = mid
@@ -261,7 +261,7 @@ class DeltaChunkList(list):
             if dc.data is None:
                 if first_data_index is not None and i - 2 - first_data_index > 1:
                     # if first_data_index is not None:
-                    nd = StringIO()                     # new data
+                    nd = BytesIO()                      # new data
                     so = self[first_data_index].to      # start offset in target buffer
                     for x in range(first_data_index, i - 1):
                         xdc = self[x]
@@ -310,7 +310,7 @@ class DeltaChunkList(list):
 
         left = islice(self, 0, len(self) - 1)
         right = iter(self)
-        right.next()
+        next(right)
         # this is very pythonic - we might have just use index based access here,
         # but this could actually be faster
         for lft, rgt in zip(left, right):
@@ -556,30 +556,30 @@ def connect_deltas(dstreams):
         # interpret opcodes
         tbw = 0                     # amount of target bytes written
         while i < delta_buf_size:
-            c = ord(db[i])
+            c = db[i]
             i += 1
             if c & 0x80:
                 cp_off, cp_size = 0, 0
                 if (c & 0x01):
-                    cp_off = ord(db[i])
+                    cp_off = db[i]
                     i += 1
                 if (c & 0x02):
-                    cp_off |= (ord(db[i]) << 8)
+                    cp_off |= (db[i] << 8)
                     i += 1
                 if (c & 0x04):
-                    cp_off |= (ord(db[i]) << 16)
+                    cp_off |= (db[i] << 16)
                     i += 1
                 if (c & 0x08):
-                    cp_off |= (ord(db[i]) << 24)
+                    cp_off |= (db[i] << 24)
                     i += 1
                 if (c & 0x10):
-                    cp_size = ord(db[i])
+                    cp_size = db[i]
                     i += 1
                 if (c & 0x20):
-                    cp_size |= (ord(db[i]) << 8)
+                    cp_size |= (db[i] << 8)
                     i += 1
                 if (c & 0x40):
-                    cp_size |= (ord(db[i]) << 16)
+                    cp_size |= (db[i] << 16)
                     i += 1
 
                 if not cp_size:
-- 
2.43.0


From f98ca9ebd92d4f83692e1f90c00596b77da8d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:18 +0000
Subject: [PATCH 10/43] fix: fail when merging malformed deltas

---
 gitdb/fun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 7ab345a..30a9175 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -588,7 +588,7 @@ def connect_deltas(dstreams):
                 rbound = cp_off + cp_size
                 if (rbound < cp_size or
                         rbound > base_size):
-                    break
+                    raise ValueError("delta copy command reaches outside of the base")
 
                 dcl.append(DeltaChunk(tbw, cp_size, cp_off, None))
                 tbw += cp_size
@@ -602,6 +602,7 @@ def connect_deltas(dstreams):
                 raise ValueError("unexpected delta opcode 0")
             # END handle command byte
         # END while processing delta data
+        assert i == delta_buf_size, "delta replay has gone wild"
 
         dcl.compress()
 
-- 
2.43.0


From d5f6c9f18f81f3bb5855f2b68d49c64c7710fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:53 +0000
Subject: [PATCH 11/43] fix: implement membership tests of object databases

---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From b02b706993b48417582d7f9af504321fc60ff11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:04 +0000
Subject: [PATCH 12/43] fix: forget removed loose objects when updating caches

---
 gitdb/db/loose.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..f098b75 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -7,7 +7,8 @@ from contextlib import suppress
 from gitdb.db.base import (
     FileDBBase,
     ObjectDBR,
-    ObjectDBW
+    ObjectDBW,
+    CachingDB
 )
 
 from gitdb.exc import (
@@ -60,7 +61,7 @@ import time
 __all__ = ('LooseObjectDB', )
 
 
-class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
+class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
     """A database which operates on loose object files"""
 
@@ -105,6 +106,12 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         # END handle cache
         raise BadObject(hexsha)
 
+    def update_cache(self, force=False):
+        """Forget the paths of objects seen so far, they may have been removed
+        :return: False, as it is unknown whether objects changed"""
+        self._hexsha_to_file.clear()
+        return False
+
     def partial_to_complete_sha_hex(self, partial_hexsha):
         """:return: 20 byte binary sha1 string which matches the given name uniquely
         :param name: hexadecimal partial name (bytes or ascii string)
-- 
2.43.0


From fcb29277377afb6aac991f95a03d999f65182ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 13/43] fix: drop alternates whose directory disappeared when
 refreshing

---
 gitdb/db/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..3f0bf4b 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -3,6 +3,7 @@
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
 import codecs
+import os
 from gitdb.db.base import (
     CompoundDB,
 )
@@ -51,8 +52,9 @@ class ReferenceDB(CompoundDB):
         ref_paths_set = set(ref_paths)
         cur_ref_paths_set = {db.root_path() for db in self._dbs}
 
-        # remove existing
-        for path in (cur_ref_paths_set - ref_paths_set):
+        # remove existing, also if they disappeared from disk
+        gone_paths_set = {path for path in cur_ref_paths_set if not os.path.exists(path)}
+        for path in ((cur_ref_paths_set - ref_paths_set) | gone_paths_set):
             for i, db in enumerate(self._dbs[:]):
                 if db.root_path() == path:
                     del(self._dbs[i])
-- 
2.43.0


From c4f7dfbc6ae41cd38f06bd418691618fb1a117b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 14/43] fix: remove the temporary file if a loose object can't
 be moved into place

---
 gitdb/db/loose.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index f098b75..c73060b 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -227,14 +227,20 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
-                remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except:
+                if exists(tmp_path):
+                    remove(tmp_path)
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
-- 
2.43.0


From e3673a314c41b4f2213f69110362969ba6585041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 15/43] fix: report incomplete writes to file descriptor
 streams

---
 gitdb/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index eb9ba0c..82398e1 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -691,8 +691,13 @@ class FDStream:
         self._pos = 0
 
     def write(self, data):
-        self._pos += len(data)
-        os.write(self._fd, data)
+        """:raise IOError: If not all bytes could be written
+        :return: length of incoming data"""
+        bytes_written = os.write(self._fd, data)
+        self._pos += bytes_written
+        if bytes_written != len(data):
+            raise OSError("Failed to write all bytes to filedescriptor")
+        return bytes_written
 
     def read(self, count=0):
         if count == 0:
-- 
2.43.0


From 4b40cc896b37bd55ce5c35f52d440f646bcca04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 16/43] fix: release the lock if closing a descriptor of a
 locked file fails

---
 gitdb/util.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..46f9a61 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -321,15 +321,22 @@ class LockedFD:
         lockmode = os.O_WRONLY | os.O_CREAT | os.O_EXCL | binary
         try:
             fd = os.open(self._lockfilepath(), lockmode, int("600", 8))
-            if not write:
-                os.close(fd)
-            else:
-                self._fd = fd
-            # END handle file descriptor
         except OSError as e:
             raise OSError("Lock at %r could not be obtained" % self._lockfilepath()) from e
         # END handle lock retrieval
 
+        if not write:
+            try:
+                os.close(fd)
+            except:
+                # assure we release our lockfile
+                remove(self._lockfilepath())
+                raise
+            # END handle lockfile
+        else:
+            self._fd = fd
+        # END handle file descriptor
+
         # open actual file if required
         if self._fd is None:
             # we could specify exclusive here, as we obtained the lock anyway
@@ -373,10 +380,16 @@ class LockedFD:
         if self._fd is None:
             return
 
-        os.close(self._fd)
-        self._fd = None
-
+        fd, self._fd = self._fd, None
         lockfile = self._lockfilepath()
+        try:
+            os.close(fd)
+        except:
+            # the data may be incomplete, assure we release our lockfile
+            remove(lockfile)
+            raise
+        # END handle close
+
         if self._write and successful:
             # on windows, rename does not silently overwrite the existing one
             if sys.platform == "win32":
-- 
2.43.0


From a4fecf2f5bd59153c29acc23f37f33914857d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 17/43] fix: read everything from file descriptor streams by
 default

---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 82398e1..5caa3e4 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -701,7 +701,7 @@ class FDStream:
 
     def read(self, count=0):
         if count == 0:
-            count = os.path.getsize(self._filepath)
+            count = os.fstat(self._fd).st_size
         # END handle read everything
 
         bytes = os.read(self._fd, count)
-- 
2.43.0


From 6308146bbe2e7434a6d9d9b9d19301a270595c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 18/43] fix: enumerate only object files of the loose database

---
 gitdb/db/loose.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index c73060b..f1c2a41 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -266,14 +266,22 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
     def sha_iter(self):
         # find all files which look like an object, extract sha from there
         for root, dirs, files in os.walk(self.root_path()):
-            root_base = basename(root)
-            if len(root_base) != 2:
+            if root == self.root_path():
+                # objects are located in the fan-out directories right below the root
+                dirs[:] = [d for d in dirs if len(d) == 2]
                 continue
+            del(dirs[:])
 
+            root_base = basename(root)
             for f in files:
                 if len(f) != 38:
                     continue
-                yield hex_to_bin(root_base + f)
+                try:
+                    binsha = hex_to_bin(root_base + f)
+                except ValueError:
+                    continue
+                # END skip names which are not hexadecimal
+                yield binsha
             # END for each file
         # END for each walk iteration
 
-- 
2.43.0


From 7ab6b413c85e2936f7f7b41a40d77479bb26202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 19/43] fix: report packed objects with wrong contents as
 invalid instead of failing an assertion

---
 gitdb/pack.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index c81a6db..5680ba6 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -848,7 +848,6 @@ class PackEntity(LazyMixin):
             # write a loose object, which is the basis for the sha
             write_object(stream.type, stream.size, stream.read, shawriter.write)
 
-            assert shawriter.sha(as_hex=False) == sha
             return shawriter.sha(as_hex=False) == sha
         # END handle crc/sha verification
         return True
-- 
2.43.0


From 6bf7fd86cc557c0e743f5bcf35123a30fbc3bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 20/43] fix: close the descriptor of a compressed object if
 flushing it fails

---
 gitdb/stream.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 5caa3e4..3ebbce8 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -671,10 +671,13 @@ class FDCompressedSha1Writer(Sha1Writer):
         return len(data)
 
     def close(self):
-        remainder = self.zip.flush()
-        if write(self.fd, remainder) != len(remainder):
-            raise self.exc
-        return close(self.fd)
+        try:
+            remainder = self.zip.flush()
+            if write(self.fd, remainder) != len(remainder):
+                raise self.exc
+        finally:
+            close(self.fd)
+        # END assure file is closed
 
     #} END stream interface
 
-- 
2.43.0


From c26f2dc1b2dfaf066f8ce76405a652842fbeb601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 21/43] fix: create packs all-or-nothing

---
 gitdb/pack.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 5680ba6..89d7869 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -54,6 +54,7 @@ from gitdb.stream import (
     DecompressMemMapReader,
     DeltaApplyReader,
     Sha1Writer,
+    FDStream,
     NullStream,
     FlexibleSha1Writer
 )
@@ -1013,20 +1014,33 @@ class PackEntity(LazyMixin):
         :return: PackEntity instance initialized with the new pack
 
         **Note:** for more information on the other parameters see the write_pack method"""
-        pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
-        index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
-
-        pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
-        os.close(pack_fd)
-        os.close(index_fd)
-
-        fmt = "pack-%s.%s"
-        new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
-        os.rename(pack_path, new_pack_path)
-        os.rename(index_path, new_index_path)
+        pack_path = index_path = None
+        try:
+            pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
+            try:
+                index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
+                try:
+                    pack_write = FDStream(pack_fd).write
+                    index_write = FDStream(index_fd).write
+                    pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
+                finally:
+                    os.close(index_fd)
+            finally:
+                os.close(pack_fd)
+            # END assure descriptors are closed
+
+            fmt = "pack-%s.%s"
+            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            # a pack is looked up by its pack file, hence its index has to exist first
+            os.rename(index_path, new_index_path)
+            os.rename(pack_path, new_pack_path)
+        except:
+            for path in (pack_path, index_path):
+                if path and os.path.exists(path):
+                    os.remove(path)
+            raise
+        # END assure tmpfile removal on error
 
         return cls(new_pack_path)
 
-- 
2.43.0


From 8698577a6e5e22368cc55baf1cbb34ba569f1956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 22/43] fix: ignore packs without an index

---
 gitdb/db/pack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..a8b571b 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -147,6 +147,8 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
+        # a pack which is just being written or removed may not have an index
+        pack_files = {pack_file for pack_file in pack_files if os.path.isfile(pack_file[:-len('pack')] + 'idx')}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From 5a4bba7b12140fbc4646d90e5f62a2f622028bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 23/43] fix: map packs as a whole where address space permits

---
 gitdb/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 46f9a61..45c995c 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -16,10 +16,14 @@ from smmap import (
     SlidingWindowMapManager,
     SlidingWindowMapBuffer
 )
+from smmap.util import is_64_bit
 
 # initialize our global memory manager instance
 # Use it to free cached (and unused) resources.
-mman = SlidingWindowMapManager()
+# Packs and indices are accessed through a single window, which must hold the whole file as soon
+# as objects, checksums or delta bases anywhere in it are to be read. Only where address space is
+# scarce, we restrict the size of the windows.
+mman = StaticWindowMapManager() if is_64_bit() else SlidingWindowMapManager()
 # END handle mman
 
 import hashlib
-- 
2.43.0


From b34e146c0eedb91ef81c94353d35242971ddec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 24/43] fix: fail when applying deltas that don't fit their
 announced sizes

---
 gitdb/stream.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 3ebbce8..e22bc6b 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -444,8 +444,13 @@ class DeltaApplyReader(LazyMixin):
         # work on the op-codes to reconstruct everything.
         # For the actual copying, we use a seek and write pattern of buffer
         # slices.
-        final_target_size = None
+        final_target_size = self._bstream.size
         for (dbuf, offset, src_size, target_size), dstream in zip(reversed(buffer_info_list), reversed(self._dstreams)):
+            if src_size != final_target_size:
+                raise ValueError("delta was made for a base of %i bytes, but is applied to %i bytes"
+                                 % (src_size, final_target_size))
+            # END assure the delta belongs to our base
+
             # allocate a buffer to hold all delta data - fill in the data for
             # fast access. We do this as we know that reading individual bytes
             # from our stream would be slower than necessary ( although possible )
@@ -461,6 +466,8 @@ class DeltaApplyReader(LazyMixin):
                 c_apply_delta(bbuf, ddata, tbuf)
             else:
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
+                if tbuf.tell() != target_size:
+                    raise ValueError("delta produced %i bytes instead of %i" % (tbuf.tell(), target_size))
             #######################################################################
 
             # finally, swap out source and target buffers. The target is now the
-- 
2.43.0


From 09e09d7ff7b97257529b67342d6cc6fadaa9e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 25/43] fix: fail when the data of an object ends early

---
 gitdb/fun.py    |  7 ++++++-
 gitdb/stream.py | 20 ++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 30a9175..bca078a 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -15,6 +15,7 @@ from itertools import islice
 from functools import reduce
 
 from gitdb.const import NULL_BYTE, BYTE_SPACE
+from gitdb.exc import ParseError
 from gitdb.utils.encoding import force_text
 from gitdb.typ import (
     str_blob_type,
@@ -407,7 +408,11 @@ def loose_object_header_info(m):
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
     hdr = decompressobj().decompress(m, decompress_size)
-    type_name, size = hdr[:hdr.find(NULL_BYTE)].split(BYTE_SPACE)
+    hdrend = hdr.find(NULL_BYTE)
+    if hdrend < 0:
+        raise ParseError("object data ended within its header")
+    # END handle truncated data
+    type_name, size = hdr[:hdrend].split(BYTE_SPACE)
 
     return type_name, int(size)
 
diff --git a/gitdb/stream.py b/gitdb/stream.py
index e22bc6b..4f197b8 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -27,6 +27,7 @@ from gitdb.util import (
 )
 
 from gitdb.const import NULL_BYTE, BYTE_SPACE
+from gitdb.exc import ParseError
 from gitdb.utils.encoding import force_bytes
 
 has_perf_mod = False
@@ -101,8 +102,11 @@ class DecompressMemMapReader(LazyMixin):
         # And for good reason !! This needs to be that high for the header to be read correctly in all cases
         maxb = 8192
         self._s = maxb
-        hdr = self.read(maxb)
+        hdr = self._read(maxb)
         hdrend = hdr.find(NULL_BYTE)
+        if hdrend < 0:
+            raise ParseError("object data ended within its header")
+        # END handle truncated data
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
         self._s = size
@@ -178,12 +182,12 @@ class DecompressMemMapReader(LazyMixin):
             self._br = self._s - mmap.PAGESIZE
             if hasattr(self._zip, 'status'):
                 while self._zip.status == zlib.Z_OK:
-                    self.read(mmap.PAGESIZE)
+                    self._read(mmap.PAGESIZE)
                 # END scrub-loop custom zlib
             else:
                 # pass in additional pages, until we have unused data
                 while not self._zip.unused_data and self._cbr != len(self._m):
-                    self.read(mmap.PAGESIZE)
+                    self._read(mmap.PAGESIZE)
                 # END scrub-loop default zlib
             # END handle stream scrubbing
 
@@ -214,6 +218,14 @@ class DecompressMemMapReader(LazyMixin):
         # END skip header
 
     def read(self, size=-1):
+        left = self._s - self._br
+        data = self._read(size)
+        if len(data) < (left if size < 1 else min(size, left)):
+            raise ParseError("object data ended after %i of %i bytes" % (self._br, self._s))
+        # END handle truncated data
+        return data
+
+    def _read(self, size):
         if size < 1:
             size = self._s - self._br
         else:
@@ -316,7 +328,7 @@ class DecompressMemMapReader(LazyMixin):
         # bytes to read after the end of the stream if we are called by
         # compressed_bytes_read - it manipulates us to empty the stream
         if indata and not self._zip.eof and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - (len(dcompdat) - len(dat)))
+            dcompdat += self._read(size - (len(dcompdat) - len(dat)))
         # END handle special case
         return dcompdat
 
-- 
2.43.0


From 699e4503eae76377677e74dcb2c17ad74b7b0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:55 +0000
Subject: [PATCH 26/43] fix: store objects from streams with short reads
 completely or not at all

---
 gitdb/fun.py  | 9 +++++++--
 gitdb/pack.py | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index bca078a..b715f64 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -506,7 +506,11 @@ def write_object(type, size, read, write, chunk_size=chunk_size):
 
     # WRITE HEADER: type SP size NULL
     tbw += write(loose_object_header(type, size))
-    tbw += stream_copy(read, write, size, chunk_size)
+    dbw = stream_copy(read, write, size, chunk_size)
+    if dbw != size:
+        raise ValueError("object stream ended after %i of %i bytes" % (dbw, size))
+    # END assure the header matches the data
+    tbw += dbw
 
     return tbw
 
@@ -531,7 +535,8 @@ def stream_copy(read, write, size, chunk_size):
         data_len = len(data)
         dbw += data_len
         write(data)
-        if data_len < cs or dbw == size:
+        # streams may deliver less than we want at any time
+        if not data_len or dbw == size:
             break
         # END check for stream end
     # END duplicate data
diff --git a/gitdb/pack.py b/gitdb/pack.py
index 89d7869..287c50b 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -154,7 +154,8 @@ def write_stream_to_pack(read, write, zstream, base_crc=None):
             crc = crc32(compressed, crc)
         # END handle crc
 
-        if len(chunk) != chunk_size:
+        # streams may deliver less than we want at any time
+        if not chunk:
             break
     # END copy loop
 
-- 
2.43.0


From 916b3bc38115abc59c0a4b10802ff7fd31780cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 27/43] fix: recognize loose objects from bytes

---
 gitdb/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index b715f64..16c8bf0 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -396,7 +396,7 @@ def is_loose_object(m):
     """
     :return: True the file contained in memory map m appears to be a loose object.
         Only the first two bytes are needed"""
-    b0, b1 = map(ord, m[:2])
+    b0, b1 = bytearray(m[:2])
     word = (b0 << 8) + b1
     return b0 == 0x78 and (word % 31) == 0
 
-- 
2.43.0


From 0c1ca0ab7f3c8146cbfc6593a7deb6505665cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 28/43] fix: provide the contents of empty files

---
 gitdb/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 45c995c..48d1eb2 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -182,7 +182,8 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
                 # python 2.4 issue, 0 wants to be the actual size
                 return mmap.mmap(fd, os.fstat(fd).st_size, access=mmap.ACCESS_READ)
             # END handle python 2.4
-    except OSError:
+    except (OSError, ValueError):
+        # empty files cannot be mapped
         pass
     # END exception handling
 
-- 
2.43.0


From c6ea90834a272739bd3f6c3ca273e82dd8df6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 29/43] fix: name created packs after their checksum in
 hexadecimal

---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 287c50b..cd9df65 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1031,8 +1031,9 @@ class PackEntity(LazyMixin):
             # END assure descriptors are closed
 
             fmt = "pack-%s.%s"
-            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            pack_hexsha = bin_to_hex(pack_binsha).decode('ascii')
+            new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
             # a pack is looked up by its pack file, hence its index has to exist first
             os.rename(index_path, new_index_path)
             os.rename(pack_path, new_pack_path)
-- 
2.43.0


From 4bc7bab7faf23c1f367b2d810746aa4d437f3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 30/43] fix: release the lock if renaming fails when committing
 a locked file

---
 gitdb/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 48d1eb2..51d6bd4 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -402,7 +402,13 @@ class LockedFD:
                     remove(self._filepath)
                 # END remove if exists
             # END win32 special handling
-            os.rename(lockfile, self._filepath)
+            try:
+                os.rename(lockfile, self._filepath)
+            except:
+                # nothing was changed, assure we release our lockfile
+                remove(lockfile)
+                raise
+            # END handle rename
 
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
-- 
2.43.0


From 0542f8c29f3bb18aa2718ad857302b5a74a6c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 31/43] fix: read the header of a loose object without copying
 all of its data

zlib copies all input that it does not need, so asking for the info of
a loose object held its whole compressed data in memory.
---
 gitdb/fun.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 16c8bf0..bfdae03 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -407,7 +407,14 @@ def loose_object_header_info(m):
         object as well as its uncompressed size in bytes.
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
-    hdr = decompressobj().decompress(m, decompress_size)
+    # hand in the memory map in chunks, as zlib copies all input it doesn't need
+    zip = decompressobj()
+    hdr = b''
+    pos = 0
+    while pos < len(m) and len(hdr) < decompress_size and NULL_BYTE not in hdr:
+        hdr += zip.decompress(m[pos:pos + decompress_size], decompress_size)
+        pos += decompress_size
+    # END for each chunk
     hdrend = hdr.find(NULL_BYTE)
     if hdrend < 0:
         raise ParseError("object data ended within its header")
-- 
2.43.0


From 3a3bb80531fdf2a6a93851116993df91fd5bb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 32/43] fix: detect delta chains that are cyclic or leave the
 pack

A base offset of zero or a reference delta based on itself made us loop
until memory ran out, one that pointed before the first object was
resolved to something else.
---
 gitdb/pack.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index cd9df65..35e8789 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -599,6 +599,14 @@ class PackFile(LazyMixin):
 
     #{ Pack Specific
 
+    def _delta_base_offset(self, ostream):
+        """:return: offset of the base of the given OFS delta, which always precedes it
+        :raise ParseError: if there can't be an object at this offset"""
+        offset = ostream.pack_offset - ostream.delta_info
+        if not self.first_object_offset <= offset < ostream.pack_offset:
+            raise ParseError("delta base offset out of bounds: %i" % offset)
+        return offset
+
     def collect_streams(self, offset):
         """
         :return: list of pack streams which are required to build the object
@@ -614,7 +622,7 @@ class PackFile(LazyMixin):
             ostream = pack_object_at(c, offset, True)[1]
             out.append(ostream)
             if ostream.type_id == OFS_DELTA:
-                offset = ostream.pack_offset - ostream.delta_info
+                offset = self._delta_base_offset(ostream)
             else:
                 # the only thing we can lookup are OFFSET deltas. Everything
                 # else is either an object, or a ref delta, in the latter
@@ -873,6 +881,7 @@ class PackEntity(LazyMixin):
 
         :param offset: offset into the pack file at which the object can be found"""
         streams = self._pack.collect_streams(offset)
+        offsets = [stream.pack_offset for stream in streams]
 
         # try to resolve the last one if needed. It is assumed to be either
         # a REF delta, or a base object, as OFFSET deltas are resolved by the pack
@@ -888,14 +897,16 @@ class PackEntity(LazyMixin):
                     if sindex is None:
                         break
                     stream = self._pack.stream(self._index.offset(sindex))
-                    streams.append(stream)
                 else:
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
-                    streams.append(stream)
+                    stream = self._pack.stream(self._pack._delta_base_offset(stream))
                 # END handle ref delta
+                if stream.pack_offset in offsets:
+                    raise ParseError("delta at offset %i is based on itself" % stream.pack_offset)
+                offsets.append(stream.pack_offset)
+                streams.append(stream)
             # END resolve ref streams
         # END resolve streams
 
-- 
2.43.0


From e1f93ea26bcb24ddf0cbe0f20d536dd485f9b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 33/43] fix: count consumed input correctly once a compressed
 stream ended

When a tail of unconsumed input is left from an earlier call, the decompressor
reports the bytes which follow the end of the stream in both unconsumed_tail and
unused_data. Adding both up made the reader believe it used less input than it
did, which broke the iteration of packs with objects larger than a chunk.
---
 gitdb/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 4f197b8..2605445 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -310,8 +310,11 @@ class DecompressMemMapReader(LazyMixin):
         # IT's CERTAINLY GOING TO BITE US IN THE FUTURE ... .
         if getattr(zlib, 'ZLIB_RUNTIME_VERSION', zlib.ZLIB_VERSION) in ('1.2.7', '1.2.5') and not sys.platform == 'darwin':
             unused_datalen = len(self._zip.unconsumed_tail)
+        elif self._zip.eof:
+            # the unconsumed tail may hold the unused data as well
+            unused_datalen = len(self._zip.unused_data)
         else:
-            unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
+            unused_datalen = len(self._zip.unconsumed_tail)
         # # end handle very special case ...
 
         self._cbr += len(indata) - unused_datalen
-- 
2.43.0


From 4f57c50d02b535fb63d78277776180f1ab07f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 34/43] fix: read all of a file that cannot be mapped

A single read delivers at most 2 GiB, the contents of larger files were cut off
silently.
---
 gitdb/util.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 51d6bd4..56729ac 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -187,8 +187,15 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
         pass
     # END exception handling
 
-    # read manually
-    contents = os.read(fd, os.fstat(fd).st_size)
+    # read manually - a single read is limited in size
+    size = os.fstat(fd).st_size
+    contents = os.read(fd, size)
+    while contents and len(contents) < size:
+        chunk = os.read(fd, size - len(contents))
+        if not chunk:
+            break
+        contents += chunk
+    # END read all of it
     if stream:
         return _RandomAccessBytesIO(contents)
     return contents
-- 
2.43.0


From 04971211bf92fdda2db73f94c459a47ad089f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:01 +0000
Subject: [PATCH 35/43] fix: do not remember a failed refresh of the packs

If opening a pack failed while the packs were listed for the first time, the
database was left without any, and reported every object as missing from then
on. The modification time was remembered as well, so that only a forced refresh
helped.
---
 gitdb/db/pack.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index a8b571b..4f2c484 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -51,7 +51,13 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
     def _set_cache_(self, attr):
         if attr == '_entities':
             self._entities = list()
-            self.update_cache(force=True)
+            try:
+                self.update_cache(force=True)
+            except Exception:
+                # try again next time, don't appear to be empty
+                del(self._entities)
+                raise
+            # END handle failure
         # END handle entities initialization
 
     def _sort_entities(self):
@@ -142,7 +148,6 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         if not force and stat.st_mtime <= self._st_mtime:
             return False
         # END abort early on no change
-        self._st_mtime = stat.st_mtime
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
@@ -174,6 +179,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # reinitialize prioritiess
         self._sort_entities()
+        self._st_mtime = stat.st_mtime          # only if nothing failed
         return True
 
     def entities(self):
-- 
2.43.0


From 9f40124aa71c1f7ce493ad82457a88402fcb5d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:37 +0000
Subject: [PATCH 36/43] fix: read the alternates file as bytes

A directory whose name is not valid UTF-8 made every access raise
UnicodeDecodeError, and a name with one of the line separators of unicode in it
was split into pieces that do not exist.
---
 gitdb/db/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 3f0bf4b..b8a70c2 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -2,7 +2,6 @@
 #
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
-import codecs
 import os
 from gitdb.db.base import (
     CompoundDB,
@@ -43,8 +42,9 @@ class ReferenceDB(CompoundDB):
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
         try:
-            with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                ref_paths = [l.strip() for l in f]
+            # paths are bytes, they don't have to be valid in any encoding
+            with open(self._ref_file, 'rb') as f:
+                ref_paths = [os.fsdecode(l.strip()) for l in f]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From 69e682016888d2c29522038c409e88578ed51875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 37/43] fix: follow alternates that lead back to where they
 come from

Databases whose alternates files refer to one another, or to themselves, made
every query for an object they do not have recurse without an end.
---
 gitdb/db/ref.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index b8a70c2..a61dcb1 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -19,6 +19,9 @@ class ReferenceDB(CompoundDB):
     # file. If None, it defaults to the GitDB
     ObjectDBCls = None
 
+    # files referring to us through one another, from the outermost one on
+    _ref_chain = ()
+
     def __init__(self, ref_file):
         super().__init__()
         self._ref_file = ref_file
@@ -39,6 +42,12 @@ class ReferenceDB(CompoundDB):
             dbcls = GitDB
         # END get db type
 
+        # alternates may lead back to where we come from, these databases are known
+        ref_file = os.path.realpath(self._ref_file)
+        if ref_file in self._ref_chain:
+            return
+        # END stop at cycles
+
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
         try:
@@ -70,7 +79,11 @@ class ReferenceDB(CompoundDB):
                 db = dbcls(path)
                 # force an update to verify path
                 if isinstance(db, CompoundDB):
-                    db.databases()
+                    for sub_db in db.databases():
+                        if isinstance(sub_db, ReferenceDB):
+                            sub_db._ref_chain = self._ref_chain + (ref_file, )
+                        # END tell nested ones where they come from
+                    # END for each sub-database
                 # END verification
                 self._dbs.append(db)
             except Exception:
-- 
2.43.0


From e3fd139a71896dde920de1da8195ba9b932a4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 38/43] fix: refuse an index file of the wrong size

The tables of a file that was cut were read as far as they went: ids behind the
cut were shorter than they should be, so that objects of the pack were reported
missing.
---
 gitdb/pack.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 35e8789..f9874ff 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -293,6 +293,19 @@ class PackIndexFile(LazyMixin):
                 assert version_id == self._version, "Unsupported index version: %i" % version_id
             # END assert version
 
+            # CHECK SIZE
+            # all of the tables and both checksums have to be there, followed by nothing else
+            size = unpack_from(">L", mmap, (self._version == 2) * 8 + 255 * 4)[0]
+            if self._version == 2:
+                min_size = self._sha_list_offset + size * (20 + 4 + 4) + 40
+                max_size = min_size + size * 8      # 64 bit offsets
+            else:
+                min_size = max_size = 1024 + size * 24 + 40
+            # END handle version
+            if not min_size <= self._cursor.file_size() <= max_size:
+                raise ParseError("Invalid size of the index file at %s" % self._indexpath)
+            # END assert size
+
             # SETUP FUNCTIONS
             # setup our functions according to the actual version
             for fname in ('entry', 'offset', 'sha', 'crc'):
-- 
2.43.0


From 20b5459ed85b2bf765500b3356157983ea5cd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 39/43] fix: refuse to walk a pack that ends somewhere else
 than at its footer

Walking a pack file that was cut, or one whose header announces another number
of objects, ended early without an error.
---
 gitdb/pack.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index f9874ff..8ead64d 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -566,6 +566,7 @@ class PackFile(LazyMixin):
         cur_offset = start_offset or self.first_object_offset
 
         null = NullStream()
+        count = 0
         while cur_offset < content_size:
             data_offset, ostream = pack_object_at(c, cur_offset, True)
             # scrub the stream to the end - this decompresses the object, but yields
@@ -580,9 +581,16 @@ class PackFile(LazyMixin):
             # info object
             if as_stream:
                 ostream.stream.seek(0)
+            count += 1
             yield ostream
         # END until we have read everything
 
+        # the last entry has to end where the footer starts
+        if cur_offset != content_size or (not start_offset and count != self._size):
+            raise ParseError("Pack ends at %i after %i objects, expected %i objects until %i" % (
+                cur_offset, count, self._size, content_size))
+        # END handle truncated or inconsistent pack
+
     #{ Pack Information
 
     def size(self):
-- 
2.43.0


From cdf8d7dfc27c130aaa55e41d5ec20b18031d7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:49 +0000
Subject: [PATCH 40/43] fix: refuse a file that is no pack on every access, not
 just the first one

PackFile set its cursor before the signature was checked, so that the second
query of a file without pack signature was answered from whatever is in it.
---
 gitdb/pack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 8ead64d..924506a 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -549,16 +549,19 @@ class PackFile(LazyMixin):
 
     def _set_cache_(self, attr):
         # we fill the whole cache, whichever attribute gets queried first
-        self._cursor = mman.make_cursor(self._packpath).use_region()
+        cursor = mman.make_cursor(self._packpath).use_region()
 
         # read the header information
-        type_id, self._version, self._size = unpack_from(">LLL", self._cursor.map(), 0)
+        type_id, version, size = unpack_from(">LLL", cursor.map(), 0)
 
         # TODO: figure out whether we should better keep the lock, or maybe
         # add a .keep file instead ?
         if type_id != self.pack_signature:
             raise ParseError("Invalid pack signature: %i" % type_id)
 
+        # only remember what belongs to a pack, later queries have to fail as well
+        self._cursor, self._version, self._size = cursor, version, size
+
     def _iter_objects(self, start_offset, as_stream=True):
         """Handle the actual iteration of objects within this pack"""
         c = self._cursor
-- 
2.43.0


From 97ea83ef860e18dcad39ff27c50cf7a727039cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:17 +0000
Subject: [PATCH 41/43] fix: list and find loose objects by the same names

Files with upper case letters in their names were enumerated although their
objects cannot be looked up, and directories were taken for objects.
---
 gitdb/db/loose.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index f1c2a41..2ee58d8 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -50,7 +50,7 @@ from gitdb.fun import (
     stream_copy
 )
 
-from gitdb.utils.encoding import force_bytes
+from gitdb.utils.encoding import force_bytes, force_text
 
 import tempfile
 import os
@@ -100,7 +100,7 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
         # try filesystem
         path = self.db_path(self.object_path(hexsha))
-        if exists(path):
+        if isfile(path):
             self._hexsha_to_file[hexsha] = path
             return path
         # END handle cache
@@ -281,6 +281,9 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
                 except ValueError:
                     continue
                 # END skip names which are not hexadecimal
+                if force_text(bin_to_hex(binsha)) != root_base + f:
+                    continue
+                # END skip names under which no object is looked up
                 yield binsha
             # END for each file
         # END for each walk iteration
-- 
2.43.0


From df0df93a9c72d3e03e0caf2da515420428735779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:17 +0000
Subject: [PATCH 42/43] fix: match abbreviated names of loose objects in either
 letter case

Packs do so already.
---
 gitdb/db/loose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 2ee58d8..da55f4e 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -118,8 +118,9 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         :raise AmbiguousObjectName:
         :raise BadObject: """
         candidate = None
+        prefix = force_bytes(partial_hexsha).lower()
         for binsha in self.sha_iter():
-            if bin_to_hex(binsha).startswith(force_bytes(partial_hexsha)):
+            if bin_to_hex(binsha).startswith(prefix):
                 # it can't ever find the same object twice
                 if candidate is not None:
                     raise AmbiguousObjectName(partial_hexsha)
-- 
2.43.0


From 9f81d5ead85aa77449502fff2691144dd8ad26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:24 +0000
Subject: [PATCH 43/43] fix: print the error for an object that was named by
 text

BadObject could not be shown when it carried an abbreviated name as str.
---
 gitdb/exc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/exc.py b/gitdb/exc.py
index 752dafd..7deebf0 100644
--- a/gitdb/exc.py
+++ b/gitdb/exc.py
@@ -30,7 +30,9 @@ class BadObject(ODBError):
     failed sha"""
 
     def __str__(self):
-        return "BadObject: %s" % to_hex_sha(self.args[0])
+        sha = self.args[0]
+        # names which were given as text are hexadecimal already
+        return "BadObject: %s" % (sha if isinstance(sha, str) else to_hex_sha(sha))
 
 
 class BadName(ODBError):
-- 
2.43.0

