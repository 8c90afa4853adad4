From fec745869c4b5d3756a90843295321c79c066022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 01/46] fix: vint encoding overruns its buffer for values that
 need nine or ten bytes

vuint_encode() and vint_encode() were given an 8 byte buffer, so that any
value of 2**56 or more (2**55 for a vint) smashed the stack, and LLONG_MIN,
whose negation isn't a long long, was encoded forever.  pack('V', -1)
returned a result with an exception set (SystemError).
---
 lib/bup/_helpers.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 0d81033..22471f3 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -1346,12 +1346,13 @@ static unsigned int vuint_encode(long long val, char *buf)
     return len;
 }
 
-static unsigned int vint_encode(long long val, char *buf)
+static unsigned int vint_encode(long long sval, char *buf)
 {
     unsigned int len = 1;
     char sign = 0;
+    unsigned long long val = sval; // -LLONG_MIN isn't a long long
 
-    if (val < 0) {
+    if (sval < 0) {
         sign = 0x40;
         val = -val;
     }
@@ -1376,7 +1377,7 @@ static PyObject *bup_vuint_encode(PyObject *self, PyObject *args)
 {
     long long val;
     // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    char buf[(sizeof(val) * 8 + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
@@ -1392,7 +1393,7 @@ static PyObject *bup_vint_encode(PyObject *self, PyObject *args)
 {
     long long val;
     // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    char buf[(sizeof(val) * 8 + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
@@ -1945,7 +1946,10 @@ static PyObject *bup_limited_vint_pack(PyObject *self, PyObject *args)
                                     i);
             if (end - pos < 10)
                 goto overflow;
-	    pos += vuint_encode(val, pos);
+            unsigned int len = vuint_encode(val, pos);
+            if (!len)
+                goto error;
+            pos += len;
             break;
         }
         case 'v': {
-- 
2.43.0


From 212eed4e1584aa0cf8059ac6a9d8ca45fc06655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 02/46] fix: skip_bvec rejects an empty bvec and accepts a
 truncated one

An empty (zero length) vector isn't an EOF, and fewer bytes than promised
are.
---
 lib/bup/vint.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/bup/vint.py b/lib/bup/vint.py
index 1969d11..7cde08f 100644
--- a/lib/bup/vint.py
+++ b/lib/bup/vint.py
@@ -137,11 +137,7 @@ def encode_bvec(x):
 
 
 def skip_bvec(port):
-    n = read_vuint(port)
-    if n is None:
-        raise EOFError('encountered EOF while skipping bvec')
-    val = port.read(n)
-    if not val:
+    if read_bvec(port) is None:
         raise EOFError('encountered EOF while skipping bvec')
 
 
-- 
2.43.0


From 0f42592a45da95fef5701d8d254af3e7a4c5142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 03/46] fix: vfs file reader takes read(0) for the end of the
 file

read(0) returns nothing anywhere in a file, but it was taken to mean that
the end had been reached, so the current offset became the file's size
and every later read there returned nothing.
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 170d914..3f4032a 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -280,10 +280,10 @@ class _FileReader:
         except:
             self.reader = None
             raise  # our offsets will be all screwed up otherwise
-        if not buf:
-            self._size = self.ofs
-        else:
+        if buf:
             self.ofs += len(buf)
+        elif count: # read(0) says nothing about the end
+            self._size = self.ofs
         return buf
 
     def close(self):
-- 
2.43.0


From a81644da3505c840e4c3502d2ff298cca69534d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 04/46] fix: times before 1970 are printed wrong

fstime_to_sec_bytes adds one to the floor of a negative time without
taking the complement of the nanoseconds, and loses the sign of times
in the last second before the epoch, so -1s prints as 0 and -0.25s as
0.750000000.
---
 lib/bup/xstat.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/bup/xstat.py b/lib/bup/xstat.py
index e87feec..4ae1a6e 100644
--- a/lib/bup/xstat.py
+++ b/lib/bup/xstat.py
@@ -37,12 +37,11 @@ def fstime_to_timespec(ns):
 
 
 def fstime_to_sec_bytes(fstime):
-    (s, ns) = fstime_to_timespec(fstime)
-    if(s < 0):
-        s += 1
+    sign = b'-' if fstime < 0 else b''
+    (s, ns) = fstime_to_timespec(abs(fstime))
     if ns == 0:
-        return b'%d' % s
-    return b'%d.%09d' % (s, ns)
+        return b'%s%d' % (sign, s)
+    return b'%s%d.%09d' % (sign, s, ns)
 
 def utime(path, times):
     """Times must be provided as (atime_ns, mtime_ns)."""
-- 
2.43.0


From 04a0b5a66c5fe021dda3af2718f36cf7462146c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 05/46] fix: Metadata comparison ignores the extended
 attributes

Metadata values that differ only in their linux xattrs compared equal.
---
 lib/bup/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index a2ee808..c61fb3f 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -829,6 +829,9 @@ class Metadata:
         if self.symlink_target != other.symlink_target: return False
         if self.hardlink_target != other.hardlink_target: return False
         if self.linux_attr != other.linux_attr: return False
+        # "No xattrs" may be None or [], and they're recorded the same way
+        if (self.linux_xattr or None) != (other.linux_xattr or None):
+            return False
         if self.posix1e_acl != other.posix1e_acl: return False
         return True
 
-- 
2.43.0


From 6d59564e5ea22a785841bd866c274e77d1062500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 06/46] fix: version 1 pack indexes cannot be opened

struct.unpack requires a buffer of exactly 1024 bytes, but the index is
always larger.
---
 lib/bup/git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index aa5bcf1..a06982e 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -437,7 +437,7 @@ class PackIdxV1(PackIdx):
         self.idxnames = [self.name]
         self.map = mmap_read(f)
         # Min size for 'L' is 4, which is sufficient for struct's '!I'
-        self.fanout = array('L', struct.unpack('!256I', self.map))
+        self.fanout = array('L', struct.unpack_from('!256I', self.map))
         self.fanout.append(0)  # entry "-1"
         self.nsha = self.fanout[255]
         self.sha_ofs = 256 * 4
-- 
2.43.0


From e1200cd02b15473292a9f79ab022f6fdbf24a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 07/46] fix: bloom: adding indexes to an existing filter
 replaces it

do_bloom opened the existing filter with mode 'w+b', which creates a new one,
so the filter ended up with only the newly added indexes.
---
 lib/bup/cmd/bloom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c418640..1e09aea 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -129,7 +129,7 @@ def do_bloom(path, outfilename, k, force):
             else:
                 b, b_tmp = None, b
                 b_tmp.close()
-                b = BloomWriter(outfilename, mode='w+b', expected=add_count)
+                b = BloomWriter(outfilename, mode='wb', expected=add_count)
         if b is None: # Need all idxs to build from scratch
             add += rest
             add_count += rest_count
-- 
2.43.0


From ae1af178b11f558bf71b6b0e0c067f0b28e77a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 08/46] fix: bloom: accesses outside a truncated filter, and
 shifts beyond an int

bloom_contains() did not check that the filter lies inside the buffer (a
truncated file crashed the process), and both the size check of bloom_add()
and the address mask shifted an int by up to 37 bits.
---
 lib/bup/_helpers.c | 23 +++++++++++++++++++----
 lib/bup/bloom.py   |  2 ++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 22471f3..813cb2a 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -442,7 +442,7 @@ static void to_bloom_address_bitmask4(const unsigned char *buf,
     uint64_t raw, mask;
 
     memcpy(&high, buf, 4);
-    mask = (1<<nbits) - 1;
+    mask = ((uint64_t)1<<nbits) - 1;
     raw = (((uint64_t)ntohl(high) << 8) | buf[4]);
     bit = (raw >> (37-nbits)) & 0x7;
     *v = (raw >> (40-nbits)) & mask;
@@ -457,7 +457,7 @@ static void to_bloom_address_bitmask5(const unsigned char *buf,
     uint32_t raw, mask;
 
     memcpy(&high, buf, 4);
-    mask = (1<<nbits) - 1;
+    mask = ((uint32_t)1<<nbits) - 1;
     raw = ntohl(high);
     bit = (raw >> (29-nbits)) & 0x7;
     *v = (raw >> (32-nbits)) & mask;
@@ -488,6 +488,15 @@ BLOOM_GET_BIT(bloom_get_bit4, to_bloom_address_bitmask4, uint64_t)
 BLOOM_GET_BIT(bloom_get_bit5, to_bloom_address_bitmask5, uint32_t)
 
 
+// True if the filter has a supported size and the buffer contains all of it
+static int bloom_size_ok(const Py_ssize_t len, const int nbits, const int k)
+{
+    if (nbits < 0 || nbits > (k == 5 ? 29 : 37))
+        return 0;
+    return (uint64_t) len >= BLOOM2_HEADERLEN + ((uint64_t)1<<nbits);
+}
+
+
 static PyObject *bloom_add(PyObject *self, PyObject *args)
 {
     Py_buffer bloom, sha;
@@ -498,8 +507,11 @@ static PyObject *bloom_add(PyObject *self, PyObject *args)
 
     PyObject *result = NULL;
 
-    if (bloom.len < 16+(1<<nbits) || sha.len % 20 != 0)
+    if (!bloom_size_ok(bloom.len, nbits, k) || sha.len % 20 != 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "invalid bloom filter or ids");
         goto clean_and_return;
+    }
 
     if (k == 5)
     {
@@ -542,8 +554,11 @@ static PyObject *bloom_contains(PyObject *self, PyObject *args)
 
     PyObject *result = NULL;
 
-    if (len != 20)
+    if (!bloom_size_ok(bloom.len, nbits, k) || len != 20)
+    {
+        PyErr_SetString(PyExc_ValueError, "invalid bloom filter or id");
         goto clean_and_return;
+    }
 
     if (k == 5)
     {
diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index a28d263..ad80869 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -172,6 +172,8 @@ def _validate_and_get_info(path, data):
     if ver > BLOOM_VERSION:
         raise BloomInvalid(f'too-new (v{ver}) bloom {pm(path)}')
     bits, k, entries = struct.unpack('!HHI', data[8:16])
+    if len(data) < 16 + 2**bits:
+        raise BloomInvalid(f'truncated bloom {pm(path)}')
     idxnames = data[16 + 2**bits:]
     idxnames = idxnames.split(b'\0') if idxnames else []
     return ver, bits, k, entries, idxnames
-- 
2.43.0


From ce4897d52faec1b76ecc5eb1267d70f716d6137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 09/46] fix: midx and bloom ignore the layout of version 1 pack
 indexes

A version 1 index interleaves ids with offsets, but merge_into() and
bloom_add() need contiguous ids, so midxes and bloom filters made from them
contained garbage instead of their objects.
---
 lib/bup/cmd/midx.py | 6 ++++--
 lib/bup/git.py      | 9 +++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/bup/cmd/midx.py b/lib/bup/cmd/midx.py
index 479d0c2..6ddac74 100644
--- a/lib/bup/cmd/midx.py
+++ b/lib/bup/cmd/midx.py
@@ -125,10 +125,12 @@ def _do_midx(outdir, outfilename, infilenames, prefixstr,
             if not ix:
                 continue
             contexts.enter_context(ix)
+            # merge_into() needs contiguous ids, unlike those of version 1
+            v1 = isinstance(ix, git.PackIdxV1)
             inp.append((
-                ix.map,
+                ix.shatable if v1 else ix.map,
                 len(ix),
-                ix.sha_ofs,
+                0 if v1 else ix.sha_ofs,
                 isinstance(ix, midx.PackMidx) and ix.which_ofs or 0,
                 len(allfilenames),
             ))
diff --git a/lib/bup/git.py b/lib/bup/git.py
index a06982e..fc78948 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -441,10 +441,12 @@ class PackIdxV1(PackIdx):
         self.fanout.append(0)  # entry "-1"
         self.nsha = self.fanout[255]
         self.sha_ofs = 256 * 4
-        # Avoid slicing shatable for individual hashes (very high overhead)
         assert self.nsha
-        self.shatable = \
-            memoryview(self.map)[self.sha_ofs:self.sha_ofs + self.nsha * 24]
+
+    @property
+    def shatable(self):
+        """The ids alone, as in version 2 (here each follows its offset)."""
+        return b''.join(self)
 
     def __enter__(self): return self
     def __exit__(self, type, value, traceback): self.close()
@@ -477,7 +479,6 @@ class PackIdxV1(PackIdx):
     def close(self):
         self.closed = True
         if self.map is not None:
-            self.shatable = None
             self.map.close()
             self.map = None
 
-- 
2.43.0


From b6e4523e78e0f5f9fb4fdfb95a0431d1718ada24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 10/46] fix: shquote: quoted words with backslashes do not
 split back to themselves

quotify() left backslashes alone, so a word with a trailing backslash, or
one before a quote character, was not what quotesplit() returned, and no
spelling of such a word existed within single quotes.
---
 lib/bup/shquote.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/bup/shquote.py b/lib/bup/shquote.py
index 4706510..4b2b46d 100644
--- a/lib/bup/shquote.py
+++ b/lib/bup/shquote.py
@@ -18,8 +18,9 @@ def _quotesplit(line):
     for i in range(len(line)):
         c = line[i:i+1]
         if inescape:
-            if inquote == q and c != q:
-                word += b'\\'  # single-q backslashes can only quote single-q
+            if inquote == q and c not in (q, b'\\'):
+                # single-q backslashes can only quote single-q and backslash
+                word += b'\\'
             word += c
             inescape = False
         elif c == b'\\':
@@ -110,10 +111,10 @@ def quotify(qtype, word, terminate):
       The quoted bytes.
     """
     if qtype == qq:
-        return qq + word.replace(qq, b'\\"') + (terminate and qq or b'')
+        return qq + re.sub(br'(["\\])', br'\\\1', word) + (terminate and qq or b'')
     if qtype == q:
-        return q + word.replace(q, b"\\'") + (terminate and q or b'')
-    return re.sub(br'([\"\' \t\n\r])', br'\\\1', word)
+        return q + re.sub(br"(['\\])", br'\\\1', word) + (terminate and q or b'')
+    return re.sub(br'([\"\' \t\n\r\\])', br'\\\1', word)
 
 
 def quotify_list(words):
-- 
2.43.0


From c92234437056e8c4ee9da3a4c53dfb368dc048ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 11/46] fix: shquote: unfinished_word fails for a word that is
 only a quote so far

unfinished_word(b'"') raised UnboundLocalError and unfinished_word(b'x "')
returned the previous word.
---
 lib/bup/shquote.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/bup/shquote.py b/lib/bup/shquote.py
index 4b2b46d..bb5a9b4 100644
--- a/lib/bup/shquote.py
+++ b/lib/bup/shquote.py
@@ -46,7 +46,7 @@ def _quotesplit(line):
     if word:
         yield (wordstart, word)
     if inquote or inescape or word:
-        raise QuoteError()
+        raise QuoteError(wordstart, word)
 
 
 def quotesplit(line):
@@ -84,14 +84,12 @@ def unfinished_word(line):
       quotechar,word: the initial quote char (or None), and the partial word.
     """
     try:
-        for (wordstart,word) in _quotesplit(line):
+        for _ in _quotesplit(line):
             pass
-    except QuoteError:
-        # Assumes _quotesplit() always returns at least one item.
-        # pylint: disable-next=used-before-assignment
+    except QuoteError as ex:
+        wordstart, word = ex.args
         firstchar = line[wordstart:wordstart+1]
         if firstchar in [q, qq]:
-            # pylint: disable-next=used-before-assignment
             return (firstchar, word)
         return (None, word)
     return (None, b'')
-- 
2.43.0


From f31967e2878a2d1495dd8ed5dbb2dc761efd1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 12/46] fix: hlinkdb: adding a known path and changing a path
 corrupt the database

change_path() passed its arguments to add_path() in the wrong order, and
add_path() of a path that was already recorded dropped the other paths of
the inode, or left the path under its previous inode too.
---
 lib/bup/hlinkdb.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index b71b550..06c98cb 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -78,14 +78,12 @@ class HLinkDB:
         assert self.closed
 
     def add_path(self, path, dev, ino):
-        # Assume path is new.
         node = b'%d:%d' % (dev, ino)
+        if self._path_node.get(path) == node:
+            return
+        self.del_path(path)
         self._path_node[path] = node
-        link_paths = self._node_paths.get(node)
-        if link_paths and path not in link_paths:
-            link_paths.append(path)
-        else:
-            self._node_paths[node] = [path]
+        self._node_paths.setdefault(node, []).append(path)
 
     def _del_node_path(self, node, path):
         link_paths = self._node_paths[node]
@@ -94,10 +92,7 @@ class HLinkDB:
             del self._node_paths[node]
 
     def change_path(self, path, new_dev, new_ino):
-        prev_node = self._path_node.get(path)
-        if prev_node:
-            self._del_node_path(prev_node, path)
-        self.add_path(new_dev, new_ino, path)
+        self.add_path(path, new_dev, new_ino)
 
     def del_path(self, path):
         # Path may not be in db (if updating a pre-hardlink support index).
-- 
2.43.0


From 773b0892ac87116d8d0eb24e8513f0d0368ae0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 13/46] fix: hlinkdb: abort_save removes the file when there is
 no data

prepare_save() without data registers the removal of the file as a
cleanup, which abort_save() ran as well.
---
 lib/bup/hlinkdb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index 06c98cb..e229de1 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -66,6 +66,8 @@ class HLinkDB:
         with self._cleanup:
             if self._pending_save:
                 self._pending_save.cancel()
+            else:
+                self._cleanup.pop_all() # e.g. the removal of an empty db
         self._pending_save = None
 
     def __enter__(self):
-- 
2.43.0


From 8879a44cbab55b4f199b9ce21f08f13ae6f37ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 14/46] fix: url: render_url drops port 0

---
 lib/bup/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/url.py b/lib/bup/url.py
index 4b55c25..ff6cbec 100644
--- a/lib/bup/url.py
+++ b/lib/bup/url.py
@@ -72,7 +72,7 @@ def render_url(self, dot_encode=False):
                 parts.append(f'[{self.host.compressed}]'.encode('ascii'))
             else:
                 parts.append(_pct_encode(self.host, _enc_host_char_rx))
-        if self.port:
+        if self.port is not None:
             parts.append(b':%d' % self.port)
         parts.append(path)
         return b''.join(parts)
-- 
2.43.0


From 6adda3c58a087dca82e8d8330cc83ff58bcaa444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 15/46] fix: url: a colon in the user is rendered as the start
 of a password

---
 lib/bup/url.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/url.py b/lib/bup/url.py
index ff6cbec..3ed5fca 100644
--- a/lib/bup/url.py
+++ b/lib/bup/url.py
@@ -43,8 +43,8 @@ class URL:
 
 # Needs percent encoding (inverted _host_reg_name_rx below without %)
 _enc_host_char_rx = re.compile(br"[^-._~0-9a-zA-Z!$&'()*+,;=']")
-# Same as above plus colon
-_enc_userinfo_char_rx = re.compile(br"[^-._~0-9a-zA-Z!$&'()*+,;=':]")
+# Same as above (a colon would end the user, and start the password)
+_enc_user_char_rx = _enc_host_char_rx
 
 def _pct_encode(x, rx):
     def enc(m):
@@ -63,7 +63,7 @@ def render_url(self, dot_encode=False):
         assert self.scheme, self
         parts = [self.scheme, b'://']
         if self.user:
-            parts.append(_pct_encode(self.user, _enc_userinfo_char_rx))
+            parts.append(_pct_encode(self.user, _enc_user_char_rx))
             parts.append(b'@')
         if self.host:
             if isinstance(self.host, IPv4Address):
-- 
2.43.0


From 9add08d4df6e09cff5e1bc147a00bcc50983f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 16/46] fix: url: a URL whose path contains a newline is not
 recognized

---
 lib/bup/url.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/url.py b/lib/bup/url.py
index 3ed5fca..a1efb10 100644
--- a/lib/bup/url.py
+++ b/lib/bup/url.py
@@ -88,8 +88,8 @@ def render_url(self, dot_encode=False):
         return with_auth(self.path)
     return b'%s:%s' % (self.scheme, self.path)
 
-_scheme_and_rest_rx = re.compile(br'([a-zA-Z][-+.a-zA-Z0-9]*):(//)?(.*)')
-_userinfo_host_port_rx = re.compile(br"(?:([-._~0-9a-zA-Z!$&'()*+,;='%:]*)@)?(.*?)(?::([0-9]*))?")
+_scheme_and_rest_rx = re.compile(br'([a-zA-Z][-+.a-zA-Z0-9]*):(//)?(.*)', re.DOTALL)
+_userinfo_host_port_rx = re.compile(br"(?:([-._~0-9a-zA-Z!$&'()*+,;='%:]*)@)?(.*?)(?::([0-9]*))?", re.DOTALL)
 #                                      ^------------- user ----------------^      ^--- port --^
 _host_reg_name_rx = re.compile(br"[-._~0-9a-zA-Z!$&'()*+,;='%]*")
 _port_int_rx = re.compile(br'[0-9]+')
-- 
2.43.0


From c0143936ebd41facb0a5e964ebf8eeb46f13634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 17/46] fix: a remote URL with an invalid host or port is taken
 for an ssh path

ssh://host:x/path was accepted as path //host:x/path on the host ssh.
---
 lib/bup/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/config.py b/lib/bup/config.py
index 3476546..e7a1538 100644
--- a/lib/bup/config.py
+++ b/lib/bup/config.py
@@ -21,8 +21,10 @@ def url_for_remote_opt(remote):
             return f'remote {pm(remote)} has no host'
         return URL(scheme=b'ssh', host=host, user=user, path=path)
     url = parse_path_oriented_url(remote, require_auth=True)
-    if isinstance(url, (str, type(None))):
+    if url is None:
         return parse_non_url(remote)
+    if isinstance(url, str):
+        return f'remote {pm(remote)} has {url}'
     if url.scheme == b'bup':
         if url.user:
             return f'bup URL {pm(remote)} has a user'
-- 
2.43.0


From 91ecde558f04a8316705c79fb33c25f8d54d63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 18/46] fix: protocol: a truncated resolution or error raises
 TypeError, not EOFError

ord() and decode() were applied to what may be the end of the stream, and
reading a terminus without a message always failed, because the message
was checked in place of the terminus.
---
 lib/bup/protocol.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index 1aadb98..1bc73f0 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -125,9 +125,10 @@ def read_resolution(port):
         name = read_bvec(port)
         if name is None:
             raise EOFError('EOF while reading VFS resolve path name')
-        have_item = ord(port.read(1))
-        if have_item is None:
+        have_item = port.read(1)
+        if not have_item:
             raise EOFError('EOF while reading VFS resolve path item indicator')
+        have_item = ord(have_item)
         assert have_item in (0, 1)
         item = read_item(port) if have_item else None
         result.append((name, item))
@@ -156,12 +157,13 @@ def read_ioerror(port):
         if no is None:
             raise EOFError('EOF while reading IOError errno')
     if 2 & mask:
-        msg = read_bvec(port).decode('utf-8')
+        msg = read_bvec(port)
         if msg is None:
             raise EOFError('EOF while reading IOError message')
+        msg = msg.decode('utf-8')
     if 4 & mask:
         term = read_resolution(port)
-        if msg is None:
+        if term is None:
             raise EOFError('EOF while reading IOError terminus')
     return vfs.IOError(errno=no, message=msg, terminus=term)
 
-- 
2.43.0


From c42031b6f752984d5846e9f6150fd0984d8dfba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:21 +0000
Subject: [PATCH 19/46] fix: a commit whose author's full name ends in a dot
 cannot be parsed

bup itself writes such commits (the name comes from the password database),
and then neither the save nor its branch can be listed or restored.
---
 lib/bup/commit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/bup/commit.py b/lib/bup/commit.py
index d364087..e829ce9 100644
--- a/lib/bup/commit.py
+++ b/lib/bup/commit.py
@@ -37,11 +37,9 @@ def parse_commit_gpgsig(sig):
 # https://github.com/git/git/blob/master/Documentation/technical/signature-format.txt
 # The continuation lines have only one leading space.
 
-_start_end_char = br'[^ .,:;<>"\'\0\n]'
-_content_char = br'[^\0\n<>]'
-_safe_str_rx = br'(?:%s{1,2}|(?:%s%s*%s))' \
-    % (_start_end_char,
-       _start_end_char, _content_char, _start_end_char)
+# git strips some characters from the ends of names, but other writers,
+# including bup (e.g. a full name of "Some One Jr."), don't.
+_safe_str_rx = br'[^\0\n<>]*'
 _tz_rx = br'[-+]\d\d[0-5]\d'
 _parent_rx = br'(?:parent [abcdefABCDEF0123456789]{40}\n)'
 # Assumes every following line starting with a space is part of the
-- 
2.43.0


From 90c364d109248379b4cf02e3ea095db319a7a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 20/46] fix: parse_num: reject trailing garbage

Only a prefix of the string was matched, so 1,5G was taken to be 1 and
10k/s to be 10240.
---
 lib/bup/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b3eb852..d3e8468 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -859,7 +859,7 @@ def parse_num(s):
         # FIXME: should this raise a ValueError for UnicodeDecodeError
         # (perhaps with the latter as the context).
         s = s.decode('ascii')
-    g = re.match(r'([-+\d.e]+)\s*(\w*)', str(s))
+    g = re.match(r'([-+\d.e]+)\s*(\w*)\s*\Z', str(s))
     if not g:
         raise ValueError("can't parse %r as a number" % s)
     (val, unit) = g.groups()
-- 
2.43.0


From 4a3d435d09ed1b7cfa6e920358097edbae068189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 21/46] fix: parse_excludes: ignore blank lines

A blank line was resolved before it was tested, and so excluded the
current directory, although empty lines are documented to be ignored.
---
 lib/bup/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index d3e8468..3e96a61 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -979,9 +979,9 @@ def parse_excludes(options, fatal: Callable[[str], NoReturn]):
             with f:
                 for exclude_path in f.readlines():
                     # FIXME: perhaps this should be rstrip('\n')
-                    exclude_path = resolve_parent(exclude_path.strip())
+                    exclude_path = exclude_path.strip()
                     if exclude_path:
-                        excluded_paths.append(exclude_path)
+                        excluded_paths.append(resolve_parent(exclude_path))
     return sorted(frozenset(excluded_paths))
 
 
-- 
2.43.0


From 3481e052ad556523bd335a8993fffdbbd7b7d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 22/46] fix: split: --max-pack-objects is not a pack size

---
 lib/bup/cmd/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 74aaeb0..2824504 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -87,7 +87,7 @@ def opts_from_cmdline(argv):
     if opt.max_pack_size:
         opt.max_pack_size = require_num('--max-pack-size', opt.max_pack_size)
     if opt.max_pack_objects:
-        opt.max_pack_size = require_num('--max-pack-objects', opt.max_pack_objects)
+        opt.max_pack_objects = require_num('--max-pack-objects', opt.max_pack_objects)
     if opt.fanout:
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
-- 
2.43.0


From 6f45f05f70aa3071f1f9fecc361e8148dbea40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 23/46] fix: split trees: two pieces could get the same
 abbreviated name

When the first name of a piece was the beginning of that of a following
piece, and of everything between them, both were abbreviated to the same
name, e.g. f, fa | fab.  That makes an invalid git tree.
---
 lib/bup/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/tree.py b/lib/bup/tree.py
index 6d2cda8..2a64fb1 100644
--- a/lib/bup/tree.py
+++ b/lib/bup/tree.py
@@ -67,6 +67,8 @@ def _abbreviate_tree_names(names):
                 # (fun for the GC to detect the cycles :-) )
                 level[c] = {None: level}
             level = level[c]
+        # a name that ends here must not become another's abbreviation
+        level[-1] = None # also not a valid char
     outnames = []
     # and abbreviate all the names
     for name in names:
@@ -77,8 +79,8 @@ def _abbreviate_tree_names(names):
         while True:
             # backtrack a level
             level = level[None]
-            # if it has more than a single char & None,
-            # we cannot abbreviate any further
+            # if it has more than a single char & None, or a name
+            # ends here, we cannot abbreviate any further
             if len(level) > 2:
                 break
             candidate = out[:-1]
-- 
2.43.0


From 74c95605fb04014f310298f0ce68146424f27d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 24/46] fix: vfs: saves after the year 9999 are listed but
 cannot be found by name

---
 lib/bup/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 3f4032a..b8303f5 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -862,7 +862,7 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
     else:
         yield from _split_subtree_items(repo, depth, oid, entries, names, False)
 
-_save_name_rx = re.compile(br'^\d\d\d\d-\d\d-\d\d-\d{6}(-\d+)?$')
+_save_name_rx = re.compile(br'^\d{4,}-\d\d-\d\d-\d{6}(-\d+)?$')
 
 def _reverse_suffix_duplicates(strs):
     """Yields the elements of strs, with any duplicate values
-- 
2.43.0


From d7daecdf82eb30e73a42be3c50221e96a3b61b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 25/46] fix: vfs: a split directory whose first name has a
 newline cannot be read

_tree_depth_rx is matched against the (abbreviated) name of the first
entry, which may contain a newline, but '.' doesn't match one.
---
 lib/bup/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index b8303f5..50f7659 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -786,7 +786,7 @@ def _split_subtree_items(repo, level, oid, entries, names, want_meta, root=True)
                                             tree_entries(_get_tree_object(repo, sub_oid)),
                                             names, want_meta, False)
 
-_tree_depth_rx = re.compile(br'.*\.([0-9]+)\.bupd')
+_tree_depth_rx = re.compile(br'.*\.([0-9]+)\.bupd', re.DOTALL)
 
 def _parse_tree_depth(mangled_name):
     """Return the tree DEPTH from a mangled_name like foo..DEPTH.bupd,
-- 
2.43.0


From 183b67fdd5a9187e567b74622d240b531b7ea029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 26/46] fix: vfs: metadata is lost next to a file whose name
 sorts between .bupm and .bupm/

A chunked .bupm is a tree, and so ordered as .bupm/ by git: names like
'.bupm-x' come before it, and must not end the search.
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 50f7659..2126a66 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -467,7 +467,7 @@ def tree_data_and_bupm(repo, oid):
     for _, mangled_name, sub_oid in tree_entries(data):
         if mangled_name == b'.bupm':
             return data, sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # a chunked .bupm is ordered as .bupm/
             break
     return data, None
 
@@ -752,7 +752,7 @@ def _find_bupm_oid(entries):
     for _, mangled_name, sub_oid in entries:
         if mangled_name == b'.bupm':
             return sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # a chunked .bupm is ordered as .bupm/
             break
     return None
 
@@ -829,7 +829,7 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
                 break
         else:
             split_or_not_known = True
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # a chunked .bupm is ordered as .bupm/
             break
 
     # When repairing, "." wouldn't be affected by the missing entries
-- 
2.43.0


From cbae6c016d50de1752037b67f928415874a0b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 27/46] fix: vfs: entries asked for by name can be missed when
 metadata isn't wanted

Without a .bupm the entries are in git order, i.e. by mangled name, and
directories as if they ended in a slash: 'x.bupl' (stored as
x.bupl.bupl) comes after 'x.bupl 0', and the directory 'a' after 'a.b',
so finding a name greater than the greatest of those asked for doesn't
mean there are no more.
---
 lib/bup/vfs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 2126a66..2890ed9 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -726,15 +726,16 @@ def _tree_items_except_dot(oid, entries, names=None, bupm=None, *, repair=False)
         remaining -= 1
 
     # Account for the bupm sort order issue (cf. ordered_tree_entries above)
-    last_name = max(names) if bupm else max(names) + b'/'
+    last_name = max(names) if bupm else max(n + b'/' for n in names)
 
     for name, mangled_name, kind, gitmode, ent_oid in tree_ents:
         if mangled_name == b'.bupm':
             continue
         assert name != b'.'
         if name not in names:
-            if name > last_name:
-                break  # given bupm sort order, we're finished
+            # without bupm, they're in git (i.e. mangled name) order
+            if (name if bupm else mangled_name) > last_name:
+                break  # we're finished
             if (kind == BUP_CHUNKED or not S_ISDIR(gitmode)):
                 if meta_ents is not None: meta_ents.pop()
             continue
-- 
2.43.0


From 93d2bbdd4f96ec905887c4a1ca12cd487775e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 28/46] fix: --strip and --graft match partial names and expand
 backslashes

A prefix has to end at the end of a path component: '--strip /foo' must
not affect /foobar (whose archive path even lost its root), and the new
path of a graft isn't a regular expression template.
---
 lib/bup/helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 3e96a61..f6d0374 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -1067,7 +1067,8 @@ def stripped_path_components(path, strip_prefixes):
         normalized_bp = os.path.abspath(bp)
         if normalized_bp == b'/':
             continue
-        if normalized_path.startswith(normalized_bp):
+        if normalized_path == normalized_bp \
+           or normalized_path.startswith(normalized_bp + b'/'):
             prefix = normalized_path[:len(normalized_bp)]
             result = []
             for p in normalized_path[len(normalized_bp):].split(b'/'):
@@ -1101,9 +1102,9 @@ def grafted_path_components(graft_points, path):
         # Expand prefixes iff not absolute paths.
         old_prefix = os.path.normpath(old_prefix)
         new_prefix = os.path.normpath(new_prefix)
-        if clean_path.startswith(old_prefix):
-            escaped_prefix = re.escape(old_prefix)
-            grafted_path = re.sub(br'^' + escaped_prefix, new_prefix, clean_path)
+        if clean_path == old_prefix \
+           or clean_path.startswith(os.path.join(old_prefix, b'')):
+            grafted_path = new_prefix + clean_path[len(old_prefix):]
             # Handle /foo=/ (at least) -- which produces //whatever.
             grafted_path = b'/' + grafted_path.lstrip(b'/')
             clean_path_components = path_components(clean_path)
-- 
2.43.0


From db87e96f18a548ad3f9f0276dcd984e53b030544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 29/46] fix: save: strip or graft can put files in the wrong
 directory

When strip or graft options change the order of the paths (e.g. --graft
/a/c=/w/y --graft /a/b=/x/z), the current directory was not finished,
and files for /x/z ended up in /w/z.
---
 lib/bup/cmd/save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6cecdbd..ec60678 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -313,7 +313,9 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             root_collision = True
 
         # If switching to a new sub-tree, finish the current sub-tree.
-        while stack.path() > [x[0] for x in dirp]:
+        # (strip and graft may have changed the order of the paths.)
+        dirnames = [x[0] for x in dirp]
+        while stack.path() != dirnames[:len(stack)]:
             _ = stack.pop()
 
         # If switching to a new sub-tree, start a new sub-tree.
-- 
2.43.0


From 15db59ffb0146aea0a57c0cf4785fccaab1ccadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:00 +0000
Subject: [PATCH 30/46] fix: write_sparsely: a failing lseek is ignored, then
 reported as SystemError

PyErr_SetFromErrno always returns NULL, which append_sparse_region's and
record_sparse_zeros' callers take for success, so that the data was
written to the wrong place.
---
 lib/bup/_helpers.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 813cb2a..0e38797 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -156,7 +156,8 @@ static inline int uadd(unsigned long long *dest,
 }
 
 
-static PyObject *append_sparse_region(const int fd, unsigned long long n)
+// Return 0, or -1 with an exception set.
+static int append_sparse_region(const int fd, unsigned long long n)
 {
     while (n)
     {
@@ -165,30 +166,33 @@ static PyObject *append_sparse_region(const int fd, unsigned long long n)
             new_off = INT_MAX;
         const off_t off = lseek(fd, new_off, SEEK_CUR);
         if (off == (off_t) -1)
-            return PyErr_SetFromErrno(PyExc_IOError);
+        {
+            PyErr_SetFromErrno(PyExc_IOError);
+            return -1;
+        }
         n -= new_off;
     }
-    return NULL;
+    return 0;
 }
 
 
-static PyObject *record_sparse_zeros(unsigned long long *new_pending,
-                                     const int fd,
-                                     unsigned long long prev_pending,
-                                     const unsigned long long count)
+static int record_sparse_zeros(unsigned long long *new_pending,
+                               const int fd,
+                               unsigned long long prev_pending,
+                               const unsigned long long count)
 {
     // Add count additional sparse zeros to prev_pending and store the
     // result in new_pending, or if the total won't fit in
     // new_pending, write some of the zeros to fd sparsely, and store
-    // the remaining sum in new_pending.
+    // the remaining sum in new_pending.  Return 0, or -1 with an
+    // exception set.
     if (!uadd(new_pending, prev_pending, count))
     {
-        PyObject *err = append_sparse_region(fd, prev_pending);
-        if (err != NULL)
-            return err;
+        if (append_sparse_region(fd, prev_pending))
+            return -1;
         *new_pending = count;
     }
-    return NULL;
+    return 0;
 }
 
 
@@ -330,9 +334,8 @@ static PyObject *bup_write_sparsely(PyObject *self, PyObject *args)
             const byte * const probe = find_non_sparse_end(block + 1, end,
                                                            min_sparse_len);
             // Either at end of block, or end of non-sparse; write pending data
-            PyObject *err = append_sparse_region(fd, zeros);
-            if (err != NULL)
-                return err;
+            if (append_sparse_region(fd, zeros))
+                return NULL;
             int rc = write_all(fd, block, probe - block);
             if (rc)
                 return PyErr_SetFromErrno(PyExc_IOError);
@@ -349,10 +352,8 @@ static PyObject *bup_write_sparsely(PyObject *self, PyObject *args)
             // zeros, or nearly at the end of the block (within
             // min_sparse_len).
             const byte * const zeros_end = find_not_zero(block, end);
-            PyObject *err = record_sparse_zeros(&zeros, fd,
-                                                zeros, zeros_end - block);
-            if (err != NULL)
-                return err;
+            if (record_sparse_zeros(&zeros, fd, zeros, zeros_end - block))
+                return NULL;
             assert(block <= zeros_end);
             block = zeros_end;
         }
-- 
2.43.0


From 3b6a910ff351826ccdf65bcd47451533e410e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 31/46] fix: prune-older: the same day or month of different
 years is taken for one

When no save lies in between, the saves of, say, June 2019 and June 2020
were in one group, and only the newest of them was kept.
---
 lib/bup/cmd/prune_older.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 6c22182..8592210 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -37,9 +37,9 @@ def classify_saves(saves, period_start):
     for save in matches:
         yield True, save
 
-    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0]).tm_yday),
-                 (period_start['monthlies'], lambda s: localtime(s[0]).tm_mon),
-                 (period_start['yearlies'], lambda s: localtime(s[0]).tm_year))
+    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0])[0:3]),
+                 (period_start['monthlies'], lambda s: localtime(s[0])[0:2]),
+                 (period_start['yearlies'], lambda s: localtime(s[0])[0:1]))
 
     # Break the decreasing utc sorted saves up into the respective
     # period ranges (dailies, monthlies, ...).  Within each range,
-- 
2.43.0


From 87834d6a8b1e3e14bea305b0cf744b3caba17a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 32/46] fix: prune-older: remove only saves that aren't newer
 than their child

As documented, the saves before the first one that's newer than its child
are to be left alone.  They could be removed, even when within the
keep-all period, and more than one per day, month, or year be kept.
---
 lib/bup/cmd/prune_older.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 8592210..1618671 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -23,9 +23,22 @@ def branches(refnames=tuple()):
 def classify_saves(saves, period_start):
     """For each (utc, ...) in saves, yield (True, (utc, ...)) if the
     save should be kept and (False, (utc, ...)) if the save should be
-    removed.
+    removed.  Keep all of the saves at and before the first one that's
+    newer than its child.
 
     """
+    unordered = []
+
+    def leading_ordered(saves):
+        saves = iter(saves)
+        prev_utc = float('inf')
+        for save in saves:
+            if save[0] > prev_utc:
+                unordered.append(save)
+                unordered.extend(saves)
+                return
+            prev_utc = save[0]
+            yield save
 
     def retain_newest_in_region(region):
         for save in region[0:1]:
@@ -33,7 +46,8 @@ def classify_saves(saves, period_start):
         for save in region[1:]:
             yield False, save
 
-    matches, rest = partition(lambda s: s[0] >= period_start['all'], saves)
+    matches, rest = partition(lambda s: s[0] >= period_start['all'],
+                              leading_ordered(saves))
     for save in matches:
         yield True, save
 
@@ -55,6 +69,9 @@ def classify_saves(saves, period_start):
     for save in rest:
         yield False, save
 
+    for save in unordered:
+        yield True, save
+
 
 optspec = """
 bup prune-older [options...] [BRANCH...]
-- 
2.43.0


From 9079bf22632ff440728feb60f26c7d52cc5d6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 33/46] fix: atomically_replaced_file: a path without a
 directory is refused (mixed str and bytes)

---
 lib/bup/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index f6d0374..7f9479b 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -739,7 +739,7 @@ class atomically_replaced_file:
         self._path_parent_fd = None
         self._path_parent, self._path_base = os.path.split(self.path)
         if not self._path_parent:
-            self._path_parent = '.'
+            self._path_parent = b'.'
         assert self._path_base, f'{self._path_base} is a directory'
         ctx = ExitStack()
         self._cleanup = ctx
-- 
2.43.0


From 8b30bf3af489f883803637318e6f4d5370059423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 34/46] fix: finish_pack: sync the directory that gets the pack
 and its index

---
 lib/bup/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index fc78948..a9efd42 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -842,7 +842,8 @@ class LocalPackStore():
                 objdir = os.path.join(self._repo_dir, b'objects')
                 self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
                 self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir, os.O_RDONLY),
+                packdir = os.path.join(objdir, b'pack')
+                self._parentfd = err_stack.enter_context(finalized(os.open(packdir, os.O_RDONLY),
                                                                    os.close))
                 self._file.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
-- 
2.43.0


From 56b6fb1fa3787cd34e9dc0f5dedd2f21668c5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 35/46] fix: pack index: the end of the file is not synced
 before it gets its name

---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index a9efd42..eb8a03a 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1073,6 +1073,7 @@ class PackIdxV2Writer:
             for b in chunkyreader(idx_f):
                 idx_sum.update(b)
             idx_f.write(idx_sum.digest())
+            idx_f.flush()
             fsync(idx_f.fileno())
 
 
-- 
2.43.0


From 606314986742663d066c6a006183acc6b0f7a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 36/46] fix: bloom: the filter gets its name before its end is
 written

---
 lib/bup/bloom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index ad80869..928c7f6 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -338,6 +338,7 @@ class BloomWriter(_BloomBase):
                 self._file.seek(16 + 2**self.bits)
                 if self.idxnames:
                     self._file.write(b'\0'.join(self.idxnames))
+                self._file.flush()
                 os.rename(self._tmp_file_path, self.path)
         finally:
             self._file, self.map, self._tmp_file_path = None, None, None
-- 
2.43.0


From 936e5bc04cc611a759391385f1688ad1a297af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 37/46] fix: save: after a failure to finish a pack, a commit
 is made that refers to lost objects

---
 lib/bup/client.py | 25 ++++++++++++++-----------
 lib/bup/git.py    |  7 +++++++
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index e118faf..b089012 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -711,14 +711,13 @@ class RemotePackStore:
         try:
             self._bwcount, self._bwtime = \
                 _raw_write_bwlimit(self._conn, outbuf, self._bwcount, self._bwtime)
+            if self._conn.has_input():
+                self._objcache.close_temps()
+                self._suggest_packs()
+                self._objcache.refresh()
         except IOError as e:
             raise ClientError(e) from e
 
-        if self._conn.has_input():
-            self._objcache.close_temps()
-            self._suggest_packs()
-            self._objcache.refresh()
-
         return len(data), crc
 
     def finish_pack(self, *, abort=False):
@@ -730,12 +729,16 @@ class RemotePackStore:
         with nullcontext_if_not(objcache):
             if not (self._packopen and self._conn):
                 return None
-            self._conn.write(b'\0\0\0\0')
-            self._packopen = False
-            self._onclose() # Unbusy
-            if objcache is not None:
-                objcache.close()
-            return self._suggest_packs() # Returns last idx received
+            try:
+                self._conn.write(b'\0\0\0\0')
+                self._packopen = False
+                self._onclose() # Unbusy
+                if objcache is not None:
+                    objcache.close()
+                return self._suggest_packs() # Returns last idx received
+            except IOError as e:
+                # Must not be mistaken for, say, a problem reading a file to save
+                raise ClientError(e) from e
 
     def abort(self): self.finish_pack(abort=True)
 
diff --git a/lib/bup/git.py b/lib/bup/git.py
index eb8a03a..5445ebd 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -874,6 +874,13 @@ class LocalPackStore():
         return nw, crc
 
     def finish_pack(self, *, abort=False):
+        try:
+            return self._finish_pack(abort=abort)
+        except OSError as e:
+            # Must not be mistaken for, say, a problem reading a file to save
+            raise GitError(e) from e
+
+    def _finish_pack(self, *, abort):
         # Ignores run_midx during abort
         self._tmpdir, tmpdir = None, self._tmpdir
         self._parentfd, pfd, = None, self._parentfd
-- 
2.43.0


From 546eba48da04c8b4c03666771b9872b1babd5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 38/46] fix: bloom: bup.tmp.bloom is left behind after a
 failure

---
 lib/bup/cmd/bloom.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index 1e09aea..c7b174a 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -1,4 +1,5 @@
 
+from contextlib import ExitStack
 import os, glob
 
 from bup import bloom, options, git
@@ -13,7 +14,8 @@ from bup.helpers \
             note_error,
             progress,
             qprogress,
-            saved_errors)
+            saved_errors,
+            unlink)
 from bup.io import path_msg
 
 
@@ -77,6 +79,10 @@ def check_bloom(path, bloomfilename, idx):
 
 _first = None
 def do_bloom(path, outfilename, k, force):
+    with ExitStack() as ctx:
+        _do_bloom(ctx, path, outfilename, k, force)
+
+def _do_bloom(ctx, path, outfilename, k, force):
     global _first
     assert k in (None, 4, 5)
     b = None
@@ -147,6 +153,7 @@ def do_bloom(path, outfilename, k, force):
         tfname = None
         if b is None:
             tfname = os.path.join(path, b'bup.tmp.bloom')
+            ctx.callback(unlink, tfname)
             b = BloomWriter(tfname, 'w+b', expected=add_count, k=k)
         count = 0
         icount = 0
@@ -165,6 +172,7 @@ def do_bloom(path, outfilename, k, force):
 
     if tfname:
         os.rename(tfname, outfilename)
+        ctx.pop_all()
 
 
 def main(argv):
-- 
2.43.0


From bcc59ef29d264bfe88a30531dad2d4fe55bfd2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 39/46] fix: meta: ".." itself is not treated as a risky path

_risky_path() and _clean_up_path_for_archive() handled every path that
climbs, except the shortest one, so "meta --extract" applied an entry's
metadata to the parent of the directory being extracted to, and
"meta --create" archived ".." and "../.." as "..".
---
 lib/bup/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index c61fb3f..52eaf12 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -148,7 +148,7 @@ def _clean_up_path_for_archive(p):
     if result.endswith(b'/.'):
         result = result[:-2]
 
-    if result == b'' or result.endswith(b'/..'):
+    if result in (b'', b'..') or result.endswith(b'/..'):
         result = b'.'
 
     return result
@@ -157,6 +157,8 @@ def _clean_up_path_for_archive(p):
 def _risky_path(p):
     if p.startswith(b'/'):
         return True
+    if p == b'..':
+        return True
     if p.find(b'/../') != -1:
         return True
     if p.startswith(b'../'):
-- 
2.43.0


From 5c60d2a942bf256cb2083bec86b08431ef947462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 40/46] fix: meta: an archive can use its own symlinks to write
 outside of the target

An archive containing a symlink "a" to some other directory, followed
by an entry for "a/x", caused --extract (and --start-extract) to create
"x" in the other directory.  Similarly, a directory "a" that was
preceded (or followed) by a symlink "a" had its metadata applied to the
symlink's target.
---
 lib/bup/metadata.py | 70 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 52eaf12..51a01f7 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -1234,23 +1234,56 @@ def display_archive(file, out):
             out.write(b'\n')
 
 
+class _ExtractedLinks:
+    """Remember the paths of an archive's symlinks so that they can't
+    redirect what's done for the archive's other paths.
+
+    """
+    def __init__(self):
+        self._links = set()
+
+    @staticmethod
+    def _parts(path):
+        return tuple(x for x in path.split(b'/') if x not in (b'', b'.'))
+
+    def notice(self, meta, path):
+        if stat.S_ISLNK(meta.mode):
+            self._links.add(self._parts(path))
+
+    def followed_by(self, meta, path):
+        """Return true if meta's path is at, or below one of the links,
+        and so might refer to something else.
+
+        """
+        if not self._links:
+            return False
+        parts = self._parts(path)
+        if stat.S_ISLNK(meta.mode) and not path.endswith((b'/', b'/.')):
+            parts = parts[:-1]
+        return any(parts[:n] in self._links for n in range(1, len(parts) + 1))
+
+
 def start_extract(file, create_symlinks=True):
+    links = _ExtractedLinks()
     for meta in _ArchiveIterator(file):
         if not meta: # Hit end record.
             break
         if verbose:
             print(path_msg(meta.path), file=sys.stderr)
         xpath = _clean_up_extract_path(meta.path)
-        if not xpath:
+        if not xpath or links.followed_by(meta, xpath):
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
         else:
             meta = deepcopy(meta).thaw()
             meta.path = xpath
             _set_up_path(meta.freeze(), create_symlinks=create_symlinks)
+            if create_symlinks:
+                links.notice(meta, xpath)
 
 
 def finish_extract(file, restore_numeric_ids=False):
-    all_dirs = []
+    items = []
+    links = _ExtractedLinks()
     for meta in _ArchiveIterator(file):
         if not meta: # Hit end record.
             break
@@ -1258,17 +1291,22 @@ def finish_extract(file, restore_numeric_ids=False):
         if not xpath:
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
         else:
-            if os.path.isdir(meta.path):
-                all_dirs.append(meta)
-            else:
-                if verbose:
-                    print(path_msg(meta.path), file=sys.stderr)
-                meta.apply_to_path(path=xpath,
-                                   restore_numeric_ids=restore_numeric_ids)
-    all_dirs.sort(key = lambda x : len(x.path), reverse=True)
-    for dir in all_dirs:
+            items.append((meta, xpath))
+            links.notice(meta, xpath)
+    all_dirs = []
+    for meta, xpath in items:
+        if links.followed_by(meta, xpath):
+            note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
+        elif os.path.isdir(xpath):
+            all_dirs.append((meta, xpath))
+        else:
+            if verbose:
+                print(path_msg(meta.path), file=sys.stderr)
+            meta.apply_to_path(path=xpath,
+                               restore_numeric_ids=restore_numeric_ids)
+    all_dirs.sort(key = lambda x : len(x[0].path), reverse=True)
+    for dir, xpath in all_dirs:
         # Don't need to check xpath -- won't be in all_dirs if not OK.
-        xpath = _clean_up_extract_path(dir.path)
         if verbose:
             print(path_msg(dir.path), file=sys.stderr)
         dir.apply_to_path(path=xpath, restore_numeric_ids=restore_numeric_ids)
@@ -1278,11 +1316,12 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
     # For now, just store all the directories and handle them last,
     # longest first.
     all_dirs = []
+    links = _ExtractedLinks()
     for meta in _ArchiveIterator(file):
         if not meta: # Hit end record.
             break
         xpath = _clean_up_extract_path(meta.path)
-        if not xpath:
+        if not xpath or links.followed_by(meta, xpath):
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
         else:
             meta = deepcopy(meta).thaw()
@@ -1291,6 +1330,8 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
             if verbose:
                 print('+', path_msg(meta.path), file=sys.stderr)
             _set_up_path(meta, create_symlinks=create_symlinks)
+            if create_symlinks:
+                links.notice(meta, xpath)
             if os.path.isdir(meta.path):
                 all_dirs.append(meta)
             else:
@@ -1299,6 +1340,9 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
                 meta.apply_to_path(restore_numeric_ids=restore_numeric_ids)
     all_dirs.sort(key = lambda x : len(x.path), reverse=True)
     for dir in all_dirs:
+        if links.followed_by(dir, dir.path): # replaced by a later entry
+            note_error(f'error: skipping risky path: {path_msg(dir.path)}\n')
+            continue
         # Don't need to check xpath -- won't be in all_dirs if not OK.
         xpath = _clean_up_extract_path(dir.path)
         if verbose:
-- 
2.43.0


From 04ae5f5da3d6dc36741c7a1a54dbaea660c48892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 41/46] fix: metadata: applying a symlink's ACL changes the
 link's target

Symlinks don't have ACLs, so we never record one, but an archive or
repository might still contain one, and then apply_acl() would follow
the link, e.g. to a file outside of the restore's target directory.
---
 lib/bup/metadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 51a01f7..e34fee8 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -601,6 +601,11 @@ class Metadata:
         if not self.posix1e_acl:
             return
 
+        # Symlinks can't have one, and apply_acl() would follow the link.
+        if stat.S_ISLNK(self.mode):
+            note_error(f'error: ignoring symlink ACL: {path_msg(path)}\n')
+            return
+
         if not apply_acl:
             note_error("error: can't restore POSIX1e ACL (no support): %s\n"
                        % path_msg(path))
-- 
2.43.0


From 99019e6739674e74b31c83e067a5b8db424b7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 42/46] fix: restore: names in a tree can redirect the restore

Git tree entries named "..", "../x", "/x", etc. (possible in a
damaged or hostile repository) were created outside of the target
directory, and a directory whose own metadata claimed that it was a
symlink was restored as the symlink, and then its contents were
restored to the link's target.
---
 lib/bup/cmd/restore.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 797a7a0..549ee39 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -156,6 +156,10 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
     mode = vfs.item_mode(item)
     treeish = S_ISDIR(mode)
     fullname = parent_path + b'/' + name
+    if name in (b'', b'.', b'..') or b'/' in name:
+        add_error(f'error: skipping risky path: {path_msg(fullname)}')
+        return
+
     # Match behavior of index --exclude-rx with respect to paths.
     if should_rx_exclude_path(fullname + (b'/' if treeish else b''),
                               exclude_rxs):
@@ -187,6 +191,10 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
             assert(dot == b'.')
             item = vfs.augment_item_meta(repo, item, include_size=True)
             meta = item.meta
+            if not S_ISDIR(meta.mode):
+                add_error('error: skipping directory with non-directory'
+                          f' metadata: {path_msg(fullname)}')
+                return
             meta.create_path(name)
             os.chdir(name)
             try:
-- 
2.43.0


From 3fb4eff7342b2b91743ce3ae2f6475b068071d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 43/46] fix: ftp: mget can write outside of the current
 directory

The names come from the repository's trees, and might contain slashes.
---
 lib/bup/cmd/ftp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/cmd/ftp.py b/lib/bup/cmd/ftp.py
index 99d8add..2d9f604 100644
--- a/lib/bup/cmd/ftp.py
+++ b/lib/bup/cmd/ftp.py
@@ -196,6 +196,8 @@ def present_interface(stdin, out, extra, repo):
                     for name, item in vfs.contents(repo, dir_item):
                         if name == b'.':
                             continue
+                        if name in (b'', b'..') or b'/' in name:
+                            raise CommandError('risky name: ' + path_msg(name))
                         if fnmatch.fnmatch(name, base):
                             if stat.S_ISLNK(vfs.item_mode(item)):
                                 deref = vfs.resolve(repo, name, parent=res)
-- 
2.43.0


From 659032c547b861af2b293fba0617d6454e7ef28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:55 +0000
Subject: [PATCH 44/46] fix: gc: a pack that's rewritten as itself is removed

---
 lib/bup/gc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 7ca2c28..fba2406 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -145,17 +145,21 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     """Traverse all the packs, saving the (probably) live data."""
 
     stale_packs = [] # stems like /some/where/pack-OIDX (no suffix)
+    created = set() # names of all the packs that we've written
 
     def remove_stale_packs(new_pack_prefix):
         nonlocal stale_packs
         if new_pack_prefix:
+            created.add(basename(new_pack_prefix))
             assert _pack_stem_rx.fullmatch(basename(new_pack_prefix))
             if verbosity:
                 log('created ' + path_msg(basename(new_pack_prefix)) + '\n')
         for stem in stale_packs:
             assert _pack_stem_rx.fullmatch(basename(stem))
-            if stem == new_pack_prefix:
-                continue  # Don't remove the new pack file
+            # Rewriting a pack can reproduce it, i.e. the same content
+            # has the same name, perhaps via some other path to the repo.
+            if basename(stem) in created:
+                continue
             for p in glob.glob(stem + b'.*'):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
-- 
2.43.0


From 1fc51f55bd1b36a7b43d96380c11b11086f31aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 45/46] fix: glob characters in a repository's path select
 other repositories' files

---
 lib/bup/cmd/bloom.py                 | 2 +-
 lib/bup/cmd/fsck.py                  | 4 ++--
 lib/bup/cmd/midx.py                  | 6 +++---
 lib/bup/cmd/validate_object_links.py | 2 +-
 lib/bup/gc.py                        | 9 +++++----
 lib/bup/git.py                       | 4 ++--
 lib/bup/midx.py                      | 2 +-
 7 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c7b174a..e53d5cd 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -99,7 +99,7 @@ def _do_bloom(ctx, path, outfilename, k, force):
         rest = []
         add_count = 0
         rest_count = 0
-        for i, name in enumerate(glob.glob(b'%s/*.idx' % path)):
+        for i, name in enumerate(glob.glob(b'%s/*.idx' % glob.escape(path))):
             progress('bloom: counting: %d\r' % i)
             with git.open_idx(name) as ix:
                 ixbase = os.path.basename(name)
diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 496edb3..bb29a55 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -32,7 +32,7 @@ def report_stray_pack_related_files(repo, pack_paths):
 
     # Pack-related is currently pack-40HEX or pack-40HEX.*
     pack_related_rx = re.compile(br'(?:^|/)pack-([a-f0-9]{40})(?:\..*)?$')
-    for path in glob.glob(repo + b'/objects/pack/pack-*'):
+    for path in glob.glob(glob.escape(repo) + b'/objects/pack/pack-*'):
         m = pack_related_rx.search(path)
         if not m or m.group(1) in pack_oidxs:
             continue
@@ -354,7 +354,7 @@ def main(argv):
     else:
         debug('fsck: No filenames given: checking all packs.\n')
         git.check_repo_or_die()
-        pack_files = glob.glob(git.repo(b'objects/pack/*.pack'))
+        pack_files = glob.glob(glob.escape(git.repo(b'objects/pack')) + b'/*.pack')
         report_stray_pack_related_files(git.repo(), pack_files)
         pack_stems = [x[:-5] for x in pack_files]
 
diff --git a/lib/bup/cmd/midx.py b/lib/bup/cmd/midx.py
index 6ddac74..0c02f47 100644
--- a/lib/bup/cmd/midx.py
+++ b/lib/bup/cmd/midx.py
@@ -203,7 +203,7 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
     else:
         midxs = []
         contents = {}
-        for mname in glob.glob(b'%s/*.midx' % path):
+        for mname in glob.glob(b'%s/*.midx' % glob.escape(path)):
             m = _maybe_open_midx(mname, rm_broken=auto or force)
             if not m:
                 continue
@@ -228,7 +228,7 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
                 already[mname] = 1
 
     midxs = [k for k in midxs if not already.get(k)]
-    idxs = [k for k in glob.glob(b'%s/*.idx' % path) if not already.get(k)]
+    idxs = [k for k in glob.glob(b'%s/*.idx' % glob.escape(path)) if not already.get(k)]
 
     for iname in idxs:
         with git.open_idx(iname) as i:
@@ -307,7 +307,7 @@ def main(argv):
             midxes = extra
         else:
             debug1('midx: scanning %s\n' % path)
-            midxes = glob.glob(os.path.join(path, b'*.midx'))
+            midxes = glob.glob(os.path.join(glob.escape(path), b'*.midx'))
         for name in midxes:
             check_midx(name)
         if not saved_errors:
diff --git a/lib/bup/cmd/validate_object_links.py b/lib/bup/cmd/validate_object_links.py
index 5855dbc..a8d7c7d 100644
--- a/lib/bup/cmd/validate_object_links.py
+++ b/lib/bup/cmd/validate_object_links.py
@@ -86,7 +86,7 @@ def main(argv):
     cp = git.catpipe()
     ret = EXIT_TRUE
     with git.PackIdxList(git.repo(b'objects/pack')) as mi:
-        idxlist = glob.glob(path.join(git.repo(b'objects/pack'), b'*.idx'))
+        idxlist = glob.glob(path.join(glob.escape(git.repo(b'objects/pack')), b'*.idx'))
         obj_n = 0
         for idxname in idxlist:
             with git.open_idx(idxname) as idx:
diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index fba2406..75759ae 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -56,7 +56,7 @@ def count_objects(dir, verbosity):
     # more efficient since all we need is a single integer (the last
     # fanout entry) from each index.
     object_count = 0
-    indexes = glob.glob(os.path.join(dir, b'*.idx'))
+    indexes = glob.glob(os.path.join(glob.escape(dir), b'*.idx'))
     for i, idx_name in enumerate(indexes):
         if verbosity:
             qprogress('found %d objects (%d/%d %s)\r'
@@ -160,7 +160,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
             # has the same name, perhaps via some other path to the repo.
             if basename(stem) in created:
                 continue
-            for p in glob.glob(stem + b'.*'):
+            for p in glob.glob(glob.escape(stem) + b'.*'):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
                 os.unlink(p)
@@ -176,7 +176,8 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     try:
         # FIXME: sanity check .idx names vs .pack names?
         collect_count = 0
-        for idx_name in glob.glob(os.path.join(git.repo(b'objects/pack'), b'*.idx')):
+        packs_glob = glob.escape(git.repo(b'objects/pack')) + b'/*.idx'
+        for idx_name in glob.glob(packs_glob):
             if verbosity:
                 qprogress('preserving live data (%d%% complete)\r'
                           % ((float(collect_count) / existing_count) * 100))
@@ -232,7 +233,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
         # Nothing should have recreated midx/bloom yet.
         pack_dir = git.repo(b'objects/pack')
         assert(not os.path.exists(os.path.join(pack_dir, b'bup.bloom')))
-        assert(not glob.glob(os.path.join(pack_dir, b'*.midx')))
+        assert(not glob.glob(os.path.join(glob.escape(pack_dir), b'*.midx')))
 
     except BaseException as ex:
         repo.abort_writing()
diff --git a/lib/bup/git.py b/lib/bup/git.py
index 5445ebd..884391d 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -671,7 +671,7 @@ class PackIdxList:
         if os.path.exists(self.dir):
             if not skip_midx:
                 midxl = []
-                midxes = set(glob.glob(os.path.join(self.dir, b'*.midx')))
+                midxes = set(glob.glob(os.path.join(glob.escape(self.dir), b'*.midx')))
                 # remove any *.midx files from our list that no longer exist
                 for ix in list(d.values()):
                     if not isinstance(ix, midx.PackMidx):
@@ -721,7 +721,7 @@ class PackIdxList:
                                % path_msg(os.path.basename(ix.name)))
                         ix.close()
                         unlink(ix.name)
-            for full in glob.glob(os.path.join(self.dir, b'*.idx')):
+            for full in glob.glob(os.path.join(glob.escape(self.dir), b'*.idx')):
                 if not d.get(full):
                     try:
                         ix = open_idx(full)
diff --git a/lib/bup/midx.py b/lib/bup/midx.py
index e7eec42..f0d3452 100644
--- a/lib/bup/midx.py
+++ b/lib/bup/midx.py
@@ -190,5 +190,5 @@ def open_midx(path, *, ignore_missing=True):
 
 
 def clear_midxes(dir=None):
-    for midx in glob.glob(os.path.join(dir, b'*.midx')):
+    for midx in glob.glob(os.path.join(glob.escape(dir), b'*.midx')):
         os.unlink(midx)
-- 
2.43.0


From eb5294de5bde0cd99f0410c0935dd7d1b2bed736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:17 +0000
Subject: [PATCH 46/46] fix: gc, validate-refs: each run leaves a
 tmp-gc-*.bloom in objects/pack

---
 lib/bup/gc.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 75759ae..b68b3b8 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -8,7 +8,7 @@ from bup import bloom, git, midx
 from bup.bloom import BloomWriter
 from bup.git import MissingObject, walk_object
 from bup.helpers import \
-    EXIT_FAILURE, log, note_error, progress, qprogress, reprogress
+    EXIT_FAILURE, log, note_error, progress, qprogress, reprogress, unlink
 from bup.io import walk_path_msg, path_msg
 from bup.repo import LocalRepo
 
@@ -76,6 +76,17 @@ def report_missing(ref_name, item_path):
     return True
 
 
+class _LiveBlobs(BloomWriter):
+    __slots__ = ()
+
+    def close(self, error=None):
+        # BloomWriter creates path when it's closed
+        try:
+            super().close(error)
+        finally:
+            unlink(self.path)
+
+
 def find_live_objects(existing_count, cat_pipe, refs=None, *,
                       idx_list=None, for_item=None, verbosity=0):
     # Currently, for_item(ref_name, item_path) is called for all
@@ -91,7 +102,7 @@ def find_live_objects(existing_count, cat_pipe, refs=None, *,
     os.close(ffd)
     # FIXME: allow selection of k?
     # FIXME: support ephemeral bloom filters (i.e. *never* written to disk)
-    live_blobs = BloomWriter(bloom_filename, 'w+b', expected=existing_count, k=None)
+    live_blobs = _LiveBlobs(bloom_filename, 'w+b', expected=existing_count, k=None)
     with ExitStack() as maybe_close_bloom:
         maybe_close_bloom.enter_context(live_blobs)
         # live_blobs will hold on to the fd until close or exit
-- 
2.43.0

