From 6507ae66ee0c94b916bd8adaa12cb08c0e30cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/25] fix: cli: report errors with str(), exceptions have no
 .message in Python 3

---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From f62c161130a5a0662bb1e2cdcd219b2c6b7d1ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/25] fix: append: do not divide by zero after appending an
 empty file

---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..e31333b 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -219,8 +219,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From 9d73d3680b55873c653793bcd00cdb3068bd4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/25] fix: append: verify the checksum of the last chunk
 before rewriting it

---
 bloscpack/append.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index e31333b..427796e 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -37,6 +37,7 @@ from .defaults import (DEFAULT_CLEVEL,
 from .exceptions import (NoMetadataFound,
                          NoChangeInMetadata,
                          ChecksumLengthMismatch,
+                         ChecksumMismatch,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
@@ -117,7 +118,10 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    # the chunk will be rewritten, so make sure that it is intact
+    if checksum_impl.size > 0 and checksum_impl(compressed) != digest:
+        raise ChecksumMismatch(
+                "Checksum mismatch detected in last chunk, can not append")
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From 9a839dfcacc0b17cb9b863dbc401d9a0a387d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/25] fix: reject truncated chunks, truncated checksums and
 empty chunk headers

---
 bloscpack/file_io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2e802da..5243c29 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -319,10 +319,14 @@ def _read_compressed_chunk_fp(input_fp, checksum_impl):
     """
     # read blosc header
     blosc_header_raw = input_fp.read(BLOSC_HEADER_LENGTH)
+    if len(blosc_header_raw) != BLOSC_HEADER_LENGTH:
+        raise ValueError('archive is truncated, chunk expected')
     blosc_header = decode_blosc_header(blosc_header_raw)
     if log.LEVEL == log.DEBUG:
         log.debug('blosc_header: %s' % repr(blosc_header))
     ctbytes = blosc_header['ctbytes']
+    if ctbytes < BLOSC_HEADER_LENGTH:
+        raise ValueError("invalid size of compressed chunk: '%d'" % ctbytes)
     # Seek back BLOSC_HEADER_LENGTH bytes in file relative to current
     # position. Blosc needs the header too and presumably this is
     # better than to read the whole buffer and then concatenate it...
@@ -331,6 +335,9 @@ def _read_compressed_chunk_fp(input_fp, checksum_impl):
     compressed = input_fp.read(ctbytes)
     digest = input_fp.read(checksum_impl.size) \
         if checksum_impl.size > 0 else None
+    if len(compressed) != ctbytes or \
+            (digest is not None and len(digest) != checksum_impl.size):
+        raise ValueError('archive is truncated within a chunk')
     return compressed, blosc_header, digest
 
 
-- 
2.43.0


From 4da257cb4c65f76807e57f83bf2726b9bd45061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/25] fix: unpack_ndarray: never write beyond the array or
 leave parts of it unset

---
 bloscpack/numpy_io.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..65a25fe 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -27,6 +27,8 @@ from .defaults import (DEFAULT_CHUNK_SIZE,
 from .abstract_io import (PlainSource,
                           PlainSink,
                           )
+from .headers import (decode_blosc_header,
+                      )
 from .exceptions import (NotANumpyArray,
                          ObjectNumpyArrayRejection,
                          ChunkSizeTypeSizeMismatch,
@@ -141,9 +143,16 @@ class PlainNumpySink(PlainSink):
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
 
+        self.remaining = self.ndarray.nbytes
+
     def put(self, compressed):
+        # decompression writes straight into the memory of the array, so make
+        # sure that the chunk fits
+        if decode_blosc_header(compressed)['nbytes'] > self.remaining:
+            raise ValueError('archive contains more data than the array')
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
+        self.remaining -= bwritten
         return bwritten
 
 
@@ -304,6 +313,8 @@ def unpack_ndarray(source):
 
     sink = PlainNumpySink(source.metadata)
     unpack(source, sink)
+    if sink.remaining != 0:
+        raise ValueError('archive contains less data than the array')
     return sink.ndarray
 
 
-- 
2.43.0


From f70556cf803cc607b6b87f607dd431468f0b2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 06/25] fix: pack_ndarray: do not modify the caller's
 blosc_args

---
 bloscpack/numpy_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 65a25fe..5ba3bd2 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -189,6 +189,7 @@ def pack_ndarray(ndarray, sink,
         blosc_args = BloscArgs(typesize=ndarray.dtype.itemsize)
     else:
         log.debug("Ignoring 'typesize' in blosc_args")
+        blosc_args = blosc_args.copy()
         blosc_args.typesize = ndarray.dtype.itemsize
     source = PlainNumpySource(ndarray)
     nchunks, chunk_size, last_chunk_size = \
-- 
2.43.0


From 8808e02f13b652efe7e96bb092b3347238f9ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/25] fix: writing metadata: do not modify the caller's
 metadata_args

---
 bloscpack/file_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 5243c29..01628c0 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -101,6 +101,7 @@ def _write_metadata(output_fp, metadata, metadata_args):
                       "(raw: '%s' vs. compressed: '%s') " %
                       (meta_size, meta_comp_size))
             meta_comp_size = meta_size
+            metadata_args = metadata_args.copy()
             metadata_args.nullify_codec()
         else:
             metadata = metadata_compressed
-- 
2.43.0


From a4b9d89b807104ace354702a8d065cb5c37a09e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 08/25] fix: append: do not modify the caller's blosc_args

---
 bloscpack/append.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 427796e..2d31caa 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -93,6 +93,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
                            'is not yet supported')
     if blosc_args is None:
         blosc_args = dict(zip(BLOSC_ARGS, [None] * len(BLOSC_ARGS)))
+    else:
+        blosc_args = blosc_args.copy()
     # handle blosc_args
     if blosc_args['typesize'] is None:
         if bloscpack_header.typesize == -1:
-- 
2.43.0


From f25aeea0b3e2fc8ce69b1f7a9f920ab75b2a4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 09/25] fix: unpack_ndarray_from_file: close the file

---
 bloscpack/numpy_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 5ba3bd2..b21a1a0 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -337,8 +337,9 @@ def unpack_ndarray_from_file(filename):
     NotANumpyArray
         if the source doesn't seem to contain a Numpy array
     """
-    source = CompressedFPSource(open(filename, 'rb'))
-    return unpack_ndarray(source)
+    with open(filename, 'rb') as fp:
+        source = CompressedFPSource(fp)
+        return unpack_ndarray(source)
 
 
 unpack_ndarray_file = deprecated(unpack_ndarray_from_file,
-- 
2.43.0


From 3e7a3c03a7ad83aa9d2e381369ca71a18199530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 10/25] fix: compression: raise if the input ends before the
 expected size

---
 bloscpack/file_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 01628c0..0256e57 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -358,7 +358,11 @@ class PlainFPSource(PlainSource):
         for num_bytes in ([self.chunk_size] *
                           (self.nchunks - 1) +
                           [self.last_chunk]):
-            yield self.input_fp.read(num_bytes)
+            chunk = self.input_fp.read(num_bytes)
+            if len(chunk) != num_bytes:
+                raise IOError("input ended early, expected '%d' bytes but "
+                              "received '%d'" % (num_bytes, len(chunk)))
+            yield chunk
 
 
 class CompressedFPSource(CompressedSource):
-- 
2.43.0


From feaadf502c7bd90b0e9dda2c71afb57be353deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/25] fix: append: keep the header consistent and report if
 the new content ends early

---
 bloscpack/append.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 2d31caa..81c0b40 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -140,7 +140,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         _write_compressed_chunk(original_fp, compressed, digest)
         # return 0 to indicate that no new chunks have been written
         # build the new header
-        bloscpack_header.last_chunk += new_size
+        bloscpack_header.last_chunk = ultimo_length + len(fill_up)
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
@@ -151,6 +151,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     new_new_size = new_size - bytes_to_read
     # read those bytes
     fill_up = new_content_fp.read(bytes_to_read)
+    if len(fill_up) != bytes_to_read:
+        raise IOError('content to append ended early')
     # figure out how many chunks we will need
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(new_new_size,
@@ -222,6 +224,8 @@ def append(orig_file, new_file, blosc_args=None):
 
     with open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:
         append_fp(orig_fp, new_fp, new_size, blosc_args)
+        if new_fp.tell() != new_size:
+            raise IOError('content to append ended early')
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-- 
2.43.0


From 86877560d2158c93c38cda22fa3e9e89df887aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 12/25] fix: store meta_level 0 when the metadata is not
 compressed

---
 bloscpack/file_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 0256e57..20b80d2 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -122,7 +122,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
             magic_format=metadata_args.magic_format,
             meta_checksum=metadata_args.meta_checksum,
             meta_codec=metadata_args.meta_codec_name,
-            meta_level=metadata_args.meta_level,
+            meta_level=metadata_args.meta_level
+            if metadata_args.should_compress else 0,
             meta_size=meta_size,
             max_meta_size=max_meta_size,
             meta_comp_size=meta_comp_size).encode()
-- 
2.43.0


From bdfb2d50c404b4472d39f945fb05940e555eb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 13/25] fix: restore structured dtypes that contain padding

---
 bloscpack/numpy_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index b21a1a0..5c6bab5 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -7,6 +7,7 @@ import ast
 
 import blosc
 import numpy
+from numpy.lib.format import descr_to_dtype
 import six
 from six.moves import xrange
 from deprecated import deprecated
@@ -138,8 +139,10 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
+        # takes care of the padding entries in the 'descr' of aligned dtypes
+        dtype_ = descr_to_dtype(dtype_)
         self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=numpy.dtype(dtype_),
+                                   dtype=dtype_,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
 
-- 
2.43.0


From 84513dfe9bd2819368f00df84b5870ca53ad62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 14/25] fix: append: find the offsets also if the metadata is
 null

---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 81c0b40..030b634 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -114,7 +114,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if metadata_header is not None else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From 25bd5b9cb44fa3a6973d80e17f46788d06b3c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 15/25] fix: do not read an archive with unknown number of
 chunks as empty

---
 bloscpack/file_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 20b80d2..0388bdf 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -375,6 +375,8 @@ class CompressedFPSource(CompressedSource):
                 self.offsets = _read_beginning(input_fp)
         self.checksum_impl = self.bloscpack_header.checksum_impl
         self.nchunks = self.bloscpack_header.nchunks
+        if self.nchunks == -1:
+            raise ValueError('the number of chunks in the archive is unknown')
 
     def __iter__(self):
         for i in xrange(self.nchunks):
-- 
2.43.0


From 5d91aa2b47e6157944171c37e499ee2a158974bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 16/25] fix: refuse to use the same file as input and output

Packing, unpacking or appending a file onto itself truncated or
overwrote the input before it was read.
---
 bloscpack/append.py  |  7 +++++++
 bloscpack/file_io.py | 27 +++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 030b634..f04b50a 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -41,6 +41,7 @@ from .exceptions import (NoMetadataFound,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
+                      _check_different_files,
                       _read_beginning,
                       _read_compressed_chunk_fp,
                       _write_offsets,
@@ -215,9 +216,15 @@ def append(orig_file, new_file, blosc_args=None):
     -----
     The blosc_args argument can be supplied if different blosc arguments are
     desired.
+
+    Raises
+    ------
+    ValueError
+        if orig_file and new_file are the same file
     """
     orig_size_before = path.getsize(orig_file)
     new_size = path.getsize(new_file)
+    _check_different_files(new_file, orig_file)
     log.verbose('orig file size before append: %s' %
             double_pretty_size(orig_size_before))
     log.verbose('new file size: %s' % double_pretty_size(new_size))
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 0388bdf..9b75f31 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -432,6 +432,27 @@ class CompressedFPSink(CompressedSink):
         return offset, compressed, digest
 
 
+def _check_different_files(in_file, out_file):
+    """ Check that input and output are not the same file.
+
+    Parameters
+    ----------
+    in_file : str
+        the name of the input file
+    out_file : str
+        the name of the output file
+
+    Raises
+    ------
+    ValueError
+        if both names refer to the same file
+
+    """
+    if path.exists(out_file) and path.samefile(in_file, out_file):
+        raise ValueError("input '%s' and output '%s' are the same file" %
+                         (in_file, out_file))
+
+
 def pack_file_to_file(in_file, out_file,
                       chunk_size=DEFAULT_CHUNK_SIZE,
                       metadata=None,
@@ -462,11 +483,14 @@ def pack_file_to_file(in_file, out_file,
 
     ChunkingException
         if there was a problem caculating the chunks
+    ValueError
+        if in_file and out_file are the same file
 
     # TODO document which arguments are silently ignored
 
     """
     in_file_size = path.getsize(in_file)
+    _check_different_files(in_file, out_file)
     log.verbose('input file size: %s' % double_pretty_size(in_file_size))
     # calculate chunk sizes
     nchunks, chunk_size, last_chunk_size = \
@@ -512,8 +536,11 @@ def unpack_file_from_file(in_file, out_file):
         if the file has an unmatching format version number
     ChecksumMismatch
         if any of the chunks fail to produce the correct checksum
+    ValueError
+        if in_file and out_file are the same file
     """
     in_file_size = path.getsize(in_file)
+    _check_different_files(in_file, out_file)
     log.verbose('input file size: %s' % pretty_size(in_file_size))
     with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
         source = CompressedFPSource(input_fp)
-- 
2.43.0


From 66effb6a7140ebace6c616e27c5adc3fe4d04977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 17/25] fix: cli append: refuse metadata that can not be
 replaced before appending

---
 bloscpack/cli.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..8e89ff8 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -22,6 +22,8 @@ from .append import (append,
                      )
 from .checksums import (CHECKSUMS_AVAIL,
                         )
+from .compat_util import (StringIO,
+                          )
 from .constants import (SUFFIXES,
                         CNAME_AVAIL,
                         EXTENSION,
@@ -45,6 +47,7 @@ from .file_io import (pack_file_to_file,
                       unpack_file_from_file,
                       _read_beginning,
                       _read_compressed_chunk_fp,
+                      _read_metadata,
                       )
 from .headers import (decode_blosc_flags,
                       )
@@ -492,6 +495,17 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
+        if metadata is not None:
+            # rewrite a copy first, so that if the metadata can not be
+            # replaced, nothing is appended
+            with open(original_file, 'rb') as fp:
+                _seek_to_metadata(fp)
+                _read_metadata(fp)
+                metadata_end = fp.tell()
+                fp.seek(0)
+                beginning = StringIO(fp.read(metadata_end))
+            _seek_to_metadata(beginning)
+            _rewrite_metadata_fp(beginning, metadata)
         append(original_file, new_file, blosc_args=blosc_args)
         if metadata is not None:
             with open(original_file, 'r+b') as fp:
-- 
2.43.0


From f12f4edd5d29a560f0fe66f97da5d3d3356394a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 18/25] fix: reject truncated metadata sections

An uncompressed section without checksum that is cut short, or whose
header claims more space than the file has, was accepted, and rewriting
it then extended the file by the claimed amount.
---
 bloscpack/file_io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 9b75f31..1979e12 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -207,7 +207,13 @@ def _read_metadata(input_fp):
     log.debug(metadata_header.pformat())
     metadata = input_fp.read(metadata_header.meta_comp_size)
     prealloc = metadata_header.max_meta_size - metadata_header.meta_comp_size
-    input_fp.seek(prealloc, 1)
+    if len(metadata) != metadata_header.meta_comp_size or prealloc < 0:
+        raise ValueError("metadata section is truncated or inconsistent")
+    if prealloc > 0:
+        # make sure that the allocated space does exist, rewriting fills it
+        input_fp.seek(prealloc - 1, 1)
+        if len(input_fp.read(1)) != 1:
+            raise ValueError("metadata section is truncated")
     if metadata_header.meta_checksum != 'None':
         metadata_checksum_impl = CHECKSUMS_LOOKUP[metadata_header.meta_checksum]
         metadata_expected_digest = input_fp.read(metadata_checksum_impl.size)
-- 
2.43.0


From 9e4808376a156ebe5aaabf4bb587d5f9cd3f501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 19/25] fix: same file check: do not treat a failing stat as a
 missing output

---
 bloscpack/file_io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 1979e12..911ef20 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -5,6 +5,7 @@
 
 from __future__ import division
 
+import errno
 import itertools
 import os.path as path
 
@@ -454,7 +455,14 @@ def _check_different_files(in_file, out_file):
         if both names refer to the same file
 
     """
-    if path.exists(out_file) and path.samefile(in_file, out_file):
+    try:
+        same = path.samefile(in_file, out_file)
+    except OSError as ose:
+        # the output usually doesn't exist yet
+        if ose.errno != errno.ENOENT:
+            raise
+        same = False
+    if same:
         raise ValueError("input '%s' and output '%s' are the same file" %
                          (in_file, out_file))
 
-- 
2.43.0


From 36728a743008f0711723743a07f95b2a84b8dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 20/25] fix: refuse to restore arrays of Python objects from
 stored bytes

---
 bloscpack/numpy_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 5c6bab5..7b06318 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -141,6 +141,8 @@ class PlainNumpySink(PlainSink):
             dtype_ = _conv(metadata['dtype'])
         # takes care of the padding entries in the 'descr' of aligned dtypes
         dtype_ = descr_to_dtype(dtype_)
+        if dtype_.hasobject:
+            raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
                                    dtype=dtype_,
                                    order=metadata['order'])
-- 
2.43.0


From bddfbeabfe402b4da2a5332d47f7da917c5c8be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 21/25] fix: cli: report version and checksum mismatches of
 append and info as errors

---
 bloscpack/cli.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 8e89ff8..f76c77b 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -495,22 +495,27 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
-        if metadata is not None:
-            # rewrite a copy first, so that if the metadata can not be
-            # replaced, nothing is appended
-            with open(original_file, 'rb') as fp:
-                _seek_to_metadata(fp)
-                _read_metadata(fp)
-                metadata_end = fp.tell()
-                fp.seek(0)
-                beginning = StringIO(fp.read(metadata_end))
-            _seek_to_metadata(beginning)
-            _rewrite_metadata_fp(beginning, metadata)
-        append(original_file, new_file, blosc_args=blosc_args)
-        if metadata is not None:
-            with open(original_file, 'r+b') as fp:
-                _seek_to_metadata(fp)
-                _rewrite_metadata_fp(fp, metadata)
+        try:
+            if metadata is not None:
+                # rewrite a copy first, so that if the metadata can not be
+                # replaced, nothing is appended
+                with open(original_file, 'rb') as fp:
+                    _seek_to_metadata(fp)
+                    _read_metadata(fp)
+                    metadata_end = fp.tell()
+                    fp.seek(0)
+                    beginning = StringIO(fp.read(metadata_end))
+                _seek_to_metadata(beginning)
+                _rewrite_metadata_fp(beginning, metadata)
+            append(original_file, new_file, blosc_args=blosc_args)
+            if metadata is not None:
+                with open(original_file, 'r+b') as fp:
+                    _seek_to_metadata(fp)
+                    _rewrite_metadata_fp(fp, metadata)
+        except FormatVersionMismatch as fvm:
+            log.error(str(fvm))
+        except ChecksumMismatch as csm:
+            log.error(str(csm))
     elif args.subcommand in ('info', 'i'):
         try:
             if not path.exists(args.file_):
@@ -529,6 +534,10 @@ def main():
         except ValueError as ve:
             log.error(str(ve) + "\n" +
                       "This might not be a bloscpack compressed file.")
+        except FormatVersionMismatch as fvm:
+            log.error(str(fvm))
+        except ChecksumMismatch as csm:
+            log.error(str(csm))
         log.normal(bloscpack_header.pformat())
         if offsets:
             log.normal("'offsets':")
-- 
2.43.0


From 3672fbb2ad5284e86c73f63c2138fdca72bacb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 22/25] fix: cli: do not treat a failing stat as a missing
 output

---
 bloscpack/cli.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index f76c77b..246ac14 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -4,6 +4,8 @@
 
 
 import argparse
+import errno
+import os
 from os import path
 import json
 import pprint
@@ -58,6 +60,20 @@ from .version import __version__
 from . import log
 
 
+def _output_exists(out_file):
+    """ Check that the output exists, fail if this can't be determined. """
+    if path.exists(out_file):
+        return True
+    # a failing stat makes 'exists' return 'False' too
+    try:
+        os.stat(out_file)
+    except OSError as ose:
+        if ose.errno not in (errno.ENOENT, errno.ENOTDIR):
+            raise
+        return False
+    return True
+
+
 def check_files(in_file, out_file, args):
     """ Check files exist/don't exist.
 
@@ -78,7 +94,7 @@ def check_files(in_file, out_file, args):
     """
     if not path.exists(in_file):
         raise FileNotFound("input file '%s' does not exist!" % in_file)
-    if path.exists(out_file):
+    if _output_exists(out_file):
         if not args.force:
             raise FileNotFound("output file '%s' exists!" % out_file)
         else:
-- 
2.43.0


From 836b56888712d8726ce6921c5bd5155094d72a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 23/25] fix: accept format identifiers padded with whitespace,
 as documented

---
 bloscpack/headers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index e1e7ec5..cf1f828 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -479,7 +479,8 @@ class MetadataHeader(MutableMappingObject):
             raise ValueError(
                 "attempting to decode a bloscpack metadata header of length '%d', not '32'"
                 % len(buffer_))
-        decoded= {'magic_format':        decode_magic_string(buffer_[:8]),
+        # the format identifier may be padded with nulls or with whitespace
+        decoded= {'magic_format':        decode_magic_string(buffer_[:8]).rstrip(b' '),
                   'meta_options':        decode_bitfield(buffer_[8]),
                   'meta_checksum':       CHECKSUMS_AVAIL[decode_uint8(buffer_[9])],
                   'meta_codec':          CODECS_AVAIL[decode_uint8(buffer_[10])],
-- 
2.43.0


From d55becd667abe115bb553538a37a48a827ca409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 24/25] fix: reject metadata sections with unknown options

---
 bloscpack/headers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index cf1f828..69dbab0 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -479,6 +479,8 @@ class MetadataHeader(MutableMappingObject):
             raise ValueError(
                 "attempting to decode a bloscpack metadata header of length '%d', not '32'"
                 % len(buffer_))
+        # reject options that this version does not know
+        decode_metadata_options(decode_bitfield(buffer_[8]))
         # the format identifier may be padded with nulls or with whitespace
         decoded= {'magic_format':        decode_magic_string(buffer_[:8]).rstrip(b' '),
                   'meta_options':        decode_bitfield(buffer_[8]),
-- 
2.43.0


From 026074a167930f40e3e84c455134cb52d55e6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:56 +0000
Subject: [PATCH 25/25] fix: report an empty chunk size as an error instead of
 a traceback

---
 bloscpack/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 246ac14..37f191f 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -315,7 +315,7 @@ def create_parser():
             else:
                 try:
                     # try to get the value as bytes
-                    if value[-1] in SUFFIXES.keys():
+                    if value[-1:] in SUFFIXES.keys():
                         value = reverse_pretty(value)
                     # seems to be intended to be a naked int
                     else:
-- 
2.43.0

