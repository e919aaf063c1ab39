From df23440691b2f3da62bd018d391e7d395128445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:30 +0000
Subject: [PATCH 01/51] fix: index -n along an axis of length n selects the
 first element

---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..fe2cd1f 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,7 +41,7 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
+    if -size <= i < 0:
         start = i + size
     elif i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
-- 
2.43.0


From 6db01422a371702b3d2841e5f4b9dd575ada7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:30 +0000
Subject: [PATCH 02/51] fix: refuse non-integer numbers as dataset index
 instead of truncating them

---
 src/python/module/z5py/shape_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index fe2cd1f..2aa1245 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -6,6 +6,7 @@ default chunk-shape heuristic used on dataset creation. They are implementation
 details and not part of the public z5py API.
 """
 import numbers
+import operator
 
 
 def slice_to_start_stop(s, size):
@@ -161,8 +162,11 @@ def normalize_slices(slices, shape):
         if isinstance(item, slice):
             normalized.append(slice_to_start_stop(item, shape[d]))
         elif isinstance(item, numbers.Number):
+            if isinstance(item, bool):
+                raise TypeError(type_msg)
             squeeze.append(d)
-            normalized.append(int_to_start_stop(int(item), shape[d]))
+            # operator.index refuses non-integral numbers instead of truncating them
+            normalized.append(int_to_start_stop(operator.index(item), shape[d]))
         elif isinstance(item, type(Ellipsis)):
             if found_ellipsis:
                 raise ValueError("Only one ellipsis may be used")
-- 
2.43.0


From f9448a2df3c2b282f779589c0c131e9448547c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 03/51] fix: report chunk writes that only fail when the
 buffered data is flushed

---
 include/z5/filesystem/store.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..dd8ecee 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -42,10 +42,11 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
         }
         file.write(buffer.data(), buffer.size());
+        // buffered data may only reach the file on close, so check for errors afterwards
+        file.close();
         if(!file.good()) {
             throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
         }
-        file.close();
     }
 
 }  // namespace store_detail
-- 
2.43.0


From 31ebeced929328ec67bfb93035b56699933c7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 04/51] fix: replace metadata and attribute documents as a
 whole and report failing writes

They were rewritten in place without any error check: a crash or a full disk in
an attribute update left a truncated document, which for n5 and zarr v3 also
holds the dataset's metadata.
---
 include/z5/filesystem/attributes.hxx   | 11 +++---
 include/z5/filesystem/replace_file.hxx | 46 ++++++++++++++++++++++++++
 2 files changed, 51 insertions(+), 6 deletions(-)
 create mode 100644 include/z5/filesystem/replace_file.hxx

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..45c68f6 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -4,6 +4,7 @@
 #include <iomanip>
 
 #include "z5/filesystem/handle.hxx"
+#include "z5/filesystem/replace_file.hxx"
 #include "z5/generic/attributes.hxx"
 
 
@@ -43,16 +44,14 @@ namespace attrs_detail {
 
         // compact serialization (zarr v2 '.zattrs', n5 'attributes.json')
         inline void write(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << j;
-            file.close();
+            const std::string doc = j.dump();
+            replaceFile(base_ / name, doc.data(), doc.size(), "attribute");
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << std::setw(4) << j << std::endl;
-            file.close();
+            const std::string doc = j.dump(4) + "\n";
+            replaceFile(base_ / name, doc.data(), doc.size(), "metadata");
         }
 
     private:
diff --git a/include/z5/filesystem/replace_file.hxx b/include/z5/filesystem/replace_file.hxx
new file mode 100644
index 0000000..344f0c3
--- /dev/null
+++ b/include/z5/filesystem/replace_file.hxx
@@ -0,0 +1,46 @@
+#pragma once
+
+#include <fstream>
+#include <random>
+#include <stdexcept>
+#include <string>
+
+#include "z5/common.hxx"
+
+
+namespace z5 {
+namespace filesystem {
+
+    // Replace (or create) the file at 'path' as a whole: the data is written to a
+    // temporary file next to it, which is then renamed. A crash or a failing write
+    // leaves the previous content in place; a failing write throws.
+    // 'what' names the object kind in error messages.
+    inline void replaceFile(const fs::path & path, const char * data, const std::size_t size,
+                            const char * what) {
+        std::random_device rd;
+        const fs::path tmp(path.string() + ".tmp" + std::to_string(rd()));
+        {
+            std::ofstream file(tmp, std::ios::binary);
+            if(!file.is_open()) {
+                throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
+            }
+            file.write(data, size);
+            // buffered data may only reach the file on close, so check for errors afterwards
+            file.close();
+            if(!file.good()) {
+                std::error_code ec;
+                fs::remove(tmp, ec);
+                throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
+            }
+        }
+        std::error_code ec;
+        fs::rename(tmp, path, ec);
+        if(ec) {
+            std::error_code ecRemove;
+            fs::remove(tmp, ecRemove);
+            throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
+        }
+    }
+
+}
+}
-- 
2.43.0


From 0fef7195e26583a50695400e53227a1c49f8525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:14 +0000
Subject: [PATCH 05/51] fix: replace shard and chunk files as a whole

Rewriting a shard in place lost all of its chunks when the process died or the
disk filled up during the update of one of them.
---
 include/z5/filesystem/replace_file.hxx |  2 +-
 include/z5/filesystem/store.hxx        | 18 ++++--------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/z5/filesystem/replace_file.hxx b/include/z5/filesystem/replace_file.hxx
index 344f0c3..5ad8927 100644
--- a/include/z5/filesystem/replace_file.hxx
+++ b/include/z5/filesystem/replace_file.hxx
@@ -5,7 +5,7 @@
 #include <stdexcept>
 #include <string>
 
-#include "z5/common.hxx"
+#include "z5/types/types.hxx"
 
 
 namespace z5 {
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index dd8ecee..f115d91 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -4,6 +4,7 @@
 #include <ios>
 
 #include "z5/filesystem/handle.hxx"
+#include "z5/filesystem/replace_file.hxx"
 #include "z5/generic/store.hxx"
 #include "z5/util/util.hxx"
 
@@ -36,19 +37,6 @@ namespace store_detail {
         file.close();
     }
 
-    inline void writeFile(const fs::path & path, const std::vector<char> & buffer, const char * what) {
-        std::ofstream file(path, std::ios::binary);
-        if(!file.is_open()) {
-            throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
-        }
-        file.write(buffer.data(), buffer.size());
-        // buffered data may only reach the file on close, so check for errors afterwards
-        file.close();
-        if(!file.good()) {
-            throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
-        }
-    }
-
 }  // namespace store_detail
 
 
@@ -77,7 +65,9 @@ namespace store_detail {
                                  const char * what = "chunk") {
             // create nested chunk directories if needed (a no-op for non-nested chunks)
             chunk.create();
-            store_detail::writeFile(chunk.path(), buffer, what);
+            // a shard also holds chunks the current operation does not address, so
+            // objects are never left partially written
+            replaceFile(chunk.path(), buffer.data(), buffer.size(), what);
         }
 
         static inline void erase(const ChunkHandleType & chunk) {
-- 
2.43.0


From d7c5b3ad9b874271a1ca52f76e4ce59aa4cf645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 06/51] fix: refuse to create datasets with empty chunks or
 unsupported metadata before creating anything

A zero in the chunk shape (or shape) divided by zero after the node was created,
and an unsupported codec or data type left an unusable node behind.
---
 include/z5/filesystem/factory.hxx | 20 ++++++++++++++++++--
 include/z5/metadata.hxx           |  8 ++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index 2d0c806..3caaf6d 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -59,9 +59,25 @@ namespace factory_detail {
         const handle::Dataset & dataset,
         const DatasetMetadata & metadata
     ) {
+        // serialize the metadata and instantiate the dataset first, so that a request
+        // that cannot be fulfilled is refused before anything is created
+        nlohmann::json j;
+        metadata.toJson(j);
+        auto ds = factory_detail::makeDataset(dataset, metadata);
+        if(!ds) {
+            throw std::runtime_error("Creating dataset failed because its data type is not supported.");
+        }
+
         dataset.create();
-        writeMetadata(dataset, metadata);
-        return factory_detail::makeDataset(dataset, metadata);
+        try {
+            writeMetadata(dataset, metadata);
+        } catch(...) {
+            // leave nothing behind, so that the name stays free
+            std::error_code ec;
+            fs::remove_all(dataset.path(), ec);
+            throw;
+        }
+        return ds;
     }
 
 
diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..7e44ec8 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -407,6 +407,14 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            if(shape.empty()) {
+                throw std::runtime_error("Shape and chunks need at least one dimension");
+            }
+            for(const auto c : chunkShape) {
+                if(c == 0) {
+                    throw std::runtime_error("Chunk shape must be positive along all dimensions");
+                }
+            }
         }
 
 
-- 
2.43.0


From 8b750f0bd6339d2abc245e9ef7a539ccd173c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 07/51] fix: create gzip compressed zarr datasets with gzip
 instead of zlib streams

zarr v2 datasets created with gzip recorded and stored zlib; zarr v3 datasets
created from C++ stored zlib streams under the gzip codec and could not be read
back after reopening.
---
 include/z5/metadata.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 7e44ec8..57c0d39 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -485,6 +485,11 @@ namespace z5 {
         // add the default compression options if necessary
         // we need to make a copy of the compression options, because they are const
         auto internalCompressionOptions = compressionOptions;
+        // "gzip" and "zlib" are the same compressor with different stream formats;
+        // zarr v3 only has a gzip codec
+        if(compressor == "gzip" || (compressor == "zlib" && createAsZarr && zarrFormat == 3)) {
+            internalCompressionOptions["useZlib"] = false;
+        }
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
 
         // sharding is only valid for zarr v3, and the shard shape must be a
-- 
2.43.0


From d41ddb0e127323820cf6d337e43fe40924785c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 08/51] fix: refuse fill values n5 metadata cannot hold

The value was used by the creating handle only and silently lost on reopening.
---
 include/z5/metadata.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 57c0d39..4e41ddf 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -492,6 +492,11 @@ namespace z5 {
         }
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
 
+        // n5 metadata cannot hold a fill value
+        if(!createAsZarr && fillValue != 0) {
+            throw std::runtime_error("z5::createDatasetMetadata: n5 does not support fill values other than 0");
+        }
+
         // sharding is only valid for zarr v3, and the shard shape must be a
         // whole multiple of the (inner) chunk shape along every axis
         if(!shardShape.empty()) {
-- 
2.43.0


From db525640fc52c8d0974f611e278bddbe32136b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 09/51] fix: honour the blosc level given in python

The option was called clevel, which the library does not read: the level was
silently ignored, and options reported by a dataset could not be passed to
create_dataset.
---
 src/python/module/z5py/dataset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 6a4c245..95a5493 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -109,7 +109,7 @@ class Dataset:
     @staticmethod
     def _to_zarr_compression_options(compression, compression_options):
         if compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
         elif compression == 'zlib':
             default_opts = {'id': 'zlib', 'level': 5}
         elif compression == 'gzip':
@@ -144,7 +144,7 @@ class Dataset:
         # toJsonV3 turns them into the on-disk v3 codec configuration. NOTE: gzip
         # must set useZlib=False so the zlib compressor emits a gzip wrapper.
         if compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
         elif compression == 'gzip':
             default_opts = {'level': 5, 'useZlib': False}
         elif compression == 'zstd':
@@ -178,7 +178,7 @@ class Dataset:
         elif compression == 'lz4':
             default_opts = {'level': 6}
         elif compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
         elif compression == 'zstd':
             default_opts = {'level': 3}
         else:
@@ -280,6 +280,11 @@ class Dataset:
                 raise TypeError("One of dtype or data must be specified")
         parsed_dtype = np.dtype(dtype)
 
+        # 'clevel' (the name used in the metadata) is accepted as an alias for 'level'
+        if compression in (None, 'blosc') and 'clevel' in compression_options:
+            compression_options = dict(compression_options)
+            compression_options.setdefault('level', compression_options.pop('clevel'))
+
         # get default chunks if necessary
         # NOTE in contrast to h5py, datasets are chunked
         # by default, with chunk size ~ 64**3
-- 
2.43.0


From eee7e85c128e6e19201d8ce4699ba271d34c8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 10/51] fix: report compression names that create_dataset
 accepts

Datasets created with bzip2 (zarr) or gzip reported bz2 and zlib.
---
 src/python/module/z5py/dataset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 95a5493..b1361e4 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -418,7 +418,13 @@ class Dataset:
     def compression(self):
         """ Name of the compression library (codec) used by this dataset.
         """
-        return self._impl.compressor
+        # report the names used in create_dataset rather than those in the metadata
+        compressor = self._impl.compressor
+        if compressor == 'bz2':
+            return 'bzip2'
+        if compressor == 'zlib' and not json.loads(self._impl.compression_options)['useZlib']:
+            return 'gzip'
+        return compressor
 
     @property
     def compression_opts(self):
-- 
2.43.0


From 79fe85d609a3930e53253a131983fd776f0f34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 11/51] fix: resolve slash-decorated names inside of the
 container in all group methods

create_group, require_group, create_dataset, require_dataset and is_sub_group
took a leading slash as an absolute path in the file system.
---
 src/python/module/z5py/group.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cb30dbf..c60f8d2 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -12,6 +12,12 @@ from .dataset import Dataset, _navigate
 from .attribute_manager import AttributeManager
 
 
+def _relative_name(name):
+    """ Strip leading, trailing and repeated slashes: all names are relative to the group.
+    """
+    return '/'.join(part for part in name.split('/') if part)
+
+
 def _unpickle_group(file_obj, name):
     return _navigate(file_obj, name)
 
@@ -61,15 +67,16 @@ class Group(Mapping):
         return len(self._handle.keys())
 
     def __contains__(self, name):
-        return self._handle.has(name.lstrip('/'))
+        return self._handle.has(_relative_name(name))
 
     def __delitem__(self, name):
         if not self._handle.mode().can_write():
             raise ValueError("Cannot call delete on file not opened with write permissions.")
+        name = _relative_name(name)
         if name not in self:
             raise KeyError("%s does not exist" % name)
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
+        if self.is_sub_group(name):
+            handle = self._handle_factory(self._handle, name)
             handle.remove()
         else:
             _z5py.remove_dataset(self[name]._impl, 1)
@@ -85,15 +92,16 @@ class Group(Mapping):
         Returns:
             ``Group`` or ``Dataset``.
         """
+        name = _relative_name(name)
         if name not in self:
             raise KeyError("Key %s does not exist" % name)
 
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
+        if self.is_sub_group(name):
+            handle = self._handle_factory(self._handle, name)
             return Group(handle, self._handle_factory, self, self._name + '/' + name,
                          self._dimension_separator, self._zarr_format)
         else:
-            return Dataset._open_dataset(self, name.lstrip('/'))
+            return Dataset._open_dataset(self, name)
 
     @property
     def attrs(self):
@@ -146,7 +154,7 @@ class Group(Mapping):
         Returns:
             bool: True if ``name`` refers to a sub-group.
         """
-        return self._handle.is_sub_group(name)
+        return self._handle.is_sub_group(_relative_name(name))
 
     def create_group(self, name):
         """ Create a new group.
@@ -162,6 +170,7 @@ class Group(Mapping):
         """
         if not self._handle.mode().can_write():
             raise ValueError("Cannot create group with read-only permissions.")
+        name = _relative_name(name)
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
         handle = _z5py.create_group(self._handle, name, self._zarr_format)
@@ -180,6 +189,7 @@ class Group(Mapping):
         Returns:
             ``Group``: group of the requested name.
         """
+        name = _relative_name(name)
         if name in self:
             if not self.is_sub_group(name):
                 raise TypeError("Incompatible object (Dataset) already exists")
@@ -233,11 +243,12 @@ class Group(Mapping):
 
         if not self._handle.mode().can_write():
             raise ValueError("Cannot create dataset with read-only permissions.")
+        name = _relative_name(name)
         if name in self:
             raise KeyError("Dataset %s is already existing." % name)
 
         # For nested paths, create intermediate groups with proper metadata
-        parts = name.lstrip('/').split('/')
+        parts = name.split('/')
         if len(parts) > 1:
             group = self
             for part in parts[:-1]:
@@ -282,7 +293,7 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
-        return Dataset._require_dataset(self, name, shape, dtype, chunks,
+        return Dataset._require_dataset(self, _relative_name(name), shape, dtype, chunks,
                                         n_threads, dimension_separator=self._dimension_separator,
                                         zarr_format=self._zarr_format, **kwargs)
 
-- 
2.43.0


From 46d54600a2bfeb4ee05b7607afd3ab715bb5d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:57 +0000
Subject: [PATCH 12/51] fix: create the missing parents of nested names as
 proper groups

create_group and require_dataset left parents without zarr group metadata, which
could be listed but not opened; nested groups could be created below a dataset;
and a failing nested create_dataset left its new parents behind.
---
 src/python/module/z5py/group.py | 63 ++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index c60f8d2..a715430 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -173,6 +173,13 @@ class Group(Mapping):
         name = _relative_name(name)
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
+        return self._create_group(name)
+
+    def _create_group(self, name):
+        # the missing parents of a nested name are created as groups with proper metadata
+        parent, _, name = name.rpartition('/')
+        if parent:
+            return self.require_group(parent)._create_group(name)
         handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
@@ -197,7 +204,7 @@ class Group(Mapping):
         else:
             if not self._handle.mode().can_write():
                 raise ValueError("Cannot create group with read-only permissions.")
-            handle = _z5py.create_group(self._handle, name, self._zarr_format)
+            return self._create_group(name)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
 
@@ -247,27 +254,27 @@ class Group(Mapping):
         if name in self:
             raise KeyError("Dataset %s is already existing." % name)
 
-        # For nested paths, create intermediate groups with proper metadata
-        parts = name.split('/')
-        if len(parts) > 1:
-            group = self
-            for part in parts[:-1]:
-                group = group.require_group(part)
-            return group.create_dataset(parts[-1], shape, dtype,
-                                        data, chunks, compression,
-                                        fillvalue, n_threads,
-                                        shards=shards,
-                                        chunk_key_encoding=chunk_key_encoding,
-                                        **compression_options)
-
-        return Dataset._create_dataset(self, name, shape, dtype,
-                                       data, chunks, compression,
-                                       fillvalue, n_threads,
-                                       compression_options,
-                                       self._dimension_separator,
-                                       zarr_format=self._zarr_format,
-                                       shards=shards,
-                                       chunk_key_encoding=chunk_key_encoding)
+        return self._create_below(name, lambda group, name: Dataset._create_dataset(
+            group, name, shape, dtype, data, chunks, compression, fillvalue, n_threads,
+            compression_options, self._dimension_separator, zarr_format=self._zarr_format,
+            shards=shards, chunk_key_encoding=chunk_key_encoding))
+
+    def _create_below(self, name, create):
+        # for nested names, create the missing parent groups with proper metadata
+        # and remove them again if the creation fails
+        parent, _, leaf = name.rpartition('/')
+        if not parent:
+            return create(self, leaf)
+        parts = parent.split('/')
+        paths = ['/'.join(parts[:i + 1]) for i in range(len(parts))]
+        missing = next((path for path in paths if path not in self), None)
+        group = self.require_group(parent)
+        try:
+            return create(group, leaf)
+        except Exception:
+            if missing is not None:
+                del self[missing]
+            raise
 
     def require_dataset(self, name, shape,
                         dtype=None, chunks=None,
@@ -293,9 +300,15 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
-        return Dataset._require_dataset(self, _relative_name(name), shape, dtype, chunks,
-                                        n_threads, dimension_separator=self._dimension_separator,
-                                        zarr_format=self._zarr_format, **kwargs)
+        def require(group, name):
+            return Dataset._require_dataset(group, name, shape, dtype, chunks,
+                                            n_threads, dimension_separator=self._dimension_separator,
+                                            zarr_format=self._zarr_format, **kwargs)
+
+        name = _relative_name(name)
+        if name in self or not self._handle.mode().can_write():
+            return require(self, name)
+        return self._create_below(name, require)
 
     def visititems(self, func, _root=None):
         """ Recursively visit names and objects in this group.
-- 
2.43.0


From f271afa0ccc4d471cbf270c8c74c0661ba0624d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:57 +0000
Subject: [PATCH 13/51] fix: do not report the chunk directories of a dataset
 as groups

---
 src/python/module/z5py/group.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index a715430..cfa1301 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -67,7 +67,21 @@ class Group(Mapping):
         return len(self._handle.keys())
 
     def __contains__(self, name):
-        return self._handle.has(_relative_name(name))
+        name = _relative_name(name)
+        return self._handle.has(name) and not self._is_below_dataset(name)
+
+    def _is_below_dataset(self, name):
+        # the directories of nested chunks are not part of the hierarchy
+        parent, _, _ = name.rpartition('/')
+        while parent:
+            if not self._handle.is_sub_group(parent):
+                try:
+                    _z5py.open_dataset(self._handle, parent)
+                    return True
+                except RuntimeError:
+                    pass  # a directory without metadata
+            parent, _, _ = parent.rpartition('/')
+        return False
 
     def __delitem__(self, name):
         if not self._handle.mode().can_write():
-- 
2.43.0


From 95528448c2663f0ed81c4aa5eb79a1aebacc5766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 14/51] fix: refuse chunks that do not decode to the expected
 size

---
 include/z5/compression/blosc_compressor.hxx | 14 +++++++++++---
 include/z5/compression/bzip2_compressor.hxx |  2 +-
 include/z5/compression/lz4_compressor.hxx   |  2 +-
 include/z5/compression/xz_compressor.hxx    |  3 ++-
 include/z5/compression/zlib_compressor.hxx  | 12 ++++++++----
 include/z5/compression/zstd_compressor.hxx  |  3 +++
 include/z5/util/format_data.hxx             |  8 ++++----
 7 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..7c936dd 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -47,9 +47,17 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
-            // decompress the data (blosc reads the compressed length from its own header)
+            // blosc reads the lengths from its own header; make sure that they agree
+            // with the input we actually have and the output we expect
+            std::size_t sizeExpected = 0;
+            if(blosc_cbuffer_validate(dataIn, nBytesIn, &sizeExpected) < 0 ||
+               sizeExpected != sizeOut * sizeof(T)) {
+                throw std::runtime_error("Blosc decompression failed");
+            }
+
+            // decompress the data
             int sizeDecompressed = blosc_decompress_ctx(
                 dataIn, dataOut,
                 sizeOut * sizeof(T),
@@ -57,7 +65,7 @@ namespace compression {
             );
 
             // check for errors
-            if(sizeDecompressed <= 0) {
+            if(sizeDecompressed <= 0 || static_cast<std::size_t>(sizeDecompressed) != sizeExpected) {
                 throw std::runtime_error("Blosc decompression failed");
             }
         }
diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..d1d3d2f 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -91,7 +91,7 @@ namespace compression {
             int ret = BZ2_bzDecompress(&bzs);
             BZ2_bzDecompressEnd(&bzs);
 
-            if(ret != BZ_STREAM_END) {
+            if(ret != BZ_STREAM_END || bzs.avail_out != 0) {
                 std::string err = "Exception during bzip decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
             }
diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..bcd8943 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -48,7 +48,7 @@ namespace compression {
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
             const int compressed = LZ4_decompress_safe(dataIn, (char *) dataOut,
                                                        nBytesIn, sizeOut * sizeof(T));
-            if(compressed <= 0) {
+            if(compressed <= 0 || static_cast<std::size_t>(compressed) != sizeOut * sizeof(T)) {
                 std::string err = "Exception during lz4 decompression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
             }
diff --git a/include/z5/compression/xz_compressor.hxx b/include/z5/compression/xz_compressor.hxx
index 4ecb92c..6835764 100644
--- a/include/z5/compression/xz_compressor.hxx
+++ b/include/z5/compression/xz_compressor.hxx
@@ -122,9 +122,10 @@ namespace compression {
 
             } while(ret == LZMA_OK);
 
+            const std::size_t totalOut = lzs.total_out;
             lzma_end(&lzs);
 
-            if(ret != LZMA_STREAM_END) {
+            if(ret != LZMA_STREAM_END || totalOut != sizeOut * sizeof(T)) {
                 std::string err = "Exception during xz decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
             }
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 74579f0..173383d 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -99,9 +99,9 @@ namespace compression {
             }
 
             // Pick the wrapper from the metadata flag (zlib for zarr-v2 "zlib", gzip
-            // for n5 / zarr-v2 "gzip" / zarr-v3). Pass a non-null actual-size pointer so
-            // that, like the previous zlib code, a stream decoding to fewer than the
-            // expected bytes still succeeds (only an overflow is an error).
+            // for n5 / zarr-v2 "gzip" / zarr-v3). The actual size is checked below: a
+            // stream decoding to fewer than the expected bytes would leave what the
+            // caller's buffer held before in its tail.
             std::size_t actualOut = 0;
             libdeflate_result res = useZlibEncoding_ ?
                 libdeflate_zlib_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut) :
@@ -118,6 +118,9 @@ namespace compression {
 
             libdeflate_free_decompressor(decompressor);
 
+            if(res == LIBDEFLATE_SUCCESS && actualOut != sizeOutBytes) {
+                throw std::runtime_error("z5: deflate stream does not decode to the expected size");
+            }
             if(res != LIBDEFLATE_SUCCESS) {
                 throw std::runtime_error("z5: libdeflate decompression failed (" + std::to_string((int) res) + ")");
             }
@@ -203,9 +206,10 @@ namespace compression {
 
             } while(ret == Z_OK);
 
+            const std::size_t totalOut = zs.total_out;
             inflateEnd(&zs);
 
-			if (ret != Z_STREAM_END) {          // an error occurred that was not EOF
+			if (ret != Z_STREAM_END || totalOut != sizeOut * sizeof(T)) {          // an error occurred that was not EOF
                 std::string err = "Exception during zlib decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
     		}
diff --git a/include/z5/compression/zstd_compressor.hxx b/include/z5/compression/zstd_compressor.hxx
index a1238cf..2338470 100644
--- a/include/z5/compression/zstd_compressor.hxx
+++ b/include/z5/compression/zstd_compressor.hxx
@@ -49,6 +49,9 @@ namespace compression {
                 std::string err = "Exception during zstd decompression: " +
                                  std::string(ZSTD_getErrorName(decompressed));
                 throw std::runtime_error(err);
+            }
+            if(decompressed != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: zstd stream does not decode to the expected size");
             }
 		}
 
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..fdb77ec 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -143,10 +143,10 @@ namespace util {
                            const std::size_t data_size, const COMPRESSOR & compressor) {
         // we don't need to decompress for raw compression
         if(compressor->type() == 0) {
-            // bound the copy by the output capacity: a corrupt chunk (or corrupt shard
-            // slot length) must not overflow the caller's buffer
-            if(nBytes > data_size * sizeof(T)) {
-                throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
+            // a corrupt chunk (or corrupt shard slot length) must not overflow the
+            // caller's buffer, nor leave what the buffer held before in its tail
+            if(nBytes != data_size * sizeof(T)) {
+                throw std::runtime_error("z5: raw chunk does not have the expected chunk size");
             }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
-- 
2.43.0


From 7722a06901cae4805abaf0a16e3b6313fe0bbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 15/51] fix: validate the shape, mode and length of n5 chunk
 headers against the grid

---
 include/z5/filesystem/store.hxx        | 24 ++++++----
 include/z5/multiarray/array_access.hxx | 10 ++++-
 include/z5/util/format_data.hxx        | 61 +++++++++++++++++++++++++-
 3 files changed, 83 insertions(+), 12 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index f115d91..0b6567e 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -90,24 +90,29 @@ namespace store_detail {
             std::ifstream file(chunk.path(), std::ios::binary);
 
             // read the mode
-            uint16_t mode;
+            uint16_t mode = 0;
             file.read((char *) &mode, 2);
             util::reverseEndiannessInplace(mode);
 
-            if(mode == 0) {
-                return false;
-            }
-
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
             util::reverseEndiannessInplace(ndim);
 
+            if(!file || mode > 1) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated or unsupported header");
+            }
+            if(mode == 0) {
+                return false;
+            }
+
             // advance the file by ndim * 4 to skip the shape
             file.seekg((ndim + 1) * 4);
 
             uint32_t varlength;
-            file.read((char*) &varlength, 4);
+            if(!file.read((char*) &varlength, 4)) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated header");
+            }
             util::reverseEndiannessInplace(varlength);
             chunkSize = varlength;
 
@@ -124,7 +129,7 @@ namespace store_detail {
             file.seekg(2);
 
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
             util::reverseEndiannessInplace(ndim);
 
@@ -133,6 +138,9 @@ namespace store_detail {
             for(int d = 0; d < ndim; ++d) {
                 file.read((char *) &shapeTmp[d], 4);
             }
+            if(!file) {
+                throw std::runtime_error("z5: invalid n5 chunk: truncated header");
+            }
             util::reverseEndiannessInplace<uint32_t>(shapeTmp.begin(), shapeTmp.end());
 
             // N5-Axis order: we need to reverse the chunk shape read from the header
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..6f90081 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -121,9 +121,11 @@ namespace multiarray {
             std::size_t chunkStoreSize = maxChunkSize;
             std::size_t headerLength = 0;
             if(!isZarr) {
-                if(util::read_n5_header(dataBuffer, chunkStoreSize, headerLength)) {
+                types::ShapeType storedShape;
+                if(util::read_n5_header(dataBuffer, chunkStoreSize, headerLength, &storedShape)) {
                     throw std::runtime_error("Can't read from varlen chunks to multiarray");
                 }
+                util::check_n5_shape(storedShape, chunkShape, maxChunkShape);
             }
 
             // edge chunk stored at full size (zarr) -> use the default chunk shape; the
@@ -277,7 +279,11 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
+                                           // the varlen check needs to come first: a varlen
+                                           // chunk can exceed the buffer
+                                           std::size_t varSize;
+                                           if(ds.checkVarlenChunk(chunkId, varSize) ||
+                                              ds.readChunk(chunkId, &buf[0])) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
                                            }
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index fdb77ec..d804ccd 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -169,7 +169,8 @@ namespace util {
     // which would memmove the whole compressed payload).
     inline bool read_n5_header(const std::vector<char> & buffer,
                                std::size_t & data_size,
-                               std::size_t & header_length) {
+                               std::size_t & header_length,
+                               types::ShapeType * stored_shape=nullptr) {
         // every read below is validated against the buffer size first: a truncated
         // or corrupt chunk file must produce a clean error, not out-of-bounds reads
         if(buffer.size() < 4) {
@@ -186,6 +187,9 @@ namespace util {
         memcpy(&ndim, &buffer[2], 2);
         util::reverseEndiannessInplace(ndim);
 
+        if(mode > 1) {
+            throw std::runtime_error("z5: invalid n5 chunk: unsupported mode");
+        }
         const bool is_varlen = mode == 1;
         const std::size_t fullHeaderLen = (ndim + 1) * 4 + (is_varlen ? 4 : 0);
         if(buffer.size() < fullHeaderLen) {
@@ -201,6 +205,9 @@ namespace util {
 
         // // N5-Axis order: we need to reverse the chunk shape read from the header
         std::reverse(shape.begin(), shape.end());
+        if(stored_shape != nullptr) {
+            stored_shape->assign(shape.begin(), shape.end());
+        }
 
         std::size_t headerlen = (ndim + 1) * 4;
 
@@ -221,6 +228,39 @@ namespace util {
     }
 
 
+    // n5 chunks at the border are stored with their actual shape by n5 and z5, and padded
+    // to the full chunk shape by some other writers; anything else does not fit the grid
+    inline void check_n5_shape(const types::ShapeType & stored_shape,
+                               const types::ShapeType & chunk_shape,
+                               const types::ShapeType & full_shape) {
+        if(stored_shape != chunk_shape && stored_shape != full_shape) {
+            throw std::runtime_error("z5: invalid n5 chunk: the header does not match the chunk shape");
+        }
+    }
+
+
+    // copy the leading block of shape `dst_shape` out of an array of shape `src_shape`
+    template<class T>
+    inline void copy_leading_block(const T * src, const types::ShapeType & src_shape,
+                                   T * dst, const types::ShapeType & dst_shape) {
+        const int ndim = dst_shape.size();
+        const std::size_t row = dst_shape[ndim - 1];
+        const std::size_t size = std::accumulate(dst_shape.begin(), dst_shape.end(),
+                                                 std::size_t(1), std::multiplies<std::size_t>());
+        for(std::size_t pos = 0; pos < size; pos += row) {
+            std::size_t rest = pos / row, srcPos = 0, srcStride = src_shape[ndim - 1];
+            for(int d = ndim - 2; d >= 0; --d) {
+                srcPos += (rest % dst_shape[d]) * srcStride;
+                rest /= dst_shape[d];
+                srcStride *= src_shape[d];
+            }
+            std::copy(src + srcPos, src + srcPos + row, dst + pos);
+        }
+    }
+
+
+    // decode a chunk. For n5, `dataOut` receives chunk.size() elements (the number of
+    // elements in the header for varlen chunks), for zarr chunk.defaultSize() elements.
     template<class T, class CHUNK, class COMPRESSOR>
     inline bool buffer_to_data(const z5::handle::Chunk<CHUNK> & chunk,
                                const std::vector<char> & buffer,
@@ -231,9 +271,26 @@ namespace util {
         std::size_t chunk_size = chunk.defaultSize();
         std::size_t header_length = 0;
         bool is_varlen = false;
+        bool is_padded = false;
 
         if(!is_zarr) {
-            is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            types::ShapeType stored_shape;
+            is_varlen = read_n5_header(buffer, chunk_size, header_length, &stored_shape);
+            if(!is_varlen) {
+                check_n5_shape(stored_shape, chunk.shape(), chunk.defaultShape());
+                is_padded = stored_shape != chunk.shape();
+            }
+        }
+
+        // chunk that is padded to the full shape: the caller expects its leading block
+        if(is_padded) {
+            std::vector<T> padded(chunk_size);
+            decompress<T>(buffer.data() + header_length, buffer.size() - header_length,
+                          padded.data(), chunk_size, compressor);
+            util::reverseEndiannessInplace<T>(padded.begin(), padded.end());
+            copy_leading_block(padded.data(), chunk.defaultShape(),
+                               static_cast<T*>(dataOut), chunk.shape());
+            return false;
         }
 
         // decode straight past the header (no copy / memmove of the payload)
-- 
2.43.0


From e1b4ea5cbb3f86f51e819aaabfc235adc1dbe9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 16/51] fix: do not count the padding of zarr border chunks in
 unique and removeTrivialChunks

---
 include/z5/util/functions.hxx | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 367456c..87d1c30 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -7,21 +7,32 @@
 namespace z5 {
 namespace util {
 
-    // Size a read buffer and report how many of its elements readChunk will fill.
+    // Read the values of a chunk and report how many there are.
     // readChunk always writes the full (default) chunk size for zarr (chunks are
     // stored padded), the clipped chunk size for plain n5, and the actual element
     // count for varlen n5 chunks -- sizing the buffer by getChunkSize alone would
-    // overflow on zarr edge chunks.
+    // overflow on zarr edge chunks. The padding of zarr edge chunks is dropped, it
+    // is not part of the dataset.
     template<class T>
-    inline std::size_t prepareChunkReadBuffer(const Dataset & ds,
-                                              const types::ShapeType & chunk,
-                                              std::vector<T> & data) {
+    inline std::size_t readChunkValues(const Dataset & ds,
+                                       const types::ShapeType & chunk,
+                                       std::vector<T> & data) {
         std::size_t dataSize;
         const bool isVarlen = ds.checkVarlenChunk(chunk, dataSize);
         if(!isVarlen && ds.isZarr()) {
             dataSize = ds.defaultChunkSize();
         }
         data.resize(std::max(ds.defaultChunkSize(), dataSize));
+        ds.readChunk(chunk, &data[0]);
+        const std::size_t chunkSize = ds.getChunkSize(chunk);
+        if(ds.isZarr() && chunkSize != dataSize) {
+            types::ShapeType chunkShape;
+            ds.getChunkShape(chunk, chunkShape);
+            std::vector<T> values(chunkSize);
+            copy_leading_block(data.data(), ds.defaultChunkShape(), values.data(), chunkShape);
+            data.swap(values);
+            dataSize = chunkSize;
+        }
         return dataSize;
     }
 
@@ -48,8 +59,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkValues(ds, chunk, data);
             // check vector for number of uniques and if we only have a single unique, remove it
             const auto uniques = std::set<T>(data.begin(), data.begin() + dataSize);
             const bool remove = (uniques.size() == 1) ? (removeSpecificValue ? (*uniques.begin() == value ? true : false) : true) : false;
@@ -104,8 +114,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkValues(ds, chunk, data);
             auto & threadSet = (tid == 0) ? uniques : threadData[tid - 1];
             threadSet.insert(data.begin(), data.begin() + dataSize);
         });
@@ -136,8 +145,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkValues(ds, chunk, data);
             data.resize(dataSize);
             auto & threadMap = (tid == 0) ? uniques : threadData[tid - 1];
             for(const T val : data) {
-- 
2.43.0


From 87c9b062bf911857823dba1ccca688c124e1e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 17/51] fix: refuse chunk indices with the wrong number of
 dimensions

---
 include/z5/handle.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..e93a395 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,9 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            if(chunkIndices_.size() != defaultShape_.size()) {
+                throw std::runtime_error("z5: chunk index has wrong dimension");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
-- 
2.43.0


From 56ec68e70599ce5a7930839abd963ca83007c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 18/51] fix: do not wrap around when checking requests and when
 clipping far away blocks

---
 include/z5/dataset.hxx       | 3 ++-
 include/z5/util/blocking.hxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..01259d6 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,8 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                // compared without forming offset + shape, which can wrap around
+                if(offset[d] > shape_[d] || shape[d] > shape_[d] - offset[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..5c9c5ab 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -155,7 +155,8 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
+            // signed and wide enough for differences of coordinates
+            std::ptrdiff_t offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
-- 
2.43.0


From 13021d995503180dbdd3419b4d796e5b5b8ba20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 19/51] fix: check chunk indices in readChunk and removeChunk
 of sharded datasets

---
 include/z5/generic/sharded_dataset.hxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..50afaac 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -66,8 +66,14 @@ namespace generic {
         }
 
         inline bool readChunk(const types::ShapeType & chunkIndices, void * dataOut) const {
+            // same contract as for plain datasets: invalid and missing chunks are errors
+            ChunkHandleType innerChunk(handle_, chunkIndices, defaultChunkShape(), shape());
+            checkChunk(innerChunk);
             std::vector<char> buffer;
             readRawChunk(chunkIndices, buffer);
+            if(buffer.empty()) {
+                throw std::runtime_error("Trying to read a chunk that does not exist");
+            }
             util::decompress<T>(buffer, dataOut, defaultChunkSize(), Mixin::compressor_);
             return false;  // no varlen in zarr v3
         }
@@ -255,6 +261,12 @@ namespace generic {
             STORE::chunkPath(shardChunk, path);
         }
         inline void removeChunk(const types::ShapeType & chunkId) const {
+            // rebuilding a shard is a write: check the mode before anything is read
+            if(!handle_.mode().canWrite()) {
+                throw std::invalid_argument("Cannot write data in file mode " + handle_.mode().printMode());
+            }
+            ChunkHandleType innerChunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(innerChunk);
             writeInnerBlob(chunkId, std::vector<char>(), false);
         }
         inline void remove() const {handle_.remove();}
-- 
2.43.0


From 58f87249881414a3196b922dd5c1b0dc2b305c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 20/51] fix: refuse zarr v3 byte orders, codec chains and shard
 layouts that would be misread

---
 include/z5/metadata.hxx    | 17 +++++++++++++++++
 include/z5/types/types.hxx | 10 ++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 4e41ddf..31903f1 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -363,6 +363,7 @@ namespace z5 {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
                     const auto & scfg = c.at("configuration");
+                    checkSharding(codecs, scfg);
                     const auto & innerShapeJson = scfg.at("chunk_shape");
                     chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
                     shardShape = outerShape;
@@ -418,6 +419,22 @@ namespace z5 {
         }
 
 
+        // make sure that the shards are stored in the only layout we read and write:
+        // little endian index with crc32c checksum at the end of the shard
+        void checkSharding(const nlohmann::json & codecs, const nlohmann::json & cfg) {
+            bool supported = codecs.size() == 1 && cfg.value("index_location", std::string("end")) == "end";
+            if(cfg.contains("index_codecs")) {
+                const auto & index = cfg.at("index_codecs");
+                supported = supported && index.size() == 2 &&
+                    index[0].at("name") == "bytes" && index[1].at("name") == "crc32c" &&
+                    (!index[0].contains("configuration") ||
+                     index[0].at("configuration").value("endian", std::string("little")) == "little");
+            }
+            if(!supported) {
+                throw std::runtime_error("z5: unsupported zarr v3 sharding configuration");
+            }
+        }
+
         // make sure that fixed metadata values agree
         void checkJson(const nlohmann::json & j) {
 
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..61a2fa0 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -506,17 +506,23 @@ namespace types {
         }
     }
 
-    // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
+    // parse a zarr v3 codec list into a Compressor + CompressionOptions
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
+            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "bytes") {
+                if(cfg.value("endian", std::string("little")) != "little") {
+                    throw std::runtime_error("z5: unsupported zarr v3 byte order, only little endian is supported");
+                }
                 continue;
             }
-            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
+            if(compressor != raw) {
+                throw std::runtime_error("z5: unsupported zarr v3 codecs: more than one compressor");
+            }
             if(name == "gzip") {
                 #ifdef WITH_ZLIB
                 compressor = zlib;
-- 
2.43.0


From f105765bccf09a367303f7c8e66421780df04ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 21/51] fix: throw on metadata with missing fields instead of
 undefined behaviour

---
 include/z5/metadata.hxx    | 20 ++++++++++----------
 include/z5/types/types.hxx | 38 +++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 31903f1..a0c00a5 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -144,14 +144,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype"));
             } catch(std::out_of_range) {
-                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
+                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j.at("dtype")));
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            chunkShape = types::ShapeType(j.at("chunks").begin(), j.at("chunks").end());
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -175,9 +175,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id");
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -190,13 +190,13 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            shape = types::ShapeType(j.at("dimensions").rbegin(), j.at("dimensions").rend());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            chunkShape = types::ShapeType(j.at("blockSize").rbegin(), j.at("blockSize").rend());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 61a2fa0..2ce461d 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -238,26 +238,26 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
-                       options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
+            case zlib: options["level"] = jOpts.at("level").get<int>();
+                       options["useZlib"] = jOpts.at("id").get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("acceleration").get<int>(); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -312,31 +312,31 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.at("level").get<int>();
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.at("preset").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         // load nthreads with default value 1
-                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts["nthreads"].get<int>();
+                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts.at("nthreads").get<int>();
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From 76dd9ef09f5fbde7e88e655eb9cba5022931f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 22/51] fix: convert fill values to integer types without
 undefined behaviour

---
 include/z5/dataset.hxx  |  2 +-
 include/z5/metadata.hxx | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 01259d6..809b3bd 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -174,7 +174,7 @@ namespace z5 {
     template<class T>
     class MixinTyped {
     public:
-        MixinTyped(const DatasetMetadata & metadata) : fillValue_(static_cast<T>(metadata.fillValue)) {
+        MixinTyped(const DatasetMetadata & metadata) : fillValue_(castFillValue<T>(metadata.fillValue)) {
             init_compressor(metadata);
         }
         ~MixinTyped(){}
diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index a0c00a5..72be33e 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -31,6 +31,27 @@ namespace z5 {
     };
 
 
+    // convert the fill value, which is held as double, to the type of the dataset
+    template<class T>
+    inline T castFillValue(const double fillValue) {
+        if constexpr(std::is_integral<T>::value) {
+            // no fill value (null in zarr v2)
+            if(std::isnan(fillValue)) {
+                return 0;
+            }
+            const double end = std::ldexp(1., std::numeric_limits<T>::digits);
+            // the maximum of the 64 bit types is rounded up to the end of the range as double
+            if(fillValue == end && std::numeric_limits<T>::digits > std::numeric_limits<double>::digits) {
+                return std::numeric_limits<T>::max();
+            }
+            if(fillValue < static_cast<double>(std::numeric_limits<T>::lowest()) || fillValue >= end) {
+                throw std::runtime_error("z5: fill value is out of range for the data type");
+            }
+        }
+        return static_cast<T>(fillValue);
+    }
+
+
     struct DatasetMetadata : public Metadata {
 
         //template<typename T>
@@ -273,9 +294,9 @@ namespace z5 {
                 // zarr v3 expects an integer fill_value for integer data types
                 switch(dtype) {
                     case types::int8: case types::int16: case types::int32: case types::int64:
-                        j["fill_value"] = static_cast<int64_t>(fillValue); break;
+                        j["fill_value"] = castFillValue<int64_t>(fillValue); break;
                     case types::uint8: case types::uint16: case types::uint32: case types::uint64:
-                        j["fill_value"] = static_cast<uint64_t>(fillValue); break;
+                        j["fill_value"] = castFillValue<uint64_t>(fillValue); break;
                     default:
                         j["fill_value"] = fillValue;
                 }
-- 
2.43.0


From bd2edbf8ee09dafbd43ee4312aa300a311c86306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 23/51] fix: refuse inner chunk indices with the wrong number
 of dimensions in sharded datasets

---
 include/z5/util/sharding.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index d4fc63d..d898fe8 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -55,6 +55,9 @@ namespace util {
     // outer shard id of an inner chunk id
     inline types::ShapeType shardId(const types::ShapeType & innerId,
                                     const types::ShapeType & cps) {
+        if(innerId.size() != cps.size()) {
+            throw std::runtime_error("z5: chunk index has wrong dimension");
+        }
         types::ShapeType sid(innerId.size());
         for(std::size_t d = 0; d < innerId.size(); ++d) {
             sid[d] = innerId[d] / cps[d];
-- 
2.43.0


From 7b6144e8321faf62f032df8a2b1bd619d6999a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 24/51] fix: do not remove chunks that mix NaN with other
 values as trivial chunks

---
 include/z5/util/functions.hxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 87d1c30..db07a10 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+
 #include "z5/common.hxx"
 #include "z5/util/for_each.hxx"
 
@@ -60,9 +62,14 @@ namespace util {
             }
             std::vector<T> data;
             const std::size_t dataSize = readChunkValues(ds, chunk, data);
-            // check vector for number of uniques and if we only have a single unique, remove it
-            const auto uniques = std::set<T>(data.begin(), data.begin() + dataSize);
-            const bool remove = (uniques.size() == 1) ? (removeSpecificValue ? (*uniques.begin() == value ? true : false) : true) : false;
+            // check if all values are the same and if so, remove the chunk. (a set is no use here:
+            // NaN is equivalent to every other value for the order of the set)
+            const T first = data[0];
+            const auto isFirst = [first](const T val) {
+                return val == first || (val != val && first != first);
+            };
+            const bool isTrivial = dataSize > 0 && std::all_of(data.begin(), data.begin() + dataSize, isFirst);
+            const bool remove = isTrivial && (!removeSpecificValue || first == value);
             if(remove) {
                 ds.removeChunk(chunk);
             }
-- 
2.43.0


From 29d88c08768527ac09b39751434fa073fbb686b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:27 +0000
Subject: [PATCH 25/51] fix: let require_dataset accept the chunks a dataset
 was created with when they exceed its shape

---
 src/python/module/z5py/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index b1361e4..48365f1 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -217,7 +217,8 @@ class Dataset:
                 raise TypeError("Shapes do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.shape)),
                                                                                      ', '.join(map(str, shape))))
             if chunks is not None:
-                if chunks != ds.chunks:
+                # chunks are limited to the shape on creation
+                if tuple(min(ch, sh) for ch, sh in zip(chunks, shape)) != ds.chunks or len(chunks) != len(shape):
                     raise TypeError("Chunks do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.chunks)),
                                                                                          ', '.join(map(str, chunks))))
             if dtype is not None:
-- 
2.43.0


From 2bf27db60b8cc3e7d68253b0991d03932525161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:17 +0000
Subject: [PATCH 26/51] fix: report empty compression options for raw datasets
 instead of failing

---
 src/python/module/z5py/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 48365f1..498e5c5 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -432,8 +432,8 @@ class Dataset:
         """ Compression library options of this dataset.
         """
         copts = self._impl.compression_options
-        # decode to json
-        copts = json.loads(copts)
+        # decode to json (codecs without options are encoded as null)
+        copts = json.loads(copts) or {}
         # 'useZlib' is an internal option: it is derived from the compression
         # name ('zlib' vs 'gzip'), so it must not show up in the user-facing
         # options (which can be passed back to create_dataset)
-- 
2.43.0


From c81808522a45d12e49c806d6fdab7e6dba490f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 27/51] fix: reset the padding of zarr border chunks in region
 writes

---
 include/z5/multiarray/array_access.hxx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 6f90081..cd30b94 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -214,8 +214,9 @@ namespace multiarray {
                                                 std::size_t(1), std::multiplies<std::size_t>());
 
         // edge chunk written by zarr is padded to the full chunk shape
-        if(chunkSize != maxChunkSize && isZarr) {
-            completeOvlp = false;
+        const types::ShapeType boundedShape = chunkShape;
+        const bool isPadded = chunkSize != maxChunkSize && isZarr;
+        if(isPadded) {
             chunkShape = ds.defaultChunkShape();
             chunkSize = maxChunkSize;
         }
@@ -223,14 +224,23 @@ namespace multiarray {
             buffer.resize(chunkSize);
         }
 
-        if(completeOvlp) {
+        if(completeOvlp && !isPadded) {
             fillRequest(makeView(buffer.data(), chunkShape), offsetInRequest, requestShape);
         } else {
+            const auto bufferView = makeView(buffer.data(), chunkShape);
             // preserve the part of the chunk that is not covered by the request
-            if(!readExisting(buffer)) {
+            if(completeOvlp || !readExisting(buffer)) {
+                std::fill(buffer.begin(), buffer.end(), fillValue);
+            } else if(isPadded) {
+                // but not the padding: it must not keep a chunk without data alive
+                const types::ShapeType zero(boundedShape.size(), 0);
+                const auto boundedView = subview(bufferView, zero, boundedShape);
+                std::vector<T> data(std::accumulate(boundedShape.begin(), boundedShape.end(),
+                                                    std::size_t(1), std::multiplies<std::size_t>()));
+                copyView(boundedView, makeView(data.data(), boundedShape));
                 std::fill(buffer.begin(), buffer.end(), fillValue);
+                copyView(makeView(data.data(), boundedShape), boundedView);
             }
-            const auto bufferView = makeView(buffer.data(), chunkShape);
             fillRequest(subview(bufferView, offsetInChunk, requestShape),
                         offsetInRequest, requestShape);
         }
-- 
2.43.0


From 1c17824242561226bdb572a278a6e8906d5550bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 28/51] fix: do not report chunk directories as sub groups

---
 src/python/module/z5py/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cfa1301..70b39ca 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -168,7 +168,8 @@ class Group(Mapping):
         Returns:
             bool: True if ``name`` refers to a sub-group.
         """
-        return self._handle.is_sub_group(_relative_name(name))
+        name = _relative_name(name)
+        return name in self and self._handle.is_sub_group(name)
 
     def create_group(self, name):
         """ Create a new group.
-- 
2.43.0


From d0995cae29a01c0f9f2a40cf8839f05e526893a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:08 +0000
Subject: [PATCH 29/51] fix: refuse empty chunks of sharded datasets instead of
 dividing by zero

---
 include/z5/metadata.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 72be33e..4cd3373 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -545,7 +545,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
-- 
2.43.0


From 0767ddb2cd609f71c9e2f4c7fb7137e3a42f361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:13 +0000
Subject: [PATCH 30/51] fix: honour the useZlib option of n5 gzip datasets

---
 include/z5/metadata.hxx    | 4 ++--
 include/z5/types/types.hxx | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 4cd3373..785f452 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -524,8 +524,8 @@ namespace z5 {
         // we need to make a copy of the compression options, because they are const
         auto internalCompressionOptions = compressionOptions;
         // "gzip" and "zlib" are the same compressor with different stream formats;
-        // zarr v3 only has a gzip codec
-        if(compressor == "gzip" || (compressor == "zlib" && createAsZarr && zarrFormat == 3)) {
+        // zarr v3 only has a gzip codec and n5 gzip an option for zlib streams
+        if((compressor == "gzip" && createAsZarr) || (compressor == "zlib" && createAsZarr && zarrFormat == 3)) {
             internalCompressionOptions["useZlib"] = false;
         }
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 2ce461d..a9c981e 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -313,7 +313,8 @@ namespace types {
         switch(compressor) {
             #ifdef WITH_ZLIB
             case zlib: options["level"] = jOpts.at("level").get<int>();
-                       options["useZlib"] = false;
+                       // load useZlib with default value false
+                       options["useZlib"] = (jOpts.find("useZlib") == jOpts.end()) ? false : jOpts.at("useZlib").get<bool>();
                        break;
             #endif
             #ifdef WITH_BZIP2
@@ -356,6 +357,9 @@ namespace types {
         switch(compressor) {
             #ifdef WITH_ZLIB
             case zlib: jOpts["level"] = std::get<int>(options.at("level"));
+                       if(options.find("useZlib") != options.end() && std::get<bool>(options.at("useZlib"))) {
+                           jOpts["useZlib"] = true;
+                       }
                        break;
             #endif
             #ifdef WITH_BZIP2
-- 
2.43.0


From 9d5fba6d21475cb2fbb972c43084c53a550b36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 31/51] fix: accept small numpy integers as slice bounds

---
 src/python/module/z5py/shape_utils.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 2aa1245..17ef654 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -15,21 +15,21 @@ def slice_to_start_stop(s, size):
     if s.step not in (None, 1):
         raise ValueError('Nontrivial steps are not supported')
 
-    if s.start is None:
+    # plain integers: arithmetic with small numpy integers would overflow
+    start = None if s.start is None else operator.index(s.start)
+    stop = None if s.stop is None else operator.index(s.stop)
+
+    if start is None:
         start = 0
-    elif -size <= s.start < 0:
-        start = size + s.start
-    elif s.start < -size or s.start >= size:
+    elif -size <= start < 0:
+        start = size + start
+    elif start < -size or start >= size:
         return slice(None, 0)
-    else:
-        start = s.start
 
-    if s.stop is None or s.stop > size:
+    if stop is None or stop > size:
         stop = size
-    elif s.stop < 0:
-        stop = (size + s.stop)
-    else:
-        stop = s.stop
+    elif stop < 0:
+        stop = (size + stop)
 
     # empty selections (including stop <= start, e.g. ds[5:3]) yield an empty
     # result like numpy / h5py, instead of a negative shape downstream
-- 
2.43.0


From 7e6fa69ee5a6222173cb7e53c852ea929cafeba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 32/51] fix: assign arrays with a single element to single
 elements

---
 src/python/module/z5py/shape_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 17ef654..1a3a8bc 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -78,6 +78,10 @@ def rectify_shape(arr, required_shape):
 
     important_shape = tuple(important_shape)
 
+    # only singleton dimensions on both sides
+    if important_shape == (1,) and all(sh == 1 for sh in required_shape):
+        return arr.reshape(required_shape)
+
     msg = ('could not broadcast input array from shape {} into shape {}; '
            'complicated broadcasting not supported').format(arr.shape, required_shape)
 
-- 
2.43.0


From 8277859ca5ec1151b45f8dbe13f2e55381f842b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 33/51] fix: refuse arrays that only have the same number of
 elements as the region they are assigned to

---
 src/python/module/z5py/shape_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 1a3a8bc..e6a734a 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -103,7 +103,9 @@ def rectify_shape(arr, required_shape):
             if window[-1] != 1:
                 break
     else:
-        return arr.reshape(required_shape)
+        # is_leading: the important shape was not found at all
+        if not is_leading:
+            return arr.reshape(required_shape)
 
     raise ValueError(msg)
 
-- 
2.43.0


From b7ef6e19a11370500ffa50c37a6ed4950b9374ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 34/51] fix: accept forward iterators in parallel_foreach

---
 include/z5/util/threadpool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 4aedd4f..80a4b82 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -383,7 +383,7 @@ inline void parallel_foreach_impl(
 template<class ITER, class F>
 inline void parallel_foreach_impl(
     ThreadPool & pool,
-    const std::ptrdiff_t nItems,
+    std::ptrdiff_t nItems,
     ITER iter,
     ITER end,
     F && f,
-- 
2.43.0


From b9b82c8dd74f817c83f6ec0b59b10b0d9a7437b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 35/51] fix: wake all threads that wait for the thread pool to
 finish

---
 include/z5/util/threadpool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 80a4b82..63cff91 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -245,7 +245,7 @@ inline void ThreadPool::init(const ParallelOptions & options)
                         ++processed;
                         --busy;
                         lock.unlock();
-                        finish_condition.notify_one();
+                        finish_condition.notify_all();
                     }
                 }
             }
-- 
2.43.0


From 17738fa3a40a656b462f5d36dad439e810d1c093 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 36/51] fix: treat files that other threads remove while they
 are looked up as absent

---
 include/z5/filesystem/store.hxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 0b6567e..99a8578 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cerrno>
 #include <fstream>
 #include <ios>
 
@@ -14,11 +15,17 @@ namespace filesystem {
 
 namespace store_detail {
 
-    // 'what' names the object kind ("chunk" / "shard") in error messages
-    inline void readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
+    // 'what' names the object kind ("chunk" / "shard") in error messages;
+    // returns false if the file does not exist
+    inline bool readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
         // open input stream and read the filesize
         std::ifstream file(path, std::ios::binary);
         if(!file.is_open()) {
+            // another thread may have removed the file (e.g. with the last other
+            // chunk of the same shard) after it was seen
+            if(errno == ENOENT) {
+                return false;
+            }
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for reading: " + path.string());
         }
 
@@ -35,6 +42,7 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: failed to read ") + what + " file: " + path.string());
         }
         file.close();
+        return true;
     }
 
 }  // namespace store_detail
@@ -57,8 +65,7 @@ namespace store_detail {
             if(!fs::exists(chunk.path())) {
                 return false;
             }
-            store_detail::readFile(chunk.path(), buffer, what);
-            return true;
+            return store_detail::readFile(chunk.path(), buffer, what);
         }
 
         static inline void write(const ChunkHandleType & chunk, const std::vector<char> & buffer,
-- 
2.43.0


From fdb8268e88499b38b7c642e64bd44279b5a86bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:47 +0000
Subject: [PATCH 37/51] fix: refuse shards with chunks of zero bytes instead of
 reading them as empty

---
 include/z5/util/sharding.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index d898fe8..07dba97 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -103,7 +103,7 @@ namespace util {
 
     // parse the index located at the end of the shard buffer; returns false if
     // the shard is too small, the index checksum does not match, or an entry
-    // points outside of the data region (i.e. the shard is corrupt)
+    // points outside of the data region or has no bytes (i.e. the shard is corrupt)
     inline bool parseShardIndex(const std::vector<char> & shard, std::size_t nSlots,
                                 std::vector<ShardEntry> & entries) {
         const std::size_t footer = 16 * nSlots + 4;  // index + crc32c
@@ -122,9 +122,11 @@ namespace util {
             entries[s].offset = readLE64(p);
             entries[s].nbytes = readLE64(p + 8);
             // bound non-empty entries by the data region so corrupt offsets can
-            // never cause out-of-bounds reads downstream
+            // never cause out-of-bounds reads downstream; no chunk is encoded in zero
+            // bytes, and such an entry must not be taken for an empty slot
             if(!entries[s].empty() &&
-               (entries[s].offset > indexStart ||
+               (entries[s].nbytes == 0 ||
+                entries[s].offset > indexStart ||
                 entries[s].nbytes > indexStart - entries[s].offset)) {
                 return false;
             }
-- 
2.43.0


From 346b35f4bfc49acd486f8383f0467566aba1566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 38/51] fix: refuse zarr v3 chunk grids, key encodings and
 storage transformers that are not supported

---
 include/z5/metadata.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 785f452..d695b8b 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -344,6 +344,8 @@ namespace z5 {
             }
             shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
 
+            checkV3Layout(j);
+
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
             types::ShapeType outerShape(gridShape.begin(), gridShape.end());
@@ -440,6 +442,22 @@ namespace z5 {
         }
 
 
+        // make sure that chunks are found where we look for them
+        void checkV3Layout(const nlohmann::json & j) {
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5: unsupported zarr v3 chunk grid, only regular grids are supported");
+            }
+            const auto & keyEncoding = j.at("chunk_key_encoding").at("name");
+            if(keyEncoding != "default" && keyEncoding != "v2") {
+                throw std::runtime_error("z5: unsupported zarr v3 chunk key encoding");
+            }
+            const auto it = j.find("storage_transformers");
+            if(it != j.end() && !it->empty()) {
+                throw std::runtime_error("z5: zarr v3 storage transformers are not supported");
+            }
+        }
+
+
         // make sure that the shards are stored in the only layout we read and write:
         // little endian index with crc32c checksum at the end of the shard
         void checkSharding(const nlohmann::json & codecs, const nlohmann::json & cfg) {
-- 
2.43.0


From feee56970533d11e5eafc929df790dda99cbfaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 39/51] fix: refuse shards that are not made of whole chunks

---
 include/z5/metadata.hxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index d695b8b..76b895d 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -439,6 +439,17 @@ namespace z5 {
                     throw std::runtime_error("Chunk shape must be positive along all dimensions");
                 }
             }
+            if(shardShape.empty()) {
+                return;
+            }
+            if(shardShape.size() != chunkShape.size()) {
+                throw std::runtime_error("Dimension of shards and chunks does not agree");
+            }
+            for(std::size_t d = 0; d < shardShape.size(); ++d) {
+                if(shardShape[d] == 0 || shardShape[d] % chunkShape[d] != 0) {
+                    throw std::runtime_error("Shard shape must be a multiple of the chunk shape");
+                }
+            }
         }
 
 
-- 
2.43.0


From fc5c5a482ed364f1e999c1a5ea7dcd3138799467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 40/51] fix: use the n5 defaults for compression parameters
 that are not given

---
 include/z5/types/types.hxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index a9c981e..59eaee1 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -309,22 +309,23 @@ namespace types {
     inline void readN5CompressionOptionsFromJson(Compressor compressor,
                                                  const nlohmann::json & jOpts,
                                                  CompressionOptions & options) {
+        // parameters that are not given have the default values of n5
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts.at("level").get<int>();
+            case zlib: options["level"] = jOpts.value("level", -1);
                        // load useZlib with default value false
                        options["useZlib"] = (jOpts.find("useZlib") == jOpts.end()) ? false : jOpts.at("useZlib").get<bool>();
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts.at("blockSize").get<int>(); break;
+            case bzip2: options["level"] = jOpts.value("blockSize", 9); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts.at("preset").get<int>(); break;
+            case xz: options["level"] = jOpts.value("preset", 6); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts.at("blockSize").get<int>(); break;
+            case lz4: options["level"] = jOpts.value("blockSize", 65536); break;
             #endif
             #ifdef WITH_BLOSC
             case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
-- 
2.43.0


From b501a673eb3714b733689da4f6761675eb29bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 41/51] fix: refuse integer fill values that would be rounded

---
 include/z5/metadata.hxx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 76b895d..65a24f0 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -186,7 +186,7 @@ namespace z5 {
             } else if(fillValJson.type() == nlohmann::json::value_t::null) {
                 fillValue = std::numeric_limits<double>::quiet_NaN();
             } else {
-                fillValue = static_cast<double>(fillValJson);
+                fillValue = numberToFillValue(fillValJson);
             }
 
             auto jIt = j.find("dimension_separator");
@@ -374,7 +374,7 @@ namespace z5 {
             } else if(fillValJson.type() == nlohmann::json::value_t::null) {
                 fillValue = 0;
             } else {
-                fillValue = static_cast<double>(fillValJson);
+                fillValue = numberToFillValue(fillValJson);
             }
 
             // codecs: detect sharding, recover inner chunk shape + inner compressor
@@ -469,6 +469,18 @@ namespace z5 {
         }
 
 
+        // fill values are held as double, which cannot represent all large integers
+        double numberToFillValue(const nlohmann::json & j) const {
+            const double value = j.get<double>();
+            if(j.is_number_integer() &&
+               ((dtype == types::int64 && castFillValue<int64_t>(value) != j.get<int64_t>()) ||
+                (dtype == types::uint64 && castFillValue<uint64_t>(value) != j.get<uint64_t>()))) {
+                throw std::runtime_error("z5: fill value cannot be represented");
+            }
+            return value;
+        }
+
+
         // make sure that the shards are stored in the only layout we read and write:
         // little endian index with crc32c checksum at the end of the shard
         void checkSharding(const nlohmann::json & codecs, const nlohmann::json & cfg) {
-- 
2.43.0


From 452d5bc4c20b2f99ad2b2fafec0d64ccc1c5ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 42/51] fix: refuse negative extents in dataset metadata

---
 include/z5/metadata.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 65a24f0..43b8b1e 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <string>
@@ -434,6 +435,13 @@ namespace z5 {
             if(shape.empty()) {
                 throw std::runtime_error("Shape and chunks need at least one dimension");
             }
+            // negative numbers in the metadata
+            const auto isNegative = [](const std::size_t s){return static_cast<int64_t>(s) < 0;};
+            if(std::any_of(shape.begin(), shape.end(), isNegative) ||
+               std::any_of(chunkShape.begin(), chunkShape.end(), isNegative) ||
+               std::any_of(shardShape.begin(), shardShape.end(), isNegative)) {
+                throw std::runtime_error("Shape and chunks must not be negative");
+            }
             for(const auto c : chunkShape) {
                 if(c == 0) {
                     throw std::runtime_error("Chunk shape must be positive along all dimensions");
-- 
2.43.0


From 83bfb03458d1f1e316942c93a3d9ac420e793101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:26 +0000
Subject: [PATCH 43/51] fix: do not store chunks that only hold NaN where NaN
 is the fill value

---
 include/z5/util/format_data.hxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index d804ccd..79fafa2 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cmath>
+#include <type_traits>
+
 #include "z5/handle.hxx"
 
 namespace z5 {
@@ -91,6 +94,18 @@ namespace util {
     }
 
 
+    // NaN as fill value does not compare equal to itself
+    template<class T>
+    inline bool isFillValue(const T val, const T fillValue) {
+        if constexpr(std::is_floating_point<T>::value) {
+            if(std::isnan(fillValue)) {
+                return std::isnan(val);
+            }
+        }
+        return val == fillValue;
+    }
+
+
     template<class CHUNK, class T, class COMPRESSOR>
     inline bool data_to_buffer(const z5::handle::Chunk<CHUNK> & chunk,
                                const void * dataIn,
@@ -115,7 +130,7 @@ namespace util {
             // we need the temporary reference to capture in the lambda
             const bool isEmpty = std::all_of(static_cast<const T*>(dataIn),
                                              static_cast<const T*>(dataIn) + chunkSize,
-                                             [fillValue](const T val){return val == fillValue;});
+                                             [fillValue](const T val){return isFillValue(val, fillValue);});
             // return false if the chunk is empty
             if(isEmpty) {
                 return false;
-- 
2.43.0


From 16df167c42da41ad425000ab7e7615e9845f955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:17 +0000
Subject: [PATCH 44/51] fix: keep zarr containers usable after an interrupted
 creation

Directories without metadata, which an interrupted creation leaves behind, are
no nodes of a zarr container: they made listing and visiting the whole container
fail and blocked their name. A failing group creation leaves nothing behind.
---
 include/z5/filesystem/factory.hxx |  9 +++++++-
 include/z5/filesystem/handle.hxx  | 38 +++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index 3caaf6d..bae1743 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -92,7 +92,14 @@ namespace factory_detail {
     inline void createGroup(const handle::Group & group, const bool isZarr, const int zarrFormat=2) {
         group.create();
         Metadata fmeta(isZarr, zarrFormat);
-        writeMetadata(group, fmeta);
+        try {
+            writeMetadata(group, fmeta);
+        } catch(...) {
+            // leave nothing behind, so that the name stays free
+            std::error_code ec;
+            fs::remove(group.path(), ec);
+            throw;
+        }
     }
 
 
diff --git a/include/z5/filesystem/handle.hxx b/include/z5/filesystem/handle.hxx
index 94937a2..75750f9 100644
--- a/include/z5/filesystem/handle.hxx
+++ b/include/z5/filesystem/handle.hxx
@@ -48,17 +48,36 @@ namespace handle {
         }
 
         inline void listSubDirs(std::vector<std::string> & out) const {
+            const bool isZarr = isZarrGroup();
             for(const auto & p : fs::directory_iterator(path_)) {
                 const auto & elem = p.path();
-                if(fs::is_directory(elem)) {
+                if(isNode(elem, isZarr)) {
                     out.emplace_back(elem.filename().string());
                 }
             }
         }
 
         inline bool elementExists(const std::string & name) const {
-            fs::path p = path_ / name;
-            return fs::exists(p) && fs::is_directory(p);
+            return pathExists() && isNode(path_ / name, isZarrGroup());
+        }
+
+        // what an interrupted creation (or deletion) left behind in a zarr group
+        inline bool isLeftover() const {
+            return fs::is_directory(path_) && !hasZarrMetadata(path_) && hasZarrMetadata(path_.parent_path());
+        }
+
+        // a leftover that holds no data, at most metadata that was not completely written
+        inline bool isEmptyLeftover() const {
+            if(!isLeftover()) {
+                return false;
+            }
+            for(const auto & p : fs::directory_iterator(path_)) {
+                const std::string name = p.path().filename().string();
+                if(name.rfind(".zarray.tmp", 0) != 0 && name.rfind("zarr.json.tmp", 0) != 0 && name.rfind(".zgroup.tmp", 0) != 0) {
+                    return false;
+                }
+            }
+            return true;
         }
 
         inline void removeDir() const {
@@ -70,6 +89,15 @@ namespace handle {
         }
 
     private:
+        static inline bool hasZarrMetadata(const fs::path & path) {
+            return fs::exists(path / ".zgroup") || fs::exists(path / ".zarray") || fs::exists(path / "zarr.json");
+        }
+
+        // every directory is a node of a n5 container, zarr nodes have metadata
+        static inline bool isNode(const fs::path & path, const bool isZarr) {
+            return fs::is_directory(path) && (!isZarr || hasZarrMetadata(path));
+        }
+
         fs::path path_;
         // empty string for dummy return value
         std::string dummy_;
@@ -102,7 +130,7 @@ namespace handle {
                 const std::string err = "Cannot create new group in file mode " + mode().printMode();
                 throw std::invalid_argument(err.c_str());
             }
-            if(exists()) {
+            if(exists() && !isLeftover()) {
                 throw std::invalid_argument("Creating new group failed because it already exists.");
             }
             createDir();
@@ -234,7 +262,7 @@ namespace handle {
                 throw std::invalid_argument(err.c_str());
             }
             // make sure that the file does not exist already
-            if(exists()) {
+            if(exists() && !isEmptyLeftover()) {
                 throw std::invalid_argument("Creating new dataset failed because it already exists.");
             }
             createDir();
-- 
2.43.0


From 17749b5cfe0c590311cc726e2f8d892198e6d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:15 +0000
Subject: [PATCH 45/51] fix: refuse fill values that are not integers for
 integer data types

---
 include/z5/metadata.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 43b8b1e..3335cc0 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -48,6 +48,9 @@ namespace z5 {
             if(fillValue < static_cast<double>(std::numeric_limits<T>::lowest()) || fillValue >= end) {
                 throw std::runtime_error("z5: fill value is out of range for the data type");
             }
+            if(fillValue != std::trunc(fillValue)) {
+                throw std::runtime_error("z5: fill value is not an integer");
+            }
         }
         return static_cast<T>(fillValue);
     }
-- 
2.43.0


From 852e01c8818ddb0baa69e0ef633b013131611242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:17 +0000
Subject: [PATCH 46/51] fix: do not write beyond the selection in write_direct

---
 src/python/module/z5py/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 498e5c5..54f8f6a 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -611,8 +611,12 @@ class Dataset:
             dest_sel = tuple(slice(0, sh) for sh in self.shape)
         if source_sel is None:
             source_sel = tuple(slice(0, sh) for sh in source.shape)
-        start = [s.start for s in dest_sel]
-        self.write_subarray(start, source[source_sel])
+        start, shape, _ = self.index_to_roi(dest_sel)
+        data = source[source_sel]
+        # write_subarray only takes the offset and would write beyond the selection
+        if tuple(data.shape) != tuple(shape):
+            raise ValueError('could not write data of shape {} to selection of shape {}'.format(data.shape, shape))
+        self.write_subarray(start, data)
 
     # expose the impl write subarray functionality
     def write_subarray(self, start, data):
-- 
2.43.0


From 8fd1be2c96a5dc26e74b42a71280ce3a58e31d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 47/51] fix: refuse zarr versions, separators and chunk key
 encodings that cannot be read

createFile, createGroup and createDataset (and z5py.File) wrote documents that no
reader, z5 included, could open again, in mode w after removing the old container.
---
 include/z5/filesystem/factory.hxx |  6 ++++++
 include/z5/metadata.hxx           | 18 ++++++++++++++++++
 include/z5/s3/factory.hxx         |  6 ++++++
 src/python/module/z5py/file.py    |  6 ++++++
 4 files changed, 36 insertions(+)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index bae1743..29a5995 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -83,6 +83,9 @@ namespace factory_detail {
 
     template<class GROUP>
     inline void createFile(const z5::handle::File<GROUP> & file, const bool isZarr, const int zarrFormat=2) {
+        if(isZarr) {
+            checkZarrFormat(zarrFormat);
+        }
         file.create();
         Metadata fmeta(isZarr, zarrFormat);
         writeMetadata(file, fmeta);
@@ -90,6 +93,9 @@ namespace factory_detail {
 
 
     inline void createGroup(const handle::Group & group, const bool isZarr, const int zarrFormat=2) {
+        if(isZarr) {
+            checkZarrFormat(zarrFormat);
+        }
         group.create();
         Metadata fmeta(isZarr, zarrFormat);
         try {
diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 3335cc0..6856f79 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -32,6 +32,13 @@ namespace z5 {
     };
 
 
+    inline void checkZarrFormat(const int zarrFormat) {
+        if(zarrFormat != 2 && zarrFormat != 3) {
+            throw std::runtime_error("z5: only zarr format 2 and 3 are supported");
+        }
+    }
+
+
     // convert the fill value, which is held as double, to the type of the dataset
     template<class T>
     inline T castFillValue(const double fillValue) {
@@ -582,6 +589,17 @@ namespace z5 {
         }
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
 
+        // the layouts that can be opened again
+        if(createAsZarr) {
+            checkZarrFormat(zarrFormat);
+            if(zarrDelimiter != "." && zarrDelimiter != "/") {
+                throw std::runtime_error("z5::createDatasetMetadata: the chunk key separator must be '.' or '/'");
+            }
+            if(zarrFormat == 3 && chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("z5::createDatasetMetadata: Invalid chunk key encoding for dataset");
+            }
+        }
+
         // n5 metadata cannot hold a fill value
         if(!createAsZarr && fillValue != 0) {
             throw std::runtime_error("z5::createDatasetMetadata: n5 does not support fill values other than 0");
diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index 8ad541b..e92d003 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -95,6 +95,9 @@ namespace factory_detail {
     template<class GROUP>
     inline void createFile(const z5::handle::File<GROUP> & file, const bool isZarr,
                            const int zarrFormat=2) {
+        if(isZarr) {
+            checkZarrFormat(zarrFormat);
+        }
         file.create();
         Metadata fmeta(isZarr, zarrFormat);
         writeMetadata(file, fmeta);
@@ -104,6 +107,9 @@ namespace factory_detail {
     template<class GROUP>
     inline void createGroup(const z5::handle::Group<GROUP> & group, const bool isZarr,
                             const int zarrFormat=2) {
+        if(isZarr) {
+            checkZarrFormat(zarrFormat);
+        }
         group.create();
         Metadata fmeta(isZarr, zarrFormat);
         writeMetadata(group, fmeta);
diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 9192344..1bd4575 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -112,6 +112,12 @@ class File(Group):
             if is_zarr:
                 raise RuntimeError("Zarr file cannot be opened in N5 format")
 
+        # refuse what cannot be created before anything is removed or created
+        if is_zarr and zarr_format not in (2, 3):
+            raise ValueError("Invalid zarr format %s, z5 only supports zarr format 2 and 3" % repr(zarr_format))
+        if is_zarr and dimension_separator not in ('.', '/'):
+            raise ValueError("Invalid dimension separator %s, must be '.' or '/'" % repr(dimension_separator))
+
         handle = _z5py.File(path, _z5py.FileMode(self.file_modes[mode]))
         mode = handle.mode()
 
-- 
2.43.0


From e9ad93e8aea4ffb856a0aca182ccbc7b799f96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 48/51] fix: n5 major version of more than one digit

Only the first digit of the version was compared: 10.0.0 passed as version 1.
---
 src/python/module/z5py/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 1bd4575..e0fd9bf 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -155,7 +155,7 @@ class File(Group):
         else:
             version = metadata.get('n5', None)
             if version is not None:
-                major_version = int(version[0])
+                major_version = int(version.split('.')[0])
                 if major_version > 4:
                     raise RuntimeError("Can't open n5 file with major version bigger than 4")
 
-- 
2.43.0


From 36c671b3683b4d207612c22f5fedf281d2180bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 49/51] fix: refuse region offsets with the wrong number of
 dimensions

The bindings took as many offsets as the array has axes, also beyond the end of the list.
---
 src/python/lib/dataset.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index e327a4b..e615ab7 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -48,11 +48,20 @@ namespace z5 {
     }
 
 
+    // the core library takes the roi as iterators and cannot check its length
+    inline void checkRoiDimensions(const std::vector<std::size_t> & roi, const std::size_t ndim) {
+        if(roi.size() != ndim) {
+            throw std::runtime_error("Region of interest has wrong number of dimensions");
+        }
+    }
+
+
     template<class T>
     inline void writePySubarray(const Dataset & ds,
                                 const nb::ndarray<nb::numpy, const T, nb::c_contig> in,
                                 const std::vector<std::size_t> & roiBegin,
                                 const int numberOfThreads) {
+        checkRoiDimensions(roiBegin, in.ndim());
         const auto view = constViewFromArray<T>(in);
         multiarray::writeSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
@@ -63,6 +72,7 @@ namespace z5 {
                                nb::ndarray<nb::numpy, T, nb::c_contig> out,
                                const std::vector<std::size_t> & roiBegin,
                                const int numberOfThreads) {
+        checkRoiDimensions(roiBegin, out.ndim());
         const auto view = viewFromArray<T>(out);
         multiarray::readSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
@@ -74,6 +84,8 @@ namespace z5 {
                               const std::vector<std::size_t> & roiShape,
                               const T val,
                               const int numberOfThreads) {
+        checkRoiDimensions(roiBegin, ds.dimension());
+        checkRoiDimensions(roiShape, ds.dimension());
         multiarray::writeScalar<T>(ds, roiBegin.begin(), roiShape.begin(), val, numberOfThreads);
     }
 
-- 
2.43.0


From 28ac0190a9714eaff5008431399ea3744a06103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 50/51] fix: s3 requests that fail are not absent objects

Existence queries and listings took every error for absence, and objects that could
not be deleted were not reported.
---
 include/z5/s3/handle.hxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 3576e42..1f00815 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -251,7 +251,11 @@ namespace detail {
         Aws::S3::Model::HeadObjectRequest request;
         request.SetBucket(Aws::String(bucket.c_str(), bucket.size()));
         request.SetKey(Aws::String(key.c_str(), key.size()));
-        return client.HeadObject(request).IsSuccess();
+        const auto outcome = client.HeadObject(request);
+        if(!outcome.IsSuccess() && !isNotFound(outcome.GetError())) {
+            throw makeS3Error("could not query object in S3", key, outcome.GetError());
+        }
+        return outcome.IsSuccess();
     }
 
     inline void deleteObject(Aws::S3::S3Client & client,
@@ -309,6 +313,13 @@ namespace detail {
             if(!outcome.IsSuccess()) {
                 throw makeS3Error("could not delete objects from S3", prefix, outcome.GetError());
             }
+            // the request succeeds also when single objects could not be deleted
+            const auto & errors = outcome.GetResult().GetErrors();
+            if(!errors.empty()) {
+                throw std::runtime_error("z5: could not delete object from S3: " +
+                                         std::string(errors[0].GetKey().c_str()) + " (" +
+                                         std::string(errors[0].GetMessage().c_str()) + ")");
+            }
         }
     }
 
@@ -379,7 +390,7 @@ namespace handle {
             do {
                 auto outcome = client->ListObjectsV2(request);
                 if(!outcome.IsSuccess()) {
-                    break;
+                    throw detail::makeS3Error("could not list objects in S3", bucketPrefix, outcome.GetError());
                 }
                 object_list = outcome.GetResult();
                 for(const auto & common_prefix : object_list.GetCommonPrefixes()) {
-- 
2.43.0


From 51d55a9d211bc6aeee01772cff997b34d0ed684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:43 +0000
Subject: [PATCH 51/51] fix: refuse unsupported datasets on s3 before anything
 is written

As the file system does; a refused fill value left a metadata document behind.
---
 include/z5/s3/factory.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index e92d003..7d16e08 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -86,9 +86,14 @@ namespace factory_detail {
         const handle::Dataset & dataset,
         const DatasetMetadata & metadata
     ) {
+        // serialize the metadata and instantiate the dataset first, so that a request
+        // that cannot be fulfilled is refused before anything is created
+        nlohmann::json j;
+        metadata.toJson(j);
+        auto ds = factory_detail::makeDatasetTyped(dataset, metadata);
         dataset.create();
         writeMetadata(dataset, metadata);
-        return factory_detail::makeDatasetTyped(dataset, metadata);
+        return ds;
     }
 
 
-- 
2.43.0

