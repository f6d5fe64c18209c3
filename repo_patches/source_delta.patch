From d7acdf18d68fa68cda8db672b62a2c61fd7b0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 01/37] fix: do not list a key in a zip key-value store if its
 put failed

---
 vistautils/key_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..621bfe6 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        # a key may only be listed once its value has really been written
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From cbc7485504e1eb764b077b1729ef599d510cc366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 02/37] fix: forget the keys of the previous session when a zip
 key-value sink is re-entered

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 621bfe6..c8e6185 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -495,6 +495,8 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        # this sink might have been used before
+        self._keys = set()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From f47949a9983c14a36a4a724f48265406b66073f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 03/37] fix: close the zip file of a key-value sink even if its
 keys cannot be written

---
 vistautils/key_value.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index c8e6185..39e14c9 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -506,9 +506,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
         # if we are in a context manager, self._zip_file is not None
-        if self._keys_out_function:
-            self._keys_out_function(self._zip_file, self._keys)  # type: ignore
-        self._zip_file.close()  # type: ignore
+        try:
+            if self._keys_out_function:
+                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
+        finally:
+            self._zip_file.close()  # type: ignore
 
 
 class _ZipCharFileKeyValueSink(_ZipKeyValueSink[str]):
-- 
2.43.0


From 327d8d970e46379e61d96d19875cb3cbfb45d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 04/37] fix: close the zip file of a key-value sink or source
 whose keys cannot be read on entry

---
 vistautils/key_value.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 39e14c9..7fc88f9 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -497,11 +497,17 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
         # this sink might have been used before
         self._keys = set()
-        if self._keys_in_function:
-            # update rather than assignment because return might not be mutable
-            existing_keys = self._keys_in_function(self._zip_file)
-            if existing_keys:
-                self._keys.update(existing_keys)
+        try:
+            if self._keys_in_function:
+                # update rather than assignment because return might not be mutable
+                existing_keys = self._keys_in_function(self._zip_file)
+                if existing_keys:
+                    self._keys.update(existing_keys)
+        except BaseException:
+            # __exit__ is not called if __enter__ fails
+            self._zip_file.close()
+            self._zip_file = None
+            raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
@@ -632,8 +638,14 @@ class _ZipFileKeyValueSource(Generic[V], KeyValueSource[str, V], metaclass=ABCMe
 
     def __enter__(self) -> "KeyValueSource[str, V]":
         self._zip_file = ZipFile(str(self.path), "r")
-        if self._keys_function:
-            self._keys = self._keys_function(self._zip_file)
+        try:
+            if self._keys_function:
+                self._keys = self._keys_function(self._zip_file)
+        except BaseException:
+            # __exit__ is not called if __enter__ fails
+            self._zip_file.close()
+            self._zip_file = None
+            raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
-- 
2.43.0


From 97edfb4c726c7572e27d8207c9f511916876f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 05/37] fix: do not abandon the entries of an existing zip file
 which cannot be read when appending to it

---
 vistautils/io_utils.py  | 24 +++++++++++++++++++++++-
 vistautils/key_value.py |  6 +++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..40be59e 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -40,6 +40,28 @@ def is_empty_directory(path: Path) -> bool:
     return path.is_dir() and next(path.iterdir().__iter__(), sentinel) == sentinel
 
 
+def open_zip_for_appending(path: Path) -> ZipFile:
+    """
+    Open the zip file at the given path for adding entries, creating it if it does not exist.
+
+    Unlike opening a `ZipFile` with mode "a", this raises an exception if there is a file at *path*
+    which cannot be read as a zip file.
+    `ZipFile` would begin a new archive after its content instead,
+    which makes any entries it had inaccessible.
+    """
+    if not path.exists() or path.stat().st_size == 0:
+        return ZipFile(path, "a")
+    with ZipFile(path, "r") as existing:
+        existing_names = existing.namelist()
+    ret = ZipFile(path, "a")
+    if ret.namelist() != existing_names:
+        # the existing entries could not be read this time. We must not write to the file.
+        ret.mode = "r"
+        ret.close()
+        raise IOError(f"Could not read the existing entries of zip file {path}")
+    return ret
+
+
 class CharSource(metaclass=ABCMeta):
     """
     Something which can provide string data.
@@ -607,7 +629,7 @@ class _FileInZipByteSink(ByteSink):
     def open(self) -> BytesIO:
         # pylint:disable=not-callable
         # pylint:disable=unused-argument
-        zip_file = ZipFile(self._zip_path, "a")
+        zip_file = open_zip_for_appending(self._zip_path)
         ret = zip_file.open(self._path_within_zip, "w")
         # we need to fiddle with the close method on the returned BytesIO so that when it is
         # closed the containing zip file is closed as well
diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 7fc88f9..5297e66 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -28,6 +28,7 @@ from vistautils.io_utils import (
     ByteSource,
     CharSink,
     CharSource,
+    open_zip_for_appending,
     read_doc_id_to_file_map,
     write_doc_id_to_file_map,
 )
@@ -494,7 +495,10 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
         raise NotImplementedError()
 
     def __enter__(self) -> "KeyValueSink[str, V]":
-        self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        if self._overwrite:
+            self._zip_file = ZipFile(str(self._path), "w")
+        else:
+            self._zip_file = open_zip_for_appending(Path(self._path))
         # this sink might have been used before
         self._keys = set()
         try:
-- 
2.43.0


From 67688311fd2c7f35d8b8478efd53456c98298f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 06/37] fix: make the file-map type and the byte default of
 key-value sources from parameters work

---
 vistautils/key_value.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 5297e66..6385103 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -856,12 +856,12 @@ class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
 
 _CHAR_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValuesSource",
-    "file-map": "_PathMappingCharKeyValueSource",
+    "file-map": "_doc_id_source_from_params",
 }
 
 _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValuesSource",
-    "file-map": "_PathMappingBytesKeyValueSource",
+    "file-map": "_doc_id_binary_source_from_params",
 }
 
 
@@ -1031,7 +1031,7 @@ def byte_key_value_source_from_params(
         input_namespace,
         KeyValueSource,
         special_factories=_BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES,
-        default_factory=_doc_id_source_from_params,
+        default_factory=_doc_id_binary_source_from_params,
         context=effective_context,
         factory_namespace_param_name="type",
     )
-- 
2.43.0


From 5cefa92c1d9dc0ea9a1c288d1a3ec1c48c3ea0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 07/37] fix: never leave a partially written index in a
 directory key-value store

---
 vistautils/key_value.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 6385103..f5b11d5 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -398,6 +398,16 @@ class KeyValueSource(Generic[K, V], KeyValueLinearSource[K, V], metaclass=ABCMet
         return _InterpretedKeyValueSource(wrapped, interpretation_function)
 
 
+def _write_index(directory: Path, id_to_file: Mapping[str, Path]) -> None:
+    # A partially written index could map a key to the file of another key,
+    # so the index only gets its final name once it is complete.
+    partial_index = directory / "_index.partial"
+    while partial_index.exists():
+        partial_index = directory / (partial_index.name + "_")
+    write_doc_id_to_file_map(id_to_file, CharSink.to_file(partial_index))
+    partial_index.replace(directory / "_index")
+
+
 class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
     def __init__(self, path: Path) -> None:
         self._path = path
@@ -415,7 +425,7 @@ class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
-        write_doc_id_to_file_map(self.id_to_file, CharSink.to_file(self._path / "_index"))
+        _write_index(self._path, self.id_to_file)
 
     @staticmethod
     def from_parameters(params: Parameters) -> KeyValueSink[str, str]:
@@ -442,7 +452,7 @@ class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
-        write_doc_id_to_file_map(self.id_to_file, CharSink.to_file(self._path / "_index"))
+        _write_index(self._path, self.id_to_file)
 
     @staticmethod
     def from_parameters(params: Parameters) -> KeyValueSink[str, bytes]:
-- 
2.43.0


From 1c96b9f4b1608dd75414d3553a3bae179a5d2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 08/37] fix: do not alter carriage returns when reading from
 character sources

---
 vistautils/io_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 40be59e..d218f3f 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -208,7 +208,7 @@ class _FileCharSource(CharSource):
     _path = attrib(validator=validators.instance_of(Path))
 
     def open(self) -> TextIO:
-        return open(self._path, "r", encoding="utf-8")
+        return open(self._path, "r", encoding="utf-8", newline="\n")
 
     def is_empty(self) -> bool:
         return os.path.getsize(self._path) == 0
@@ -220,7 +220,9 @@ class _CharSourceWrappingByteSource(CharSource):
     _encoding: str
 
     def open(self) -> TextIO:
-        return io.TextIOWrapper(self._wrapped_source.open(), encoding=self._encoding)
+        return io.TextIOWrapper(
+            self._wrapped_source.open(), encoding=self._encoding, newline="\n"
+        )
 
 
 @attrs(slots=True, frozen=True)
@@ -229,7 +231,9 @@ class _GZipFileSource(CharSource):
     _encoding: str = attrib(validator=validators.instance_of(str))
 
     def open(self) -> TextIO:
-        return gzip.open(self._path, "rt", encoding=self._encoding)  # type: ignore
+        return gzip.open(  # type: ignore
+            self._path, "rt", encoding=self._encoding, newline="\n"
+        )
 
     def is_empty(self) -> bool:
         with gzip.open(self._path) as inp:
-- 
2.43.0


From 4493768cb902328d1e4d4f7231325b78fb058b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 09/37] fix: close archives whose members cannot be opened or
 closed, and tar archives after use

---
 vistautils/io_utils.py | 59 +++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index d218f3f..aa62f53 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -11,7 +11,6 @@ from typing import (
     Any,
     AnyStr,
     BinaryIO,
-    Callable,
     Iterable,
     Iterator,
     List,
@@ -248,30 +247,20 @@ class _FileWithinTgzCharSource(CharSource):
     _encoding: str = attrib(validator=validators.instance_of(str))
 
     def open(self) -> TextIO:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
-        # extractfile here returns  binary file object. We are lazy here and load it all into
-        # memory to make dealing with the encoding issues simple
-        tgz_data = tgz_file.extractfile(self._path_within_tgz)
-        if tgz_data is not None:
-            ret = CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
-            # we need to fiddle with the close method on the returned TextIO so that when it is
-            # closed the containing zip file is closed as well
-            old_close: Callable = ret.close
-        else:
-            raise IOError(
-                f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
-            )
-
-        def new_close(_):
-            old_close()  # pylint:disable=not-callable
-            tgz_file.close()
-
-        ret.close = types.MethodType(new_close, ret)  # type: ignore
-        return ret
+        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
+            # extractfile here returns  binary file object. We are lazy here and load it all into
+            # memory to make dealing with the encoding issues simple
+            tgz_data = tgz_file.extractfile(self._path_within_tgz)
+            if tgz_data is None:
+                raise IOError(
+                    f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
+                )
+            with tgz_data:
+                return CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
 
     def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
-        return tgz_file.getmember(self._path_within_tgz).size == 0
+        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
+            return tgz_file.getmember(self._path_within_tgz).size == 0
 
 
 class CharSink(metaclass=ABCMeta):
@@ -405,14 +394,20 @@ class _ByteSourceFromPathInZipFile(ByteSource):
         # pylint:disable=not-callable
         # pylint:disable=unused-argument
         zip_file = ZipFile(self._zip_path, "r")
-        ret = zip_file.open(self._path_within_zip, "r")
+        try:
+            ret = zip_file.open(self._path_within_zip, "r")
+        except BaseException:
+            zip_file.close()
+            raise
         # we need to fiddle with the close method on the returned BytesIO so that when it is
         # closed the containing zip file is closed as well
         old_close = ret.close
 
         def new_close(self):
-            old_close()
-            zip_file.close()
+            try:
+                old_close()
+            finally:
+                zip_file.close()
 
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret  # type: ignore
@@ -634,14 +629,20 @@ class _FileInZipByteSink(ByteSink):
         # pylint:disable=not-callable
         # pylint:disable=unused-argument
         zip_file = open_zip_for_appending(self._zip_path)
-        ret = zip_file.open(self._path_within_zip, "w")
+        try:
+            ret = zip_file.open(self._path_within_zip, "w")
+        except BaseException:
+            zip_file.close()
+            raise
         # we need to fiddle with the close method on the returned BytesIO so that when it is
         # closed the containing zip file is closed as well
         old_close = ret.close
 
         def new_close(self):
-            old_close()
-            zip_file.close()
+            try:
+                old_close()
+            finally:
+                zip_file.close()
 
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret  # type: ignore
-- 
2.43.0


From 21cb282aae1f99385194cdf50b1c476d31e70b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 10/37] fix: make downsampling work on current Pythons and
 independent of the order of the input

---
 vistautils/scripts/downsample_key_value_store.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..0b0d0e8 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -32,12 +32,10 @@ _RANDOM_SEED_PARAM = "random_seed"
 
 def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
-        keys = list(input_source.keys())
+        # sorted because the order of the keys must not depend on how they were stored
+        keys = sorted(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From 08c16be237b3cff542041627827aa39ca375ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 11/37] fix: list the keys of a zip key-value store in an order
 independent of string hashing

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index f5b11d5..ae05c4c 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -58,7 +58,7 @@ def _read_keys_from_keys_file(zip_file: ZipFile) -> Optional[AbstractSet[str]]:
 
 
 def _write_keys_to_keys_file(zip_file: ZipFile, keys: AbstractSet[str]) -> None:
-    zip_file.writestr("__keys", "\n".join(keys).encode("utf-8"))
+    zip_file.writestr("__keys", "\n".join(sorted(keys)).encode("utf-8"))
 
 
 class KeyValueSink(Generic[K, V], metaclass=ABCMeta):
-- 
2.43.0


From 3544a86d16fe3ad4865dd0dfc8f614d5d0b14cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 12/37] fix: strip the dot of .tar.gz from the output name of
 tar_gz_to_zip

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From 87da20e347af4671abfe266135b36cf8cd2cc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 13/37] fix: fail when a directory to copy to a key-value store
 cannot be listed

---
 .../scripts/directory_to_key_value_store.py       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vistautils/scripts/directory_to_key_value_store.py b/vistautils/scripts/directory_to_key_value_store.py
index 3b748fe..b778995 100644
--- a/vistautils/scripts/directory_to_key_value_store.py
+++ b/vistautils/scripts/directory_to_key_value_store.py
@@ -22,8 +22,9 @@ if any sub-directories of the input directory are encountered, an error will be
 This behavior is subject to change in the future and should not be relied upon.
 """
 import logging
+import os
 from pathlib import Path
-from typing import Callable
+from typing import Callable, Iterator
 
 from vistautils.key_value import byte_key_value_sink_from_params
 from vistautils.parameters import Parameters
@@ -35,12 +36,22 @@ def main(params: Parameters) -> None:
     key_function = key_function_from_params(params)
 
     with byte_key_value_sink_from_params(params, eval_context=locals()) as sink:
-        for item_path in input_directory.rglob("*"):
+        for item_path in _paths_under(input_directory):
             if item_path.is_file():
                 logging.info("Copying %s to output sink", item_path)
                 sink.put(key=key_function(item_path), value=item_path.read_bytes())
 
 
+def _paths_under(directory: Path) -> Iterator[Path]:
+    # Path.rglob silently skips directories which cannot be read
+    def fail(error: OSError) -> None:
+        raise error
+
+    for parent, _, file_names in os.walk(directory, onerror=fail):
+        for file_name in sorted(file_names):
+            yield Path(parent, file_name)
+
+
 def key_function_from_params(params: Parameters) -> Callable[[Path], str]:
     key_function_string = (
         params.optional_string("key_function", [IDENTITY, STRIP_ONE_EXTENSION])
-- 
2.43.0


From 6de74ce47f4fc8c28b8cc64e8e496b6edc2f053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 14/37] fix: use explicitly given parameters of a
 parameters-only entry point

---
 vistautils/parameters_only_entrypoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..a6d53bd 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -59,13 +59,16 @@ def _real_parameters_only_entry_point(
         program_name = os.path.basename(main.__file__)
 
     arg_parser = ArgumentParser(prog=program_name, description=usage_message)
-    if not parameters:
+    if parameters is None:
         arg_parser.add_argument("param_file", type=Path)
     arg_parser.add_argument("-p", action="append", nargs=2, required=False)
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters is None:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
+    else:
+        params = parameters
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From c8086a22221e9ca2709d9b06fd04712fac04fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 15/37] fix: interpolate references to parameters with values
 like 0, false or the empty string

---
 vistautils/parameters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..18573a1 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1638,7 +1638,10 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if (
+                            get_from_nested_dict(mutable_parameters, interp_match)
+                            is not None
+                        ):
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1657,7 +1660,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not None:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1676,7 +1679,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is None:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From 8253cea1f265f551bc187ae6bd727e3f60bb0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 16/37] fix: honour explicit_split.must_be_exhaustive, as
 documented

---
 vistautils/scripts/split_key_value_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..7a9b56f 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -114,7 +114,9 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                         )
                     raise RuntimeError(error_message)
 
-    if params.boolean("must_be_exhaustive", default=True):
+    if explicit_split_namespace.boolean(
+        "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
+    ):
         keys_not_copied = immutableset(source.keys()) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
-- 
2.43.0


From cb8233e6576fe9413e3cc5bafc9aa3b97bf12b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 17/37] fix: make tar_gz_to_zip --dont-stream work with
 directories and keep existing files

---
 vistautils/scripts/tar_gz_to_zip.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6bcf2e9..5928ebd 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -1,6 +1,8 @@
 import argparse
 import os
 import tarfile
+from pathlib import Path
+from tempfile import TemporaryDirectory
 from zipfile import ZipFile
 
 USAGE = """
@@ -64,11 +66,15 @@ def main():
     with ZipFile(output_zip_name, "x") as out:
         with tarfile.open(tar_file) as inp:
             if dont_stream:
-                inp.extractall()
-                for member in inp:
-                    if member.isfile():
-                        out.write(member.name)
-                    os.remove(member.name)
+                # unpack to a new directory so that existing files are neither replaced nor removed
+                with TemporaryDirectory(dir=os.curdir) as unpack_directory:
+                    inp.extractall(unpack_directory)
+                    for member in inp:
+                        if member.isfile() and not (
+                            omit_large_files and member.size > large_file_cutoff
+                        ):
+                            unpacked = Path(unpack_directory, member.name)
+                            out.writestr(member.name, unpacked.read_bytes())
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From ca1079a3b4293c6964904ee57c45aab2ac8c6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 18/37] fix: do not truncate an existing zip file which cannot
 be opened for appending

---
 vistautils/io_utils.py | 47 +++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index aa62f53..5bfd0ff 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -39,26 +39,45 @@ def is_empty_directory(path: Path) -> bool:
     return path.is_dir() and next(path.iterdir().__iter__(), sentinel) == sentinel
 
 
+class _ExistingZipFile(ZipFile):
+    """
+    An existing zip file opened for appending.
+
+    `ZipFile` itself replaces a file which it cannot open for writing at first with an empty one,
+    and begins a new archive behind the content of a file whose entries it cannot read.
+    Either way the existing entries would be lost, so here both raise an exception instead.
+    """
+
+    def __init__(self, file: BinaryIO) -> None:
+        self._file = file
+        try:
+            with ZipFile(self._file, "r") as existing:
+                existing_names = existing.namelist()
+            super().__init__(self._file, "a")
+            if self.namelist() != existing_names:
+                self.mode = "r"  # prevents writing a new directory on closing
+                raise IOError(f"Could not read the existing entries of {self.filename}")
+        except BaseException:
+            self._file.close()
+            raise
+
+    def close(self) -> None:
+        try:
+            super().close()
+        finally:
+            self._file.close()
+
+
 def open_zip_for_appending(path: Path) -> ZipFile:
     """
     Open the zip file at the given path for adding entries, creating it if it does not exist.
 
     Unlike opening a `ZipFile` with mode "a", this raises an exception if there is a file at *path*
-    which cannot be read as a zip file.
-    `ZipFile` would begin a new archive after its content instead,
-    which makes any entries it had inaccessible.
+    which cannot be opened or read as a zip file.
     """
-    if not path.exists() or path.stat().st_size == 0:
-        return ZipFile(path, "a")
-    with ZipFile(path, "r") as existing:
-        existing_names = existing.namelist()
-    ret = ZipFile(path, "a")
-    if ret.namelist() != existing_names:
-        # the existing entries could not be read this time. We must not write to the file.
-        ret.mode = "r"
-        ret.close()
-        raise IOError(f"Could not read the existing entries of zip file {path}")
-    return ret
+    if path.exists() and path.stat().st_size > 0:
+        return _ExistingZipFile(path.open("r+b"))
+    return ZipFile(path, "a")
 
 
 class CharSource(metaclass=ABCMeta):
-- 
2.43.0


From fa5746d8b9816d3c1ae9e8b5f70c0076cb34f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 19/37] fix: accept the documented type 'directory' for
 key-value sinks

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index ae05c4c..68666a7 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1050,11 +1050,13 @@ def byte_key_value_source_from_params(
 _CHAR_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValueSink",
     "file-map": "_DirectoryCharKeyValueSink",
+    "directory": "_DirectoryCharKeyValueSink",
 }
 
 _BYTE_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValueSink",
     "file-map": "_DirectoryBytesKeyValueSink",
+    "directory": "_DirectoryBytesKeyValueSink",
 }
 
 
-- 
2.43.0


From 03e889e6ac59a165913510e455a0f99d5442fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 20/37] fix: verify the gzip checksum when reading a file
 within a .tar.gz

---
 vistautils/io_utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 5bfd0ff..6de4dfd 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -275,11 +275,22 @@ class _FileWithinTgzCharSource(CharSource):
                     f"Could not extract path {self._path_within_tgz} from {self._tgz_path}"
                 )
             with tgz_data:
-                return CharSource.from_string(tgz_data.read().decode(self._encoding)).open()
+                data = tgz_data.read()
+            self._verify_checksum(tgz_file)
+            return CharSource.from_string(data.decode(self._encoding)).open()
 
     def is_empty(self) -> bool:
         with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
-            return tgz_file.getmember(self._path_within_tgz).size == 0
+            member = tgz_file.getmember(self._path_within_tgz)
+            self._verify_checksum(tgz_file)
+            return member.size == 0
+
+    @staticmethod
+    def _verify_checksum(tgz_file: tarfile.TarFile) -> None:
+        # gzip verifies its checksum only when reading reaches the end of the compressed data,
+        # but tarfile stops reading at its own end-of-archive marker.
+        while tgz_file.fileobj.read(65536):  # type: ignore
+            pass
 
 
 class CharSink(metaclass=ABCMeta):
-- 
2.43.0


From ec6592d5d0bd96370f5b2b6d7b90e58f52ed7068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 21/37] fix: test decoded content when checking if a compressed
 character source is empty

---
 vistautils/io_utils.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 6de4dfd..78a14ab 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -253,11 +253,6 @@ class _GZipFileSource(CharSource):
             self._path, "rt", encoding=self._encoding, newline="\n"
         )
 
-    def is_empty(self) -> bool:
-        with gzip.open(self._path) as inp:
-            data = inp.read(1)
-        return len(data) == 0
-
 
 @attrs(slots=True, frozen=True)
 class _FileWithinTgzCharSource(CharSource):
@@ -279,12 +274,6 @@ class _FileWithinTgzCharSource(CharSource):
             self._verify_checksum(tgz_file)
             return CharSource.from_string(data.decode(self._encoding)).open()
 
-    def is_empty(self) -> bool:
-        with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file:
-            member = tgz_file.getmember(self._path_within_tgz)
-            self._verify_checksum(tgz_file)
-            return member.size == 0
-
     @staticmethod
     def _verify_checksum(tgz_file: tarfile.TarFile) -> None:
         # gzip verifies its checksum only when reading reaches the end of the compressed data,
-- 
2.43.0


From dafc083e929b4cecf0dd983493ea45ea5925deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 22/37] fix: close the wrapped byte source if its text cannot
 be decoded at all

---
 vistautils/io_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 78a14ab..ed6498a 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -238,9 +238,13 @@ class _CharSourceWrappingByteSource(CharSource):
     _encoding: str
 
     def open(self) -> TextIO:
-        return io.TextIOWrapper(
-            self._wrapped_source.open(), encoding=self._encoding, newline="\n"
-        )
+        wrapped = self._wrapped_source.open()
+        try:
+            return io.TextIOWrapper(wrapped, encoding=self._encoding, newline="\n")
+        except BaseException:
+            # for example, an unknown encoding
+            wrapped.close()
+            raise
 
 
 @attrs(slots=True, frozen=True)
-- 
2.43.0


From 8485a168d3402658bd888819928cc413e3432d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 23/37] fix: a tar source refuses to continue after a failed
 read

---
 vistautils/key_value.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 68666a7..b9a1b1d 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -754,6 +754,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
     ) -> None:
         self.tgz_path = tgz_path
         self.inp: Optional[tarfile.TarFile] = None
+        self._read_failed = False
         self.key_function = key_function
         self.name_filter = name_filter
 
@@ -767,22 +768,40 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
         )
 
         def generator_function() -> Iterator[Tuple[str, bytes]]:
-            # safe by check_state above
-            for member in self.inp:  # type: ignore
+            members = iter(self.inp)  # type: ignore
+            while True:
+                member = self._read(lambda: next(members, None))
+                if member is None:
+                    return
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
                     if key and key_filter(key):
-                        data = self.inp.extractfile(member)  # type: ignore
-                        if data:
-                            with data:
-                                yield (key, data.read())
-                        else:
-                            raise IOError(f"Cannot read member {member} of {self}")
+                        yield (key, self._read(lambda: self._content_of(member)))
 
         return generator_function()
 
+    def _content_of(self, member: tarfile.TarInfo) -> bytes:
+        data = self.inp.extractfile(member)  # type: ignore
+        if data:
+            with data:
+                return data.read()
+        else:
+            raise IOError(f"Cannot read member {member} of {self}")
+
+    def _read(self, read_operation: Callable[[], T]) -> T:
+        # After a failed read the position in the (compressed) archive is unknown,
+        # so anything read afterwards could be wrong or seem to be the end of the archive.
+        if self._read_failed:
+            raise IOError(f"Cannot continue after an earlier failure to read {self.tgz_path}")
+        try:
+            return read_operation()
+        except BaseException:
+            self._read_failed = True
+            raise
+
     def __enter__(self) -> "KeyValueLinearSource[str,bytes]":
         self.inp = tarfile.open(self.tgz_path, "r")
+        self._read_failed = False
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-- 
2.43.0


From eb6c9a6009e30d5c17c700fa830713614eba38f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 24/37] fix: verify the checksum of a compressed tar file when
 iterating over it

---
 vistautils/io_utils.py  | 20 ++++++++++++--------
 vistautils/key_value.py |  2 ++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index ed6498a..6a36146 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -80,6 +80,17 @@ def open_zip_for_appending(path: Path) -> ZipFile:
     return ZipFile(path, "a")
 
 
+def verify_tar_checksum(tar_file: tarfile.TarFile) -> None:
+    """
+    Read the rest of a compressed tar file, raising an exception if its content is damaged.
+
+    The checksum is verified only when reading reaches the end of the compressed data,
+    but tarfile stops reading at its own end-of-archive marker.
+    """
+    while tar_file.fileobj.read(65536):  # type: ignore
+        pass
+
+
 class CharSource(metaclass=ABCMeta):
     """
     Something which can provide string data.
@@ -275,16 +286,9 @@ class _FileWithinTgzCharSource(CharSource):
                 )
             with tgz_data:
                 data = tgz_data.read()
-            self._verify_checksum(tgz_file)
+            verify_tar_checksum(tgz_file)
             return CharSource.from_string(data.decode(self._encoding)).open()
 
-    @staticmethod
-    def _verify_checksum(tgz_file: tarfile.TarFile) -> None:
-        # gzip verifies its checksum only when reading reaches the end of the compressed data,
-        # but tarfile stops reading at its own end-of-archive marker.
-        while tgz_file.fileobj.read(65536):  # type: ignore
-            pass
-
 
 class CharSink(metaclass=ABCMeta):
     """
diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index b9a1b1d..df73db3 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -30,6 +30,7 @@ from vistautils.io_utils import (
     CharSource,
     open_zip_for_appending,
     read_doc_id_to_file_map,
+    verify_tar_checksum,
     write_doc_id_to_file_map,
 )
 from vistautils.parameters import Parameters
@@ -772,6 +773,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
             while True:
                 member = self._read(lambda: next(members, None))
                 if member is None:
+                    self._read(lambda: verify_tar_checksum(self.inp))  # type: ignore
                     return
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
-- 
2.43.0


From e878939f4bb651181c0312055767c545254b468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 25/37] fix: an explicit split of a file-map store can be
 exhaustive

---
 vistautils/scripts/split_key_value_store.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index 7a9b56f..cc0ecc2 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -33,8 +33,6 @@ unless the parameter *explicit_split.must_be_exhaustive* is set to *False*.
 import random
 from contextlib import ExitStack
 
-from immutablecollections import immutableset
-
 from vistautils.io_utils import CharSink, file_lines_to_set
 from vistautils.key_value import (
     KeyValueSink,
@@ -117,7 +115,7 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
     if explicit_split_namespace.boolean(
         "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
     ):
-        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
+        keys_not_copied = sorted(set(source.keys()) - set(keys_copied))
         if keys_not_copied:
             raise RuntimeError(
                 f"Expected the split to be a partition, but "
-- 
2.43.0


From 4ba2965bb6a7f22827fd117f56f497c69abce256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 26/37] fix: tar_gz_to_zip reports damage revealed only by the
 checksum at the end

---
 vistautils/scripts/tar_gz_to_zip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 5928ebd..42fa094 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -5,6 +5,8 @@ from pathlib import Path
 from tempfile import TemporaryDirectory
 from zipfile import ZipFile
 
+from vistautils.io_utils import verify_tar_checksum
+
 USAGE = """
     Converts a (un)compressed tar file to .zip
     This is useful because .zip allows random access, but the LDC often distributes things as .tgz.
@@ -88,6 +90,7 @@ def main():
                             print(f"Copying {member.name}")
                             with inp.extractfile(member) as data:
                                 out.writestr(member.name, data.read())
+            verify_tar_checksum(inp)
 
 
 def _output_name(filename: str) -> str:
-- 
2.43.0


From 5a07084e02fececf6ea9da3e2a651e54d85015fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 27/37] fix: directory_to_key_value_store refuses files sharing
 a key for every kind of output

---
 vistautils/scripts/directory_to_key_value_store.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vistautils/scripts/directory_to_key_value_store.py b/vistautils/scripts/directory_to_key_value_store.py
index b778995..f2f8cd5 100644
--- a/vistautils/scripts/directory_to_key_value_store.py
+++ b/vistautils/scripts/directory_to_key_value_store.py
@@ -24,7 +24,7 @@ This behavior is subject to change in the future and should not be relied upon.
 import logging
 import os
 from pathlib import Path
-from typing import Callable, Iterator
+from typing import Callable, Iterator, Set
 
 from vistautils.key_value import byte_key_value_sink_from_params
 from vistautils.parameters import Parameters
@@ -35,11 +35,16 @@ def main(params: Parameters) -> None:
     input_directory = params.existing_directory("input_directory")
     key_function = key_function_from_params(params)
 
+    keys_written: Set[str] = set()
     with byte_key_value_sink_from_params(params, eval_context=locals()) as sink:
         for item_path in _paths_under(input_directory):
             if item_path.is_file():
                 logging.info("Copying %s to output sink", item_path)
-                sink.put(key=key_function(item_path), value=item_path.read_bytes())
+                key = key_function(item_path)
+                if key in keys_written:
+                    raise RuntimeError(f"More than one file has the key {key}")
+                keys_written.add(key)
+                sink.put(key=key, value=item_path.read_bytes())
 
 
 def _paths_under(directory: Path) -> Iterator[Path]:
-- 
2.43.0


From 2fc40571618d5f6a32582c007f5a162be836a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 28/37] fix: directory_to_key_value_store writes entries in an
 order independent of the file system

---
 vistautils/scripts/directory_to_key_value_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/directory_to_key_value_store.py b/vistautils/scripts/directory_to_key_value_store.py
index f2f8cd5..fac6901 100644
--- a/vistautils/scripts/directory_to_key_value_store.py
+++ b/vistautils/scripts/directory_to_key_value_store.py
@@ -52,7 +52,9 @@ def _paths_under(directory: Path) -> Iterator[Path]:
     def fail(error: OSError) -> None:
         raise error
 
-    for parent, _, file_names in os.walk(directory, onerror=fail):
+    for parent, directory_names, file_names in os.walk(directory, onerror=fail):
+        # the order of the entries must not depend on how the file system lists them
+        directory_names.sort()
         for file_name in sorted(file_names):
             yield Path(parent, file_name)
 
-- 
2.43.0


From 24ea9effa00d8250950fc98493f70b3e107983e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 29/37] fix: environment variables with a dot in their name do
 not stop parameter files from loading

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 18573a1..721600c 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1513,7 +1513,8 @@ class YAMLParametersLoader:
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
                     # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    # A variable with a dot in its name cannot be a parameter name
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From 62858f499a21ee58ba6dfb93a49f266b153d3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 30/37] fix: creatable_empty_directory accepts a directory
 which another process creates meanwhile

---
 vistautils/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 721600c..0dd0080 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -287,6 +287,10 @@ class Parameters:
         Throws a `ParameterError` if `param` is not a known parameter.
         """
         ret = Path.resolve(Path(self.string(param)))
+        if not ret.exists():
+            # Another process may create (and even fill) it before we do,
+            # so whatever is there afterwards is still examined below.
+            ret.mkdir(parents=True, exist_ok=True)
         if ret.is_dir():
             if not is_empty_directory(ret):
                 if delete:
@@ -298,13 +302,11 @@ class Parameters:
                         "but got non-empty path {!s}".format(param, ret)
                     )
             return ret
-        elif ret.exists():
+        else:
             raise ParameterError(
                 "Expected an empty directory for parameters {!s},"
                 "but got non-directory {!s}".format(param, ret)
             )
-        else:
-            return self.creatable_directory(param)
 
     def optional_creatable_empty_directory(
         self, param: str, *, delete: bool = False
-- 
2.43.0


From f19a0eec0ffe27157ca5ba7bafe41ed435bb580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 31/37] fix: a list of paths is split only at line ends

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 0dd0080..0729bde 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1196,7 +1196,8 @@ class Parameters:
             list_file = self.existing_file(param)
             path_strings = [
                 line.strip()
-                for line in list_file.read_text(encoding="utf-8").splitlines()
+                # not splitlines(), which also splits at characters legal in paths, like U+0085
+                for line in list_file.read_text(encoding="utf-8").split("\n")
                 if line.strip() and not line.strip().startswith("#")
             ]
             location_read_from = f"file {list_file.absolute()!s}"
-- 
2.43.0


From 1dde2236d90265fc4bada4b6fd14581f00bda54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 32/37] fix: only() recognises the end of the input by
 identity, not by comparing elements

---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From 81f94e5b43fceb66b8e7d9232dbec02de53a35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 33/37] fix: a closed tar source refuses use, and its old
 iterators do not disturb it when opened again

---
 vistautils/key_value.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index df73db3..41fd64e 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -755,7 +755,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
     ) -> None:
         self.tgz_path = tgz_path
         self.inp: Optional[tarfile.TarFile] = None
-        self._read_failed = False
+        self._failed_inp: Optional[tarfile.TarFile] = None
         self.key_function = key_function
         self.name_filter = name_filter
 
@@ -768,46 +768,52 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
             "manager before using it.",
         )
 
+        # an iteration belongs to the archive as opened now, even if it is closed and opened again
+        inp: tarfile.TarFile = self.inp  # type: ignore
+
         def generator_function() -> Iterator[Tuple[str, bytes]]:
-            members = iter(self.inp)  # type: ignore
+            members = iter(inp)
             while True:
-                member = self._read(lambda: next(members, None))
+                member = self._read(inp, lambda: next(members, None))
                 if member is None:
-                    self._read(lambda: verify_tar_checksum(self.inp))  # type: ignore
+                    self._read(inp, lambda: verify_tar_checksum(inp))
                     return
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
                     if key and key_filter(key):
-                        yield (key, self._read(lambda: self._content_of(member)))
+                        yield (key, self._read(inp, lambda: self._content_of(inp, member)))
 
         return generator_function()
 
-    def _content_of(self, member: tarfile.TarInfo) -> bytes:
-        data = self.inp.extractfile(member)  # type: ignore
+    def _content_of(self, inp: tarfile.TarFile, member: tarfile.TarInfo) -> bytes:
+        data = inp.extractfile(member)
         if data:
             with data:
                 return data.read()
         else:
             raise IOError(f"Cannot read member {member} of {self}")
 
-    def _read(self, read_operation: Callable[[], T]) -> T:
+    def _read(self, inp: tarfile.TarFile, read_operation: Callable[[], T]) -> T:
+        if inp.closed:
+            raise IOError(f"Cannot read {self.tgz_path} after it was closed")
         # After a failed read the position in the (compressed) archive is unknown,
         # so anything read afterwards could be wrong or seem to be the end of the archive.
-        if self._read_failed:
+        if self._failed_inp is inp:
             raise IOError(f"Cannot continue after an earlier failure to read {self.tgz_path}")
         try:
             return read_operation()
         except BaseException:
-            self._read_failed = True
+            self._failed_inp = inp
             raise
 
     def __enter__(self) -> "KeyValueLinearSource[str,bytes]":
         self.inp = tarfile.open(self.tgz_path, "r")
-        self._read_failed = False
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        self.inp.close()  # type: ignore
+        check_state(self.inp)
+        inp, self.inp = self.inp, None
+        inp.close()  # type: ignore
         return False
 
 
-- 
2.43.0


From 72e7b89c01633ae5db88b218586646b87e936943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 34/37] fix: a zip store refuses keys it cannot list or name,
 and lists an empty key

A key with a newline was listed as two keys, the key __keys was overwritten
by the listing, a name with a null character was cut there (and could replace
another key's value), and a store whose only key is the empty string was
listed as empty.
---
 vistautils/key_value.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 41fd64e..9c4e11b 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -59,7 +59,11 @@ def _read_keys_from_keys_file(zip_file: ZipFile) -> Optional[AbstractSet[str]]:
 
 
 def _write_keys_to_keys_file(zip_file: ZipFile, keys: AbstractSet[str]) -> None:
-    zip_file.writestr("__keys", "\n".join(sorted(keys)).encode("utf-8"))
+    keys_data = "\n".join(sorted(keys))
+    if keys and not keys_data:
+        # The empty string is the only key; empty data would be read as no keys at all.
+        keys_data = "\n"
+    zip_file.writestr("__keys", keys_data.encode("utf-8"))
 
 
 class KeyValueSink(Generic[K, V], metaclass=ABCMeta):
@@ -496,6 +500,10 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "same key"
             )
         filename = self._filename_function(key)
+        check_arg("\0" not in filename, "Names in a zip file end at a null character")
+        if self._keys_out_function is _write_keys_to_keys_file:
+            check_arg("\n" not in key, "Keys are listed one per line")
+            check_arg(filename != "__keys", "__keys is reserved for the list of keys")
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
         # a key may only be listed once its value has really been written
-- 
2.43.0


From e992e1364b21d6545a94b27bec2d1a8bad8edfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 35/37] fix: directory sinks refuse keys which share a file
 with another key or the index

Putting _index lost its value to the index, and putting ./a replaced the value of a.
---
 vistautils/key_value.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 9c4e11b..c9efa75 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1,7 +1,7 @@
 import tarfile
 from abc import ABCMeta, abstractmethod
 from contextlib import AbstractContextManager
-from pathlib import Path
+from pathlib import Path, PurePath
 from typing import (
     AbstractSet,
     Any,
@@ -403,6 +403,18 @@ class KeyValueSource(Generic[K, V], KeyValueLinearSource[K, V], metaclass=ABCMet
         return _InterpretedKeyValueSource(wrapped, interpretation_function)
 
 
+def _file_for_key(directory: Path, key: str) -> Path:
+    # Otherwise the value could be written over the value of another key, or be
+    # overwritten by the index.
+    key_path = PurePath(key)
+    check_arg(
+        str(key_path) == key and not key_path.is_absolute() and ".." not in key_path.parts,
+        "The keys of a directory must be names of files in it",
+    )
+    check_arg(key != "_index", "_index is reserved for the list of keys")
+    return directory / key_path
+
+
 def _write_index(directory: Path, id_to_file: Mapping[str, Path]) -> None:
     # A partially written index could map a key to the file of another key,
     # so the index only gets its final name once it is complete.
@@ -419,7 +431,7 @@ class _DirectoryCharKeyValueSink(KeyValueSink[str, str]):
         self.id_to_file: MutableMapping[str, Path] = dict()
 
     def put(self, key: str, value: str) -> None:
-        out_file = self._path / key
+        out_file = _file_for_key(self._path, key)
         CharSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
@@ -446,7 +458,7 @@ class _DirectoryBytesKeyValueSink(KeyValueSink[str, bytes]):
         self.id_to_file: MutableMapping[str, Path] = dict()
 
     def put(self, key: str, value: bytes) -> None:
-        out_file = self._path / key
+        out_file = _file_for_key(self._path, key)
         ByteSink.to_file(out_file).write(value)
         self.id_to_file[key] = out_file
 
-- 
2.43.0


From e2400d07ae2cfc409c57b460a2c1c160ac9f2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 36/37] fix: writing a docID-to-file map fails on fields which
 would be read back differently

An ID with leading or trailing white space silently became another ID.
---
 vistautils/io_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 6a36146..dd18583 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -717,9 +717,13 @@ def write_doc_id_to_file_map(
     """
     with sink.open() as out:
         for doc_id in sorted(doc_id_to_file_map.keys()):
-            out.write(
-                "{!s}\t{!s}\n".format(doc_id, doc_id_to_file_map[doc_id].absolute())
-            )
+            fields = (str(doc_id), str(doc_id_to_file_map[doc_id].absolute()))
+            for field in fields:
+                if "\t" in field or "\n" in field or field != field.strip():
+                    raise ValueError(
+                        f"{field!r} would not be read back from a docID-to-file map"
+                    )
+            out.write("{!s}\t{!s}\n".format(*fields))
 
 
 def read_doc_id_to_file_map(source: CharSource) -> Mapping[str, Path]:
-- 
2.43.0


From 647272b45987cdb2e44f73266f32a6581c4c4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 37/37] fix: a tar source skips an entry only if its key is
 None, as documented

Entries whose key is the empty string were silently dropped.
---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index c9efa75..112b232 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -800,7 +800,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
                     return
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
-                    if key and key_filter(key):
+                    if key is not None and key_filter(key):
                         yield (key, self._read(inp, lambda: self._content_of(inp, member)))
 
         return generator_function()
-- 
2.43.0

