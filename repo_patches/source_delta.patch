From eb2988f84f02588a999370cfdb0c6decc1303b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:04 +0000
Subject: [PATCH 01/11] fix: keep writing when the system clock is set back

The container time stamp became negative, which cannot be packed: write() and
close() raised struct.error and the buffered objects were dropped.
---
 src/vblf/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..fc540be 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -98,7 +98,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
+            time_stamp=max(0, round((time.time() - self._measurement_start_time) * 1e9)),
             flags=ObjFlags.TIME_ONE_NANS,
         )
         self._file.write(log_container.pack())
-- 
2.43.0


From f05e7b0f0a423bea9a9a3c384ee3caf75fe383e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 02/11] fix: refuse to write to a closed BlfWriter

write() after close() returned normally although the object could never reach
the file.
---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index fc540be..791d9da 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -59,8 +59,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         or when the file is closed.
 
         :param obj: Object to write
-        :raises ValueError: If object size doesn't match its header
+        :raises ValueError: If object size doesn't match its header or the file is closed
         """
+        if self._file.closed:
+            err_msg = "write to closed file"
+            raise ValueError(err_msg)
+
         # byte alignment
         if rest := len(self._buffer) % BYTE_ALIGNMENT:
             self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
-- 
2.43.0


From 4124bd849b61d56a71489d1027fec5193b88056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 03/11] fix: flush until the buffer is below its size limit

Only one container was written per call, so objects larger than the buffer size
piled up in memory until close() and were lost in a crash.
---
 src/vblf/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 791d9da..ec71264 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -77,7 +77,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.uncompressed_file_size += len(obj_data)
         self._time_of_last_object = time.time()
 
-        if len(self._buffer) >= self._buffer_size:
+        while len(self._buffer) >= self._buffer_size:
             self._flush_container()
 
     def _flush_container(self) -> None:
-- 
2.43.0


From 13b01acb39191cbe8c53cc0d5cb2cbfc125d8409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 04/11] fix: reject unusable writer settings before opening the
 file

A buffer size below 1 made close() write empty containers forever, and a
compression level outside 0-9 made every flush fail after the target file had
already been truncated.
---
 src/vblf/writer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index ec71264..1e5ce28 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -21,6 +21,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
+    :raises ValueError: If compression level or buffer size is out of range
     """
 
     def __init__(
@@ -33,6 +34,13 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        if buffer_size < 1:
+            err_msg = f"Buffer size must be positive: {buffer_size}"
+            raise ValueError(err_msg)
+        if not Compression.NONE <= compression_level <= Compression.MAX:
+            err_msg = f"Unsupported compression level: {compression_level}"
+            raise ValueError(err_msg)
+
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
-- 
2.43.0


From 500728492bc608d281eec88abbf9e48d88098291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 05/11] fix: keep buffered objects if writing a container fails

The buffered data was discarded before it was written. After an I/O error (e.g.
full disk) a later close() succeeded although objects were missing, and the
objects around the gap were merged into one that had never been written.
---
 src/vblf/writer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 1e5ce28..67c0762 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -59,6 +59,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics = FileStatistics.new()
         self._file_statistics.compression_level = compression_level
         self._file.write(self._file_statistics.pack())
+        self._end_of_data = self._file.tell()
 
     def write(self, obj: ObjectWithHeader[HeaderWithBase]) -> None:
         """Write an object to the BLF file.
@@ -97,11 +98,15 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         if not self._buffer:
             return
 
+        # continue behind the last complete container, a failed write may have moved the position
+        if self._file.tell() != self._end_of_data:
+            self._file.seek(self._end_of_data)
+
         # byte alignment
         if rest := self._file.tell() % BYTE_ALIGNMENT:
             self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
 
-        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
+        buffer = self._buffer[: self._buffer_size]
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
@@ -114,7 +119,10 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             flags=ObjFlags.TIME_ONE_NANS,
         )
         self._file.write(log_container.pack())
-        self._file_statistics.file_size = self._file.tell()
+        self._end_of_data = self._file_statistics.file_size = self._file.tell()
+
+        # drop the data only after it has been written, so that it is not lost if writing fails
+        del self._buffer[: len(buffer)]
 
     def _update_file_statistics(self) -> None:
         """Update file statistics and write them to the beginning of the file.
-- 
2.43.0


From 25178dd178c1fede46028a5e9062b37c6440a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 06/11] fix: handle short writes of unbuffered file objects

The number of bytes accepted by file.write() was ignored, so a short write of a
raw stream silently corrupted the file.
---
 src/vblf/writer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 67c0762..1295e24 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -58,7 +58,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         # write file statistics
         self._file_statistics = FileStatistics.new()
         self._file_statistics.compression_level = compression_level
-        self._file.write(self._file_statistics.pack())
+        self._write_all(self._file_statistics.pack())
         self._end_of_data = self._file.tell()
 
     def write(self, obj: ObjectWithHeader[HeaderWithBase]) -> None:
@@ -89,6 +89,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         while len(self._buffer) >= self._buffer_size:
             self._flush_container()
 
+    def _write_all(self, data: bytes) -> None:
+        """Write data completely, unbuffered streams may accept only a part of it per call."""
+        while data:
+            written = self._file.write(data)
+            data = data[len(data) if written is None else written :]
+
     def _flush_container(self) -> None:
         """Flush the internal buffer to disk.
 
@@ -104,7 +110,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         # byte alignment
         if rest := self._file.tell() % BYTE_ALIGNMENT:
-            self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
+            self._write_all(b"\x00" * (BYTE_ALIGNMENT - rest))
 
         buffer = self._buffer[: self._buffer_size]
 
@@ -118,7 +124,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             time_stamp=max(0, round((time.time() - self._measurement_start_time) * 1e9)),
             flags=ObjFlags.TIME_ONE_NANS,
         )
-        self._file.write(log_container.pack())
+        self._write_all(log_container.pack())
         self._end_of_data = self._file_statistics.file_size = self._file.tell()
 
         # drop the data only after it has been written, so that it is not lost if writing fails
@@ -133,7 +139,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
         )
         self._file.seek(0)
-        self._file.write(self._file_statistics.pack())
+        self._write_all(self._file_statistics.pack())
 
     def close(self) -> None:
         """Close the BLF file.
-- 
2.43.0


From 7d6b7f420c9469a1ca30a916f113987dc139070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 07/11] fix: handle short reads of unbuffered file objects

A short read of a raw stream was taken for the end of the file, so reading ended
silently with objects missing.
---
 src/vblf/reader.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..2d76829 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -47,6 +47,17 @@ from vblf.tp_diag import DiagRequestInterpretation
 LOG = logging.getLogger("vblf")
 
 
+def _read_all(stream: BinaryIO, size: int) -> bytes:
+    """Read data completely, unbuffered streams may return only a part of it per call."""
+    data = stream.read(size)
+    while data and len(data) < size:
+        chunk = stream.read(size - len(data))
+        if not chunk:
+            break
+        data += chunk
+    return data
+
+
 class BlfReader(AbstractContextManager["BlfReader"]):
     """Binary Log Format (BLF) file reader.
 
@@ -77,7 +88,7 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             err_msg = "Unsupported type {type(file)}"
             raise TypeError(err_msg)
 
-        obj_data = self._file.read(FileStatistics.SIZE)
+        obj_data = _read_all(self._file, FileStatistics.SIZE)
         if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
             err_msg = "Unexpected file format"
             raise ValueError(err_msg)
@@ -95,7 +106,7 @@ class BlfReader(AbstractContextManager["BlfReader"]):
         """
         while True:
             # find start of next object (search for b"LOBJ")
-            signature = stream.read(OBJ_SIGNATURE_SIZE)
+            signature = _read_all(stream, OBJ_SIGNATURE_SIZE)
             if len(signature) != OBJ_SIGNATURE_SIZE:
                 self._incomplete_data = signature
                 break
@@ -105,7 +116,9 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 continue
 
             # parse base header of object
-            header_base_data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
+            header_base_data = signature + _read_all(
+                stream, ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE
+            )
             if len(header_base_data) < ObjectHeaderBase.SIZE:
                 self._incomplete_data = header_base_data
                 break
@@ -113,8 +126,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 header_base = ObjectHeaderBase.unpack(header_base_data)
 
             # read object data
-            obj_data = header_base_data + stream.read(
-                header_base.object_size - ObjectHeaderBase.SIZE
+            obj_data = header_base_data + _read_all(
+                stream, header_base.object_size - ObjectHeaderBase.SIZE
             )
             if len(obj_data) < header_base.object_size:
                 self._incomplete_data = obj_data
-- 
2.43.0


From 20d75a7693356c5ab89738fde74f878c906dbf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 08/11] fix: close the file if BlfReader rejects it

The file opened by BlfReader stayed open when its header was not accepted.
---
 src/vblf/reader.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 2d76829..df16132 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -88,12 +88,17 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             err_msg = "Unsupported type {type(file)}"
             raise TypeError(err_msg)
 
-        obj_data = _read_all(self._file, FileStatistics.SIZE)
-        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
-            err_msg = "Unexpected file format"
-            raise ValueError(err_msg)
-
-        self.file_statistics = FileStatistics.unpack(obj_data)
+        try:
+            obj_data = _read_all(self._file, FileStatistics.SIZE)
+            if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
+                err_msg = "Unexpected file format"
+                raise ValueError(err_msg)
+
+            self.file_statistics = FileStatistics.unpack(obj_data)
+        except BaseException:
+            if self._file is not file:
+                self._file.close()
+            raise
 
         self._incomplete_data: bytes = b""
         self._generator = self._generate_objects(self._file)
-- 
2.43.0


From 1b4d6c08fc4c88db4bf763d155ddeb658269105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:52 +0000
Subject: [PATCH 09/11] fix: CanFdErrorFrame64 without extended data

With ext_data_offset 0 the extended data was read from and written to the object
header. This overwrote the object signature, so the object could not be read
back.
---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From 73c7f8a5f468e87436b59910e04989c5b44479d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 10/11] fix: quadratic time for objects spread over many
 containers

An incomplete object was parsed and copied again for every container it continues in.
Collect its data and parse it once it is complete.
---
 src/vblf/reader.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index df16132..2d65903 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -100,7 +100,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 self._file.close()
             raise
 
-        self._incomplete_data: bytes = b""
+        self._incomplete_data = bytearray()
+        self._required_size: int = 0
         self._generator = self._generate_objects(self._file)
 
     def _generate_objects(self, stream: BinaryIO) -> Iterator[ObjectWithHeader[Any]]:
@@ -113,7 +114,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             # find start of next object (search for b"LOBJ")
             signature = _read_all(stream, OBJ_SIGNATURE_SIZE)
             if len(signature) != OBJ_SIGNATURE_SIZE:
-                self._incomplete_data = signature
+                self._incomplete_data = bytearray(signature)
+                self._required_size = OBJ_SIGNATURE_SIZE
                 break
             if signature != OBJ_SIGNATURE:
                 # skip padding byte and try again
@@ -125,7 +127,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 stream, ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE
             )
             if len(header_base_data) < ObjectHeaderBase.SIZE:
-                self._incomplete_data = header_base_data
+                self._incomplete_data = bytearray(header_base_data)
+                self._required_size = ObjectHeaderBase.SIZE
                 break
             else:
                 header_base = ObjectHeaderBase.unpack(header_base_data)
@@ -135,7 +138,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 stream, header_base.object_size - ObjectHeaderBase.SIZE
             )
             if len(obj_data) < header_base.object_size:
-                self._incomplete_data = obj_data
+                self._incomplete_data = bytearray(obj_data)
+                self._required_size = header_base.object_size
                 break
 
             # find class for given object_type
@@ -152,9 +156,14 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                     else container.data
                 )
 
-                # prepend incomplete data of previous container
-                uncompressed = self._incomplete_data + uncompressed
-                self._incomplete_data = b""
+                # append to incomplete data of previous containers
+                self._incomplete_data += uncompressed
+                if len(self._incomplete_data) < self._required_size:
+                    # the object continues in the next container
+                    continue
+                uncompressed = bytes(self._incomplete_data)
+                self._incomplete_data = bytearray()
+                self._required_size = 0
 
                 # parse LogContainer data
                 yield from self._generate_objects(BytesIO(uncompressed))
-- 
2.43.0


From 4c8a2a08f156072c4fece847a17a7b2e2c7e712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 11/11] fix: file size if a rewritten container got smaller

---
 src/vblf/writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 1295e24..48931fc 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -138,6 +138,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.last_object_time = SystemTime.from_datetime(
             datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
         )
+        # a container that is written again after a failure may be smaller than at first
+        self._file.seek(0, os.SEEK_END)
+        self._file_statistics.file_size = self._file.tell()
         self._file.seek(0)
         self._write_all(self._file_statistics.pack())
 
-- 
2.43.0

