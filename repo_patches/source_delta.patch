From 5fc2bbdad757a15d38b8b17ea16f03b598e67a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 01/49] fix: encode and decode char scalars as signed int8

Negative values raised ValueError, and the UTF-8 encoding of a code point
above 127 took two bytes and corrupted the file; reading gave an unsigned
value for a signed type.
---
 pydarnio/dmap/dmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 8cb06bd..780a657 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -691,7 +691,8 @@ class DmapRead():
             # This casting is needed to keep the correct instance otherwise
             # python will default it to int which later could have some
             # consequences if you try to rewrite the file
-            data = self.dmap_bytearr[self.cursor]
+            # char is defined as int8 by RST
+            data = struct.unpack_from('b', self.dmap_buffer, self.cursor)[0]
             self.cursor += data_fmt_bytes
             return data
         elif data_type_fmt == 's':
@@ -1098,7 +1099,7 @@ class DmapWrite(object):
             if isinstance(scalar.value, str):
                 raise dmap_exceptions.DmapCharError(scalar.name, self.rec_num)
             # scalar_data_bytes = scalar.value
-            scalar_data_bytes = chr(scalar.value).encode('utf-8')
+            scalar_data_bytes = struct.pack('b', scalar.value)
         elif scalar.data_type_fmt == 'f':
             scalar_data_value = np.float32(scalar.value)
             scalar_data_bytes = struct.pack(scalar.data_type_fmt,
-- 
2.43.0


From 4ca0271fe16f24fa13197a7b973a7cc05a512019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 02/49] fix: write the whole encoding of non-ASCII names and
 strings

The field width was the number of characters instead of the number of
encoded bytes, which cut the text and its terminator off.
---
 pydarnio/dmap/dmap.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 780a657..f495e93 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1081,19 +1081,13 @@ class DmapWrite(object):
             Bytes of the scalar
         """
 
-        scalar_name = "{0}\0".format(scalar.name)
-        scalar_name_format = '{0}s'.format(len(scalar_name))
-        scalar_name_bytes = struct.pack(scalar_name_format,
-                                        scalar_name.encode('utf-8'))
+        scalar_name_bytes = "{0}\0".format(scalar.name).encode('utf-8')
 
         scalar_type_bytes = struct.pack('c',
                                         chr(scalar.data_type).encode('utf-8'))
 
         if scalar.data_type_fmt == 's':
-            scalar_data = "{0}\0".format(scalar.value)
-            scalar_data_format = '{0}s'.format(len(scalar_data))
-            scalar_data_bytes = struct.pack(scalar_data_format,
-                                            scalar_data.encode('utf-8'))
+            scalar_data_bytes = "{0}\0".format(scalar.value).encode('utf-8')
         elif scalar.data_type_fmt == 'c':
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
@@ -1138,10 +1132,7 @@ class DmapWrite(object):
             raise dmap_exceptions.DmapDataError(self.filename, message)
 
         array_value = array.value.flatten()
-        array_name = "{0}\0".format(array.name)
-        array_name_format = '{0}s'.format(len(array_name))
-        array_name_bytes = struct.pack(array_name_format,
-                                       array_name.encode('utf-8'))
+        array_name_bytes = "{0}\0".format(array.name).encode('utf-8')
 
         array_type_bytes = struct.pack('c',
                                        chr(array.data_type).encode('utf-8'))
-- 
2.43.0


From a6b1c9159452e5460377992d90acccc20e78f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 03/49] fix: do not reverse the caller's array shape when
 writing

Writing the same multi-dimensional array again stored the dimensions
in the wrong order.
---
 pydarnio/dmap/dmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index f495e93..7a9debf 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1139,9 +1139,9 @@ class DmapWrite(object):
 
         array_dim_bytes = struct.pack('i', array.dimension)
         array_shape_bytes = bytes()
-        if array.dimension > 1:
-            array.shape.reverse()
-        for size in array.shape:
+        # dimension sizes are stored fastest varying first; the shape belongs
+        # to the caller and must not be changed
+        for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
         array_data_bytes = array_value.tostring()
-- 
2.43.0


From 56ab18cd1ecb7755c563d8269f9a292114aea34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 04/49] fix: start each DMap write with an empty buffer

A second write with the same writer repeated all earlier records, and
changed the byte stream returned by the earlier write.
---
 pydarnio/dmap/dmap.py      | 1 +
 pydarnio/dmap/superdarn.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 7a9debf..1d0a115 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1018,6 +1018,7 @@ class DmapWrite(object):
         # For performance increase len of the records can be
         # attribute value initialized in the class
         pyDARNio_log.debug("Converting DMap records to bytes")
+        self.dmap_bytearr = bytearray()
         for self.rec_num in range(len(self.dmap_records)):
             record = self.dmap_records[self.rec_num]
             self._dmap_record_to_bytes(record)
diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 017fda7..b545441 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -885,6 +885,7 @@ class SDarnWrite(DmapWrite):
 
         """
         self.rec_num = 0
+        self.dmap_bytearr = bytearray()
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
 
         for self.rec_num in range(len(self.dmap_records)):
-- 
2.43.0


From 4fe0fc0fc829bbcbe6ad54af23f794219e5e0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 05/49] fix: write the records passed to write_dmap_stream

A second call wrote the records of the first call, and an empty deque
was not recognised as empty.
---
 pydarnio/dmap/dmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 1d0a115..beb1f19 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -976,7 +976,7 @@ class DmapWrite(object):
         No checks are done, this up to the user to ensure their fields are
         correct.
         """
-        if self.dmap_records == []:
+        if len(dmap_records) > 0:
             self.dmap_records = self.__check_dmap_dict(dmap_records)
         self._empty_record_check()
         pyDARNio_log.info("Writing to dmap stream")
@@ -984,7 +984,7 @@ class DmapWrite(object):
         return self.dmap_bytearr
 
     def _empty_record_check(self):
-        if self.dmap_records == []:
+        if len(self.dmap_records) == 0:
             raise dmap_exceptions.DmapDataError(self.filename,
                                                 "DMap record is empty "
                                                 "there is nothing to write.")
-- 
2.43.0


From 2d37d1fd7866305d57399cf3c44fb5570ecb2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 06/49] fix: write arrays of any byte order as little endian

Big-endian arrays were stored byte swapped.
---
 pydarnio/dmap/dmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index beb1f19..30dcfa5 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1145,7 +1145,9 @@ class DmapWrite(object):
         for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
-        array_data_bytes = array_value.tostring()
+        # DMap data is little endian whatever the byte order of the array
+        array_data_bytes = array_value.astype(
+            array_value.dtype.newbyteorder('<'), copy=False).tobytes()
 
         array_total_bytes = array_name_bytes + array_type_bytes + \
             array_dim_bytes + array_shape_bytes + array_data_bytes
-- 
2.43.0


From a7b6041e38ee9b2c02550f943ebb2461d7f22c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 07/49] fix: write empty char arrays

An empty slist of int8 raised IndexError.
---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 30dcfa5..e674468 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1124,7 +1124,8 @@ class DmapWrite(object):
             Total bytes of the array
         """
         # need to ensure the array is flattened
-        if array.data_type_fmt == 'c' and isinstance(array.value[0], str):
+        if array.data_type_fmt == 'c' and array.value.size > 0 and \
+                isinstance(array.value.flat[0], str):
             raise dmap_exceptions.DmapCharError(array.name, self.rec_num)
         elif array.data_type_fmt == 's':
             message = "Error: Trying to read array of strings."\
-- 
2.43.0


From 1b00cdfe484ac4976e5de054a314ace81e25548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 08/49] fix: write the scalars of a DMap record before its
 arrays

A record with an array ahead of a scalar produced an unreadable block.
---
 pydarnio/dmap/dmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index e674468..45e1750 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1043,18 +1043,22 @@ class DmapWrite(object):
         num_scalars = 0
         num_arrays = 0
         data_bytearray = bytearray()
+        # all scalars come before all arrays in the block
+        array_bytearray = bytearray()
         for name, data_info in record.items():
             if isinstance(data_info, DmapScalar):
                 data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
             elif isinstance(data_info, DmapArray):
-                data_bytearray.extend(self.dmap_array_to_bytes(data_info))
+                array_bytearray.extend(self.dmap_array_to_bytes(data_info))
                 num_arrays += 1
             else:
                 raise dmap_exceptions.DmapTypeError(self.filename,
                                                     type(data_info),
                                                     self.rec_num)
 
+        data_bytearray.extend(array_bytearray)
+
         # 16 = encoding_identifier (int - 4 bytes) + num_scalars (int - 4) +
         #      num_arrays (int - 4) + size of the block (int - 4)
         block_size = len(data_bytearray) + 16
-- 
2.43.0


From b758c709928938d73869992704196e16570ffb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 09/49] fix: read 64-bit integer arrays as np.int64 and
 np.uint64

They came back as np.longlong/np.ulonglong, which dict2dmap and so the
writers refuse.
---
 pydarnio/dmap/dmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 45e1750..1c98d03 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -804,7 +804,9 @@ class DmapRead():
             array = np.frombuffer(self.dmap_buffer, np.int8,
                                   total_number_cells, self.cursor)
         else:
-            array = np.frombuffer(self.dmap_buffer, data_type_fmt,
+            # the sized type: 'q' alone is np.longlong, which is not np.int64
+            array = np.frombuffer(self.dmap_buffer,
+                                  np.dtype(data_type_fmt).str,
                                   total_number_cells, self.cursor)
         self.cursor += total_number_cells * data_fmt_bytes
         array = np.reshape(array, shape, order='C')
-- 
2.43.0


From 58994a2be3d25a8c7df8f72c967fd5892eb72688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 10/49] fix: raise MismatchByteError for a string that never
 ends

---
 pydarnio/dmap/dmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 1c98d03..eefb6a2 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -697,13 +697,14 @@ class DmapRead():
             return data
         elif data_type_fmt == 's':
             byte_counter = 0
-            while self.dmap_bytearr[self.cursor + byte_counter] != 0 or \
-                    self.cursor + byte_counter >= self.dmap_end_bytes:
+            while self.cursor + byte_counter < self.dmap_end_bytes and \
+                    self.dmap_bytearr[self.cursor + byte_counter] != 0:
                 # add 1 byte to byte_counter because
                 # a string is a list of chars
                 byte_counter += 1  # 1 is the number of bytes of a char
 
-            self.bytes_check(self.cursor + byte_counter, 'cursor',
+            # the terminating byte must be inside of the buffer as well
+            self.bytes_check(self.cursor + byte_counter + 1, 'cursor',
                              self.dmap_end_bytes, 'Total number of Bytes')
 
             # format byte counter to a string format for unpacking
-- 
2.43.0


From 404ca202b58e813be55a19a6b8e6958745f0a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 11/49] fix: refuse negative dimension sizes of slist

---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index eefb6a2..cd27141 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -567,7 +567,8 @@ class DmapRead():
 
         # slist is the array that holds the range gates that have valid data
         # when qflg is 1
-        if any(x <= 0 for x in array_shape) and array_name != "slist":
+        if any(x < 0 or (x == 0 and array_name != "slist")
+               for x in array_shape):
             message = "Error: Array shape {shape} contains "\
                 "dimension size <= 0."\
                 " Failed at record {rec}".format(shape=array_shape,
-- 
2.43.0


From 7a1e27f6d5b5fba060226a23e342eb8ab609a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 12/49] fix: give the rawrf formats their site fields

---
 pydarnio/borealis/borealis_formats.py | 44 ++++++++-------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c9ba76c..fcaa0f0 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -1685,6 +1685,18 @@ class BorealisRawrfv0_4(BaseFormat):
         """
         return cls.fields.array_types('rawrf')
 
+    @classmethod
+    def site_fields(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        Rawrf is not restructureable, so its fields are not classified as
+        shared or unshared: all of them are site fields.
+        """
+        return list(cls.single_element_types()) + list(cls.array_dtypes())
+
 
 class BorealisRawacfv0_5(BorealisRawacfv0_4):
     """
@@ -2588,38 +2600,6 @@ class BorealisRawrf(BorealisRawrfv0_6):
     """
     fields = BorealisFields
 
-    @classmethod
-    def unshared_fields_dims_array(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_array()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
-            })
-        return unshared_fields_dims
-
-    @classmethod
-    def unshared_fields_dims_site(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_site()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
-            })
-        return unshared_fields_dims
-
 
 # borealis versions
 borealis_version_dict = {
-- 
2.43.0


From b7997c125bdb6d6f75e888eb106a2be6451b5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 13/49] fix: generate the v0.7 data descriptors as bytes

---
 pydarnio/borealis/borealis_formats.py | 32 +++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index fcaa0f0..1f05272 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2502,6 +2502,27 @@ class BorealisBfiq(BorealisBfiqv0_6):
             })
         return unshared_fields_dims
 
+    @classmethod
+    def site_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().site_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda arrays, record_num: np.bytes_(
+            ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'])
+        return fields_generate
+
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antenna_arrays', 'max_num_sequences',
+             'max_num_beams', 'num_samps'])
+        return fields_generate
+
 
 class BorealisAntennasIq(BorealisAntennasIqv0_6):
     """
@@ -2580,6 +2601,17 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
                  arrays['data'].shape[3]], dtype=np.uint32)
         }
 
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antennas', 'max_num_sequences', 'num_samps'])
+        return fields_generate
+
+
 class BorealisRawrf(BorealisRawrfv0_6):
     """
     Class containing Borealis Rawrf data fields and their types for current
-- 
2.43.0


From 4d2dcd6289bbc095bdcdb943f9569aca7e9adb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 14/49] fix: size v0.7 antennas_iq tx_antenna_phases by its own
 length

---
 pydarnio/borealis/borealis_formats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 1f05272..2ebe91d 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2568,7 +2568,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_array()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
+            'tx_antenna_phases': [cls.fields.find_num_antennas_site],
             })
         return unshared_fields_dims
 
@@ -2584,7 +2584,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_site()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
+            'tx_antenna_phases': [lambda arrays, record_num: arrays['tx_antenna_phases'].shape[1]],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From 1c602c3b47f41fc1114110231fbb35c9ba1825f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 15/49] fix: find the largest number of beams over all records

---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 8519dfa..40d6f78 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -612,11 +612,11 @@ class BaseFormat():
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
                             continue
+                        if field == 'beam_nums':
+                            max_num_beams = max(field_shape[0], max_num_beams)
                         # Initialize shape to first record's field dimensions
                         if rec_idx == 0:
                             fields_max_dims[field] = field_shape
-                            if field == 'beam_nums':
-                                max_num_beams = max(field_shape[0], max_num_beams)
                         else:
                             # Update dims to keep largest for all records
                             new_shape = map(lambda dima, dimb: max(dima, dimb),
-- 
2.43.0


From 4d19efa4b4230869a6036cabdf3b28c2ff672559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 16/49] fix: restructure records of which some have an empty
 field

---
 pydarnio/borealis/base_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 40d6f78..4d8e216 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1128,7 +1128,7 @@ class BaseFormat():
                     # dims with a determined max value
                     data_buffer = data_dict[k][field]
                     buffer_shape = data_buffer.shape
-                    index_slice = [slice(0, i) for i in buffer_shape if i != 0]
+                    index_slice = [slice(0, i) for i in buffer_shape]
                     # insert record index at start of array's slice list
                     index_slice.insert(0, rec_idx)
                     index_slice = tuple(index_slice)
-- 
2.43.0


From 98d6de70242d102a4a01942926f9f5165476ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 17/49] fix: repair only pulse phase offsets stored as their
 dimensions

---
 pydarnio/borealis/borealis_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e00fefe..e3aead5 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -624,7 +624,7 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
-        if ppo.shape == (2,):  # The field is broken, was empty when written to file and so was restructured improperly
+        if ppo.shape == (2,) and ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
     @staticmethod
@@ -636,5 +636,5 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
-            if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
+            if ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From 825283ffaadf6bb6d19ccbfe84f7e49bc66d4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 18/49] fix: restructure one-dimensional pulse phase offsets
 whole

---
 pydarnio/borealis/borealis_formats.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 2ebe91d..0f96696 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2112,11 +2112,13 @@ class BorealisBfiqv0_6(BorealisBfiqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   -1 if arrays['pulse_phase_offset'].ndim < 2
+                                   else
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if arrays['pulse_phase_offset'].ndim == 2
                                    else
                                    list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+                                        + arrays['pulse_phase_offset'].shape[2:])],
             })
         return unshared_fields_dims
 
@@ -2185,11 +2187,13 @@ class BorealisAntennasIqv0_6(BorealisAntennasIqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   -1 if arrays['pulse_phase_offset'].ndim < 2
+                                   else
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if arrays['pulse_phase_offset'].ndim == 2
                                    else
                                    list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+                                        + arrays['pulse_phase_offset'].shape[2:])],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From dbb350ea967158815fe2014b5bdfe3e89d1843e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 19/49] fix: check two-dimensional pulse phase offsets before
 conversion

---
 pydarnio/borealis/borealis_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 77fae9a..1f4125d 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -398,7 +398,7 @@ class BorealisConvert(BorealisRead):
                                                   record['pulses'],
                                                   int(record['tau_spacing'] /
                                                       record['tx_pulse_len'])))
-                if not all([x == 0 for x in record['pulse_phase_offset']]):
+                if not np.all(record['pulse_phase_offset'] == 0):
                     raise borealis_exceptions.\
                             BorealisConvert2IqdatError(
                                 'Increased complexity: Borealis bfiq file '
-- 
2.43.0


From 249401e8ef41695217197498da30ac6b5b12de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 20/49] fix: compare the Borealis version as numbers before
 conversion

---
 pydarnio/borealis/borealis_convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 1f4125d..558709a 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -372,7 +372,7 @@ class BorealisConvert(BorealisRead):
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
 
-                if borealis_major_revision == 0 and borealis_minor_revision <= 5:
+                if int(borealis_major_revision) == 0 and int(borealis_minor_revision) <= 5:
                     # Bfiq generated with borealis v0.5 or older
                     blanked = record['pulses'] * sample_spacing
                 else:
@@ -448,7 +448,7 @@ class BorealisConvert(BorealisRead):
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
 
-                if borealis_major_revision == 0 and borealis_minor_revision <= 5:
+                if int(borealis_major_revision) == 0 and int(borealis_minor_revision) <= 5:
                     # Rawacf generated with borealis v0.5 or older
                     blanked = record['pulses'] * sample_spacing
                 else:
-- 
2.43.0


From ba53e3c046637d0b0c5d1478be32c0c0af81e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 21/49] fix: convert sequence timestamps from seconds, not
 milliseconds

---
 pydarnio/borealis/borealis_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 558709a..5ecac16 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -731,11 +731,11 @@ class BorealisConvert(BorealisRead):
                                    record_dict['range_sep']),
                 'ptab': record_dict['pulses'].astype(np.int16),
                 'ltab': record_dict['lags'].astype(np.int16),
-                # timestamps in ms, convert to seconds and us.
-                'tsc': np.array([np.floor(x/1e3) for x in
+                # timestamps in seconds, convert to seconds and us.
+                'tsc': np.array([round(x * 1e6) // 1000000 for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
-                'tus': np.array([np.fmod(x, 1000.0) * 1e3 for x in
+                'tus': np.array([round(x * 1e6) % 1000000 for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
                 'tatten': np.array([0] * record_dict['num_sequences'],
-- 
2.43.0


From 6e7b1447a811405f185dfd2b5886c97116250350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 22/49] fix: refuse an unknown file type in BorealisSiteWrite

---
 pydarnio/borealis/borealis_site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 833b064..f30320e 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -343,12 +343,12 @@ class BorealisSiteWrite():
         BorealisVersionError
             Borealis software version format does not exist in pyDARNio
         """
+        self.filename = filename
         self._records = borealis_records
         if borealis_filetype not in ['bfiq', 'antennas_iq', 'rawacf', 'rawrf']:
             raise borealis_exceptions.BorealisFileTypeError(
                 self.filename, borealis_filetype)
         self.borealis_filetype = borealis_filetype
-        self.filename = filename
         self.compression = hdf5_compression
         self._record_names = sorted(list(borealis_records.keys()))
 
-- 
2.43.0


From cf58f098910ee4b42706e33978f54b80f008d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 23/49] fix: refuse data without a record hash in
 BorealisSiteWrite

---
 pydarnio/borealis/borealis_site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index f30320e..79446ee 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -358,7 +358,8 @@ class BorealisSiteWrite():
             version = self._records[self.record_names[0]][
                 'borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # get only vX.Y, ignore patch revision
-        except (IndexError, ValueError) as err:
+        except (AttributeError, IndexError, KeyError, TypeError,
+                ValueError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
-- 
2.43.0


From 4b947811fbf8689b5120f3247b421b64526c785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 24/49] fix: refuse data without a text hash in
 BorealisArrayWrite

---
 pydarnio/borealis/borealis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 0b15680..b0dba09 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -329,7 +329,7 @@ class BorealisArrayWrite():
         try:
             version = self._arrays['borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (AttributeError, KeyError, TypeError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine write version (data may be site style): {}'
-- 
2.43.0


From 40e199295a68c82417e195bd8174103b71df1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 25/49] fix: refuse to restructure a file without records

---
 pydarnio/borealis/borealis_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e3aead5..afaf9a3 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -600,7 +600,7 @@ class BorealisUtilities():
                     first_rec = f[records[0]]
                     borealis_git_hash = first_rec.attrs['borealis_git_hash']\
                                             .decode('utf-8')
-            except KeyError as err:
+            except (IndexError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
-- 
2.43.0


From 434fef914abfb773e9dfe83b63e52f9645c59156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 26/49] fix: refuse to restructure unsupported versions with
 the version error

---
 pydarnio/borealis/borealis_restructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 2846901..96c0e22 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -127,6 +127,9 @@ class BorealisRestructure(object):
             get_borealis_structure(self.record_names)
         self._borealis_version = BorealisUtilities.get_borealis_version(
             self.infile_name, self.record_names, self.borealis_structure)
+        if self.software_version not in borealis_formats.borealis_version_dict:
+            raise borealis_exceptions.BorealisVersionError(
+                self.infile_name, self.software_version)
         self._format = borealis_formats.borealis_version_dict[
             self.software_version][self.borealis_filetype]
 
-- 
2.43.0


From 10b00e2830666785bc56e8486115045f0a486769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 27/49] fix: copy a file that already has the requested
 structure

---
 pydarnio/borealis/borealis_restructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 96c0e22..695b8c4 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -34,6 +34,7 @@ see: https://borealis.readthedocs.io/en/master/
 import h5py
 import logging
 import numpy as np
+import shutil
 from datetime import datetime
 from typing import Union
 from collections import OrderedDict
@@ -178,6 +179,7 @@ class BorealisRestructure(object):
             print("File {infile} is already structured in {struct} style."
                   "".format(infile=self.infile_name,
                             struct=self.outfile_structure))
+            shutil.copyfile(self.infile_name, self.outfile_name)
             return
         if self.format.is_restructureable():
             if self.outfile_structure == 'site':
-- 
2.43.0


From 4146ce6503250d80066d651e01dce1bdd98a199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 28/49] fix: report every failure to restructure to arrays

---
 pydarnio/borealis/borealis_restructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 695b8c4..e213455 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -450,7 +450,7 @@ class BorealisRestructure(object):
                                            unshared_fields)
             self.format.write_arrays(self.outfile_name, new_data_dict, self.compression)
 
-        except TypeError as err:
+        except Exception as err:
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from site to array '
                 'style: {}'.format(self.infile_name, self.format.__name__, err)
-- 
2.43.0


From 4685eb740d350d138187f6fe3d01d968c4a499fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 29/49] fix: refuse to overwrite the input file under another
 name

---
 pydarnio/borealis/borealis_convert.py     | 6 +++++-
 pydarnio/borealis/borealis_restructure.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 5ecac16..d593823 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -42,6 +42,7 @@ Update noise values in SDarn fields when these can be calculated.
 """
 import logging
 import numpy as np
+import os
 
 from datetime import datetime
 from typing import Union
@@ -235,7 +236,10 @@ class BorealisConvert(BorealisRead):
                 self.sdarn_filename, self.borealis_filetype,
                 self.__allowed_conversions)
 
-        if self.borealis_filename == self.sdarn_filename:
+        if self.borealis_filename == self.sdarn_filename or \
+                (os.path.exists(self.sdarn_filename) and
+                 os.path.samefile(self.borealis_filename,
+                                  self.sdarn_filename)):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.borealis_filename)
         self._write_to_sdarn()
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index e213455..41a18b5 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -34,6 +34,7 @@ see: https://borealis.readthedocs.io/en/master/
 import h5py
 import logging
 import numpy as np
+import os
 import shutil
 from datetime import datetime
 from typing import Union
@@ -119,7 +120,9 @@ class BorealisRestructure(object):
                 "".format(outfile_structure))
         self.outfile_structure = outfile_structure
 
-        if self.infile_name == self.outfile_name:
+        if self.infile_name == self.outfile_name or \
+                (os.path.exists(self.outfile_name) and
+                 os.path.samefile(self.infile_name, self.outfile_name)):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.infile_name)
 
-- 
2.43.0


From 16fc3629c5fdbedc7b9f05bd9ad40c87c8b78713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 30/49] fix: let BorealisWrite and BorealisArrayWrite be
 printed

---
 pydarnio/borealis/borealis.py       | 10 ++++------
 pydarnio/borealis/borealis_array.py | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 331f9ca..51bfd2c 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -367,18 +367,16 @@ class BorealisWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def borealis_file_structure(self):
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index b0dba09..012ddac 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -349,18 +349,16 @@ class BorealisArrayWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def record_names(self):
-- 
2.43.0


From f83fa478865f22ba92581ac4bda4b442fb4d1bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 31/49] fix: write with zlib, the default compression of array
 files

---
 pydarnio/borealis/base_format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 4d8e216..282bca4 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1378,6 +1378,8 @@ class BaseFormat():
         """
         attribute_types = cls.site_single_element_types()
         dataset_types = cls.site_array_dtypes()
+        if compression == 'zlib':
+            compression = 'gzip'    # the name of zlib compression in h5py
         with h5py.File(filename, 'a') as f:
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
@@ -1413,6 +1415,8 @@ class BaseFormat():
         attribute_types = cls.array_single_element_types()
         dataset_types = cls.array_array_dtypes()
         unshared_fields = cls.unshared_fields()
+        if compression == 'zlib':
+            compression = 'gzip'    # the name of zlib compression in h5py
         with h5py.File(filename, 'a') as f:
             for k, v in arrays.items():
                 if k in attribute_types:
-- 
2.43.0


From 92674eb0e631b7cf8a2109f2a414acedc3925a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 32/49] fix: write non-ASCII Borealis strings

---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 282bca4..279904b 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1386,7 +1386,7 @@ class BaseFormat():
                 for k, v in group_dict.items():
                     if k in attribute_types.keys():
                         if isinstance(v, str):
-                            group.attrs[k] = np.bytes_(v)
+                            group.attrs[k] = np.bytes_(v.encode('utf-8'))
                         else:
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
@@ -1421,7 +1421,7 @@ class BaseFormat():
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-                        f.attrs[k] = np.bytes_(v)
+                        f.attrs[k] = np.bytes_(v.encode('utf-8'))
                     else:
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
-- 
2.43.0


From f363e0cc1976c1c31412606a894ad52fe578787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 33/49] fix: write string arrays of any memory layout

---
 pydarnio/borealis/base_format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 279904b..e0371e1 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1390,6 +1390,7 @@ class BaseFormat():
                         else:
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
+                        v = np.ascontiguousarray(v, dtype=v.dtype.newbyteorder('='))
                         itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
                         dset = group.create_dataset(k, data=v.view(dtype=(np.uint8)),
                                                     compression=compression)
@@ -1425,6 +1426,7 @@ class BaseFormat():
                     else:
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
+                    v = np.ascontiguousarray(v, dtype=v.dtype.newbyteorder('='))
                     itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
                     dset = f.create_dataset(k, data=v.view(dtype=(np.uint8)), compression=compression)
                     dset.attrs['strtype'] = b'unicode'
-- 
2.43.0


From 8401364a93babacb29984a19cccd2e10fe549321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 34/49] fix: report values without a shape or dtype as wrongly
 typed

---
 pydarnio/borealis/borealis_utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index afaf9a3..d4d69fd 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -263,12 +263,15 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(record[param]) !=
                                  attributes_type_dict[param] and
-                                 record[param].shape is not None}
+                                 getattr(record[param], 'shape', ())
+                                 is not None}
 
         incorrect_types_check.update({param: 'np.ndarray of ' +
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
-                                      if record[param].dtype.type !=
+                                      if not isinstance(record[param],
+                                                        np.ndarray) or
+                                      record[param].dtype.type !=
                                       datasets_type_dict[param]})
         if len(incorrect_types_check) > 0:
             raise borealis_exceptions.BorealisDataFormatTypeError(
@@ -323,7 +326,8 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(file_data[param]) !=
                                  attributes_type_dict[param] and
-                                 file_data[param].shape is not None}
+                                 getattr(file_data[param], 'shape', ())
+                                 is not None}
 
         datasets_type_dict_keys = sorted(list(datasets_type_dict.keys()))
         np_array_types = [isinstance(file_data[param], np.ndarray) for param in
-- 
2.43.0


From 4ab586199aaff31b7f9298f1fb8d5a1e67e710cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 35/49] fix: refuse text arrays in numeric fields of array data

---
 pydarnio/borealis/borealis_utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index d4d69fd..cbc402a 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -348,8 +348,10 @@ class BorealisUtilities():
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
                                       if file_data[param].dtype.type !=
-                                      datasets_type_dict[param] and
-                                      file_data[param].dtype.type != np.str_})
+                                      datasets_type_dict[param] and not
+                                      (file_data[param].dtype.type == np.str_
+                                       and issubclass(datasets_type_dict[param],
+                                                      (str, bytes)))})
         if 'pulse_phase_offset' in incorrect_types_check.keys():
             if file_data['pulse_phase_offset'].dtype.type == np.int64 and file_data['pulse_phase_offset'].shape == (2,):
                 incorrect_types_check.pop('pulse_phase_offset')     # This field is problematic, hack to ignore
-- 
2.43.0


From d72445c0ac0b0e77176de0384ba4ff76bc0cf961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 36/49] fix: restructure empty, long and non-ASCII per-record
 strings

---
 pydarnio/borealis/base_format.py          |  5 +++--
 pydarnio/borealis/borealis_restructure.py | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index e0371e1..7c3d385 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1104,8 +1104,9 @@ class BaseFormat():
                 datatype = cls.array_dtypes()[field]
             if datatype == str:
                 # unicode type needs to be explicitly set to have
-                # multiple chars (256)
-                datatype='|U256'
+                # multiple chars (256, or more for longer strings)
+                datatype = '|U{}'.format(max([256] + [
+                    len(record[field]) for record in data_dict.values()]))
             empty_array = np.empty(array_dims, dtype=datatype)
             # Some indices may not be filled due to dimensions that are maximum values (num_sequences, etc. can change
             # between records), so they are initialized with a known value first.
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 41a18b5..5901f6f 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -444,7 +444,18 @@ class BorealisRestructure(object):
                             # place data buffer in the correct place
                             empty_array[index_slice] = data_buffer
                         else:  # not an array, num_records is the only dimension
-                            empty_array[rec_idx] = data_dict[field]
+                            value = data_dict[field]
+                            if field in self.format.single_string_fields():
+                                if isinstance(value, h5py.Empty):
+                                    value = ''
+                                elif isinstance(value, bytes):
+                                    value = value.decode('utf-8')
+                                if len(value) > empty_array.dtype.itemsize // 4:
+                                    # longer than the characters set above
+                                    empty_array = empty_array.astype(
+                                        '|U{}'.format(len(value)))
+                                    new_data_dict[field] = empty_array
+                            empty_array[rec_idx] = value
 
             attribute_types = self.format.array_single_element_types()
             dataset_types = self.format.array_array_dtypes()
-- 
2.43.0


From ffa2d47b68821731bf22f50885d8663e82be86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 37/49] fix: keep the field name of DmapCharError as given

---
 pydarnio/exceptions/dmap_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/exceptions/dmap_exceptions.py b/pydarnio/exceptions/dmap_exceptions.py
index b02399e..c5a243d 100644
--- a/pydarnio/exceptions/dmap_exceptions.py
+++ b/pydarnio/exceptions/dmap_exceptions.py
@@ -65,7 +65,7 @@ class DmapCharError(Exception):
         Record number the error was raised at
     """
     def __init__(self, data_name: str, rec_num: int):
-        self.data_name = data_name,
+        self.data_name = data_name
         self.rec_num = rec_num
         self.message = "Error: For field {field} at record number"\
             " {rec_num} is"\
-- 
2.43.0


From e819a6ce47b492379e171daf3c7c5204b403160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 38/49] fix: refuse to read a hash that is not text with the
 structure error

---
 pydarnio/borealis/borealis_array.py     | 2 +-
 pydarnio/borealis/borealis_site.py      | 2 +-
 pydarnio/borealis/borealis_utilities.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 012ddac..156d85b 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -118,7 +118,7 @@ class BorealisArrayRead():
             with h5py.File(self.filename, 'r') as f:
                 full_version = f.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (AttributeError, KeyError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine read version (file may be site style) {}'
diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 79446ee..74e2e18 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -127,7 +127,7 @@ class BorealisSiteRead():
                 first_rec = f[self._record_names[0]]
                 full_version = first_rec.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except (IndexError, KeyError) as err:
+        except (AttributeError, IndexError, KeyError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index cbc402a..4b1ac93 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -594,7 +594,7 @@ class BorealisUtilities():
             try:
                 with h5py.File(filename, 'r') as f:
                     borealis_git_hash = f.attrs['borealis_git_hash'].decode('utf-8')
-            except KeyError as err:
+            except (AttributeError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
@@ -606,7 +606,7 @@ class BorealisUtilities():
                     first_rec = f[records[0]]
                     borealis_git_hash = first_rec.attrs['borealis_git_hash']\
                                             .decode('utf-8')
-            except (IndexError, KeyError) as err:
+            except (AttributeError, IndexError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
-- 
2.43.0


From fc31b6d6bcbf438cfe7aed96779be1fd03e10857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 39/49] fix: report text pulse phase offsets as wrongly typed

---
 pydarnio/borealis/borealis_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 4b1ac93..1da0220 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -630,7 +630,7 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
-        if ppo.shape == (2,) and ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
+        if isinstance(ppo, np.ndarray) and ppo.shape == (2,) and ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
     @staticmethod
@@ -642,5 +642,5 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
-            if ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
+            if isinstance(ppo, np.ndarray) and ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From d378426c68b3fa8f9a216b2e3db5af1f9a3ac2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 40/49] fix: find the interferometer in v0.7 antenna array
 names

---
 pydarnio/borealis/borealis_convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index d593823..8218431 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -701,7 +701,8 @@ class BorealisConvert(BorealisRead):
                 'nrang': np.int16(record_dict['num_ranges']),
                 'frang': np.int16(round(record_dict['first_range'])),
                 'rsep': np.int16(round(record_dict['range_sep'])),
-                'xcf': np.int16('intf' in record_dict['antenna_arrays_order']),
+                'xcf': np.int16('intf' in record_dict['antenna_arrays_order'].
+                                astype(np.str_)),
                 'tfreq': np.int16(record_dict['freq']),
                 # mxpwr filler; cannot specify this information
                 'mxpwr': np.int32(-1),
-- 
2.43.0


From d48a0ba2b8279e807386ca10e5a3dc3503e5bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 41/49] fix: name the file in DmapTypeError

---
 pydarnio/exceptions/dmap_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/exceptions/dmap_exceptions.py b/pydarnio/exceptions/dmap_exceptions.py
index c5a243d..349eacb 100644
--- a/pydarnio/exceptions/dmap_exceptions.py
+++ b/pydarnio/exceptions/dmap_exceptions.py
@@ -214,7 +214,7 @@ class DmapTypeError(Exception):
             " structures: DmapScalar, DmapArray."\
             " Please make sure you have the correct"\
             " Data Structure. Failed at record "\
-            "{rec}".format(data_type=self.data_type,
+            "{rec}. Filename: {filename}".format(data_type=self.data_type,
                            filename=self.filename,
                            rec=self.rec_num)
         Exception.__init__(self, self.message)
-- 
2.43.0


From 1b9dfe473a4342fe563c1ed69eda65fb7afe68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 42/49] fix: leave no part of a failed write in Borealis files

---
 pydarnio/borealis/base_format.py | 52 ++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 7c3d385..5c4988f 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -39,8 +39,10 @@ Notes
 import copy
 import h5py
 import numpy as np
+import os
 
 from collections import OrderedDict
+from contextlib import contextmanager
 from datetime import datetime
 from typing import Callable, List
 
@@ -1360,6 +1362,35 @@ class BaseFormat():
 
         return arrays
 
+    @staticmethod
+    @contextmanager
+    def _output_file(filename: str):
+        """
+        Open a file to add data to it. If that fails the file is left without
+        any of the new data, or removed if it did not exist before.
+
+        Parameters
+        ----------
+        filename: str
+            Name of the file to write to.
+        """
+        exists = os.path.exists(filename)
+        try:
+            with h5py.File(filename, 'a') as f:
+                names, attributes = set(f.keys()), set(f.attrs.keys())
+                try:
+                    yield f
+                except BaseException:
+                    for name in set(f.keys()) - names:
+                        del f[name]
+                    for name in set(f.attrs.keys()) - attributes:
+                        del f.attrs[name]
+                    raise
+        except BaseException:
+            if not exists and os.path.exists(filename):
+                os.remove(filename)
+            raise
+
     @classmethod
     def write_records(cls, filename: str, records: OrderedDict, compression: str):
         """
@@ -1376,12 +1407,21 @@ class BaseFormat():
             Dictionary containing site-formatted fields to write to file.
         compression: str
             Type of compression to use for the HDF5 file.
+
+        Raises
+        ------
+        BorealisStructureError
+            The file exists and is not a site file.
         """
         attribute_types = cls.site_single_element_types()
         dataset_types = cls.site_array_dtypes()
         if compression == 'zlib':
             compression = 'gzip'    # the name of zlib compression in h5py
-        with h5py.File(filename, 'a') as f:
+        with cls._output_file(filename) as f:
+            if any(isinstance(v, h5py.Dataset) for v in f.values()):
+                raise borealis_exceptions.BorealisStructureError(
+                    '{} exists and does not hold site records'
+                    ''.format(filename))
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
                 for k, v in group_dict.items():
@@ -1413,13 +1453,21 @@ class BaseFormat():
             Dictionary containing array-formatted fields to write to file.
         compression: str
             Type of compression to use for the HDF5 file.
+
+        Raises
+        ------
+        BorealisStructureError
+            The file exists and already holds data.
         """
         attribute_types = cls.array_single_element_types()
         dataset_types = cls.array_array_dtypes()
         unshared_fields = cls.unshared_fields()
         if compression == 'zlib':
             compression = 'gzip'    # the name of zlib compression in h5py
-        with h5py.File(filename, 'a') as f:
+        with cls._output_file(filename) as f:
+            if len(f) > 0:
+                raise borealis_exceptions.BorealisStructureError(
+                    '{} exists and already holds data'.format(filename))
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-- 
2.43.0


From 6b465f0108dd0b7b6614355e9c1708cbcffcdc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 43/49] fix: leave no part of a failed restructuring in the
 site file

---
 pydarnio/borealis/borealis_restructure.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 5901f6f..d4aaf22 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -210,6 +210,8 @@ class BorealisRestructure(object):
         """
         attribute_types = self.format.site_single_element_types()
         dataset_types = self.format.array_dtypes()
+        outfile_exists = os.path.exists(self.outfile_name)
+        written_records = list()
         try:
             with h5py.File(self.infile_name, 'r') as f:
 
@@ -300,7 +302,15 @@ class BorealisRestructure(object):
                     # Write the single record to file
                     self.format.write_records(self.outfile_name, record_dict,
                                               self.compression)
+                    written_records.extend(record_dict)
         except Exception as err:
+            # do not leave some of the records as if they were the whole file
+            if written_records and not outfile_exists:
+                os.remove(self.outfile_name)
+            elif written_records:
+                with h5py.File(self.outfile_name, 'a') as f:
+                    for key in written_records:
+                        del f[key]
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from array to site '
                 'style: {}'
-- 
2.43.0


From d7dc2fefeac8d6c43ccfeb42f47017ae66768427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:09 +0000
Subject: [PATCH 44/49] fix: give the arrays of BorealisSiteWrite in the order
 of its record names

---
 pydarnio/borealis/borealis_site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 74e2e18..e0a9e21 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -423,7 +423,9 @@ class BorealisSiteWrite():
 
         if self.format.is_restructureable():
             try:
-                arrays = self.format._site_to_array(self.records)
+                # the arrays are in the order of the record names
+                arrays = self.format._site_to_array(OrderedDict(
+                    (name, self.records[name]) for name in self.record_names))
                 BorealisUtilities.check_arrays(
                     self.filename, arrays,
                     self.format.array_single_element_types(),
-- 
2.43.0


From 2a313d2eda6b974dc34edd6f5d18feb61a004ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:36 +0000
Subject: [PATCH 45/49] fix: restructure pulse phase offsets stored as their
 dimensions

---
 pydarnio/borealis/base_format.py          | 5 +++--
 pydarnio/borealis/borealis_restructure.py | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 5c4988f..640fd9f 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -609,8 +609,9 @@ class BaseFormat():
                                 num_pulses = site_file[record_name]['pulses'].size
                                 if actual_size != num_sequences * num_pulses and actual_size != 0:
                                     if actual_size == 1:    # This is the special case
-                                        field_shape = (0,)
-                                    else:
+                                        # it is read as no phase offset for any pulse
+                                        field_shape = (num_pulses,)
+                                    elif field_shape != (num_pulses,):
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
                             continue
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index d4aaf22..abf7584 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -356,6 +356,9 @@ class BorealisRestructure(object):
                     for field in self.format.bool_types():
                         rec_dict[field] = f[record_name].attrs[field]
 
+                    # as when the records are read
+                    BorealisUtilities.pulse_phase_offset_site_fix({'tmp': rec_dict})
+
                     # some fields are linear in site style and need to be reshaped.
                     # Pass in record nested in a dictionary, as
                     # reshape_site_arrays is for dealing with key, val pairs of
-- 
2.43.0


From 120584de6e17a8ab3ebd56590223499df531840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 46/49] fix: restructure array files with an empty pulse phase
 offset stored as its dimensions

---
 pydarnio/borealis/borealis_restructure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index abf7584..49e8300 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -291,7 +291,14 @@ class BorealisRestructure(object):
                             index_slice = [slice(0, i) for i in site_dims if i != -1]
                             index_slice.insert(0, record_num)
                             index_slice = tuple(index_slice)
-                            record_dict[field] = f[field][index_slice]
+                            if field == 'pulse_phase_offset' and \
+                                    f[field].dtype == np.int64 and \
+                                    f[field].shape == (2,):
+                                # it was empty, so its dimensions are stored
+                                record_dict[field] = np.zeros(
+                                    0, dtype=np.float32)
+                            else:
+                                record_dict[field] = f[field][index_slice]
 
                     # Wrap in another dict to use the format method
                     record_dict = OrderedDict({key: record_dict})
-- 
2.43.0


From d4b5b50029c3f34ee60116d103ae1a76c91d1435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 47/49] fix: write numpy long long values as 64-bit integers

---
 pydarnio/utils/conversions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/utils/conversions.py b/pydarnio/utils/conversions.py
index 281b481..88df8cb 100644
--- a/pydarnio/utils/conversions.py
+++ b/pydarnio/utils/conversions.py
@@ -39,10 +39,12 @@ FORMAT_CONVERSION = {np.int8: 'c',  # RST defines char as an int8 in rtypes.h
                      np.float64: 'd',
                      str: 's',
                      np.int64: 'q',
+                     np.longlong: 'q',  # not always the type np.int64
                      np.uint8: 'B',
                      np.uint16: 'H',
                      np.uint32: 'I',
-                     np.uint64: 'Q'}
+                     np.uint64: 'Q',
+                     np.ulonglong: 'Q'}
 
 DMAP_CASTING_TYPES = {'c': np.int8,  # RST defined char
                       'h': np.int16,  # Short
-- 
2.43.0


From 7d00c56638ea2a01a7b99a77e75b5944079f54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 48/49] fix: leave no part of an interrupted restructuring in
 the site file

---
 pydarnio/borealis/borealis_restructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 49e8300..14da068 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -310,7 +310,7 @@ class BorealisRestructure(object):
                     self.format.write_records(self.outfile_name, record_dict,
                                               self.compression)
                     written_records.extend(record_dict)
-        except Exception as err:
+        except BaseException as err:
             # do not leave some of the records as if they were the whole file
             if written_records and not outfile_exists:
                 os.remove(self.outfile_name)
@@ -318,6 +318,8 @@ class BorealisRestructure(object):
                 with h5py.File(self.outfile_name, 'a') as f:
                     for key in written_records:
                         del f[key]
+            if not isinstance(err, Exception):  # such as an interrupt
+                raise
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from array to site '
                 'style: {}'
-- 
2.43.0


From db983883dc156748698234ba6864b0127536b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 49/49] fix: declare pulse phase offsets per record, not
 shared, from v0.6

---
 pydarnio/borealis/borealis_formats.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 0f96696..cc8be15 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -489,6 +489,20 @@ class BorealisFieldsv0_6(BorealisFieldsv0_5):
         })
         return single_element_types
 
+    @classmethod
+    def all_shared_fields(cls):
+        """
+        List of all fields that are shared between records in a site-structured file.
+
+        Notes
+        -----
+        In Borealis v0.6, pulse_phase_offset may change from record to record,
+        so it is an unshared field.
+        """
+        shared = super().all_shared_fields()
+        shared.remove('pulse_phase_offset')
+        return shared
+
 
 class BorealisFields(BorealisFieldsv0_6):
     """
-- 
2.43.0

