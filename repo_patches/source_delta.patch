From b1c84e15f8fae8a0531b9afa84dadcd36183c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 01/30] fix: load logs that are cut within the definitions
 section

A log cut inside its definitions raised struct.error, recorded a partial value
as if it were complete, or (cut inside the first subscription or logged string)
parsed part of the definitions a second time as data.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..8a6b0d6 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -898,10 +898,12 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
+            if len(data) < 3:
                 break
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
+            if len(data) < header.msg_size:
+                break # less data than expected. File is most likely cut
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
-- 
2.43.0


From aa3910b1bef19652863049a5e86fd56c7e2186eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 02/30] fix: accept data messages that carry their trailing
 padding

The maximum size of a data point was computed after the trailing padding
fields were removed, so such messages were dropped as corrupt.
---
 pyulog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 8a6b0d6..b80c36f 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -764,7 +764,8 @@ class ULog(object):
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-                self.field_data.pop()
+                padding = self.field_data.pop()
+                self.max_data_size += ULog._UNPACK_TYPES[padding.type_str][1]
 
         def _parse_nested_type(self, prefix_str, type_name, message_formats):
             # we flatten nested types
-- 
2.43.0


From 29019d35ac0bb75c1bad8e58af470d18e807a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 03/30] fix: keep reading after a malformed message in the data
 section

A message with a known type but a payload that does not fit it raised
struct.error, which was taken for the end of the file: everything after it was
lost, and no corruption was reported. A subscription to an unknown format made
the whole load fail with a KeyError.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index b80c36f..99bc1c5 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1121,7 +1121,7 @@ class ULog(object):
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
 
-                except IndexError:
+                except (IndexError, KeyError, struct.error):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From 289a0cc76025151f723e8021d540468630743ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 04/30] fix: keep track of the file position when resuming at a
 sync sequence

The position was not updated after skipping to a sync sequence, so in a log
with appended data the first part was read past the appended data's offset, and
the appended messages were loaded twice.
---
 pyulog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index 99bc1c5..5b557f3 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1120,6 +1120,7 @@ class ULog(object):
                             # seek back msg_size to look for sync sequence in payload
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
+                        curr_file_pos = self._file_handle.tell()
 
                 except (IndexError, KeyError, struct.error):
                     if not self._file_corrupt:
-- 
2.43.0


From 9af246863a9e2021e8d4d27f3207a0f35228a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 05/30] fix: migrate databases with schema version 1 that
 contain logs

'PRAGMA foreign_keys=off' has no effect inside a transaction, so the foreign
keys stayed enforced and migration 2 failed with an IntegrityError as soon as
the database contained a log.
---
 pyulog/migrate_db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..5a6ad41 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -117,6 +117,10 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # Must be done here, because it has no effect inside of the migration
+        # files' transactions: rebuilding a table that others refer to would
+        # fail, or cascade to their rows.
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From e3651baad9cdd303074f14999cec3c36c29cf956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 06/30] fix: record the schema version in the transaction of
 the migration

After an interruption between the COMMIT of a migration and the following
'PRAGMA user_version', the migration was applied but not recorded, and running
it a second time failed for migrations 3 and 4.
---
 pyulog/migrate_db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 5a6ad41..a52f33a 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,10 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    # Set the version within the transaction, so that an interrupted migration is
+    # either applied and recorded, or neither.
+    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
+    migration_lines += f'PRAGMA user_version = {migration_id};\nCOMMIT;'
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From 0ee47abc4c046ed0520a0e5f2df4d530409add9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 07/30] fix: forget the primary key if saving a log to the
 database fails

After a failed save() the object kept the primary key of the row that was rolled
back: save() could not be retried, and delete() deleted whichever log got that
key in the meantime.
---
 pyulog/db.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..0355717 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -507,6 +507,15 @@ class DatabaseULog(ULog):
             self._pk = pk_from_hash
             raise KeyError(f'Hash {self._sha256sum} already in database with Id={pk_from_hash}')
 
+        try:
+            self._insert(append_json)
+        except BaseException:
+            # The transaction is rolled back, so the primary key is not ours
+            self._pk = None
+            raise
+
+    def _insert(self, append_json):
+        ''' Insert the log into the database, in a single transaction. '''
         with self._db() as con:
             cur = con.cursor()
 
-- 
2.43.0


From 45bf09215af1080136d74fe93802a23dd2354d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 08/30] fix: do not duplicate content when loading from the
 database again

load() added to the content already loaded, so that calling it on a loaded log
(e.g. to get all data after a lazy load) doubled dropouts, logged messages,
parameter changes and format fields.
---
 pyulog/db.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 0355717..00af456 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -220,6 +220,19 @@ class DatabaseULog(ULog):
         if not DatabaseULog.exists_in_db(self._db, self._pk):
             raise KeyError(f'No ULog in database with Id={self._pk}')
 
+        self._appended_offsets = []
+        self._dropouts = []
+        self._logged_messages = []
+        self._logged_messages_tagged = {}
+        self._message_formats = {}
+        self._msg_info_dict = {}
+        self._msg_info_dict_types = {}
+        self._msg_info_multiple_dict = {}
+        self._msg_info_multiple_dict_types = {}
+        self._initial_parameters = {}
+        self._default_parameters = {}
+        self._changed_parameters = []
+
         with self._db() as con:
             cur = con.cursor()
 
-- 
2.43.0


From 8998f573df1ddf1158b8e66b52e21cccab366af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 09/30] fix: hash an open file from its start, and leave its
 position as it was

DatabaseULog(..., log_file=<open file>) always failed, since the file was at its
end when the log was parsed, and the hash of a partly read file did not match.
---
 pyulog/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 00af456..4422c07 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -122,11 +122,14 @@ class DatabaseULog(ULog):
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
+            position = open_file.tell()
+            open_file.seek(0)
             while True:
                 block = open_file.read(4096)
                 file_hash.update(block)
                 if block == b'':
                     break
+            open_file.seek(position)
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From f5b6d0133a698ad50b2d1a25229ca6f7bd5fad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 10/30] fix: time windows that extend past the last sample of a
 topic

ulog2csv and extract_message failed with an IndexError when a topic has no
sample at or after the given start or end time.
---
 pyulog/extract_message.py | 8 ++++++--
 pyulog/ulog2csv.py        | 7 +++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..cb241b6 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -6,6 +6,10 @@ from typing import List
 import numpy as np
 from .core import ULog
 
+def first_index(condition: np.ndarray) -> int:
+    """ Index of the first true element, or the number of elements if there is none """
+    return int(np.argmax(condition)) if condition.any() else len(condition)
+
 def extract_message(ulog_file_name: str, message: str,
                     time_s: "int | None" = None, time_e: "int | None" = None,
                     disable_str_exceptions: bool = False) -> List[dict]:
@@ -38,10 +42,10 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
+    time_s_i = first_index(data.data['timestamp'] >= time_s * 1e6) \
             if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
+    time_e_i = first_index(data.data['timestamp'] >= time_e * 1e6) \
             if time_e else len(data.data['timestamp'])
 
     # write the data
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..a008e1d 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -8,9 +8,8 @@ import argparse
 import os
 import re
 
-import numpy as np
-
 from .core import ULog
+from .extract_message import first_index
 
 #pylint: disable=too-many-locals, invalid-name, consider-using-enumerate
 
@@ -131,10 +130,10 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
+            time_s_i = first_index(d.data['timestamp'] >= time_s * 1e6) \
                     if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
+            time_e_i = first_index(d.data['timestamp'] >= time_e * 1e6) \
                     if time_e else len(d.data['timestamp'])
 
             # write the data
-- 
2.43.0


From 7bc8b0ac045279ffbf3d039e95ab6dfb0a715f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 11/30] fix: write char fields with values outside of ASCII

write_ulog raised a ValueError for char fields with a byte >= 0x80, which are
loaded as negative int8 values.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 5b557f3..6246126 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -436,7 +436,7 @@ class ULog(object):
                     # For char type, convert np.int8 into single bytes() object
                     # so that struct.pack can handle it
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_data = bytes([int(field_data) & 0xff])
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From fdb710f39865af5d64a17d243cd67c6ef88e5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 12/30] fix: convert string fields that are not ASCII to CSV

chr() raised a ValueError for bytes >= 0x80, which are loaded as negative int8
values.
---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index a008e1d..fb7f93c 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -53,13 +53,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = bytearray()
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s.append(int(character) & 0xff)
+    return s.decode('utf-8', 'ignore')
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From b7352fc0731ba580ab65db6e3c728fe9da5b9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 13/30] fix: write info messages with array values of any type

They are loaded as bytes, but only uint8_t arrays could be written back; others
raised a KeyError.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 6246126..50d3abd 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -359,7 +359,7 @@ class ULog(object):
         if value_type.startswith('char['):
             value_bytes = bytes(value, 'utf-8')
             data.extend(value_bytes)
-        elif value_type.startswith('uint8_t['):
+        elif value_type not in self._UNPACK_TYPES: # array, stored as bytes
             data.extend(value)
         else:
             code = self._UNPACK_TYPES[value_type][0]
-- 
2.43.0


From fc736ec61a68a6519ee6c4515e7c8959aa2dbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 14/30] fix: index of default parameter types above 1

For bit n the index was 2^n - 1, which is only right for the first two: other
types were not found by their index, and written back as a different type.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 50d3abd..79dfe85 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -833,7 +833,7 @@ class ULog(object):
         while default_types: # iterate over each bit
             def_type = default_types & (~default_types+1)
             default_types ^= def_type
-            def_type -= 1
+            def_type = def_type.bit_length() - 1 # index of the bit
             if def_type not in self._default_parameters:
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
-- 
2.43.0


From 07ced466b979ed1e4e9f75e7c6c5d01e5bd63db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 15/30] fix: ulog_messages with an empty logged message

It failed with an IndexError.
---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From 7810f72986fbd5254c8cf0698a1706bbaf123136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 16/30] fix: load a log from a single state of the database

Every query ran on its own, so if another connection deleted the log during a
load(), the result silently lacked part of the log. The same holds for the
fields of a dataset in get_dataset().
---
 pyulog/db.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 4422c07..e26a8a7 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -238,6 +238,7 @@ class DatabaseULog(ULog):
 
         with self._db() as con:
             cur = con.cursor()
+            cur.execute('BEGIN') # read everything from the same state of the database
 
             # ULog metadata
             cur.execute('''
@@ -253,6 +254,8 @@ class DatabaseULog(ULog):
                 WHERE Id = ?
                 ''', (self._pk,))
             ulog_result = cur.fetchone()
+            if ulog_result is None:
+                raise KeyError(f'No ULog in database with Id={self._pk}')
             self._file_version = ulog_result[0]
             self._start_timestamp = ulog_result[1]
             self._last_timestamp = ulog_result[2]
@@ -461,6 +464,8 @@ class DatabaseULog(ULog):
             return existing_dataset
 
         with db_context:
+            if db_cursor is None:
+                cur.execute('BEGIN') # read everything from the same state of the database
             cur.execute('''
                 SELECT Id, TimestampIndex, MessageId
                 FROM ULogDataset
-- 
2.43.0


From 7fb88958cbfc2aa77e9d72eca638418078988e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 17/30] fix: load parameters and info values that are NaN from
 the database

sqlite stores NaN as NULL, so they were loaded as None.
---
 pyulog/db.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index e26a8a7..156ced8 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -369,7 +369,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = value
+                self._msg_info_dict[key] = self._null_to_nan(value)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -403,7 +403,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, value in cur.fetchall():
-                self._initial_parameters[key] = value
+                self._initial_parameters[key] = self._null_to_nan(value)
 
             # _default_parameters
             cur.execute('''
@@ -414,7 +414,7 @@ class DatabaseULog(ULog):
             for default_type, key, value in cur.fetchall():
                 if default_type not in self._default_parameters:
                     self._default_parameters[default_type] = {}
-                self._default_parameters[default_type][key] = value
+                self._default_parameters[default_type][key] = self._null_to_nan(value)
 
             # changed_parameters
             cur.execute('''
@@ -423,11 +423,16 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for timestamp, key, value in cur.fetchall():
-                self._changed_parameters.append((timestamp, key, value))
+                self._changed_parameters.append((timestamp, key, self._null_to_nan(value)))
 
             cur.close()
         self._lazy_loaded = lazy
 
+    @staticmethod
+    def _null_to_nan(value):
+        ''' sqlite stores NaN as NULL, and there are no other NULL values '''
+        return float('nan') if value is None else value
+
     def get_dataset(self, name, multi_instance=0, lazy=False, db_cursor=None, caching=True):
         '''
         Access a specific dataset and its data series from the database.
-- 
2.43.0


From 2a814c8d6a9ccd2e924209874410d5af1911bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 18/30] fix: do not let loads in other threads change how
 strings are parsed

disable_str_exceptions was kept in a class attribute, so starting a load in one
thread changed it for the ones in progress in other threads.
---
 pyulog/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 79dfe85..d6ef125 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -3,6 +3,7 @@
 import struct
 import copy
 import sys
+import threading
 import contextlib
 import numpy as np
 #pylint: disable=too-many-instance-attributes, unused-argument, missing-docstring
@@ -76,8 +77,9 @@ class ULog(object):
     _unpack_ushort = struct.Struct('<H').unpack
     _unpack_uint64 = struct.Struct('<Q').unpack
 
-    # when set to True disables string parsing exceptions
-    _disable_str_exceptions = False
+    # when disable_str_exceptions is set to True, disables string parsing
+    # exceptions (per thread, as logs can be loaded in several threads)
+    _string_parsing = threading.local()
 
     @staticmethod
     def parse_string(cstr):
@@ -86,7 +88,7 @@ class ULog(object):
         parametrized exception handling
         """
         ret = ''
-        if _RUNNING_PYTHON3 and ULog._disable_str_exceptions:
+        if _RUNNING_PYTHON3 and getattr(ULog._string_parsing, 'disable_str_exceptions', False):
             ret = _parse_string(cstr, 'ignore')
         else:
             ret = _parse_string(cstr)
@@ -132,7 +134,7 @@ class ULog(object):
         self._has_sync = True # set to false when first file search for sync fails
         self._sync_seq_cnt = 0 # number of sync packets found in file
 
-        ULog._disable_str_exceptions = disable_str_exceptions
+        ULog._string_parsing.disable_str_exceptions = disable_str_exceptions
 
         if log_file is not None:
             self._load_file(log_file, message_name_filter_list, parse_header_only)
-- 
2.43.0


From ad74367fbac1ebf236d9239416e606ebe8ff535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 19/30] fix: load appended data of topics that are already
 subscribed

The subscriptions were dropped after each part of a log with appended data, so
data messages in a later part were ignored, and reported as corruption.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index d6ef125..f6fd16c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -880,6 +880,7 @@ class ULog(object):
 
         # read the whole file, or the rest if data appended
         self._read_file_data(message_name_filter_list)
+        self._finalize_data()
 
         self._file_handle.close()
         del self._file_handle
@@ -1132,7 +1133,8 @@ class ULog(object):
         except struct.error:
             pass #we read past the end of the file
 
-        # convert into final representation
+    def _finalize_data(self):
+        """ convert the data of all subscriptions into the final representation """
         while self._subscriptions:
             _, value = self._subscriptions.popitem()
             if len(value.buffer) > 0: # only add if we have data
-- 
2.43.0


From 8b8d858917474876281d2a4dc7c7b32a099d9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 20/30] fix: logs with NaN parameters or info values are equal
 when loaded twice

---
 pyulog/core.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index f6fd16c..ad57bd8 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -505,10 +505,23 @@ class ULog(object):
         if not isinstance(other, ULog):
             return NotImplemented
         return all(
-            self_value == getattr(other, field)
+            self._values_equal(self_value, getattr(other, field))
             for field, self_value in self.__dict__.items()
         )
 
+    @staticmethod
+    def _values_equal(left, right):
+        """ compare values like ==, except that NaN (which a parameter or info
+        message can contain) is equal to NaN, as it is for the data """
+        if isinstance(left, dict) and isinstance(right, dict):
+            return left.keys() == right.keys() and all(
+                ULog._values_equal(value, right[key]) for key, value in left.items())
+        if isinstance(left, (list, tuple)) and type(left) is type(right):
+            return len(left) == len(right) and all(map(ULog._values_equal, left, right))
+        if isinstance(left, float) and isinstance(right, float) and left != left: # pylint: disable=comparison-with-itself
+            return right != right # pylint: disable=comparison-with-itself
+        return left == right
+
     class Data(object):
         """ contains the final topic data for a single topic and instance """
 
-- 
2.43.0


From 780596d872bc24e2757b6be2b714081e139b7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 21/30] fix: save data with negative infinity as JSON

---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 156ced8..b6945d7 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -605,7 +605,7 @@ class DatabaseULog(ULog):
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                         values_json = str(
                             dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        ).replace('nan', 'null').replace('-inf', 'null').replace('inf', 'null').replace("'", '"')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From db7fa7bfdf7f1a56e09d134fdc9a6092fcd6fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 22/30] fix: write logs that were read from a file with
 DatabaseULog

---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index b6945d7..8b29e4d 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -174,7 +174,7 @@ class DatabaseULog(ULog):
 
         self._pk = primary_key
         self._db = db_handle
-        self._lazy_loaded = lazy
+        self._lazy_loaded = lazy and log_file is None
         if log_file is not None:
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
-- 
2.43.0


From f20203cd8d5b0d33de93fc61e77eb17f6292b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 23/30] fix: quote strings in CSV files that contain the
 delimiter or line breaks

---
 pyulog/ulog2csv.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index fb7f93c..bac7301 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -61,6 +61,12 @@ def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_ind
         s.append(int(character) & 0xff)
     return s.decode('utf-8', 'ignore')
 
+def quote_string(s: str, delimiter: str) -> str:
+    """ Quote a string if it would be ambiguous in a CSV file otherwise """
+    if any(c in s for c in (delimiter, '"', '\n', '\r')):
+        return '"' + s.replace('"', '""') + '"'
+    return s
+
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
     """
@@ -142,7 +148,7 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
                 for k in range(len(data_keys)):
                     if data_keys[k] in string_array_sizes: # string
                         s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
-                        csvfile.write(s)
+                        csvfile.write(quote_string(s, delimiter))
                     else:
                         csvfile.write(str(d.data[data_keys[k]][i]))
                     if k != last_elem:
-- 
2.43.0


From 160799a8d82f1cdddd9e90118c019f9a9fc829d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 24/30] fix: convert logs with flight modes above 17 to KML

---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index a3f8fcb..346cfd2 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -51,7 +51,7 @@ def _kml_default_colors(x):
                   simplekml.Color.lawngreen, simplekml.Color.indianred, simplekml.Color.hotpink,
                   simplekml.Color.bisque, simplekml.Color.cyan, simplekml.Color.darksalmon,
                   simplekml.Color.deepskyblue, simplekml.Color.lime, simplekml.Color.orchid]
-    return colors_arr[x]
+    return colors_arr[x % len(colors_arr)]
 
 
 
-- 
2.43.0


From b25babfbfed0719543c6c6fbe1c8a8f7e99eb7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 25/30] fix: convert char fields with values outside of ASCII
 to ROS2

---
 pyulog/ulog2ros2bag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 08f3183..9071d72 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -357,6 +357,10 @@ def ros2ify_value(field_name: str, value, MsgType: object):
     if value_type == np.int8 and ros2_type.startswith("bool"):
         return bool(value)
 
+    # ROS2 represents char as uint8
+    if value_type == np.int8 and ros2_type.startswith(("uint8", "char")):
+        return value.item() & 0xFF
+
     return value.item()
 
 
-- 
2.43.0


From 57d13efa0d40e0937485a91085805deacfb4e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 26/30] fix: show multi info messages with numbers

---
 pyulog/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/info.py b/pyulog/info.py
index 129bc6f..4512ee5 100644
--- a/pyulog/info.py
+++ b/pyulog/info.py
@@ -97,7 +97,7 @@ def main():
                     print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
                 else:
                     print("# {} {}:".format(message, i))
-                    print(separator.join(m))
+                    print(separator.join(str(item) for item in m))
         else:
             print("message {} not found".format(message))
     else:
-- 
2.43.0


From 9c4966c2e7c2f64118ff41ee7f7afbb678c3f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 27/30] fix: do not return NaN for the pitch of vehicles that
 point straight up

---
 pyulog/px4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 71490cd..2565861 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -93,7 +93,8 @@ class PX4ULog(object):
             q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
             roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                               1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
-            pitch = np.arcsin(2.0 * (q[0] * q[2] - q[3] * q[1]))
+            # rounding can exceed the domain of arcsin when pointing straight up or down
+            pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
             message_data.data['roll'+field_name_suffix] = roll
-- 
2.43.0


From 0b6720bbf2eaf99073dc4b5418b7d4525d3b5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 28/30] fix: compare rosbag2_py versions by number, not as text

"0.9.2" and "0.3.11" were taken for newer than "0.25.0", and "0.100.0" for older.
---
 pyulog/ulog2ros2bag.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 9071d72..149e9a5 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -290,7 +290,7 @@ def rosbag_topicmetadata_uses_id():
     rosbag2_py PR #1538 adds a parameter to TopicMetadata.__init__() for a topic ID,
     breaking the interface. This attempts to add compability with both versions.
     """
-    return version("rosbag2_py") >= "0.25.0"
+    return rosbag_version() >= (0, 25, 0)
 
 
 def rosbag_write_uses_seqnum():
@@ -299,7 +299,12 @@ def rosbag_write_uses_seqnum():
     topic sequence number, breaking the interface. This attempts to add compatibility
     with both versions.
     """
-    return version("rosbag2_py") >= "0.32.0"
+    return rosbag_version() >= (0, 32, 0)
+
+
+def rosbag_version():
+    """rosbag2_py version as numbers, (0, 9, 0) is older than (0, 25, 0)"""
+    return tuple(int(number) for number in re.findall(r"\d+", version("rosbag2_py"))[:3])
 
 
 def calc_msgtype(topic_name: str) -> str | None:
-- 
2.43.0


From f15f1a877f327d26c8bfb463faa9eae7d324d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 29/30] fix: keep message formats without fields when a log is
 loaded from the database

---
 pyulog/db.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 8b29e4d..031d380 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -347,20 +347,21 @@ class DatabaseULog(ULog):
                     field.FieldType,
                     field.ArraySize,
                     field.Name
-                FROM ULogMessageFormat msg JOIN ULogMessageFormatField field
+                FROM ULogMessageFormat msg LEFT JOIN ULogMessageFormatField field
                     ON field.MessageId = msg.Id
                 WHERE ULogId = ?
+                ORDER BY msg.Id, field.rowid
                 ''', (self._pk,))
             for row in cur.fetchall():
                 msg_name = row[0]
                 field_data = row[1:]
-                if msg_name in self._message_formats:
-                    self._message_formats[msg_name].fields.append(field_data)
-                else:
+                if msg_name not in self._message_formats:
                     self._message_formats[msg_name] = DatabaseULog.DatabaseMessageFormat(
                         name=msg_name,
-                        fields=[field_data]
+                        fields=[]
                     )
+                if field_data[0] is not None: # NULL for a format without fields
+                    self._message_formats[msg_name].fields.append(field_data)
 
             # msg_info_dict
             cur.execute('''
-- 
2.43.0


From 2df1e658353e2f05464ea9cd9ebed3b3bf8a489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 30/30] fix: apply every migration once if several processes
 migrate a database

---
 pyulog/migrate_db.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index a52f33a..0476b35 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -10,6 +10,7 @@ down, just up.
 
 import os
 import argparse
+import sqlite3
 from pyulog.db import DatabaseULog
 
 def main():
@@ -93,6 +94,31 @@ def _read_migration_file(migration_id, sql_dir):
     migration_lines += f'PRAGMA user_version = {migration_id};\nCOMMIT;'
     return migration_filename, migration_lines
 
+def _execute_migration(cur, migration_id, migration_lines):
+    '''
+    Execute the migration in a transaction, unless another process did so since
+    the schema version was read.
+    '''
+    cur.execute('BEGIN IMMEDIATE')
+    cur.execute('PRAGMA user_version')
+    (db_schema_version,) = cur.fetchone()
+    if db_schema_version >= migration_id:
+        cur.execute('ROLLBACK')
+        print(f'Migration {migration_id} has already been applied.')
+        return
+
+    # Not with executescript, because it would commit the transaction first.
+    statement = ''
+    for part in migration_lines[len('BEGIN;'):].split(';'):
+        statement += part
+        if sqlite3.complete_statement(statement + ';'):
+            cur.execute(statement)
+            statement = ''
+        else: # the semicolon was in a string, comment or trigger
+            statement += ';'
+    if statement:
+        raise ValueError(f'Incomplete statement in migration {migration_id}: {statement}')
+
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     '''
     Apply database migrations that have not yet been applied.
@@ -131,7 +157,7 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
             if noop:
                 print(migration_lines)
             else:
-                cur.executescript(migration_lines)
+                _execute_migration(cur, migration_id, migration_lines)
 
         cur.close()
         print('Migration done.')
-- 
2.43.0

