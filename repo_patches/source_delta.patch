From 254cd1263189908326b4183378c726f27aa32d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 01/46] fix: accept samples that include their trailing padding

The maximum sample size was computed after the trailing padding fields had
been removed, so that a data message logged with its padding was dropped and
reported as corruption.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..d63e2c9 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -753,7 +753,6 @@ class ULog(object):
             dtype_list = []
             for field in self.field_data:
                 numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
-                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
                 dtype_list.append((field.field_name, numpy_type))
             self.dtype = np.dtype(dtype_list).newbyteorder('<')
 
@@ -761,6 +760,9 @@ class ULog(object):
         def _parse_format(self, message_formats):
             self._parse_nested_type('', self.message_name, message_formats)
 
+            self.max_data_size = sum(ULog._UNPACK_TYPES[field.type_str][1]
+                                     for field in self.field_data)
+
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-- 
2.43.0


From 1a2f8bef19d9ec352c199b602e509cf8fca44761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 02/46] fix: stop reading the definitions at an incomplete
 record

A log cut off inside the header of a definition record failed to load with
struct.error, a record cut off in its payload was decoded anyway, and an
incomplete record with a corrupt header made the reader seek back and forth
over the end of the file forever.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index d63e2c9..a370e68 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -900,10 +900,12 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
+            if len(data) < 3:
                 break
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
+            if len(data) < header.msg_size:
+                break # less data than expected. File is most likely cut
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
-- 
2.43.0


From 246fb3e79c1a75381be49a863ba5a46541e06006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 03/46] fix: keep track of the file position across a search
 for a sync marker

The position compared with the start of the next appended section was not
updated when the reader skipped to a sync marker, so that it read on into
the appended section, whose records were then reported twice.
---
 pyulog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index a370e68..10fcf57 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1121,6 +1121,7 @@ class ULog(object):
                             # seek back msg_size to look for sync sequence in payload
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
+                        curr_file_pos = self._file_handle.tell()
 
                 except IndexError:
                     if not self._file_corrupt:
-- 
2.43.0


From c8b4534c55a6bb4caac7c81e79d6cee327ded86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 04/46] fix: keep subscriptions and their data across appended
 sections

The subscriptions were dropped at the end of each section, so that samples
in an appended section for a topic subscribed before were lost and reported
as corruption, and a renewed subscription replaced the data loaded before or
resulted in a second dataset of the same topic and instance.
---
 pyulog/core.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 10fcf57..674f129 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -839,6 +839,16 @@ class ULog(object):
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
 
+    def _add_subscription(self, msg_add_logged):
+        """ add a _MessageAddLogged object. Data that is already loaded is kept """
+        previous = self._subscriptions.get(msg_add_logged.msg_id)
+        if previous is not None and len(previous.buffer) > 0:
+            if (previous.message_name == msg_add_logged.message_name and
+                    previous.multi_id == msg_add_logged.multi_id):
+                return # continues the same topic
+            self._data_list.append(ULog.Data(previous))
+        self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
+
     def _add_message_info_multiple(self, msg_info):
         """ add a message info multiple to self._msg_info_multiple_dict """
         if msg_info.key in self._msg_info_multiple_dict:
@@ -1032,7 +1042,8 @@ class ULog(object):
                            this offset (smaller than)
         """
 
-        if read_until is None:
+        is_last_section = read_until is None
+        if is_last_section:
             read_until = 1 << 50 # make it larger than any possible log file
 
         try:
@@ -1077,7 +1088,7 @@ class ULog(object):
                                                                 self._message_formats)
                         if (message_name_filter_list is None or
                                 msg_add_logged.message_name in message_name_filter_list):
-                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
+                            self._add_subscription(msg_add_logged)
                         else:
                             self._filtered_message_ids.add(msg_add_logged.msg_id)
                     elif header.msg_type == self.MSG_TYPE_LOGGING:
@@ -1131,6 +1142,9 @@ class ULog(object):
         except struct.error:
             pass #we read past the end of the file
 
+        if not is_last_section:
+            return # appended sections can continue the subscriptions
+
         # convert into final representation
         while self._subscriptions:
             _, value = self._subscriptions.popitem()
-- 
2.43.0


From ddc176d6312d6ad179b532a2ba25bf6f9418ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 05/46] fix: write char fields with values of 128 and above

The arrays hold char fields as signed bytes, and chr() does not accept
negative values (and UTF-8 would have needed two bytes).
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 674f129..3b59a7c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -436,7 +436,7 @@ class ULog(object):
                     # For char type, convert np.int8 into single bytes() object
                     # so that struct.pack can handle it
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_data = field_data.tobytes()
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From 40d78be848990223b524fac451694987bac8c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 06/46] fix: write information values with array types other
 than uint8_t

They are loaded as raw bytes like uint8_t arrays, but writing them raised a
KeyError.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 3b59a7c..00eb535 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -359,7 +359,7 @@ class ULog(object):
         if value_type.startswith('char['):
             value_bytes = bytes(value, 'utf-8')
             data.extend(value_bytes)
-        elif value_type.startswith('uint8_t['):
+        elif isinstance(value, (bytes, bytearray)): # array or non-basic type
             data.extend(value)
         else:
             code = self._UNPACK_TYPES[value_type][0]
-- 
2.43.0


From acf11d2144ebc437c55c81360c2ce303d748cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 07/46] fix: accept an open file as log_file of a DatabaseULog

Computing the checksum left the file at its end, and parsing the log then
failed with "Header too short".
---
 pyulog/db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..da9800d 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -113,12 +113,14 @@ class DatabaseULog(ULog):
         '''
         if log_file is None:
             return None
+        position = None
         if isinstance(log_file, str):
             file_context = open(log_file, 'rb') # pylint: disable=consider-using-with
         elif log_file.closed:
             file_context = open(log_file.name, 'rb')
         else:
             file_context = contextlib.nullcontext(log_file)
+            position = log_file.tell()
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
@@ -127,6 +129,8 @@ class DatabaseULog(ULog):
                 file_hash.update(block)
                 if block == b'':
                     break
+            if position is not None:
+                open_file.seek(position)
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From a3fb7c5e493f1f427bc476fe351c4f20035ee1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 08/46] fix: store negative infinity as null in the JSON column

"-inf" became "-null", which is not valid JSON, and made saving fail.
---
 pyulog/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index da9800d..b873f30 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -574,7 +574,8 @@ class DatabaseULog(ULog):
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                         values_json = str(
                             dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        ).replace('nan', 'null').replace('-inf', 'null') \
+                            .replace('inf', 'null').replace("'", '"')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From 14b8d5bf529f61e1e6f63d65590e40d4ffc5e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 09/46] fix: do not treat a log as stored after saving it
 failed

The primary key was kept although the transaction had been rolled back, so
that the log could not be saved again, and deleting it affected nothing or
another log that had got the key in the meantime.
---
 pyulog/db.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index b873f30..52ceb89 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -492,6 +492,17 @@ class DatabaseULog(ULog):
             )
         return dataset
 
+    @contextlib.contextmanager
+    def _reset_primary_key_on_error(self):
+        '''
+        Forget the primary key of a ULog row that did not make it to the database.
+        '''
+        try:
+            yield
+        except BaseException:
+            self._pk = None
+            raise
+
     def save(self, append_json=False):
         '''
         Save the DatabaseULog to the database. Throws a KeyError if the primary
@@ -511,7 +522,7 @@ class DatabaseULog(ULog):
             self._pk = pk_from_hash
             raise KeyError(f'Hash {self._sha256sum} already in database with Id={pk_from_hash}')
 
-        with self._db() as con:
+        with self._reset_primary_key_on_error(), self._db() as con:
             cur = con.cursor()
 
             # ULog metadata
-- 
2.43.0


From 7b82048a24a660638062e2f56d61ddc087776a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 10/46] fix: migrate databases that contain logs

"PRAGMA foreign_keys=off" has no effect inside a transaction, where the
migration files have it, so that dropping a table that is referenced by
others failed in a database with logs in it.
---
 pyulog/migrate_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..62d8406 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -117,6 +117,9 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # The migration files replace tables that are referenced by others.
+        # Foreign keys can not be switched inside of their transactions.
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From 47ad7ec243d5d412ceeb0b4ca1c43474c19ff06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 11/46] fix: record the schema version in the transaction of
 the migration

A migration interrupted between its COMMIT and the following update of the
version left a migrated database with the old version, and the repeated
migration then failed or migrated the data twice.
---
 pyulog/migrate_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 62d8406..a4d74b1 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,9 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    # The version has to change in the same transaction as the schema
+    migration_lines = migration_lines.strip()[:-len('COMMIT;')] + \
+        f'PRAGMA user_version = {migration_id};\nCOMMIT;\n'
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From 47640babdb6dc147dbd6420d9260db8fbd38ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 12/46] fix: load a log from a single snapshot of the database

The queries ran in a transaction each, so that a log that was deleted by
another connection while it was being loaded came back with parts missing.
---
 pyulog/db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 52ceb89..c8878b6 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -226,6 +226,8 @@ class DatabaseULog(ULog):
 
         with self._db() as con:
             cur = con.cursor()
+            # All queries have to see the same state of the database
+            cur.execute('BEGIN')
 
             # ULog metadata
             cur.execute('''
@@ -241,6 +243,8 @@ class DatabaseULog(ULog):
                 WHERE Id = ?
                 ''', (self._pk,))
             ulog_result = cur.fetchone()
+            if ulog_result is None: # deleted since the check above
+                raise KeyError(f'No ULog in database with Id={self._pk}')
             self._file_version = ulog_result[0]
             self._start_timestamp = ulog_result[1]
             self._last_timestamp = ulog_result[2]
-- 
2.43.0


From bca4dce7b7488efe31ef160bb19bc7cceb50c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 13/46] fix: accept time windows that end or start after the
 last sample

ulog2csv and extract_message raised an IndexError when a topic had no sample
at or after the requested start or end time, and took an end time of 0 for
none.
---
 pyulog/extract_message.py | 9 +++++----
 pyulog/ulog2csv.py        | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..4b4c21d 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -38,11 +38,12 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
-            if time_s else 0
+    num_data_points = len(data.data['timestamp'])
+    time_s_i = np.append(np.where(data.data['timestamp'] >= time_s * 1e6)[0],
+                         num_data_points)[0] if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
-            if time_e else len(data.data['timestamp'])
+    time_e_i = np.append(np.where(data.data['timestamp'] >= time_e * 1e6)[0],
+                         num_data_points)[0] if time_e is not None else num_data_points
 
     # write the data
     for i in range(time_s_i, time_e_i):
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..f73acd1 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -131,11 +131,12 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
-                    if time_s else 0
+            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],
+                                 num_data_points)[0] if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
-                    if time_e else len(d.data['timestamp'])
+            time_e_i = np.append(np.where(d.data['timestamp'] >= time_e * 1e6)[0],
+                                 num_data_points)[0] \
+                    if time_e is not None else num_data_points
 
             # write the data
             last_elem = len(data_keys)-1
-- 
2.43.0


From 4f8f8dfca97631576a05f333e561186637ef6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 14/46] fix: export strings with non-ASCII characters to CSV

chr() does not accept the negative values that the bytes of such characters
are loaded as.
---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index f73acd1..84eac3a 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -54,13 +54,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = bytearray()
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s += character.tobytes()
+    return ULog.parse_string(s)
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From 8348ca1935ae0ad0240c7108d490c6908cfe9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 15/46] fix: quote strings in CSV files where needed

A string with the delimiter, a quote or a line break in it resulted in rows
with the wrong number of cells.
---
 pyulog/ulog2csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index 84eac3a..a749807 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -144,6 +144,8 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
                 for k in range(len(data_keys)):
                     if data_keys[k] in string_array_sizes: # string
                         s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
+                        if any(c in s for c in (delimiter, '"', '\n', '\r')):
+                            s = '"' + s.replace('"', '""') + '"'
                         csvfile.write(s)
                     else:
                         csvfile.write(str(d.data[data_keys[k]][i]))
-- 
2.43.0


From 21e18d2413db69c09e8a3bb10a0b534e6cbac846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 16/46] fix: give a finite pitch angle at gimbal lock

With quaternions in single precision the argument of arcsin can get slightly
larger than 1.
---
 pyulog/px4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 71490cd..070bf94 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -93,7 +93,7 @@ class PX4ULog(object):
             q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
             roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                               1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
-            pitch = np.arcsin(2.0 * (q[0] * q[2] - q[3] * q[1]))
+            pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
             message_data.data['roll'+field_name_suffix] = roll
-- 
2.43.0


From 5f2f7cab0501f0eecbae558600b13c804868bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 17/46] fix: support all flight modes in the KML export

There were colors for the modes 0 to 17 only, and an IndexError for others.
---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index a3f8fcb..346cfd2 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -51,7 +51,7 @@ def _kml_default_colors(x):
                   simplekml.Color.lawngreen, simplekml.Color.indianred, simplekml.Color.hotpink,
                   simplekml.Color.bisque, simplekml.Color.cyan, simplekml.Color.darksalmon,
                   simplekml.Color.deepskyblue, simplekml.Color.lime, simplekml.Color.orchid]
-    return colors_arr[x]
+    return colors_arr[x % len(colors_arr)]
 
 
 
-- 
2.43.0


From 5caa5cdc8712b3501922ef599f654654ee6dcf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 18/46] fix: display empty logged messages of PX4 logs

---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From 422153fce2312e6a2b9e834cd28a206c753de645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 19/46] fix: allow writing a DatabaseULog that was loaded from
 a file

Lazy loading only applies to logs from the database, but is the default, so
that write_ulog refused to write logs that have all of their data.
---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index c8878b6..72f11d7 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -175,7 +175,7 @@ class DatabaseULog(ULog):
 
         self._pk = primary_key
         self._db = db_handle
-        self._lazy_loaded = lazy
+        self._lazy_loaded = lazy and log_file is None
         if log_file is not None:
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
-- 
2.43.0


From 3c3c799038898c715337a583ed9de4cc861fd8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 20/46] fix: continue after a damaged record in the data
 section

A subscription with a damaged topic name made loading fail with a KeyError,
and a record that was too short for its type was taken for the end of the
file, so that everything after it was lost without reporting corruption.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 00eb535..d1aef4c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1134,7 +1134,7 @@ class ULog(object):
                                 self._find_sync(header.msg_size)
                         curr_file_pos = self._file_handle.tell()
 
-                except IndexError:
+                except (IndexError, KeyError, struct.error):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From 6418b157f10f95163e4318c610881cf7f2da2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 21/46] fix: ignore appended data offsets that point backwards

With damaged offsets the data section was read again from there, and its
records were reported more than once.
---
 pyulog/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index d1aef4c..30269e9 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -884,6 +884,10 @@ class ULog(object):
             if self._debug:
                 print('This file has data appended')
             for offset in self._appended_offsets:
+                if offset < self._file_handle.tell():
+                    # invalid offset: do not read data a second time
+                    self._file_corrupt = True
+                    continue
                 self._read_file_data(message_name_filter_list, read_until=offset)
                 self._file_handle.seek(offset)
 
-- 
2.43.0


From ac2684bd54c900f6302e8030f22ebadb7d0a1078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 22/46] fix: load message formats without fields from the
 database

---
 pyulog/db.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 72f11d7..84b856c 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -336,14 +336,19 @@ class DatabaseULog(ULog):
                     field.FieldType,
                     field.ArraySize,
                     field.Name
-                FROM ULogMessageFormat msg JOIN ULogMessageFormatField field
+                FROM ULogMessageFormat msg LEFT JOIN ULogMessageFormatField field
                     ON field.MessageId = msg.Id
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for row in cur.fetchall():
                 msg_name = row[0]
                 field_data = row[1:]
-                if msg_name in self._message_formats:
+                if field_data[0] is None: # format without fields
+                    self._message_formats[msg_name] = DatabaseULog.DatabaseMessageFormat(
+                        name=msg_name,
+                        fields=[]
+                    )
+                elif msg_name in self._message_formats:
                     self._message_formats[msg_name].fields.append(field_data)
                 else:
                     self._message_formats[msg_name] = DatabaseULog.DatabaseMessageFormat(
-- 
2.43.0


From 5ad01ae665452a2ecb27233c6d485c6b209c9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 23/46] fix: loading a log from the database again replaces its
 contents

---
 pyulog/db.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 84b856c..dc50906 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -254,6 +254,20 @@ class DatabaseULog(ULog):
             self._has_sync = ulog_result[6]
             self._sha256sum = ulog_result[7]
 
+            # Nothing may be left from an earlier load
+            self._appended_offsets = []
+            self._dropouts = []
+            self._logged_messages = []
+            self._logged_messages_tagged = {}
+            self._message_formats = {}
+            self._msg_info_dict = {}
+            self._msg_info_dict_types = {}
+            self._msg_info_multiple_dict = {}
+            self._msg_info_multiple_dict_types = {}
+            self._initial_parameters = {}
+            self._default_parameters = {}
+            self._changed_parameters = []
+
             # appended_offsets
             cur.execute('''
                 SELECT Offset
-- 
2.43.0


From 9c1f6edff837ff9da74bda6fbb9d72fa076ec946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 24/46] fix: report deleting a log that is no longer in the
 database

---
 pyulog/db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index dc50906..651a7b4 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -781,6 +781,8 @@ class DatabaseULog(ULog):
                 WHERE Id = ?
             ''', (self._pk,)
             )
+            if cur.rowcount == 0:
+                raise KeyError(f'No ULog in database with Id={self._pk}')
             cur.close()
         self._pk = None
 
-- 
2.43.0


From a321a3ba66d7822c942d8891e20c06070c322833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 25/46] fix: do not save a lazily loaded log without its
 samples

---
 pyulog/db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 651a7b4..00fe766 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -539,6 +539,8 @@ class DatabaseULog(ULog):
 
         if self._pk is not None:
             raise KeyError('Cannot save logs that are already in the database')
+        if self._lazy_loaded:
+            raise ValueError('Cannot save after lazy load because it has no datasets.')
 
         pk_from_hash = DatabaseULog.primary_key_from_sha256sum(self._db, self._sha256sum)
         if pk_from_hash is not None:
-- 
2.43.0


From 55db8b18848cd71b1d6ce8de3b1fb13f1cdf772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 26/46] fix: fetch a dataset from a single snapshot of the
 database

---
 pyulog/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 00fe766..d266353 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -472,6 +472,9 @@ class DatabaseULog(ULog):
             return existing_dataset
 
         with db_context:
+            if db_cursor is None:
+                # Both queries have to see the same state of the database
+                cur.execute('BEGIN')
             cur.execute('''
                 SELECT Id, TimestampIndex, MessageId
                 FROM ULogDataset
-- 
2.43.0


From 7fa8304bdf634f629b98de87e6f54e018b517bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 27/46] fix: no changed parameters among initial or default
 ones with timestamps

---
 pyulog/params.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyulog/params.py b/pyulog/params.py
index be4d422..835cdfe 100644
--- a/pyulog/params.py
+++ b/pyulog/params.py
@@ -60,6 +60,7 @@ def main():
         params = get_defaults(ulog, args.default)
         args.initial = True
 
+    changed_parameters = [] if args.initial else ulog.changed_parameters
     param_keys = sorted(params.keys())
     delimiter = args.delimiter
     output_file = sys.stdout if args.output_filename is None \
@@ -71,7 +72,7 @@ def main():
             if args.timestamps:
                 output_file.write(delimiter)
                 output_file.write(str(params[param_key]))
-                for t, name, value in ulog.changed_parameters:
+                for t, name, value in changed_parameters:
                     if name == param_key:
                         output_file.write(delimiter)
                         output_file.write(str(value))
@@ -80,7 +81,7 @@ def main():
                 output_file.write("timestamp")
                 output_file.write(delimiter)
                 output_file.write('0')
-                for t, name, value in ulog.changed_parameters:
+                for t, name, value in changed_parameters:
                     if name == param_key:
                         output_file.write(delimiter)
                         output_file.write(str(t))
-- 
2.43.0


From 28a90e89a99737fcd97577830b6b241b5de12769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 28/46] fix: show numeric multi-part information

---
 pyulog/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/info.py b/pyulog/info.py
index 129bc6f..4512ee5 100644
--- a/pyulog/info.py
+++ b/pyulog/info.py
@@ -97,7 +97,7 @@ def main():
                     print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
                 else:
                     print("# {} {}:".format(message, i))
-                    print(separator.join(m))
+                    print(separator.join(str(item) for item in m))
         else:
             print("message {} not found".format(message))
     else:
-- 
2.43.0


From a56c1490a2cb5c2cd7e52d37d72b8bac8d8bcfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 29/46] fix: no KML line at the origin without positions

---
 pyulog/ulog2kml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index 346cfd2..1392ed9 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -210,7 +210,7 @@ def _kml_add_position_data(kml, ulog, position_topic_name, colors, style,
         new_linestring.style.linestyle.width = style['line_width']
         return new_linestring
 
-    current_kml_linestring = create_linestring()
+    current_kml_linestring = None # created with the first position
 
     last_t = 0
     for i in range(len(pos_lon)):
@@ -218,6 +218,8 @@ def _kml_add_position_data(kml, ulog, position_topic_name, colors, style,
 
         if (cur_t - last_t)/1e6 > minimum_interval_s: # assume timestamp is in [us]
             pos_data = [pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset]
+            if current_kml_linestring is None:
+                current_kml_linestring = create_linestring()
             current_kml_linestring.coords.addcoordinates([pos_data])
             last_t = cur_t
 
-- 
2.43.0


From 936dc685b8119a71503ef0ed01f95adfe3cbf5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 30/46] fix: skip topics that do not fit into the ROS 2 message
 type

---
 pyulog/ulog2ros2bag.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 08f3183..7d82ea4 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -245,7 +245,7 @@ def convert_ulog2ros2bag(
             re.sub(r"\[\d+\]$", "", data.field_name) for data in ulg_topic.field_data
         ]  # strip array indices
         px4_fields = list(set(px4_fields))  # remove duplicates
-        if not all(px4_field in ros2_fields for px4_field in px4_fields):
+        if not fields_match(ulg_topic, MsgType):
             print(
                 f"W: Message type px4_msgs/msg/{MsgType.__name__} does not match topic"
                 f" '{ulg_topic.name}' in ulog, skipping. Please check your version of px4_msgs."
@@ -285,6 +285,29 @@ def convert_ulog2ros2bag(
     )
 
 
+def fields_match(ulg_topic: ULog.Data, MsgType) -> bool:
+    """Check that each field of the topic fits into the field of the message with that name"""
+    ros2_fields = MsgType.get_fields_and_field_types()
+    float_types = ("float", "double")
+
+    for field in ulg_topic.field_data:
+        array_match = re.match(r"(.*?)\[(\d+)\]", field.field_name)
+        name = array_match.group(1) if array_match else field.field_name
+        if name not in ros2_fields:
+            return False
+
+        ros2_type = re.match(r"(.*?)(?:\[(\d+)\])?$", ros2_fields[name])
+        ros2_base_type, ros2_array_size = ros2_type.groups()
+        if (field.type_str in float_types) != (ros2_base_type in float_types):
+            return False
+        if (array_match is None) != (ros2_array_size is None):
+            return False
+        if array_match and int(array_match.group(2)) >= int(ros2_array_size):
+            return False
+
+    return True
+
+
 def rosbag_topicmetadata_uses_id():
     """
     rosbag2_py PR #1538 adds a parameter to TopicMetadata.__init__() for a topic ID,
-- 
2.43.0


From ab12a46acd85af4936225399b6b313730c5bf483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 31/46] fix: negative char values in ROS 2 messages

---
 pyulog/ulog2ros2bag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 7d82ea4..9f75a89 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -380,6 +380,10 @@ def ros2ify_value(field_name: str, value, MsgType: object):
     if value_type == np.int8 and ros2_type.startswith("bool"):
         return bool(value)
 
+    # ROS2 has unsigned chars
+    if value_type == np.int8 and ros2_type.startswith(("uint8", "char")):
+        return value.item() & 0xFF
+
     return value.item()
 
 
-- 
2.43.0


From 64edcb4c3cf299eb35726d70ca4abebce16413a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 32/46] fix: compare rosbag2_py versions as numbers

---
 pyulog/ulog2ros2bag.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 9f75a89..9dccc66 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -308,12 +308,17 @@ def fields_match(ulg_topic: ULog.Data, MsgType) -> bool:
     return True
 
 
+def rosbag_version() -> tuple[int, ...]:
+    """Major and minor version of rosbag2_py"""
+    return tuple(int(number) for number in version("rosbag2_py").split(".")[:2])
+
+
 def rosbag_topicmetadata_uses_id():
     """
     rosbag2_py PR #1538 adds a parameter to TopicMetadata.__init__() for a topic ID,
     breaking the interface. This attempts to add compability with both versions.
     """
-    return version("rosbag2_py") >= "0.25.0"
+    return rosbag_version() >= (0, 25)
 
 
 def rosbag_write_uses_seqnum():
@@ -322,7 +327,7 @@ def rosbag_write_uses_seqnum():
     topic sequence number, breaking the interface. This attempts to add compatibility
     with both versions.
     """
-    return version("rosbag2_py") >= "0.32.0"
+    return rosbag_version() >= (0, 32)
 
 
 def calc_msgtype(topic_name: str) -> str | None:
-- 
2.43.0


From 20a0629b215eac5b272b115fd51264abdcc03c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 33/46] fix: attitude angles at gimbal lock

---
 pyulog/px4.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 070bf94..293358d 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -96,6 +96,13 @@ class PX4ULog(object):
             pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
+
+            # gimbal lock: only the sum or difference of roll and yaw is defined
+            locked = np.abs(2.0 * (q[0] * q[2] - q[3] * q[1])) > 1.0 - 2e-7
+            roll[locked] = 0.0
+            yaw[locked] = np.arctan2(2.0 * (q[0] * q[3] - q[1] * q[2]),
+                                     1.0 - 2.0 * (q[1] * q[1] + q[3] * q[3]))[locked]
+
             message_data.data['roll'+field_name_suffix] = roll
             message_data.data['pitch'+field_name_suffix] = pitch
             message_data.data['yaw'+field_name_suffix] = yaw
-- 
2.43.0


From d437cd07d32658a4a21525cbb9d4e051f5647a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 34/46] fix: index of default parameter types above the first
 two

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 30269e9..ec91d5b 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -834,7 +834,7 @@ class ULog(object):
         while default_types: # iterate over each bit
             def_type = default_types & (~default_types+1)
             default_types ^= def_type
-            def_type -= 1
+            def_type = def_type.bit_length() - 1
             if def_type not in self._default_parameters:
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
-- 
2.43.0


From 7ab187a1830f57bb9bda450e84877534d49616b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:46 +0000
Subject: [PATCH 35/46] fix: write the parts of multi-part information with
 their own length

All parts of a key were written with the type of the first one, so that
parts of another length were declared with a wrong array size.
---
 pyulog/core.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index ec91d5b..e2865dd 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -299,12 +299,15 @@ class ULog(object):
 
     def _write_info_multiple_message(self, file):
         for base_key, value_sets in self._msg_info_multiple_dict.items():
-            value_type: str = self._msg_info_multiple_dict_types[base_key]
-            key: str = value_type + ' ' + base_key
-
+            value_type = None
             for value_set in value_sets:
                 continued = False
                 for value in value_set:
+                    if value_type is None: # the stored type is the one of the first part
+                        value_type = self._msg_info_multiple_dict_types[base_key]
+                    else: # other parts can have a different length
+                        value_type = self._fit_array_type(value_type, value)
+                    key: str = value_type + ' ' + base_key
                     data = self._make_info_message_data(key, value, value_type, continued)
                     header = struct.pack('<HB', len(data), self.MSG_TYPE_INFO_MULTIPLE)
 
@@ -313,6 +316,15 @@ class ULog(object):
 
                     continued = True
 
+    @staticmethod
+    def _fit_array_type(value_type: str, value) -> str:
+        """ get the array type (e.g. 'char[5]') with the length of the given value """
+        type_name, is_array, _ = value_type.partition('[')
+        if not is_array or type_name not in ULog._UNPACK_TYPES:
+            return value_type
+        size = len(value.encode('utf-8') if isinstance(value, str) else value)
+        return '%s[%d]' % (type_name, size // ULog.get_field_size(type_name))
+
     def _write_initial_parameters(self, file):
         for parameter_name, value in self._initial_parameters.items():
             data = self._make_parameter_data(parameter_name, value)
-- 
2.43.0


From 7e2452feae0ec9c2c366660b33003acbf43c83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 36/46] fix: keep appended data out of the definitions of a log
 interrupted in them

The definitions were read on into the appended sections, so that their
parameter changes and dropouts were lost and the log counted as corrupt.
---
 pyulog/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index e2865dd..a6f2f82 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -927,8 +927,15 @@ class ULog(object):
         while True:
             data = self._file_handle.read(3)
             if len(data) < 3:
+                self._file_handle.seek(-len(data), 1)
                 break
             header.initialize(data)
+            if self.has_data_appended and len(self._appended_offsets) > 0:
+                file_position = self._file_handle.tell()
+                if file_position - 3 <= self._appended_offsets[0] < file_position + header.msg_size:
+                    # the log was interrupted before its data section
+                    self._file_handle.seek(-3, 1)
+                    break
             data = self._file_handle.read(header.msg_size)
             if len(data) < header.msg_size:
                 break # less data than expected. File is most likely cut
-- 
2.43.0


From c61e51efc27c8d99712205c04f212e18c0703291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 37/46] fix: read not-a-number information and parameters back
 from the database

---
 pyulog/db.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index d266353..3480066 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -208,6 +208,14 @@ class DatabaseULog(ULog):
         '''The computed SHA256 digest of the file, stored for later use.'''
         return self._sha256sum
 
+    @staticmethod
+    def _value_from_db(value):
+        '''
+        Convert an information or parameter value read from the database.
+        SQLite has no not-a-number, it is stored as NULL.
+        '''
+        return float('nan') if value is None else value
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -377,7 +385,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = value
+                self._msg_info_dict[key] = self._value_from_db(value)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -411,7 +419,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, value in cur.fetchall():
-                self._initial_parameters[key] = value
+                self._initial_parameters[key] = self._value_from_db(value)
 
             # _default_parameters
             cur.execute('''
@@ -422,7 +430,7 @@ class DatabaseULog(ULog):
             for default_type, key, value in cur.fetchall():
                 if default_type not in self._default_parameters:
                     self._default_parameters[default_type] = {}
-                self._default_parameters[default_type][key] = value
+                self._default_parameters[default_type][key] = self._value_from_db(value)
 
             # changed_parameters
             cur.execute('''
@@ -431,7 +439,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for timestamp, key, value in cur.fetchall():
-                self._changed_parameters.append((timestamp, key, value))
+                self._changed_parameters.append((timestamp, key, self._value_from_db(value)))
 
             cur.close()
         self._lazy_loaded = lazy
-- 
2.43.0


From 548b6989db75699a9d3db9f155410107fc5f6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 38/46] fix: store information values of 2^63 and above in the
 database

---
 pyulog/db.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 3480066..7328477 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -209,11 +209,21 @@ class DatabaseULog(ULog):
         return self._sha256sum
 
     @staticmethod
-    def _value_from_db(value):
+    def _value_to_db(value):
+        '''
+        Convert an information value to be stored in the database. SQLite only
+        supports 64-bit signed integers, larger ones are stored as text.
+        '''
+        return str(value) if isinstance(value, int) and value >= 1 << 63 else value
+
+    @staticmethod
+    def _value_from_db(value, typename=None):
         '''
         Convert an information or parameter value read from the database.
         SQLite has no not-a-number, it is stored as NULL.
         '''
+        if typename == 'uint64_t':
+            return int(value)
         return float('nan') if value is None else value
 
     # pylint: disable=too-many-locals,too-many-branches
@@ -385,7 +395,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = self._value_from_db(value)
+                self._msg_info_dict[key] = self._value_from_db(value, typename)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -706,7 +716,7 @@ class DatabaseULog(ULog):
                 (?, ?, ?, ?)
                 ''', [(
                     key,
-                    value,
+                    self._value_to_db(value),
                     self._msg_info_dict_types[key],
                     self._pk,
                 ) for key, value in self.msg_info_dict.items()])
-- 
2.43.0


From c058ff0a8e754cfb036e75978e671e4a855f1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 39/46] fix: read numeric multi-part information back from the
 database as numbers

---
 pyulog/db.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 7328477..6e3c052 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -226,6 +226,30 @@ class DatabaseULog(ULog):
             return int(value)
         return float('nan') if value is None else value
 
+    @staticmethod
+    def _part_to_db(value):
+        '''
+        Convert a part of multi-part information to be stored in the database,
+        in a column of text: SQLite would shorten floating-point numbers.
+        '''
+        if isinstance(value, (int, float)):
+            return str(int(value)) if isinstance(value, bool) else repr(value)
+        return value
+
+    @classmethod
+    def _part_from_db(cls, value, typename):
+        '''
+        Convert a part of multi-part information read from the database, where
+        numbers are stored as text.
+        '''
+        if typename not in cls._UNPACK_TYPES or not isinstance(value, (str, type(None))):
+            return value
+        convert = {'float': float, 'double': float, 'bool': lambda text: bool(int(text))}
+        try:
+            return convert.get(typename, int)('nan' if value is None else value)
+        except ValueError: # a part of another type than the first one
+            return value
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -420,7 +444,8 @@ class DatabaseULog(ULog):
                         WHERE ListId = ?
                         ORDER BY SeriesIndex
                         ''', (list_id,))
-                    self._msg_info_multiple_dict[key].append([value for (value,) in cur.fetchall()])
+                    self._msg_info_multiple_dict[key].append(
+                        [self._part_from_db(value, typename) for (value,) in cur.fetchall()])
 
             # initial_parameters
             cur.execute('''
@@ -745,7 +770,7 @@ class DatabaseULog(ULog):
                         (?, ?, ?)
                         ''', [(
                             series_index,
-                            value,
+                            self._part_to_db(value),
                             list_id,
                         ) for series_index, value in enumerate(message_list)])
 
-- 
2.43.0


From 91e45e0eabd46b27fc8d9e99dc5b0fcfcc9d6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:10 +0000
Subject: [PATCH 40/46] fix: keep parameter changes and dropouts of logs that
 are written without samples

---
 pyulog/core.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index a6f2f82..23e7029 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -414,17 +414,35 @@ class ULog(object):
             file.write(header)
             file.write(data)
 
+    def _write_empty_subscription(self, file):
+        # The data section has to start with a subscription or a logged message
+        for message_format in self._message_formats.values():
+            if all(field[0] in self._UNPACK_TYPES for field in message_format.fields):
+                data = struct.pack('<BH', 0, 0) + bytes(message_format.name, 'utf-8')
+                file.write(struct.pack('<HB', len(data), self.MSG_TYPE_ADD_LOGGED_MSG))
+                file.write(data)
+                break
+
     def _write_data_section(self, file):
         # Reconstruct all messages in the data section except for those with the type A, S, I, M, Q.
-        items = self._make_data_items()
-        items = items + self._make_logged_message_items()
-        items = items + self._make_tagged_logged_message_items()
-        items = items + self._make_dropout_items()
-        items = items + self._make_changed_param_items()
+        data_items = self._make_data_items()
+        message_items = self._make_logged_message_items()
+        message_items = message_items + self._make_tagged_logged_message_items()
+        other_items = self._make_dropout_items()
+        other_items = other_items + self._make_changed_param_items()
 
         # Sort items by timestamp
+        items = data_items + message_items + other_items
         items.sort(key=lambda x: x[0])
 
+        if not self._data_list and other_items:
+            if message_items:
+                # Without samples the order of messages and other items does not matter
+                message_items.sort(key=lambda x: x[0])
+                items = message_items + other_items
+            else:
+                self._write_empty_subscription(file)
+
         for _, buffer in items:
             file.write(buffer)
 
-- 
2.43.0


From ffa29cc784176e0ca416846e5d142a8215a9a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:10 +0000
Subject: [PATCH 41/46] fix: write samples with exactly the bits that were
 logged

---
 pyulog/core.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 23e7029..ad0d033 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -452,23 +452,17 @@ class ULog(object):
 
         for data_set in data_sets:
             data_set_length = len(data_set.data[data_set.field_data[0].field_name])
+            # Write the values as they are in memory, so that every bit is preserved
+            columns = [np.asarray(data_set.data[field.field_name],
+                                  dtype=np.dtype(self._UNPACK_TYPES[field.type_str][2]).newbyteorder('<'))
+                       for field in data_set.field_data]
             for i_sample in range(data_set_length):
                 timestamp = data_set.data['timestamp'][i_sample]
                 msg_id = struct.pack('<H', data_set.msg_id)
                 data = bytearray()
                 data.extend(msg_id)
-                for field in data_set.field_data:
-                    field_name = field.field_name
-                    field_type = field.type_str
-                    field_encoding = self._UNPACK_TYPES[field_type][0]
-                    field_data = data_set.data[field_name][i_sample]
-
-                    # For char type, convert np.int8 into single bytes() object
-                    # so that struct.pack can handle it
-                    if field_encoding == 'c':
-                        field_data = field_data.tobytes()
-
-                    data.extend(struct.pack('<' + field_encoding, field_data))
+                for column in columns:
+                    data.extend(column[i_sample].tobytes())
 
                 header = struct.pack('<HB', len(data), self.MSG_TYPE_DATA)
                 data_items.append((timestamp, header + data))
-- 
2.43.0


From 35dcd064e01901d3785d8114b65b8a346973758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 42/46] fix: logs with not-a-number parameters or information
 are equal to themselves

---
 pyulog/core.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index ad0d033..e227c44 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -527,10 +527,27 @@ class ULog(object):
         if not isinstance(other, ULog):
             return NotImplemented
         return all(
-            self_value == getattr(other, field)
+            ULog._equal(self_value, getattr(other, field))
             for field, self_value in self.__dict__.items()
         )
 
+    @staticmethod
+    def _equal(left, right):
+        """
+        Compare values or containers of them. In contrast to the == operator
+        not-a-number is equal to itself.
+        """
+        if isinstance(left, float) and isinstance(right, float):
+            return left == right or (left != left and right != right)
+        if isinstance(left, dict) and isinstance(right, dict):
+            return left.keys() == right.keys() and \
+                all(ULog._equal(value, right[key]) for key, value in left.items())
+        if (isinstance(left, list) and isinstance(right, list)) or \
+                (isinstance(left, tuple) and isinstance(right, tuple)):
+            return len(left) == len(right) and \
+                all(ULog._equal(l_value, r_value) for l_value, r_value in zip(left, right))
+        return left == right
+
     class Data(object):
         """ contains the final topic data for a single topic and instance """
 
-- 
2.43.0


From 23575083e6666ef23687de77b5447f0cb350827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 43/46] fix: CSV export of a time window for samples out of
 time order

---
 pyulog/ulog2csv.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index a749807..43a0887 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -130,17 +130,16 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             # write the header
             csvfile.write(delimiter.join(data_keys) + '\n')
 
-            #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],
-                                 num_data_points)[0] if time_s else 0
-            #get the index for row upto the timestamp of the required value
-            time_e_i = np.append(np.where(d.data['timestamp'] >= time_e * 1e6)[0],
-                                 num_data_points)[0] \
-                    if time_e is not None else num_data_points
+            # get the rows with a timestamp that exceeds or equals time_s and is before time_e
+            in_window = np.ones(num_data_points, dtype=bool)
+            if time_s:
+                in_window &= d.data['timestamp'] >= time_s * 1e6
+            if time_e is not None:
+                in_window &= d.data['timestamp'] < time_e * 1e6
 
             # write the data
             last_elem = len(data_keys)-1
-            for i in range(time_s_i, time_e_i):
+            for i in np.flatnonzero(in_window):
                 for k in range(len(data_keys)):
                     if data_keys[k] in string_array_sizes: # string
                         s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
-- 
2.43.0


From 5d186799e89d47800ca6b8ef445d0dbc4778894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 44/46] fix: extraction of a time window for samples out of
 time order

---
 pyulog/extract_message.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index 4b4c21d..8a16787 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -37,16 +37,15 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.remove('timestamp')
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
-    #get the index for row where timestamp exceeds or equals the required value
-    num_data_points = len(data.data['timestamp'])
-    time_s_i = np.append(np.where(data.data['timestamp'] >= time_s * 1e6)[0],
-                         num_data_points)[0] if time_s else 0
-    #get the index for row upto the timestamp of the required value
-    time_e_i = np.append(np.where(data.data['timestamp'] >= time_e * 1e6)[0],
-                         num_data_points)[0] if time_e is not None else num_data_points
+    # get the rows with a timestamp that exceeds or equals time_s and is before time_e
+    in_window = np.ones(len(data.data['timestamp']), dtype=bool)
+    if time_s:
+        in_window &= data.data['timestamp'] >= time_s * 1e6
+    if time_e is not None:
+        in_window &= data.data['timestamp'] < time_e * 1e6
 
     # write the data
-    for i in range(time_s_i, time_e_i):
+    for i in np.flatnonzero(in_window):
         row = {}
         for key in data_keys:
             row[key] = data.data[key][i]
-- 
2.43.0


From 62e5da599e3744db44049f192925cf1920972604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 45/46] fix: KML positions that are before the previously drawn
 one

---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index 1392ed9..d2737de 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -214,7 +214,7 @@ def _kml_add_position_data(kml, ulog, position_topic_name, colors, style,
 
     last_t = 0
     for i in range(len(pos_lon)):
-        cur_t = pos_t[i]
+        cur_t = int(pos_t[i]) # differences can be negative
 
         if (cur_t - last_t)/1e6 > minimum_interval_s: # assume timestamp is in [us]
             pos_data = [pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset]
-- 
2.43.0


From b99160aaa79b7523dd66880c2196c6c32f2fc6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 46/46] fix: loading logs with corrupt message formats does not
 expand huge arrays

---
 pyulog/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index e227c44..f6894ba 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -76,6 +76,9 @@ class ULog(object):
     _unpack_ushort = struct.Struct('<H').unpack
     _unpack_uint64 = struct.Struct('<Q').unpack
 
+    # messages have less than 2^16 fields, possibly in nested types
+    _MAX_NUM_ELEMENTS = 4 * 0xffff
+
     # when set to True disables string parsing exceptions
     _disable_str_exceptions = False
 
@@ -780,6 +783,8 @@ class ULog(object):
             self.timestamp_idx = -1
             self.max_data_size = 0 # Max size of each data point (including padding fields at end)
 
+            self._num_elements = 0 # fields, array elements and nested types
+
             self._parse_format(message_formats)
 
             self.timestamp_offset = 0
@@ -813,6 +818,10 @@ class ULog(object):
             # we flatten nested types
             message_format = message_formats[type_name]
             for (type_name_fmt, array_size, field_name) in message_format.fields:
+                # The size of messages is limited: do not expand huge arrays of a corrupt format
+                self._num_elements += max(array_size, 1)
+                if self._num_elements > ULog._MAX_NUM_ELEMENTS:
+                    raise IndexError('Message format is too large')
                 if type_name_fmt in ULog._UNPACK_TYPES:
                     if array_size > 0:
                         for i in range(array_size):
-- 
2.43.0

