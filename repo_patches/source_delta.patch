From c5d96e88e7b2fd8ad8d0546cbd1f7206f356bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 01/74] fix: stop with an error when an SDDS header is
 truncated

utils._read_line looped forever once the end of the file was reached.
---
 rsbeams/rsdata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d7f5806..850a114 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -22,6 +22,8 @@ def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
         line = str(open_file.readline(), 'latin-1')
+        if not line:
+            raise EOFError("Unexpected end of file while reading header")
     return line
 
 
-- 
2.43.0


From fca48d0fbb7175dc5c610fa5c80c953d56fe7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 02/74] fix: detect the end of an SDDS file from its data, not
 from a blank-looking line

Without buffering, _check_file_end dropped every page whose first (text or
binary) line was blank after the first byte, such as a one digit parameter or a
row count like 0x0a00.
---
 rsbeams/rsdata/SDDS.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8627ec5..3a0b1bc 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -286,22 +286,32 @@ class readSDDS:
             if len(self.openf) <= position:
                 return True
         else:
-            # Usually will catch binary end
             pointer = self.openf.tell()
 
             if not self.openf.read(1):
                 return True
-            while True:
-                line = self.openf.readline()
-                if not line.strip():
-                    return True
-                else:
-                    break
 
             self.openf.seek(pointer)
 
         return False
 
+    def _skip_blank_lines(self, position):
+        # Blank lines can separate ASCII pages or trail the last one
+        if self._data_mode == 'binary':
+            return position
+        if self.buffer:
+            while position < len(self.openf) and not self.openf[position].strip():
+                position += 1
+        else:
+            pointer = self.openf.tell()
+            for line in iter(self.openf.readline, b''):
+                if line.strip() and line.lstrip().find(b'!') != 0:
+                    self.openf.seek(pointer)
+                    break
+                pointer = self.openf.tell()
+
+        return position
+
     def _get_ascii_row_count(self, start_position):
         line_count = 0
         if self.buffer:
@@ -367,6 +377,7 @@ class readSDDS:
                     print('stopping here')
                 break
 
+            position = self._skip_blank_lines(position)
             if self._check_file_end(position):
                 # TODO: Get the logic right here. Should not trigger unless user requests a bad page.
                 if page in user_pages:
-- 
2.43.0


From 6d8cd09198096b1dd00f107ac2a5c64d88197c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 03/74] fix: keep the read position right when SDDS pages are
 skipped

Skipped pages moved the position by a byte count that was wrong for ascii files
and for unbuffered binary files, buffered ascii files lost every second page
after a page with columns, and files with strings returned the columns of all
pages.
---
 rsbeams/rsdata/SDDS.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 3a0b1bc..9fcb9fb 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -2,7 +2,6 @@ from future.builtins import str
 import numpy as np
 from struct import pack
 from sys import byteorder
-from types import GeneratorType
 from rsbeams.rsdata import utils
 from .datatypes import supported_namelists
 from .struct_data import StructData
@@ -352,10 +351,8 @@ class readSDDS:
         # Select pages to be stored during the read - if None then store everything
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
-        if pages is not None:
-            user_pages = pages
-        else:
-            user_pages = utils.iter_always()
+        read_all = pages is None
+        user_pages = [] if read_all else list(pages)
         pages = utils.iter_always()
 
         # Buffer reading has no pointer, you always start at the beginning so we need to move the start offset
@@ -371,8 +368,7 @@ class readSDDS:
                 break
 
         for page in pages:
-            if not isinstance(user_pages, GeneratorType) and page > np.max(user_pages):
-                print(page, user_pages)
+            if not read_all and page > max(user_pages, default=-1):
                 if self.verbose:
                     print('stopping here')
                 break
@@ -388,7 +384,7 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (page in user_pages):
+            if parameter_data and (read_all or page in user_pages):
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
@@ -400,12 +396,10 @@ class readSDDS:
 
             if row_count == 0:
                 continue
-            if (isinstance(user_pages, GeneratorType) or (page in user_pages)) or self._variable_length_records:
-                column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            # columns are always read because the position must end up after the page
+            column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            if read_all or page in user_pages:
                 self._columns.add(column_data)
-            else:
-                # still need to update position what would have been read
-                position += np.dtype(self._column_keys[0]).itemsize * row_count
         if self._parameters:
             self._parameters.concat()
         if self._columns:
@@ -466,7 +460,7 @@ class readSDDS:
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
                                                comments='!', deletechars='')
                 if self.buffer:
-                    position += 1 * ((0 if not row_count else row_count) + new_array.size)
+                    position += row_count
             else:
                 new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
                 if self.buffer:
-- 
2.43.0


From 4d02396c7e5961486f047969fd427fb62eed874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 04/74] fix: do not count header lines to find the start of
 buffered ascii SDDS data

Blank lines in the header were not counted, so the data was read from the wrong
line.
---
 rsbeams/rsdata/SDDS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 9fcb9fb..475bf06 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -173,7 +173,8 @@ class readSDDS:
             self._data_mode = 'ascii'
             # need list of lines to use genfromtxt
             if self.buffer:
-                self.openf = [line for line in self.openf.splitlines() if line.lstrip().find(b'!') != 0]
+                self.openf = [line for line in self.openf[self.header_end_pointer:].splitlines()
+                              if line.lstrip().find(b'!') != 0]
         else:
             self._data_mode = 'binary'
             # If binary the exact string lengths will be found dynamically and inserted here
@@ -359,7 +360,8 @@ class readSDDS:
         if self._data_mode == 'binary':
             position = 0 + self.header_end_pointer * self.buffer
         else:
-            position = 0 + self._header_line_count * self.buffer
+            # The header is already removed from buffered ascii data
+            position = 0
 
         # TODO: Make this a function that checks if should be called
         for i, par in enumerate(self._parameter_keys):
-- 
2.43.0


From 23875cdf01c3233e5d7bed3e66c8379e200b51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 05/74] fix: handle integer &data fields and SDDS files with
 nothing to read

no_row_counts=0 was taken as true because the text was never converted, string
columns with a field_length failed, ascii files without parameters raised an
IndexError and reading an empty file or asking it for data raised an
AttributeError.
---
 rsbeams/rsdata/SDDS.py      | 15 ++++++++-------
 rsbeams/rsdata/datatypes.py |  5 ++++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 475bf06..111413d 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -84,7 +84,7 @@ class readSDDS:
 
     @property
     def parameters(self):
-        return self._parameters.data
+        return self._parameters.data if self._parameters else None
 
     @parameters.setter
     def parameters(self, parameters):
@@ -92,7 +92,7 @@ class readSDDS:
 
     @property
     def columns(self):
-        return self._columns.data
+        return self._columns.data if self._columns else None
 
     @columns.setter
     def columns(self, columns):
@@ -100,7 +100,7 @@ class readSDDS:
 
     @property
     def arrays(self):
-        return self._arrays.data
+        return self._arrays.data if self._arrays else None
 
     @arrays.setter
     def arrays(self, arrays):
@@ -248,7 +248,7 @@ class readSDDS:
             # ASCII: count may not be included and will be at the end of the parameters
             self._parameter_keys.append([('row_counts', utils.data_types['long'])])
         else:
-            if len(self._parameter_keys[0]) == 0:
+            if len(self._parameter_keys) > 0 and len(self._parameter_keys[0]) == 0:
                 # Need empty checks to succeed
                 self._parameter_keys.pop(0)
 
@@ -317,10 +317,11 @@ class readSDDS:
         if self.buffer:
             # openf is a list
             for line in self.openf[start_position:]:
-                if not line:
+                if not line.strip():
                     return line_count
                 else:
                     line_count += 1
+            return line_count
         else:
             start_position = self.openf.tell()
             while True:
@@ -328,7 +329,7 @@ class readSDDS:
                 if not line.strip():
                     self.openf.seek(start_position)
                     return line_count
-                else:
+                elif line.lstrip().find(b'!') != 0:
                     line_count += 1
 
     def read(self, pages=None):
@@ -386,7 +387,7 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (read_all or page in user_pages):
+            if self._parameters and (read_all or page in user_pages):
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index a850d04..b59e2fd 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -58,7 +58,7 @@ class Parameter(Datum):
         if fixed_value:
             if data_type in ["short", "long"]:
                 self.fields["fixed_value"] = int(fixed_value)
-            elif data_type == "double":
+            elif data_type in ["double", "float"]:
                 self.fields["fixed_value"] = float(fixed_value)
             elif data_type in ["string", "char"]:
                 try:
@@ -86,6 +86,7 @@ class Column(Datum):
     def set_data_type(self):
         # Override to account for field_length setting
         data_type = self.fields["type"]
+        self.fields["field_length"] = int(self.fields["field_length"])
 
         try:
             type_key = data_types[data_type]
@@ -117,6 +118,8 @@ class Data(Datum):
             "additional_header_lines": 0,
         }
         super().__init__(namelist)
+        for name in ("lines_per_row", "no_row_counts", "additional_header_lines"):
+            self.fields[name] = int(self.fields[name])
 
 
 class Associate(Datum):
-- 
2.43.0


From b5535d089dd8c7ddb8110d0dd6e479ecb6168bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 06/74] fix: keep the page shape of SDDS data for one row and
 for uneven pages

A page with one ascii row came back without its row axis, and pages with
different row counts raised a ValueError.
---
 rsbeams/rsdata/struct_data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 584b996..c27a4cd 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -42,11 +42,17 @@ class StructData:
         self._data.append(data_hold)
 
     def concat(self):
-        self.data = np.array(self._data)
+        if len({len(d) for d in self._data}) > 1:
+            # pages with different row counts cannot share one rectangular array
+            self.data = np.empty(len(self._data), dtype=object)
+            self.data[:] = self._data
+        else:
+            self.data = np.array(self._data)
 
     def _merge(self, data):
         if len(data) == 1:
-            return data[0]
+            # a single ascii row is read as a 0-d array
+            return np.atleast_1d(data[0])
         else:
             new_array = np.empty(1, dtype=self.data_type)
             for arr in data:
-- 
2.43.0


From 00b6d0e7da3fa20d1d222475d0361bf9fd682a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 07/74] fix: keep SDDS columns aligned with their page when a
 page has no rows

---
 rsbeams/rsdata/SDDS.py        | 2 ++
 rsbeams/rsdata/struct_data.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 111413d..652c853 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -398,6 +398,8 @@ class readSDDS:
                 row_count = self._get_ascii_row_count(position)
 
             if row_count == 0:
+                if self._columns and (read_all or page in user_pages):
+                    self._columns.add_empty()
                 continue
             # columns are always read because the position must end up after the page
             column_data, position = self._get_column_data(self._column_keys, position, row_count)
diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index c27a4cd..b402293 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -41,6 +41,10 @@ class StructData:
 
         self._data.append(data_hold)
 
+    def add_empty(self):
+        # Page without rows
+        self._data.append(np.empty(0, dtype=self.data_type))
+
     def concat(self):
         if len({len(d) for d in self._data}) > 1:
             # pages with different row counts cannot share one rectangular array
-- 
2.43.0


From 3e180f970608d6c91f1fd7704ed8b3016c03bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 08/74] fix: write SDDS columns and values in the type their
 header declares

column_stack cast all columns to one type, so files mixing double and integer
columns were unreadable in binary, integer ascii columns were written as
floats, short parameters and fixed values of 0 failed or were dropped, and ascii
files without rows lacked the row count.
---
 rsbeams/rsdata/SDDS.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 652c853..231dffa 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -539,7 +539,10 @@ class writeSDDS:
 
     sddsIdentifier = headSDDS
 
-    key_indentity = {'double': 'd', 'short': 's', 'long': 'i', 'string': None}
+    column_dtypes = {'double': np.float64, 'short': np.int16, 'long': np.int32}
+    column_formats = {'double': '%.18e', 'short': '%d', 'long': '%d', 'string': '%s'}
+
+    key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
@@ -618,7 +621,7 @@ class writeSDDS:
         assert parType in self.key_indentity.keys(), "Allowed data types are: 'double', 'short', 'long' "
 
         # Handle variable data type possibility for fixed_value
-        if parFixedVal:
+        if parFixedVal is not None:
             assert parData is None, "Using fixed value requires parData=None"
             if type(parFixedVal) in [float, int]:
                 pass
@@ -639,7 +642,7 @@ class writeSDDS:
 
         for parameter in self.parameters:
             for key, value in parameter.items():
-                if (key in parameterAttributeStr.keys()) and value:
+                if (key in parameterAttributeStr.keys()) and (value or (key == 'parFixedVal' and value is not None)):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
                                                                                           value=parameterAttributeStr[key][1].format(value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
@@ -674,14 +677,17 @@ class writeSDDS:
         outputFile = open(fileName, 'wb')
 
         # Verify Column Data Integrity
-        if len(self.columns) > 1:
-            try:
-                column_data = np.column_stack([columns['colData'] for columns in self.columns])
-            except ValueError:
+        if len(self.columns) > 0:
+            if len({len(columns['colData']) for columns in self.columns}) > 1:
                 print('ERROR: All columns on a page must have same length')
                 return
-        elif len(self.columns) == 1:
-            column_data = self.columns[0]['colData']
+            # Each column keeps its own data type
+            column_data = np.empty(len(self.columns[0]['colData']),
+                                   dtype=[(str(i), self.column_dtypes.get(columns['colType']) or
+                                           np.asarray(columns['colData']).dtype)
+                                          for i, columns in enumerate(self.columns)])
+            for i, columns in enumerate(self.columns):
+                column_data[str(i)] = columns['colData']
         else:
             column_data = np.empty([0])
 
@@ -706,13 +712,14 @@ class writeSDDS:
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
             # Row count follows parameter entries in an ascii file
-            # Should not appear in ascii if 0
-            if column_data.shape[0]:
+            # Should not appear in ascii if there are no columns
+            if self.columns:
                 outputFile.write('{}\n'.format(column_data.shape[0]).encode())
 
         # Write Columns
         if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data)
+            np.savetxt(outputFile, column_data,
+                       fmt=[self.column_formats[columns['colType']] for columns in self.columns] or '%.18e')
         elif self.dataMode == 'binary':
             column_data.tofile(outputFile)
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-- 
2.43.0


From 6e957378c60ecb684655dc3920f5b11a21a82cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 09/74] fix: compute gamma from beta * gamma without
 cancellation

1 / sqrt(1 - beta**2) lost all digits, up to an infinite gamma, for
ultra-relativistic momentum, Brho and beta * gamma inputs.
---
 rsbeams/rsstats/kinematic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 2e1f18e..a0c30cc 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -239,12 +239,12 @@ class Converter:
         """
         beta = betagamma / np.sqrt(1 + betagamma**2)
 
-        return beta, 1. / np.sqrt(1 - beta**2)
+        return beta, np.sqrt(1 + betagamma**2)
 
     def start_momentum(self, momentum):
         normalized_momentum = momentum / self.mass
         beta = normalized_momentum / np.sqrt(1 + normalized_momentum**2)
-        gamma = 1 / np.sqrt(1 - beta**2)
+        gamma = np.sqrt(1 + normalized_momentum**2)
 
         return beta, gamma
 
-- 
2.43.0


From f52adb8be3ff198c33ccf190a199c4137a333d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 10/74] fix: report kinematic results right on every call and
 in the stated unit

A second call of a Converter with SI output converted the results again, and the
reported mass and input value did not match their printed units when mass_unit,
input_unit and output_unit differ.
---
 rsbeams/rsstats/kinematic.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index a0c30cc..34ac127 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -83,6 +83,9 @@ class Converter:
                     declaration += 1
             assert declaration == 1, "One and only one initial kinematic quantity must be provided"
 
+        # Values as given by the user
+        self.user_args = dict(self.args)
+
         # Convert to eV for internal use
         if self.args['input_unit'] == 'SI':
             self._unit_convert(input_unit='SI', input_dict=self.args)
@@ -116,12 +119,14 @@ class Converter:
                         "input_unit": None,
                         "input_type": None}
 
+        self.calculate = {k: v for k, v in self.outputs.items() if callable(v)}
+
         # Match mass unit to input units. Print mass in units the user used for input though.
         if self.args['mass_unit'] == "eV":
             if self.args['mass']:
                 self.mass = self.args['mass'] * (
                             1 * (self.args['input_unit'] == 'eV') + 1 / ev_per_kg * (self.args['input_unit'] == 'SI'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self.user_args['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev
@@ -129,7 +134,7 @@ class Converter:
             if self.args['mass'] is not None:
                 self.mass = self.args['mass'] * (1 * (self.args['input_unit'] == 'SI') + ev_per_kg * (
                             self.args['input_unit'] == 'eV'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self.user_args['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev / ev_per_kg
@@ -141,7 +146,7 @@ class Converter:
         # Set beta and gamma based on the input value
         for key, value in self.args.items():
             if value is not None and key in self.startup:
-                self.outputs["input"] = value
+                self.outputs["input"] = self.user_args[key]
                 self.outputs["input_type"] = key
                 self.outputs["beta"], self.outputs["gamma"] = self.startup[key](value)
 
@@ -160,9 +165,8 @@ class Converter:
         self.outputs["input_unit"] = input_unit
 
         # Set all derived kinematic quantities
-        for key, value in self.outputs.items():
-            if callable(value):
-                self.outputs[key] = value(**self.outputs)
+        for key, value in self.calculate.items():
+            self.outputs[key] = value(**self.outputs)
 
         print_string = """
         Based on an input {input_type} of {input} {input_unit}
@@ -178,7 +182,10 @@ class Converter:
         Brho: {brho} T*m
         """
         if self.args['output_unit'] == 'SI':
+            mass = self.outputs["mass"]
             self._unit_convert(input_unit='eV', input_dict=self.outputs)
+            # Mass stays in the unit given by mass_unit
+            self.outputs["mass"] = mass
 
         if not silent:
             print(print_string.format(**self.outputs))
-- 
2.43.0


From c827fabd463f03de2dd8e080e263c7101a161b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 11/74] fix: accept step number 0 and a total charge of 0 in
 OPAL files

---
 rsbeams/rsdata/switchyard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 25670ba..9635633 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -69,7 +69,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
     """
 
     with h5.File(file_name, 'r') as pcdata:
-        if not step_number:
+        if step_number is None:
             # Use last step in the file
             all_step_numbers = []
             for key in pcdata.keys():
@@ -86,7 +86,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         for i, coord in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
             particle_data[:, i] = pcdata[loc+'/'+coord]
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
-        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) else pcdata[loc].attrs.get('CHARGE')
+        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) is not None else pcdata[loc].attrs.get('CHARGE')
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
 
     # TODO: This shouldn't be specific to electrons
-- 
2.43.0


From 4228d894a64dd065c634732feb8e1cf215298a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 12/74] fix: read elegant files that hold a single particle

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 9635633..cad8d3f 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -28,7 +28,7 @@ def read_elegant(file_name: str) -> Species:
 
     read_particle_data = readSDDS(file_name)
     read_particle_data.read()
-    sdds_data = read_particle_data.columns.squeeze()
+    sdds_data = read_particle_data.columns.reshape(-1)
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except ValueError:
-- 
2.43.0


From b00b9a3e42f6dabee85253e9d9df6fd689b5b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 13/74] fix: leave the first particle alone when computing
 variances

calc_variance6d accumulated the running average in a view of the caller's array,
so every rms, normalisation and correlation changed particle 0.
---
 rsbeams/rsstats/stats6d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index e9c4d67..71fabe3 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -24,7 +24,7 @@ def sub_avg6d(array6D):
 
 def calc_variance6d(array6D):
     npoints = array6D.shape[1]
-    avgIter = array6D[:,0]
+    avgIter = array6D[:,0].copy()
     varIter = scipy.zeros(6)
     for nLoop in range(1,npoints):
         tmpData  = array6D[:,nLoop]
-- 
2.43.0


From 0ac8390f709d0bbc89ef69e9a82cdfb8bc0ecccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 14/74] fix: match a negative alpha when gamma equals beta

With gamma == beta the sign test was never true, so a requested alpha < 0 came
out with the opposite sign.
---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 2dda3a5..d5bfc06 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -205,7 +205,7 @@ class RsDistrib6D:
                 sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
 
-            if alphaII*gMinusB < 0.0: sin_phi = -sin_phi
+            if (alphaII < 0.0) != (gMinusB < 0.0): sin_phi = -sin_phi
 
             rt_fac = math.sqrt(twissObject.get_emit_rms())
 
-- 
2.43.0


From 83e35a58d2eb946033fe3e1c46e78465afdb6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 15/74] fix: apply the cutoff, quiet and emittance settings of
 a nonlinear bunch

Setting cutoff raised a NameError, quiet was misspelled and ignored, and changing
emitx or emity (or an earlier KV fill) left the total emittance stale.
---
 rsbeams/rsptcls/bunch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 7b66c10..58a6bc1 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -328,7 +328,7 @@ class NonlinearBunch(StandardBunch):
     """
 
     def __init__(self, npart, dist = 'KV', emitx = 1e-6, emity = 1e-6, betax=1., alphax = 0.,
-                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, queit=False, t = 0.1, c = 0.01, cutoff = 4):
+                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, quiet=False, t = 0.1, c = 0.01, cutoff = 4):
         """
 
         Args:
@@ -349,7 +349,7 @@ class NonlinearBunch(StandardBunch):
             cutoff (float): cutoff parameter for the nonlinear Gaussian distributoin, defaults to 4.
         """
 
-        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed)
+        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed, quiet)
 
         self._t = t
         self._c = c
@@ -383,7 +383,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cval < 0:
+        if cutoff < 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
@@ -453,6 +453,8 @@ class NonlinearBunch(StandardBunch):
             self.emitx = emitx
         if emity is not None:
             self.emity = emity
+        #total emittance sets the limits of the waterbag and Gaussian distributions
+        self.emit = self.emitx + self.emity
         if cutoff is not None:
             self.cutoff = cutoff
 
-- 
2.43.0


From 5bcb85186cc15783121ce9e930ba6fc39a72c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 16/74] fix: seed the generators of a bunch with the given seed

---
 rsbeams/rsptcls/bunch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 58a6bc1..215160b 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -96,6 +96,8 @@ class StandardBunch(object):
         #define seed
         if seed is not None:
             self.seed = seed
+            random.seed(seed)
+            np.random.seed(random.getrandbits(32))
         else:
             self.seed = random.seed()
 
-- 
2.43.0


From 2e2b26ded5b98f8b090de299ea247c9719157508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 17/74] fix: give a bunch its own vertical beta function

The betay property was built on the horizontal getter, so reading it returned
betax, and set_transverse_coordinates stored betay in betax.
---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 215160b..18e92b3 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -126,7 +126,7 @@ class StandardBunch(object):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
@@ -172,7 +172,7 @@ class StandardBunch(object):
         if alphax is not None:
             self.alphax = alphax
         if betay is not None:
-            self.betax = betay
+            self.betay = betay
         if alphay is not None:
             self.alphay = alphay
         if emitx is not None:
@@ -403,13 +403,13 @@ class NonlinearBunch(StandardBunch):
 
         #betax should be the same as betay
         self._betay = bet
-        self._gammay = (1 + self._alphax**2) / self._betax
+        self._gammay = (1 + self._alphay**2) / self._betay
 
 
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From 22566ac4658e3376e1c88463dd16c7dc2a0db948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 18/74] fix: save and load beamlines with a current ruamel.yaml

yaml.dump and yaml.load were removed from ruamel.yaml, and loading put every
subline, at any depth, into one line of the top beamline.
---
 rsbeams/rslattice/Beamline.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b8215e9..a26e13f 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -127,18 +127,16 @@ class StructuredBeamline(object):
 
         beamline = return_elements(self)
         with open(filename, "w") as outputfile:
-            yaml.dump(
-                beamline,
-                outputfile,
-                default_flow_style=False,
-                Dumper=yaml.RoundTripDumper,
-            )
+            dumper = yaml.YAML()
+            dumper.default_flow_style = False
+            dumper.dump(beamline, outputfile)
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
             print("Cannot load a new beamline.\nThis StructuredBeamline is not empty.")
             return
-        elements = yaml.load(open(filename, "r"), Loader=yaml.Loader)
+        with open(filename, "r") as inputfile:
+            elements = yaml.YAML(typ="safe", pure=True).load(inputfile)
 
         def create_beamline(elements, beamline):
             for element in elements:
@@ -153,8 +151,9 @@ class StructuredBeamline(object):
                         },
                     )
                 else:
-                    self.add_beamline(name=None)
-                    create_beamline(element, self.sequence[-1])
+                    # names of sublines are not stored in the file
+                    beamline.add_beamline(name="line_{}".format(len(beamline.lines)))
+                    create_beamline(element, beamline.sequence[-1])
 
         create_beamline(elements, self)
 
-- 
2.43.0


From e7761be12f6910359bfb69c5334d808f7986bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 19/74] fix: put element parameters into the transfer matrices

Parameter names are stored in lower case and were never matched to the upper
case symbols of the matrices.
---
 rsbeams/rslattice/Beamline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index a26e13f..aa97872 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -242,9 +242,9 @@ class StructuredBeamline(object):
             for key, val in ele.parameters.items():
                 if type(val) == str:
                     variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(key, val)
-                else:
-                    elements[-1] = elements[-1].subs(key, val)
+                    val = variables[val]
+                # Parameter names are stored in lower case, symbols are upper case
+                elements[-1] = elements[-1].subs(symbols(key.upper()), val)
 
         if concatenate:
             matrix = elements[-1]
-- 
2.43.0


From e7912ec7eeec02cd0532c66bdd112d3f3c56b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 20/74] fix: use the drift matrix for a quadrupole without
 strength

---
 rsbeams/rslattice/Beamline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index aa97872..c290c73 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -236,7 +236,11 @@ class StructuredBeamline(object):
         elements = []
         variables = {}
         for ele in self.sequence:
-            elements.append(self.matrices[ele.type])
+            if ele.type == "quadrupole" and ele.parameters.get("k1") == 0:
+                # limit of the quadrupole matrix, which divides by K1
+                elements.append(self.matrices["drift"])
+            else:
+                elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
-- 
2.43.0


From 466dd5e1c91faf6a07001ce551e89bcdb6625cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 21/74] fix: ignore case in every lookup of element parameters

---
 rsbeams/rslattice/Element.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index add72ae..9b7c922 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -58,6 +58,15 @@ class AgnosticDict(dict):
         if type(key) == str:
             dict.__setitem__(self, key.lower(), val)
 
+    def __delitem__(self, key):
+        dict.__delitem__(self, key.lower())
+
+    def __contains__(self, key):
+        return dict.__contains__(self, key.lower())
+
+    def get(self, key, default=None):
+        return dict.get(self, key.lower(), default)
+
 
 class Element(object):
     """
-- 
2.43.0


From ef26552dfe19e5e622080bc879e8ecf1ca3dd3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 22/74] fix: read lte files with a final comment, bare elements
 and empty values

A comment on the last line raised an IndexError, an element without parameters
lost the last letter of its type when no newline followed, an empty string value
raised an IndexError, and set_beamline did not find upper case names.
---
 rsbeams/rslattice/lte_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b222001..97ab96d 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -72,7 +72,7 @@ class BeamlineParser(object):
         :param beamline_name:
         :return:
         """
-        self.beamline_name = beamline_name
+        self.beamline_name = beamline_name.lower()
 
     def find_beamlines(self):
         """
@@ -239,6 +239,8 @@ class BeamlineParser(object):
 
         type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
         type_end = beamline_string.find(',')
+        if type_end < 0:
+            type_end = len(beamline_string)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
@@ -252,11 +254,11 @@ class BeamlineParser(object):
 
             try:
                 element_parameters[key] = parse_rpn(beamline_string[2])
-            except ValueError:
+            except (ValueError, IndexError):
                 beamline_string = beamline_string[2].partition(',')
                 try:
                     element_parameters[key] = parse_rpn(beamline_string[0])
-                except ValueError:
+                except (ValueError, IndexError):
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
                     element_parameters[key] = beamline_string[0]
@@ -283,6 +285,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == '!':
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From 8cb4551640c9636e51ffeb324271960828ce291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 23/74] fix: expand repeated and quoted lines of an lte file
 once each

Each further use of a line appended its elements to the one shared subline, so
the expanded beamline repeated them too often. Quoted line names and a space
before a coefficient were not understood.
---
 rsbeams/rslattice/lte_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 97ab96d..1a47b0d 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -125,6 +125,7 @@ class BeamlineParser(object):
         """
 
         while beamline_string.strip():
+            beamline_string = beamline_string.lstrip()
             # Check for leading coefficient on element
             while beamline_string[0] in digits:
                 coefficient += beamline_string[0]
@@ -140,6 +141,10 @@ class BeamlineParser(object):
                 next_element_end = beamline_string.find(')')
 
             element_name = beamline_string[:next_element_end].strip()
+            # Strip out quotations in case someone wasn't consistent about using them around the element name...
+            element_name = element_name.replace('\'', '')
+            element_name = element_name.replace('"', '')
+
             # If element is a line definition then start recursion process
             if element_name in self.lines:
                 print("Starting on line:", element_name)
@@ -155,14 +160,12 @@ class BeamlineParser(object):
                 # Set beamline_string to be new beamline
                 beamline_string = self.lines[element_name]
                 beamline_string = beamline_string[1:]  # Consume opening '('
+                # Every use of a line is filled on its own
+                self.beamline.lines.pop(element_name, None)
                 self.beamline.add_beamline(name=element_name)
                 flag_subline = True
                 continue
 
-            # Strip out quotations in case someone wasn't consistent about using them around the element name...
-            element_name = element_name.replace('\'', '')
-            element_name = element_name.replace('"', '')
-
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
-- 
2.43.0


From dee0fe3638e4bb86283cd182a7942bed87f81b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 24/74] fix: substitute rpn variables of an lte file as whole
 words

Variables were replaced anywhere in the text, also inside longer variable names,
element names and keywords, and variables defined from other variables raised a
ValueError.
---
 rsbeams/rslattice/lte_parser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 1a47b0d..d1e8c2e 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -8,6 +8,7 @@ Translate element types to OPAL from elegant syntax.
 # TODO: Add a beamline length parameter
 # TODO: Add a copy function
 
+import re
 import numpy as np
 digits = '0123456789'
 
@@ -281,6 +282,7 @@ class BeamlineParser(object):
         store rpn variables
         """
 
+        rpn_definitions = []
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
             self.lattice_definition[linenumber] = self.lattice_definition[linenumber].lower()
 
@@ -310,7 +312,11 @@ class BeamlineParser(object):
 
             if self.lattice_definition[linenumber].lstrip()[0] == '%':
                 variable = self.lattice_definition[linenumber].split()
-                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]))
+                rpn_definitions.insert(0, (variable[-1], variable[1:-2]))
+
+        # Definitions may use variables defined above them
+        for name, expression in rpn_definitions:
+            self.rpn_variables[name] = parse_rpn(' '.join(str(self.rpn_variables.get(v, v)) for v in expression))
 
     def _replace_stored_variables(self):
         """
@@ -319,9 +325,11 @@ class BeamlineParser(object):
 
         for linenumber in range(len(self.lattice_definition)):
             for key in self.rpn_variables:
-                if self.lattice_definition[linenumber].find(key):
+                # Only whole words count, and neither element names, keywords nor members of a line are variables
+                if self.lattice_definition[linenumber].find('line=(') < 0:
                     self.lattice_definition[linenumber] = \
-                        self.lattice_definition[linenumber].replace(key, str(self.rpn_variables[key]))
+                        re.sub(r'(?<![\w.$])' + re.escape(key) + r'(?![\w.$]|"?\s*[=:])',
+                               str(self.rpn_variables[key]), self.lattice_definition[linenumber])
 
     def _read_name(self, line):
         end = line.find(':')
-- 
2.43.0


From fa0b780bbf15f2d17f8f6a4ef29f5b370703d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 25/74] fix: expand repeated and reversed lines of Sirepo
 lattices

A second use of a line inside the same line appended its elements again to the
shared subline, and reversing a line left the order inside its sublines as is.
---
 .../rslattice/templates/lattice_importer.py   | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index d692cba..5602704 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -71,23 +71,19 @@ def parse_json(sirepo_json, beamline):
     if not the_beamline:
         raise ValueError(f"{beamline} not found in {sirepo_json}")
 
-    def generate_beamline(items, beamline, definition):
-        for item in items:
+    def generate_beamline(items, beamline, definition, reverse=False):
+        for item in items[::-1] if reverse else items:
             if abs(item) in beamline_definitions.keys():
-                beamline.add_beamline(beamline_definitions[abs(item)]["name"])
-                if item >= 0:
-                    generate_beamline(
-                        beamline_definitions[item]["items"],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
-                else:
-                    item = abs(item)
-                    generate_beamline(
-                        beamline_definitions[item]["items"][::-1],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
+                line = beamline_definitions[abs(item)]
+                # Every use of a line is filled on its own, possibly in another direction
+                beamline.lines.pop(line["name"], None)
+                beamline.add_beamline(line["name"])
+                generate_beamline(
+                    line["items"],
+                    beamline.lines[line["name"]],
+                    definition,
+                    reverse=reverse != (item < 0),
+                )
             else:
                 element = element_defitions[item]
                 element_minus_special = {
-- 
2.43.0


From a694398f6937b3d6a5dc98ba84b090c53e51e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 26/74] fix: store the value when setting the aperture of a
 nonlinear insert

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index fc05677..807c607 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -67,7 +67,7 @@ class NonlinearInsert(object):
     def c(self, cval):
         if cval < 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
-        self._c = c
+        self._c = cval
 
     def generate_sequence(self):
         """Generates arrays containing the knll and cnll values for each nllens element"""
-- 
2.43.0


From f6496a1eb895faa513e4545d826a502621d26c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 27/74] fix: parse Trace3D and TraceWin lattices completely

Trace3d failed for lack of handlers and left out the last element, signs and
exponents of whole numbers were dropped, the TraceWin frequency was never stored
and a comment on the last line raised an IndexError.
---
 rsbeams/rslattice/trace3d_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 120b78f..69302a3 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == self.comment_character:
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
@@ -120,6 +121,8 @@ class Trace3d(BeamlineParser):
 
     }
 
+    handlers = {}
+
     def __init__(self, filename, beamline_name):
         super(Trace3d, self).__init__(filename, beamline_name)
         self.comment_character = ';'
@@ -150,7 +153,7 @@ class Trace3d(BeamlineParser):
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-        values = findall(r"[-+]?\d*\.\d+|\d+", line[val_end:])
+        values = findall(r"[-+]?(?:\d*\.\d+|\d+\.?)(?:[eE][-+]?\d+)?", line[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
@@ -184,7 +187,7 @@ class Trace3d(BeamlineParser):
                 lines.append(i)
 
         self.beamline_start_position = np.min(lines)
-        self.beamline_end_position = np.max(lines)
+        self.beamline_end_position = np.max(lines) + 1
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
@@ -265,7 +268,7 @@ class TraceWin(Trace3d):
         # cavities
         'LQ1': 1e-3,
         'LQ2': 1e-3,
-        'frequency': 1e6
+        'FREQUENCY': 1e6
     }
 
     def handle_dtl_cell(self, name, element, beamline):
@@ -301,7 +304,7 @@ class TraceWin(Trace3d):
                               'frequency': cavity_FREQ})
 
     def handle_freq(self, name, element, beamline):
-        self.global_parameters['frequency'] = element['frequency']
+        self.global_parameters['frequency'] = element['FREQUENCY']
 
     def handle_field_map(self, name, element, beamline):
         # Very crude implementation of this element. We will assume just 1D RF field for now.
@@ -331,7 +334,7 @@ class TraceWin(Trace3d):
         self.name_count = 0  # TRACEWIN doesn't name elements
 
     def get_element_parameters(self, line, type):
-        values = findall(r"[-+]?\d*\.\d+|\d+", line)
+        values = findall(r"[-+]?(?:\d*\.\d+|\d+\.?)(?:[eE][-+]?\d+)?", line)
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From 3b0f145dc120a87c5a9516b83083d1c4dd53f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 28/74] fix: return ascii SDDS strings as text, like binary
 ones

---
 rsbeams/rsdata/struct_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index b402293..7ac9e6a 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -55,8 +55,8 @@ class StructData:
 
     def _merge(self, data):
         if len(data) == 1:
-            # a single ascii row is read as a 0-d array
-            return np.atleast_1d(data[0])
+            # a single ascii row is read as a 0-d array and ascii strings are read as bytes
+            return np.atleast_1d(data[0]).astype(self.data_type)
         else:
             new_array = np.empty(1, dtype=self.data_type)
             for arr in data:
-- 
2.43.0


From 5aae3cea7f099ef560f9e8066d6fba6eccb94a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 29/74] fix: scale the start of the elements in a beamline
 profile

---
 rsbeams/rsplot/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 7fc19d0..556f9a3 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -94,7 +94,7 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
             e1, e2 = s * scale, sdds_columns['s'][i] * scale
-            axes.plot([s, e1], [zp, zp], c=_element_colors[base_type])
+            axes.plot([s * scale, e1], [zp, zp], c=_element_colors[base_type])
             mag = Rectangle((e1, -height / 2.),
                             width=e2 - e1, height=height)
             patch_collection.append(mag)
-- 
2.43.0


From 27add011b79daebcdd5cc4752d06191af668bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 30/74] fix: keep a character of a symbol that has no special
 form

---
 rsbeams/rsplot/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 556f9a3..6077978 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -148,6 +148,7 @@ def process_character(char, mapping):
         return mapping[char]
     except KeyError:
         print(f"Could not find {char}")
+        return char
 
 
 def format_symbol(description, matplotlib=True):
-- 
2.43.0


From a73399d86a5e34a36bf11108221dcc40c84b3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 31/74] fix: plot longitudinal phase space of files without a
 charge

---
 rsbeams/rsplot/beam_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index c71e97a..92cada3 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -175,7 +175,7 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
                 normalized_charge = True
-        except KeyError:
+        except (KeyError, ValueError):
             print(
                 "Warning: No charge data found in SDDS file. Using normalized counts."
             )
-- 
2.43.0


From 53e433d09c7f6795239a7699055970d52cdf193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 32/74] fix: keep long axis labels of scatter plots whole

---
 rsbeams/rsplot/RsScatterPS6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index 3c04a08..ade7b2b 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -29,7 +29,7 @@ class RsScatterPS6D:
 
         self.data6d = phaseSpace6D.get_array_6d()
 
-        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'])
+        self.label=['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0']
         self.title='no plot title specified'
         self.figNum = 0
         return
-- 
2.43.0


From 4d4f844890ee3c2ec98ea2cdaa64ca5676f83fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 33/74] fix: draw scatter plots with a current matplotlib

---
 rsbeams/rsplot/plot_ptcls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8cac9cb..fadf7c8 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -109,17 +109,17 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
         toRemove, = ax.plot(x_plot[:,0], x_plot[:,1], c='w')
         ax.scatter(x_plot[:,0], x_plot[:,1], marker='.', c='k')
-        ax.lines.remove(toRemove)
+        toRemove.remove()
 
     if plot_flag.endswith('line'):
         ax.plot(x_plot[:,0], x_plot[:,1], c='k')
 
     if plot_flag in ['line', 'scatter', 'scatter-line']:
         if plot_type in ['log-log', 'semi-logx']:
-            ax.set_xscale('log', nonposx='mask')
+            ax.set_xscale('log', nonpositive='mask')
 
         if plot_type in ['log-log', 'semi-logy']:
-            ax.set_yscale('log', nonposy='mask')
+            ax.set_yscale('log', nonpositive='mask')
 
         if plot_type in ['linear', 'semi-logy']:
             ax.set_xscale('linear')
-- 
2.43.0


From f15c06d30d4abb45d6635ceaad20e6cdc9b6b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 34/74] fix: sample Halton points deterministically into a flat
 array

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 8252dc7..b96584d 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -89,8 +89,8 @@ def sample(n: int, distribution: callable, a: int, b: int,
     if method == 'random':
         y = np.random.random(n)
     elif method == 'halton':
-        sampler = stats.qmc.Halton(d=1, scramble=True)
-        y = sampler.random(n=n)
+        sampler = stats.qmc.Halton(d=1, scramble=True, seed=0)
+        y = sampler.random(n=n)[:, 0]
     else:
         raise NotImplementedError(f'{method} is not supported for method')
 
-- 
2.43.0


From 7d7e5836d6b01abde12f8c6029ae1ca9633460f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 35/74] fix: match an alpha whose square vanishes

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index d5bfc06..49042ac 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -198,7 +198,7 @@ class RsDistrib6D:
             if 0:
                 print(' fac, f_inv[', ii, '] = ', fac, f_inv)
 
-            if alphaII == 0.0:
+            if alphaII == 0.0 or rt_fac == 0.0:
                 sin_phi = 0.0
                 cos_phi = 1.0
             else:
-- 
2.43.0


From 636c7a5196c355a2551bfbff757f6f0f5b1cdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:50 +0000
Subject: [PATCH 36/74] fix: keep mirrored particles of a quiet bunch matched

---
 rsbeams/rsptcls/bunch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 18e92b3..23f157d 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -292,13 +292,17 @@ class StandardBunch(object):
     def exact_centroids(self, ptclCoords, phaseSpaceList):
         """Sets the centroid of the distribution in phase space to be zero - providing a quieter injection."""
 
+        # The mirror images are taken in normal coordinates, where momenta do not depend on positions
+        shear = 2. * np.array([0., self.alphax / self.betax * ptclCoords[0],
+                               0., self.alphay / self.betay * ptclCoords[2]])
+
         translation1 = np.array([-1,1,-1,1])
         translation2 = np.array([-1,-1,-1,-1])
         translation3 = np.array([1,-1,1,-1])
 
-        ptcl1 = ptclCoords * translation1
+        ptcl1 = ptclCoords * translation1 + shear
         ptcl2 = ptclCoords * translation2
-        ptcl3 = ptclCoords * translation3
+        ptcl3 = ptclCoords * translation3 - shear
 
         phaseSpaceList.append(ptcl1)
         phaseSpaceList.append(ptcl2)
-- 
2.43.0


From b27bbe2662878b30290527e2673ca8543cdb5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 37/74] fix: integrate decoherence without or with negative
 tune dependence

---
 rsbeams/rsphysics/decoherence.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsphysics/decoherence.py b/rsbeams/rsphysics/decoherence.py
index 0c205e5..a2107d8 100644
--- a/rsbeams/rsphysics/decoherence.py
+++ b/rsbeams/rsphysics/decoherence.py
@@ -99,6 +99,9 @@ class CentroidPosition:
             n = self.N
         if n == 0:
             return self.Z
+        if self.mu[0] == 0:
+            # The closed form has no value without tune dependence
+            return self.integrate_any_order(n)
 
         xN = self.Z / (2. * np.pi * n * self.mu[0]) * \
              (np.cos(2 * np.pi * self.nu0 * n) * np.sin(2 * np.pi * n * self.mu[0]) +
@@ -123,17 +126,24 @@ class CentroidPosition:
             n = self.N
         if n == 0:
             return self.Z
+        if self.mu[1] == 0:
+            # The closed form has no value without second order tune dependence
+            return self.integrate_any_order(n)
+
+        # The centroid does not change if all tunes are negative, while the closed form needs a positive mu_1
+        sign = np.sign(self.mu[1])
+        nu0, mu0, mu1 = sign * self.nu0, sign * self.mu[0], sign * self.mu[1]
 
         def integrand(u, N):
-            fS, fC = fresnel((self.mu[0] * N * np.pi + self.mu[1] * u) / np.sqrt(self.mu[1] * N * np.pi**2))
-            term1 = np.cos(np.pi * self.mu[0]**2 * N / (2. * self.mu[1]) + 2. * np.pi * self.nu0 * N)
-            term2 = np.sin(np.pi * self.mu[0]**2 * N / (2. * self.mu[1]) + 2. * np.pi * self.nu0 * N)
+            fS, fC = fresnel((mu0 * N * np.pi + mu1 * u) / np.sqrt(mu1 * N * np.pi**2))
+            term1 = np.cos(np.pi * mu0**2 * N / (2. * mu1) + 2. * np.pi * nu0 * N)
+            term2 = np.sin(np.pi * mu0**2 * N / (2. * mu1) + 2. * np.pi * nu0 * N)
 
             return fC * term1 + fS * term2
 
         xN = integrand(2 * np.pi * n, n) - integrand(0, n)
 
-        return xN * self.Z / np.sqrt(4. * self.mu[1] * n)
+        return xN * self.Z / np.sqrt(4. * mu1 * n)
 
     def calculate_centroids(self, p=None):
         """
-- 
2.43.0


From 26410bb43914e9f06b974793ef7b9d53b9393f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 38/74] fix: find the extent of nonlinear bunches for strengths
 near one half

---
 rsbeams/rsptcls/bunch.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 23f157d..3e4d2b1 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -26,7 +26,7 @@ Last Updated: 6/25/2018
 
 import numpy as np
 import random
-from scipy.optimize import newton
+from scipy.optimize import brentq, newton
 
 class StandardBunch(object):
 
@@ -473,6 +473,15 @@ class NonlinearBunch(StandardBunch):
         elif self.dist == 'Gaussian':
             self.distribute_Gaussian()
 
+    def find_ymax(self, y0):
+        """Find the y, larger than y0, where the potential alone reaches the emittance"""
+
+        upper = 2. * y0
+        while self.whatsleft(upper) > 0.:
+            upper *= 2.
+
+        return brentq(self.whatsleft, y0, upper, xtol=1e-9*y0)
+
     def distribute_KV(self):
         """
         Generates a generalized KV distribution in 4D phase space using known bunch attributes.
@@ -492,7 +501,7 @@ class NonlinearBunch(StandardBunch):
         # Use the lemming method to find the maximum y
         y0 = np.sqrt(self.emit)
 
-        yMax = newton(self.whatsleft, y0)
+        yMax = self.find_ymax(y0)
 
         #bounding the horizontal coordinate is difficult, but it should not exceed the pole
         xMax = self.c
@@ -556,7 +565,7 @@ class NonlinearBunch(StandardBunch):
             newH = self.emit*trialH
             y0 = np.sqrt(newH)
             #self.emittance = newH
-            yMax = newton(self.whatsleft, y0)
+            yMax = self.find_ymax(y0)
 
             #bounding the horizontal coordinate is difficult, but it should not exceed the pole
             xMax = self.c
@@ -627,7 +636,7 @@ class NonlinearBunch(StandardBunch):
 
             self.emit = newH #temporarily reset emittance for computing ymax on a particle by particle basis
 
-            yMax = newton(self.whatsleft, y0)
+            yMax = self.find_ymax(y0)
 
             #bounding the horizontal coordinate is difficult, but it should not exceed the pole
             xMax = self.c
-- 
2.43.0


From 2c558d1c6bcce19c81449dc02e121ce31d88bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 39/74] fix: keep interpolated samples inside their interval

---
 rsbeams/rsstats/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index b96584d..d9f0edc 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -99,7 +99,8 @@ def sample(n: int, distribution: callable, a: int, b: int,
         return x[samples]
     elif invert == 'interpolate':
         icdf = interpolate.interp1d(cdf_vals, x, kind='cubic', fill_value='extrapolate')
-        samples = icdf(y)
+        # The spline is extrapolated below the first value of the CDF
+        samples = np.clip(icdf(y), min(a, b), max(a, b))
         return samples
     else:
         raise NotImplementedError(f'{invert} is not supported for invert')
-- 
2.43.0


From f46ea48850ab4d299491ca7a590164140a9cfc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 40/74] fix: find the extent of KV bunches of very small
 emittance

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 3e4d2b1..ff93a96 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -218,7 +218,7 @@ class StandardBunch(object):
         # Use the lemming method to find the maximum y
         y0 = np.sqrt(self.emit)
 
-        yMax = newton(self.whatsleft, y0)
+        yMax = newton(self.whatsleft, y0, tol=1e-9*y0)
         xMax = yMax
 
         # Generate particles by creating trials and finding particles with potential less than emittance,
-- 
2.43.0


From 9d7b790b1a2c690d38b8527262ae2e425e15e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 41/74] fix: ignore case when updating and removing element
 parameters

---
 rsbeams/rslattice/Element.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index 9b7c922..ea6f16d 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -67,6 +67,16 @@ class AgnosticDict(dict):
     def get(self, key, default=None):
         return dict.get(self, key.lower(), default)
 
+    def pop(self, key, *default):
+        return dict.pop(self, key.lower(), *default)
+
+    def setdefault(self, key, default=None):
+        return dict.setdefault(self, key.lower(), default)
+
+    def update(self, *args, **kwargs):
+        for key, val in dict(*args, **kwargs).items():
+            self[key] = val
+
 
 class Element(object):
     """
-- 
2.43.0


From a64471d8c8cf362cfc4ee24f3e0d2dd3d55eb637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 42/74] fix: expand repetitions at the start of a repeated
 group of an lte line

---
 rsbeams/rslattice/lte_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index d1e8c2e..cac9d31 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -136,6 +136,8 @@ class BeamlineParser(object):
             if coefficient:
                 beamline_string = self._expand_line(beamline_string, int(coefficient))
                 coefficient = ''
+                # The expanded line may start with another coefficient
+                continue
             if beamline_string.find(',') > -1:
                 next_element_end = beamline_string.find(',')
             elif beamline_string.find(')') > -1:
-- 
2.43.0


From d4dcb5f1d666ea69aae6b40c2d708c7fa7747316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 43/74] fix: read nested brackets and white space in lte files

---
 rsbeams/rslattice/lte_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index cac9d31..c13120e 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -174,7 +174,7 @@ class BeamlineParser(object):
             for line in self.lattice_definition:
                 line = line.replace('"', '')
                 line = line.replace('\'', '')
-                if line.lstrip().find('{}:'.format(element_name)) == 0:
+                if line.partition(':')[0].strip() == element_name:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
@@ -212,12 +212,15 @@ class BeamlineParser(object):
         # Case 1: Starts with (
         if beamline_string[0] == '(':
             beamline_string = beamline_string[1:]  # Consume '('
+            # Find the bracket that closes this one
             subline_end = beamline_string.find(')')
+            while beamline_string[:subline_end].count('(') > beamline_string[:subline_end].count(')'):
+                subline_end = beamline_string.index(')', subline_end + 1)
 
             for _ in range(coefficient):
                 subline += beamline_string[:subline_end]
                 subline += ','
-            beamline_string = subline + beamline_string[subline_end + 2:]
+            beamline_string = subline + beamline_string[subline_end + 1:].lstrip()[1:]
             # TODO: This may overwrite ) if the final element, but I may not care for the purpose of the parser
         # Case 2: Not enclosed by ()
         else:
@@ -312,6 +315,9 @@ class BeamlineParser(object):
                 print("Line continuation concatenation may have failed.")
                 raise
 
+            self.lattice_definition[linenumber] = re.sub(r':\s*line\s*=\s*\(', ': line=(',
+                                                         self.lattice_definition[linenumber])
+
             if self.lattice_definition[linenumber].lstrip()[0] == '%':
                 variable = self.lattice_definition[linenumber].split()
                 rpn_definitions.insert(0, (variable[-1], variable[1:-2]))
@@ -339,7 +345,7 @@ class BeamlineParser(object):
         if end < 0:
             return -1
 
-        return line[0:end].strip('"')
+        return line[0:end].strip().strip('"')
 
 
 def parse_rpn(expression):
-- 
2.43.0


From a9bc762fb1ee80354fc90a8dff1e86ff607f493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 44/74] fix: evaluate quadrupole matrices of a variable
 strength at zero

---
 rsbeams/rslattice/Beamline.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index c290c73..4fd707c 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,7 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
-from sympy import symbols, cosh, sinh, sqrt, lambdify
+from sympy import symbols, cosh, sinh, sinc, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
@@ -31,9 +31,9 @@ class StructuredBeamline(object):
         # Transverse matrices for elements
         "quadrupole": Matrix(
             (
-                [cosh(sqrt(-K1) * L), sinh(sqrt(-K1) * L) / sqrt(-K1), 0, 0],
+                [cosh(sqrt(-K1) * L), L * sinc(sqrt(K1) * L), 0, 0],
                 [sqrt(-K1) * sinh(sqrt(-K1) * L), cosh(sqrt(-K1) * L), 0, 0],
-                [0, 0, cosh(sqrt(K1) * L), sinh(sqrt(K1) * L) / sqrt(K1)],
+                [0, 0, cosh(sqrt(K1) * L), L * sinc(sqrt(-K1) * L)],
                 [0, 0, sqrt(K1) * sinh(sqrt(K1) * L), cosh(sqrt(K1) * L)],
             )
         ),
@@ -236,11 +236,7 @@ class StructuredBeamline(object):
         elements = []
         variables = {}
         for ele in self.sequence:
-            if ele.type == "quadrupole" and ele.parameters.get("k1") == 0:
-                # limit of the quadrupole matrix, which divides by K1
-                elements.append(self.matrices["drift"])
-            else:
-                elements.append(self.matrices[ele.type])
+            elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
@@ -249,6 +245,8 @@ class StructuredBeamline(object):
                     val = variables[val]
                 # Parameter names are stored in lower case, symbols are upper case
                 elements[-1] = elements[-1].subs(symbols(key.upper()), val)
+            if not elements[-1].free_symbols:
+                elements[-1] = elements[-1].evalf()
 
         if concatenate:
             matrix = elements[-1]
-- 
2.43.0


From 4d1eaa64a2e58fcf06bb644479f19c5e6615b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 45/74] fix: end the name of a symbol before a letter follows

---
 rsbeams/rsplot/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 6077978..ccd3034 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -145,7 +145,8 @@ PROCESS = {
 
 def process_character(char, mapping):
     try:
-        return mapping[char]
+        # The space ends the name of the symbol, a letter may follow
+        return mapping[char] + ' '
     except KeyError:
         print(f"Could not find {char}")
         return char
-- 
2.43.0


From 4523c0bf41c6e57a5fc18bdf4e063e1263c5fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 46/74] fix: space contour levels of a constant positive field

---
 rsbeams/rsplot/plot_ptcls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index fadf7c8..50a3fb1 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -139,8 +139,8 @@ def gen_contour_levels(field, nLevels=40, multiplier=1.1):
         max_e = numpy.around(max_e, decimals=3)
         min_e = -max_e
     else:
-        min_e= numpy.around(min_e, decimals=3)
-        max_e = abs(min_e)
+        max_e = abs(numpy.around(min_e, decimals=3))
+        min_e = -max_e
 
     e_levels = []
     delta_e = (max_e-min_e) / nLevels
-- 
2.43.0


From b6ebc84dcd501a679a3cfe32fc34492cc687c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 47/74] fix: give every cavity of a Trace3D lattice its own
 phase

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 69302a3..7ad5c49 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -232,8 +232,8 @@ class Trace3d(BeamlineParser):
                     self.beamline.edit_element(i + 1, ['L',], [0.0,])
                     self.beamline.edit_element(i, ['L', ], [L, ])
 
-        for cav in cavities:
-            self.beamline.edit_element(cav, ['phase']*len(phases), phases)
+        for cav, phase in zip(cavities, phases):
+            self.beamline.edit_element(cav, 'phase', phase)
 
 
 class TraceWin(Trace3d):
-- 
2.43.0


From 8d7166a1bf2c14aa349722453550e9ab500475a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 48/74] fix: refuse files that mention the SDDS identifier
 after the start of their first line

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 231dffa..9923ec9 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -110,7 +110,7 @@ class readSDDS:
         """
         Read in ASCII data of the header to string and organize.
         """
-        if utils._read_line(self.openf).find('SDDS1') < 0:
+        if not utils._read_line(self.openf).startswith('SDDS1'):
             # First line must identify as SDDS file
             raise Exception("Header cannot be read")
         # TODO: Need a catch for &include here to at least one level of nesting
-- 
2.43.0


From c96513e16adb612fed650e54342a2dda0c0f086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 49/74] fix: refuse SDDS headers with unknown text before a
 definition

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 9923ec9..6093b5b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -119,7 +119,7 @@ class readSDDS:
             namelist = []
             new_line = utils._read_line(self.openf)
             self._header_line_count += 1
-            if np.any([nl in new_line for nl in sdds_namelists]):
+            if new_line.lstrip().startswith(tuple(sdds_namelists)):
                 # Log entries that describe data
                 namelist.append(new_line)
                 while '&end' not in new_line:
-- 
2.43.0


From 9d7d68953af3a1928dfee17eac62e623169230ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:27 +0000
Subject: [PATCH 50/74] fix: stop reading SDDS files that declare nothing to
 read

---
 rsbeams/rsdata/SDDS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 6093b5b..b2e0550 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -346,6 +346,10 @@ class readSDDS:
         Returns:
 
         """
+        if not self._parameter_keys and not self._column_keys:
+            # The pages of the file hold no data
+            return
+
         # Always start after the header
         if not self.buffer:
             self.openf.seek(self.header_end_pointer)
-- 
2.43.0


From 965a66267466a2f239b63d4f05f464e7692a48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 51/74] fix: hand a single argument of 0 to the distribution
 that is sampled

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index d9f0edc..c56ee9f 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -39,9 +39,9 @@ def cdf_on_grid(distribution: callable, grid: np.ndarray, args: tuple = None) ->
 
     """
 
-    if args:
+    if args is not None:
         try:
-            args[0]
+            iter(args)
         except TypeError:
             args = (args,)
         weights = distribution(grid, *args)
-- 
2.43.0


From 463dd577b7a9462325d656c3c1b184d406ddb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 52/74] fix: refuse unknown definitions whose name begins like
 that of a known one

---
 rsbeams/rsdata/SDDS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index b2e0550..f298573 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -119,7 +119,9 @@ class readSDDS:
             namelist = []
             new_line = utils._read_line(self.openf)
             self._header_line_count += 1
-            if new_line.lstrip().startswith(tuple(sdds_namelists)):
+            # The whole word counts: text such as &columns is no definition
+            keyword = (new_line.split(maxsplit=1) or [''])[0]
+            if keyword in sdds_namelists:
                 # Log entries that describe data
                 namelist.append(new_line)
                 while '&end' not in new_line:
@@ -131,7 +133,7 @@ class readSDDS:
                     namelist.append(new_line)
                     self._header_line_count += 1
                 self.header.append(''.join(namelist))
-            elif new_line.find('&data') == 0:
+            elif keyword == '&data':
                 # Final entry in the header is always &data
                 namelist.append(new_line)
                 while '&end' not in new_line:
-- 
2.43.0


From a4a0f20d7b73c7c1e893d9975c4f02b1d0ed9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 53/74] fix: convert strengths for Warp at the energy of the
 design momentum

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5562560..5740661 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -50,7 +50,7 @@ def elegant_to_warp(input_file_path, output_file_path, beamline_name):
 
 
     beamline = parse_json(sim_dat, beamline_name)
-    _parameter_conversions(beamline=beamline, energy=p_central_mev, flip_sign=True)
+    _parameter_conversions(beamline=beamline, energy=central_energy, flip_sign=True)
     writer = WarpWriter(beamline, input_simulation_type)
     writer.write_file(output_file_path)
     
-- 
2.43.0


From f2df684d56842f7a8ac90a9eeeb2e0573502294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 54/74] fix: scale sextupole strengths for Warp with the first
 power of the rigidity

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5740661..8f263ef 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -18,7 +18,7 @@ def _get_gradient(k1, energy, mass, n=1):
     beta = np.sqrt(1 - 1 / gamma ** 2)
     e_momentum = beta * gamma * (mass * e / c**2) * c  # beta * gamma * mass[kg] * c[m/s]
     b_rho = e_momentum / (1 * e)  # kg*m/s / C  == T*m
-    gradient = k1 * b_rho**n
+    gradient = k1 * b_rho  # for every order
     return gradient
 
 def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
-- 
2.43.0


From 8142c0dc736f86ee98dbcbcc2250def08be5ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 55/74] fix: convert the parameters of all bends and sextupoles
 that are written for Warp

---
 rsbeams/pkcli/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 8f263ef..603bf9c 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -26,9 +26,9 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
     for ele in beamline.get_beamline_elements():
         if ele.type == 'kquad' or ele.type == 'quad':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k1']), energy, mass)
-        elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
+        elif ele.type in ('csbend', 'sben', 'csrcsbend', 'ksbend', 'nibend', 'rben', 'tubend'):
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
-        elif ele.type == 'sext':
+        elif ele.type == 'ksext' or ele.type == 'sext':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass, n=2)
 
 # Public Functions
-- 
2.43.0


From ed8d5ade9b56076fa5a8d2a23f15d926672a3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 56/74] fix: define all elements in every Warp file of a writer

---
 rsbeams/rslattice/formatted_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 2a0b81d..b89805f 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -55,6 +55,7 @@ class WarpWriter:
         self.drift_name = 'Drft'
 
     def write_file(self, filename):
+        self.element_names = []  # every file holds all definitions
         contents = "import warp as wp\n"
         line_contents = self.line_template.format(line_name=self.beamline.name)
         elements = self.beamline.get_beamline_elements()
-- 
2.43.0


From ceb871e387c4fef6f8dbfef45bf566de4b103079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 57/74] fix: define the constants module without names that do
 not exist yet

---
 rsbeams/rsphysics/rsconst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsphysics/rsconst.py b/rsbeams/rsphysics/rsconst.py
index c1286d5..c6506aa 100644
--- a/rsbeams/rsphysics/rsconst.py
+++ b/rsbeams/rsphysics/rsconst.py
@@ -10,7 +10,7 @@ import scipy.constants as const
 # DEPRECATED use rsmath.rsconst or scipy
 C_to_STATC = const.c * 10.0
 EV_to_ERG = 1.602e-12
-KG_to_EV = c_SQ / e
+KG_to_EV = const.c**2 / const.e
 MKS_factor = 1.0 / (4.0 * math.pi * const.epsilon_0)
 RT_2 = math.sqrt(2.0)
 RT_2_OVER_PI = math.sqrt(2 / math.pi)
-- 
2.43.0


From 916b181f7d6f6a622e37fc85cd70596f05b2b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 58/74] fix: refuse impossible string lengths in binary SDDS
 files

---
 rsbeams/rsdata/SDDS.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index f298573..d9df2ef 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -425,6 +425,8 @@ class readSDDS:
                     dk = [(dk[0][0], dk[0][1].format(record_length[0]))]
                 except (ValueError, IndexError):
                     pass
+                else:
+                    self._check_record_length(record_length[0], dk)
             if self.data['&data'][0].fields['mode'] == 'ascii':
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
                                                comments='!', deletechars='', unpack=False, delimiter='\n\t')
@@ -438,6 +440,12 @@ class readSDDS:
 
         return data_arrays, position
 
+    @staticmethod
+    def _check_record_length(record_length, data_key):
+        # NumPy does not check sizes that are negative or too large
+        if not 0 <= record_length <= np.dtype(data_key).itemsize:
+            raise Exception("String length cannot be read")
+
     def _get_column_data(self, data_keys, position, row_count):
         # TODO: Account for now_row_count possibility
         data_arrays = []
@@ -453,6 +461,8 @@ class readSDDS:
                             dk[0] = (dk[0][0], dk[0][1].format(record_length[0]))
                         except (ValueError, IndexError):
                             pass
+                        else:
+                            self._check_record_length(record_length[0], dk)
                     if self.data['&data'][0].fields['mode'] == 'ascii':
                         new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
                                                        comments='!', deletechars='')
-- 
2.43.0


From d9bc963ea6f324c76a6e1d01fe82b7e8d7339203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 59/74] fix: refuse negative row counts in SDDS files

---
 rsbeams/rsdata/SDDS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index d9df2ef..0bdbb0b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -403,6 +403,8 @@ class readSDDS:
             else:
                 row_count = self._get_ascii_row_count(position)
 
+            if row_count < 0:
+                raise Exception("Row count cannot be read")
             if row_count == 0:
                 if self._columns and (read_all or page in user_pages):
                     self._columns.add_empty()
-- 
2.43.0


From a612622c3d1e1fbd1802857b9f565a085cc5d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 60/74] fix: ignore field lengths in binary SDDS files

---
 rsbeams/rsdata/SDDS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 0bdbb0b..1f5cf29 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -205,10 +205,10 @@ class readSDDS:
                 if self._data_mode == 'binary':
                     self._column_keys[-1].append(('record_length', np.int32))
                     self._column_keys.append([])
-                    if col.fields['field_length'] == 0:
-                        self._variable_length_records = True
+                    # Strings have their own length, field_length is for ascii data only
+                    self._variable_length_records = True
                     self._column_keys[-1].append((col.fields['name'],
-                                                  col.type_key.format('{}')))
+                                                  utils.data_types['string']))
                 else:
                     self._column_keys[-1].append((col.fields['name'],
                                                   col.type_key.format(self.max_string_length)))
-- 
2.43.0


From 13dbea5fcc1e2075d6b70eba0754c4932f90410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 61/74] fix: read Trace3D elements whose label looks like a
 definition

---
 rsbeams/rslattice/trace3d_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 7ad5c49..746050b 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -1,7 +1,7 @@
 from .Beamline import StructuredBeamline
 import numpy as np
 from scipy.constants import c
-from re import findall
+from re import findall, sub
 
 # lengths: mm
 # quad strength: T/m
@@ -142,7 +142,12 @@ class Trace3d(BeamlineParser):
 
         return line[def_start + len(name_def):def_end].strip()
 
+    def _remove_label(self, line):
+        # The text of a label is no definition
+        return sub(r"'[^']*'", '', line)
+
     def get_element_type(self, line):
+        line = self._remove_label(line)
         def_start = line.find('nt')
         def_char_start = line[def_start:].find('=')
         element_type = findall('\d+', line[def_start + def_char_start:])[0]
@@ -150,6 +155,7 @@ class Trace3d(BeamlineParser):
         return int(element_type)
 
     def get_element_parameters(self, line, type):
+        line = self._remove_label(line)
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-- 
2.43.0


From 6131724716b02f0a41c950660dbfd0d157daf029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 62/74] fix: substitute the parameters of an element at once in
 transfer matrices

---
 rsbeams/rslattice/Beamline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 4fd707c..733f840 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -239,12 +239,15 @@ class StructuredBeamline(object):
             elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
+            substitutions = {}
             for key, val in ele.parameters.items():
                 if type(val) == str:
                     variables[val] = symbols(val)
                     val = variables[val]
                 # Parameter names are stored in lower case, symbols are upper case
-                elements[-1] = elements[-1].subs(symbols(key.upper()), val)
+                substitutions[symbols(key.upper())] = val
+            # Variables may be named like a parameter
+            elements[-1] = elements[-1].subs(substitutions, simultaneous=True)
             if not elements[-1].free_symbols:
                 elements[-1] = elements[-1].evalf()
 
-- 
2.43.0


From c5d230ec71a8c97ec0390cd72e486bfa9e820c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 63/74] fix: keep quoted texts with colons or commas in lte
 files whole

---
 rsbeams/rslattice/lte_parser.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index c13120e..aba32bd 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -172,15 +172,13 @@ class BeamlineParser(object):
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
-                line = line.replace('"', '')
-                line = line.replace('\'', '')
-                if line.partition(':')[0].strip() == element_name:
+                if line.partition(':')[0].replace('"', '').replace('\'', '').strip() == element_name:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
             try:
                 element_type, element_parameters = self._find_parameters(element_definition)
-            except (NameError, TypeError):
+            except (AttributeError, NameError, TypeError):
                 print("\n\nElement Definition for {} not found".format(repr(element_name)))
                 raise
 
@@ -246,33 +244,27 @@ class BeamlineParser(object):
         :return:
         """
 
-        type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
+        type_start = beamline_string.find(':')
         type_end = beamline_string.find(',')
         if type_end < 0:
             type_end = len(beamline_string)
 
-        element_type = beamline_string[type_start + 1:type_end].strip()
+        element_type = beamline_string[type_start + 1:type_end].strip().replace('"', '').replace('\'', '')
         beamline_string = beamline_string[type_end + 1:]
 
         element_parameters = {}
 
-        # Iterate through 'keyword' parameters of the element
-        while beamline_string.partition('=')[1]:
-            beamline_string = beamline_string.partition('=')
-            key = beamline_string[0].strip()
+        # Iterate through 'keyword' parameters of the element, quoted values may hold any character
+        for key, value in re.findall(r'([^=,]+)=\s*("[^"]*"|\'[^\']*\'|[^,]*)', beamline_string):
+            key = key.replace('"', '').replace('\'', '').strip()
+            value = value.replace('"', '').replace('\'', '')
 
             try:
-                element_parameters[key] = parse_rpn(beamline_string[2])
+                element_parameters[key] = parse_rpn(value)
             except (ValueError, IndexError):
-                beamline_string = beamline_string[2].partition(',')
-                try:
-                    element_parameters[key] = parse_rpn(beamline_string[0])
-                except (ValueError, IndexError):
-                    # TODO: This allows setting of non-numeric parameters (which do occur),
-                    # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0]
-
-            beamline_string = beamline_string[2]
+                # TODO: This allows setting of non-numeric parameters (which do occur),
+                # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
+                element_parameters[key] = value
 
         return element_type, element_parameters
 
-- 
2.43.0


From c8b3ff714ba68607a3f67657576225e53d9cf244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 64/74] fix: do not take parts of element names with a dash for
 rpn variables

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index aba32bd..cf52832 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -328,7 +328,7 @@ class BeamlineParser(object):
                 # Only whole words count, and neither element names, keywords nor members of a line are variables
                 if self.lattice_definition[linenumber].find('line=(') < 0:
                     self.lattice_definition[linenumber] = \
-                        re.sub(r'(?<![\w.$])' + re.escape(key) + r'(?![\w.$]|"?\s*[=:])',
+                        re.sub(r'(?<![\w.$-])' + re.escape(key) + r'(?![\w.$-]|"?\s*[=:])',
                                str(self.rpn_variables[key]), self.lattice_definition[linenumber])
 
     def _read_name(self, line):
-- 
2.43.0


From 30e83c10100dd608068f13531b5fcb360bb3d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 65/74] fix: refuse rpn words that only contain pi

---
 rsbeams/rslattice/lte_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index cf52832..d74ee1e 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -356,8 +356,9 @@ def parse_rpn(expression):
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-        val = val.replace('pi', str(np.pi))
         val = val.strip()
+        if val.lstrip('+-') == 'pi':
+            val = val.replace('pi', str(np.pi))
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
         if val in ['-', '+', '*', '/', 'mult']:
             token1 = stack.pop()
-- 
2.43.0


From b22473372e50d9bd54f08edc9fd5367586286690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 66/74] fix: write the charge of OPAL dumps as a number to
 genesis files

The attribute CHARGE of a dump is an array of one number, which was written with brackets and 9 digits.
---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index cad8d3f..f9bd9cd 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -258,7 +258,7 @@ class Switchyard:
 
         header = ''
         header += '? VERSION = '+version + '\n'
-        header += '? CHARGE = '+str(self.species[species_name].total_charge) + '\n'
+        header += '? CHARGE = '+str(np.squeeze(self.species[species_name].total_charge)) + '\n'
         header += '? SIZE = '+str(len(X)) + '\n'
         header += '? COLUMNS X PX Y PY T P' + '\n'
 
-- 
2.43.0


From 4438867f59422a2a66c0bf9ba50f79b3aa0e0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 67/74] fix: keep the columns of particles with undefined
 coordinates in genesis files

An undefined coordinate was written as an empty field, so the line had five numbers.
---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index f9bd9cd..fe1cbed 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -267,7 +267,7 @@ class Switchyard:
         
         df = pd.DataFrame([X, PX, Y, PY, T, P]).T
         
-        df.to_csv(file_name, mode='a', sep=' ', header=False, index=False)
+        df.to_csv(file_name, mode='a', sep=' ', header=False, index=False, na_rep='nan')
                 
         return 0
 
-- 
2.43.0


From e371129381c1d732d30a69f22d51a0872e5de051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 68/74] fix: refuse a beta, an aperture and a cut-off of zero
 in bunches

---
 rsbeams/rsptcls/bunch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index ff93a96..1bd6fa9 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -117,7 +117,7 @@ class StandardBunch(object):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -128,7 +128,7 @@ class StandardBunch(object):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
@@ -368,7 +368,7 @@ class NonlinearBunch(StandardBunch):
         return self._c
     @c.setter
     def c(self, cval):
-        if cval < 0:
+        if cval <= 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
         self._c = cval
 
@@ -389,7 +389,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cutoff < 0:
+        if cutoff <= 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
@@ -399,7 +399,7 @@ class NonlinearBunch(StandardBunch):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -415,7 +415,7 @@ class NonlinearBunch(StandardBunch):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
-- 
2.43.0


From e0305f9ce6e20625b86c18ee67d78c1d778c7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 69/74] fix: return plain numbers from square roots in rpn
 expressions

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index d74ee1e..732b8db 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -377,7 +377,7 @@ def parse_rpn(expression):
         elif val in ['sqrt']:
             token1 = stack.pop()
             if val == 'sqrt':
-                result = np.sqrt(token1)
+                result = float(np.sqrt(token1))
             else:
                 raise RuntimeError
             stack.append(result)
-- 
2.43.0


From b55b1f7aeb7a96a5c782e8621553c0ad5467be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 70/74] fix: save beamlines whose parameters are numpy numbers

---
 rsbeams/rslattice/Beamline.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 733f840..54f389e 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -11,6 +11,7 @@ from sympy import symbols, cosh, sinh, sinc, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
+import numpy as np
 
 # TODO: Have StructuredBeamline inherit from UserList and remove the sequence attribute and just use self
 #    This may break the current self._top?
@@ -113,13 +114,20 @@ class StructuredBeamline(object):
         :return:
         """
 
+        # YAML has no representation for numpy scalars
+        def plain_values(ele):
+            return {
+                k: v.item() if isinstance(v, np.generic) else v
+                for k, v in ele.parameters.items()
+            }
+
         # Return elements preserving sub-line structures
         def return_elements(line):
             the_beamline = []
             for ele in line.sequence:
                 if isinstance(ele, Element):
                     the_beamline.append(
-                        {"name": ele.name, **ele.parameters, "type": ele.type}
+                        {"name": ele.name, **plain_values(ele), "type": ele.type}
                     )
                 else:
                     the_beamline.append(return_elements(ele))
-- 
2.43.0


From b33a30afba73d4c49e43012fd924a5411f22beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 71/74] fix: include sub-lines in transfer matrices of
 beamlines

---
 rsbeams/rslattice/Beamline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 54f389e..6bbaa8a 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -243,7 +243,7 @@ class StructuredBeamline(object):
     def generate_matrix(self, concatenate=True):
         elements = []
         variables = {}
-        for ele in self.sequence:
+        for ele in self.get_beamline_elements():
             elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
-- 
2.43.0


From f55549feaae0021d6a8dccb8879c5045b7720b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 72/74] fix: keep element parameters independent of case in
 copies and merges

---
 rsbeams/rslattice/Element.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index ea6f16d..0b66715 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -77,6 +77,20 @@ class AgnosticDict(dict):
         for key, val in dict(*args, **kwargs).items():
             self[key] = val
 
+    def copy(self):
+        new = type(self)()
+        new.update(self)
+        return new
+
+    def __or__(self, other):
+        new = self.copy()
+        new.update(other)
+        return new
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
 
 class Element(object):
     """
-- 
2.43.0


From 96831c86f5850a7033b451e2ee8830d01f37db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 73/74] fix: keep parameters called name or type in saved
 beamlines

---
 rsbeams/rslattice/Beamline.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 6bbaa8a..cdc4fca 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -126,8 +126,12 @@ class StructuredBeamline(object):
             the_beamline = []
             for ele in line.sequence:
                 if isinstance(ele, Element):
+                    parameters = plain_values(ele)
+                    if "name" in parameters or "type" in parameters:
+                        # would be taken for the name or type of the element
+                        parameters = {"parameters": parameters}
                     the_beamline.append(
-                        {"name": ele.name, **plain_values(ele), "type": ele.type}
+                        {"name": ele.name, **parameters, "type": ele.type}
                     )
                 else:
                     the_beamline.append(return_elements(ele))
@@ -149,15 +153,14 @@ class StructuredBeamline(object):
         def create_beamline(elements, beamline):
             for element in elements:
                 if isinstance(element, dict):
-                    beamline.add_element(
-                        element["name"],
-                        element["type"],
-                        {
-                            k: v
-                            for k, v in element.items()
-                            if (k != "type") and (k != "name")
-                        },
-                    )
+                    parameters = {
+                        k: v
+                        for k, v in element.items()
+                        if (k != "type") and (k != "name")
+                    }
+                    if isinstance(parameters.get("parameters"), dict):
+                        parameters = parameters["parameters"]
+                    beamline.add_element(element["name"], element["type"], parameters)
                 else:
                     # names of sublines are not stored in the file
                     beamline.add_beamline(name="line_{}".format(len(beamline.lines)))
-- 
2.43.0


From ef8e29aa2a4597489a9cee821ca6297cfafbc306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 74/74] fix: take only numbers for numbers in rpn expressions

---
 rsbeams/rslattice/lte_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 732b8db..4eae29f 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -383,6 +383,9 @@ def parse_rpn(expression):
             stack.append(result)
         else:
             if val:
+                # float() also takes words such as 1_0 or nan
+                if not re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?', val, re.IGNORECASE):
+                    raise ValueError('{} is not a number'.format(repr(val)))
                 stack.append(float(val))
 
     return stack.pop()
-- 
2.43.0

