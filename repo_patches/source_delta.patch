From 3501c075924c48d1d1b09d3c9142126d97e00563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:07 +0000
Subject: [PATCH 01/25] fix: mask_reset gives all True also for data with nan,
 and bool dtype when empty

---
 channelpack/pack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..4b15c16 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -316,10 +316,10 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.mask = np.array([])
+            self.mask = np.array([], dtype=bool)
         else:
             lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+            self.mask = np.ones(len(self.data[lowest]), dtype=bool)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
@@ -389,7 +389,8 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
             self.mask &= result
         return result
-- 
2.43.0


From 92ee2a5f7bb627880721aee4a1e3e26b879773ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 02/25] fix: setting data or names to a dict instance of the
 pack's own type resets the mask and makes no alias

---
 channelpack/pack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 4b15c16..857a138 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -212,12 +212,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
+        self.mindur = None       # before data, consulted with the mask
         self.data = NpDict(data or {})
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
         self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
@@ -239,10 +239,10 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
+        elif name == 'data':
             object.__setattr__(self, name, NpDict(value))
             self.mask_reset()
-        elif name == 'names' and not isinstance(value, IntKeyDict):
+        elif name == 'names':
             object.__setattr__(self, name, IntKeyDict(value))
         elif name == 'fn':
             if not isinstance(value, str):
-- 
2.43.0


From bef386379cb5e8b6bfe48f3943e93a8a21269c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:19 +0000
Subject: [PATCH 03/25] fix: append_pack checks names alignment before data is
 changed

---
 channelpack/pack.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 857a138..0a237e6 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -288,19 +288,22 @@ class ChannelPack(object):
 
         """
 
+        # check both dicts before any change to this pack
+        if self.data and other.data:
+            if not set(self.data.keys()) == set(other.data.keys()):
+                raise ValueError('Data dicts set of keys not equal')
+        if self.names and other.names:
+            if not set(self.names.keys()) == set(other.names.keys()):
+                raise ValueError('names dicts set of keys not equal')
+
         if not self.data:
             self.data = other.data
         elif other.data:
-            if not set(self.data.keys()) == set(other.data.keys()):
-                raise ValueError('Data dicts set of keys not equal')
             for key in other.data:
                 self.data[key] = np.append(self.data[key], other.data[key])
 
         if not self.names:
             self.names = other.names
-        elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
-                raise ValueError('names dicts set of keys not equal')
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From 9b9762424189d1444c56d920e8771a20c2427282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:25 +0000
Subject: [PATCH 04/25] fix: the pack owns its mask so that masking does not
 modify data used as mask

---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 0a237e6..73adde4 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -228,7 +228,8 @@ class ChannelPack(object):
         elif name == 'mask' and not isinstance(value, np.ndarray):
             raise TypeError('Expected a numpy array')
         elif name == 'mask':
-            object.__setattr__(self, name, value)
+            # own the mask, it is modified in place by duration
+            object.__setattr__(self, name, value.copy())
             self._cached_slicelist = self._slicelist()
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-- 
2.43.0


From fbe91c091ede1d500256e9ed47f662f3e459ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 05/25] fix: fallback string must be the prefix followed by a
 number only

---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 73adde4..5b78772 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -554,7 +554,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = re.escape(self.FALLBACK_PREFIX) + r'(\d+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0


From 48fe42c2527c1e9c1b5bc6fae7c11222a89df16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:39 +0000
Subject: [PATCH 06/25] fix: records fetch columns by key so fallback names are
 not taken for proper names

---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 5b78772..9487b6a 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -506,18 +506,19 @@ class ChannelPack(object):
 
         """
 
-        names = [self.names[key] for key in sorted(self.names)]
+        keys = sorted(self.names)
+        names = [self.names[key] for key in keys]
         if fallback:
-            names = [self.FALLBACK_PREFIX + str(key) for key in
-                     sorted(self.data)]
+            keys = sorted(self.data)
+            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
 
         try:
             Record = namedtuple('Record', names)
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
+                                              for key in keys])):
             yield record
 
     def _datakey(self, ch):
-- 
2.43.0


From cb28ef410d99ee5dc975a59c43c940f08448d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 07/25] fix: IntKeyDict update consumes iterators once, checks
 keys of any mapping and of |=

---
 channelpack/pack.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 9487b6a..6f8df25 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -27,33 +27,24 @@ class IntKeyDict(dict):
 
     def update(self, *args, **kwargs):
 
-        # only concern about keys being integers, let parent handle
-        # other dict violations
-        if args and isinstance(args[0], dict):
-            for key in args[0]:
-                if not isinstance(key, int):
-                    raise TypeError(self._key_error_message(key))
-
-        elif args and (hasattr(args[0], '__iter__') and not
-                       isinstance(args[0], str)):
-            for seq in args[0]:
-                if hasattr(seq, '__len__') and len(seq) > 2:
-                    break       # not our problem
-                elif (hasattr(seq, '__getitem__') and not
-                      isinstance(seq[0], int)):
-                    raise TypeError(self._key_error_message(seq[0]))
-
-        for key, value in kwargs.items():
+        # only concern about keys being integers, let dict handle other
+        # dict violations and consume args once
+        new = dict(*args, **kwargs)
+        for key in new:
             if not isinstance(key, int):
                 raise TypeError(self._key_error_message(key))
 
-        super(IntKeyDict, self).update(*args, **kwargs)
+        super(IntKeyDict, self).update(new)
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
             raise TypeError(self._key_error_message)
         super(IntKeyDict, self).setdefault(key, value)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def _key_error_message(self, key):
         return 'Only integer keys accepted, got: {}'.format(repr(key))
 
-- 
2.43.0


From af212ec6fd404e5871a234768e9406ae879b1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 08/25] fix: NpDict converts values of key, value pairs that
 are not indexable

---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 6f8df25..86f2f45 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -88,7 +88,8 @@ class NpDict(IntKeyDict):
             proxypairs = []
             # loop over the key, value pairs
             for seq in args[0]:
-                if hasattr(seq, '__getitem__'):
+                if hasattr(seq, '__iter__'):
+                    seq = list(seq)
                     array = np.array(seq[-1], copy=False)
                     self._check_raise_ndim(array, seq[-1])
                     # let possible invalid length of key, value pairs remain
-- 
2.43.0


From 4c8148bd15eba5e5ef246a671fb1dc58cd0cecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:55 +0000
Subject: [PATCH 09/25] fix: setdefault returns the value like dict and raises
 a readable error

---
 channelpack/pack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 86f2f45..b77b335 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -38,8 +38,8 @@ class IntKeyDict(dict):
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
-            raise TypeError(self._key_error_message)
-        super(IntKeyDict, self).setdefault(key, value)
+            raise TypeError(self._key_error_message(key))
+        return super(IntKeyDict, self).setdefault(key, value)
 
     def __ior__(self, other):
         self.update(other)
@@ -115,7 +115,7 @@ class NpDict(IntKeyDict):
     def setdefault(self, key, value=None):
         array = np.array(value, copy=False)
         self._check_raise_ndim(array, value)
-        super(NpDict, self).setdefault(key, array)  # return? FIXME
+        return super(NpDict, self).setdefault(key, array)
 
     def _check_raise_ndim(self, array, value):
         """Check array for ndim == 1 and raise error if fail.
-- 
2.43.0


From 7804e6662c078ec34a29bd847c8add02713867fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 10/25] fix: contextopen closes the file it opened if the
 sneakread fails

---
 channelpack/readtext.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..defa76a 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -219,9 +219,13 @@ class contextopen(object):
             except AttributeError:
                 pass
 
-        tell = self.fo.tell()
-        self.bytehint = type(self.fo.read(1)) is bytes
-        self.fo.seek(tell)
+        try:
+            tell = self.fo.tell()
+            self.bytehint = type(self.fo.read(1)) is bytes
+            self.fo.seek(tell)
+        except Exception:
+            self.__exit__(None, None, None)  # close if opened here
+            raise
 
     def __enter__(self):
         return self
-- 
2.43.0


From 4f563d3c8b6cfe495015b462cdb233d329c2cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:32 +0000
Subject: [PATCH 11/25] fix: textpack with usecols out of order assigned data
 and names to the wrong columns

---
 channelpack/readtext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index defa76a..c7f0294 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -348,6 +348,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
 
     if usecols is not None:
         usecols = (usecols,) if type(usecols) is int else usecols
+        usecols = sorted(set(usecols))  # columns are read in file order
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From 527691aeb171c9e7384214aa3a906840ee6d072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 12/25] fix: textpack debug=True gives the same data and does
 not mask the error of the first line

---
 channelpack/readtext.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c7f0294..04d13b3 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -4,7 +4,7 @@ Funtions for reading data from text files.
 """
 from __future__ import print_function
 import re
-from collections import namedtuple, defaultdict
+from collections import namedtuple
 import io
 import locale
 import string
@@ -365,7 +365,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
                                 bytehint=bytehint, converters=converters,
                                 stripstrings=stripstrings, hasnames=hasnames)
 
-        debugdict = dict(funcs=next(linetupler))
+        debugdict = dict(funcs=next(linetupler), linum=-1)
 
         if hasnames and usecols is not None:
             for col, name in zip(usecols, next(linetupler)):
@@ -385,16 +385,11 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
         # Then debug is on. Do the exact same thing but loop over the
         # tuples so we can count lines and provide meaningful debug
         # output prior to an exception.
-        columndata = defaultdict(list)
+        rows = []
         try:
             for i, linetuple in enumerate(linetupler):
                 debugdict['linum'] = i
-                if usecols is not None:
-                    for column, value in zip(usecols, linetuple):
-                        columndata[column].append(value)
-                else:
-                    for column, value in enumerate(linetuple):
-                        columndata[column].append(value)
+                rows.append(linetuple)
         except Exception:
             for i, converter in enumerate(debugdict['funcs']):
                 print('converter func field', i, converter)
@@ -403,7 +398,9 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
             print('Traceback follows...')
             raise
 
-        return columndata
+        if usecols is not None:
+            return {col: data for col, data in zip(usecols, zip(*rows))}
+        return {col: data for col, data in enumerate(zip(*rows))}
 
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
-- 
2.43.0


From 0835b4df04c4eb2fcabea99c40a8d5122867260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:47 +0000
Subject: [PATCH 13/25] fix: lazy_textpack rewinds to where it started to
 preparse

---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 04d13b3..e2022ac 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -265,6 +265,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        startpos = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -276,7 +277,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(startpos)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From 59c984ca5b868499a6cc785c906cbf57e2573fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 14/25] fix: dbfrecords moves past a deleted record when the
 last field is not selected

---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..6edae71 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -127,6 +127,7 @@ def dbfrecords(f, names):
         for field in selfields:
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
 
         if record[0] != b' ':
             continue                        # deleted record
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From 0de0f208afd0fe22f204c23efd33a6d392775b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:01 +0000
Subject: [PATCH 15/25] fix: dbfpack with names rewinds to where the stream was

---
 channelpack/dbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 6edae71..0965074 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -191,9 +191,10 @@ def dbfpack(dbf, names=None):
 
     with contextopen(dbf, 'rb') as context:
         fo = context.fo
+        startpos = fo.tell()
         sniffnames = dbfreader(fo)
         allnames = next(sniffnames)
-        fo.seek(0)
+        fo.seek(startpos)
         dbfrecs = dbfrecords(fo, names)
         next(dbfrecs)
         next(dbfrecs)
-- 
2.43.0


From baf23aae95915f9bcecf9dd5abe767d33ce865d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:35 +0000
Subject: [PATCH 16/25] fix: open_workbook closes the zip file it opened

---
 channelpack/xlrd/__init__.py | 55 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/channelpack/xlrd/__init__.py b/channelpack/xlrd/__init__.py
index 5153bf2..0d1a37f 100644
--- a/channelpack/xlrd/__init__.py
+++ b/channelpack/xlrd/__init__.py
@@ -116,33 +116,34 @@ def open_workbook(filename=None,
         else:
             zf = zipfile.ZipFile(filename)
 
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = dict([(X12Book.convert_filename(name), name)
-                                for name in zf.namelist()])
-
-        if verbosity:
-            logfile.write('ZIP component_names:\n')
-            pprint.pprint(component_names, logfile)
-        if 'xl/workbook.xml' in component_names:
-            from . import xlsx
-            bk = xlsx.open_workbook_2007_xml(
-                zf,
-                component_names,
-                logfile=logfile,
-                verbosity=verbosity,
-                use_mmap=use_mmap,
-                formatting_info=formatting_info,
-                on_demand=on_demand,
-                ragged_rows=ragged_rows,
-            )
-            return bk
-        if 'xl/workbook.bin' in component_names:
-            raise XLRDError('Excel 2007 xlsb file; not supported')
-        if 'content.xml' in component_names:
-            raise XLRDError('Openoffice.org ODS file; not supported')
-        raise XLRDError('ZIP file contents not a known type of workbook')
+        with zf:
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = dict([(X12Book.convert_filename(name), name)
+                                    for name in zf.namelist()])
+
+            if verbosity:
+                logfile.write('ZIP component_names:\n')
+                pprint.pprint(component_names, logfile)
+            if 'xl/workbook.xml' in component_names:
+                from . import xlsx
+                bk = xlsx.open_workbook_2007_xml(
+                    zf,
+                    component_names,
+                    logfile=logfile,
+                    verbosity=verbosity,
+                    use_mmap=use_mmap,
+                    formatting_info=formatting_info,
+                    on_demand=on_demand,
+                    ragged_rows=ragged_rows,
+                )
+                return bk
+            if 'xl/workbook.bin' in component_names:
+                raise XLRDError('Excel 2007 xlsb file; not supported')
+            if 'content.xml' in component_names:
+                raise XLRDError('Openoffice.org ODS file; not supported')
+            raise XLRDError('ZIP file contents not a known type of workbook')
 
     from . import book
     bk = book.open_workbook_xls(
-- 
2.43.0


From f38d96058409020a3e987e309e85b27ee1ec1667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:42 +0000
Subject: [PATCH 17/25] fix: sheet rels and comments parts are opened by their
 actual name in the zip

---
 channelpack/xlrd/xlsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a1ca2dd..0396c40 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -813,7 +813,7 @@ def open_workbook_2007_xml(zf,
 
         rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
         if rels_fname in component_names:
-            zfrels = zf.open(rels_fname)
+            zfrels = zf.open(component_names[rels_fname])
             x12sheet.process_rels(zfrels)
             del zfrels
 
@@ -821,7 +821,7 @@ def open_workbook_2007_xml(zf,
             if reltype == 'comments':
                 comments_fname = x12sheet.relid2path.get(relid)
                 if comments_fname and comments_fname in component_names:
-                    comments_stream = zf.open(comments_fname)
+                    comments_stream = zf.open(component_names[comments_fname])
                     x12sheet.process_comments_stream(comments_stream)
                     del comments_stream
 
-- 
2.43.0


From 53cc47392833f3023fd7f68e059271daebc2dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 18/25] fix: a loop in the short sector chain raises instead of
 never ending

---
 channelpack/xlrd/compdoc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..01a5db9 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -289,6 +289,8 @@ class CompDoc(object):
         if size is None:
             # nothing to check against
             while s >= 0:
+                if len(sectors) >= len(sat):
+                    raise CompDocError("%s corruption: loop in sector chain" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
@@ -306,6 +308,8 @@ class CompDoc(object):
         else:
             todo = size
             while s >= 0:
+                if len(sectors) >= len(sat):
+                    raise CompDocError("%s corruption: loop in sector chain" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
-- 
2.43.0


From a4564e7e226b351d0ef969ab490942993e70ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:17 +0000
Subject: [PATCH 19/25] fix: alignments of text objects are taken with the
 shift of their mask

---
 channelpack/xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a831398..a20c138 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -2020,8 +2020,8 @@ class Sheet(BaseObject):
         option_flags, o.rot, controlInfo, cchText, cbRuns, o.ifntEmpty = unpack(fmt, data[:fmtsize])
         o.fmla = data[fmtsize:]
         upkbits(o, option_flags, (
-            ( 3, 0x000E, 'horz_align'),
-            ( 6, 0x0070, 'vert_align'),
+            ( 1, 0x000E, 'horz_align'),
+            ( 4, 0x0070, 'vert_align'),
             ( 9, 0x0200, 'lock_text'),
             (14, 0x4000, 'just_last'),
             (15, 0x8000, 'secret_edit'),
-- 
2.43.0


From 56372697184dc7d635409772625ab8f1da24162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 20/25] fix: phonetic data of a shared string may cover several
 records

---
 channelpack/xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 4851236..00e935e 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1486,7 +1486,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1495,5 +1495,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From e334ec1790b717c39c5b0d1d7f1942817d4c02ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:34 +0000
Subject: [PATCH 21/25] fix: the BIFF2 window options are read as bytes, a zero
 byte is off

---
 channelpack/xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a20c138..dbb6aea 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1488,7 +1488,7 @@ class Sheet(BaseObject):
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
                     for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                        setattr(self, attr, int(BYTES_ORD(char) != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From 177cde6daab1ac3396a95de98b68c56ec82eb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 22/25] fix: shared strings whose surrogate pair is split over
 two records were not read

---
 channelpack/xlrd/book.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 00e935e..2cff778 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1438,7 +1438,7 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        accstrg = b'' # UTF-16-LE; a surrogate pair may be split over records
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1447,22 +1447,14 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accstrg += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accstrg += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1496,5 +1488,9 @@ def unpack_SST_table(datatab, nstrings):
             else:
                 assert _unused_i == nstrings - 1
                 break
-        strappend(accstrg)
+        # Fails with dodgy data e.g. unfinished surrogate pair.
+        # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
+        # unichr(i) for i in range(0x100000)
+        # so this will include 0xD800 etc
+        strappend(unicode(accstrg, "utf_16_le"))
     return strings, richtext_runs
-- 
2.43.0


From 6b01ea0b23d665d7d774e99c9187903ec8f78fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 23/25] fix: formula results with characters outside the basic
 plane were not read

---
 channelpack/xlrd/sheet.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index dbb6aea..cc8bbd1 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1517,15 +1517,25 @@ class Sheet(BaseObject):
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
         result = UNICODE_LITERAL("")
+        raw = b""
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+                # characters are counted, and split over records, in 16 bit units
+                if flag:
+                    raw += data[offset:]
+                else:
+                    raw += unicode(data[offset:], enc).encode("utf_16_le")
+                nchars_found = len(raw) // 2
+            else:
+                chunk = unicode(data[offset:], enc)
+                result += chunk
+                nchars_found += len(chunk)
             if nchars_found == nchars_expected:
+                if bv >= 80:
+                    result = unicode(raw, "utf_16_le")
                 return result
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
-- 
2.43.0


From 8919f54c6579d9465b53fc405369bbc89321f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:54 +0000
Subject: [PATCH 24/25] fix: read text and dbf streams whose name is a
 descriptor number or bytes

---
 channelpack/readtext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index e2022ac..1d9f956 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -218,6 +218,8 @@ class contextopen(object):
                 self.name = fname.name
             except AttributeError:
                 pass
+            if not isinstance(self.name, str):  # a descriptor or bytes
+                self.name = ''
 
         try:
             tell = self.fo.tell()
-- 
2.43.0


From 4f2be23bfdfebbce00badb629351a4617b9beec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:44 +0000
Subject: [PATCH 25/25] fix: find the comments of a sheet whose target is
 absolute or in another case

---
 channelpack/xlrd/xlsx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 0396c40..6d07fdf 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -10,7 +10,7 @@ from __future__ import print_function, unicode_literals
 
 import re
 import sys
-from os.path import join, normpath
+from posixpath import join, normpath
 
 try:
     import defusedxml.ElementTree as ET
@@ -523,12 +523,12 @@ class X12Sheet(X12General):
         r_tag = U_PKGREL + 'Relationship'
         for elem in tree.findall(r_tag):
             rid = elem.get('Id')
-            target = elem.get('Target')
+            target = X12Book.convert_filename(elem.get('Target'))
             reltype = elem.get('Type').split('/')[-1]
             if self.verbosity >= 2:
                 self.dumpout('Id=%r Type=%r Target=%r', rid, reltype, target)
             self.relid2reltype[rid] = reltype
-            self.relid2path[rid] = normpath(join('xl/worksheets', target))
+            self.relid2path[rid] = normpath(join('/xl/worksheets', target)).lstrip('/')
 
     def process_comments_stream(self, stream):
         root = ET.parse(stream).getroot()
-- 
2.43.0

