From cc308fd0a5a20e344a5ce91ec10926a7b01ed94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:05 +0000
Subject: [PATCH 01/39] fix: read .sif files as the bytes they are, whatever
 the locale

Opening a .sif in text mode decoded it with the locale's encoding, so
non-ASCII text was corrupted or refused outside UTF-8 locales, and
newlines were translated.
---
 sangfroid/format.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 9648c52..5538f62 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,6 +1,7 @@
 import gzip
 import os
 from bs4 import BeautifulSoup
+from bs4.dammit import EncodingDetector
 
 class Format:
     """
@@ -151,10 +152,18 @@ class Format:
                 ]
 
 class FileContextHandler:
-    def __init__(self, f):
+    def __init__(self, content):
+        # XML is UTF-8 unless it says otherwise.
+        if isinstance(content, bytes):
+            encoding = EncodingDetector.find_declared_encoding(
+                    content) or 'UTF-8'
+        else:
+            encoding = None
+
         self.soup = BeautifulSoup(
-                f,
+                content,
                 features = 'xml',
+                from_encoding = encoding,
                 )
 
     def __enter__(self):
@@ -169,7 +178,8 @@ class Sif(Format):
     extensions = ('sif',)
 
     def main_file(self):
-        return FileContextHandler(open(self.filename, 'r'))
+        with open(self.filename, 'rb') as f:
+            return FileContextHandler(f.read())
 
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
@@ -183,7 +193,8 @@ class Sifz(Format):
     extensions = ('sifz',)
 
     def main_file(self):
-        return FileContextHandler(gzip.open(self.filename, 'r'))
+        with gzip.open(self.filename, 'rb') as f:
+            return FileContextHandler(f.read())
 
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
-- 
2.43.0


From 7cc85f4b6684bc69894779dd910422c3f12ba733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:30 +0000
Subject: [PATCH 02/39] fix: accept comments outside the root tag of an
 animation

---
 sangfroid/animation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 1a24900..5a966d2 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -121,8 +121,11 @@ class Animation(Group):
         with self._format.main_file() as soup:
             self._soup = soup
 
-        assert len(self._soup.contents)==1
-        tag = self._soup.contents[0]
+        # there may also be comments, and so on, outside the root tag
+        tags = [t for t in self._soup.contents
+                if isinstance(t, bs4.Tag)]
+        assert len(tags)==1
+        tag = tags[0]
         super().__init__(
                 tag = tag,
                 )
-- 
2.43.0


From 3c8304bf25f0b4415a7e11146237627c3cffcaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:50 +0000
Subject: [PATCH 03/39] fix: keep text and attributes intact across saving and
 loading

Strings consisting only of whitespace were collapsed on loading, and
carriage returns, and tabs and newlines in attributes, were changed by
the XML parser when a saved file was read back. Strings which can't be
represented in XML at all are now refused rather than written to a
file which can't be read.
---
 sangfroid/format.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 5538f62..96cb04e 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,7 +1,9 @@
 import gzip
 import os
+import re
 from bs4 import BeautifulSoup
-from bs4.dammit import EncodingDetector
+from bs4.dammit import EncodingDetector, EntitySubstitution
+from bs4.formatter import XMLFormatter
 
 class Format:
     """
@@ -137,7 +139,9 @@ class Format:
         return filename
 
     def _write_to_file(self, f, content):
-        f.write(str(content).encode('UTF-8'))
+        f.write(content.decode(
+            formatter = OutputFormatter(),
+            ).encode('UTF-8'))
 
     @classmethod
     def handlers(cls):
@@ -151,6 +155,33 @@ class Format:
                 and h!=Format
                 ]
 
+# Tags whose text content is data, even if it's only whitespace.
+TEXT_TAGS = {'string', 'name', 'desc', 'keyframe'}
+
+# Characters which can't be represented in XML.
+NOT_XML_RE = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]')
+
+class OutputFormatter(XMLFormatter):
+    """
+    Writes strings so that an XML parser will read them back unchanged.
+    """
+    def __init__(self):
+        super().__init__(
+                entity_substitution = EntitySubstitution.substitute_xml,
+                )
+
+    def substitute(self, ns):
+        if NOT_XML_RE.search(ns):
+            raise ValueError(
+                    f"This string can't be stored in XML: {repr(ns)}")
+        return super().substitute(ns).replace('\r', '&#13;')
+
+    def attribute_value(self, value):
+        # parsers turn literal whitespace in attributes into spaces
+        return (super().attribute_value(value)
+                .replace('\t', '&#9;')
+                .replace('\n', '&#10;'))
+
 class FileContextHandler:
     def __init__(self, content):
         # XML is UTF-8 unless it says otherwise.
@@ -164,6 +195,7 @@ class FileContextHandler:
                 content,
                 features = 'xml',
                 from_encoding = encoding,
+                preserve_whitespace_tags = TEXT_TAGS,
                 )
 
     def __enter__(self):
-- 
2.43.0


From 5e675413a68b65430e11c7a5dc502b0924380239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:02 +0000
Subject: [PATCH 04/39] fix: don't destroy the existing file when a save fails

Saving truncated the target before the document had been serialised and
written, so a failure or crash part-way lost the old file. A failed
save-as also left the animation bound to the new name. Now the document
is encoded first, written to a temporary file beside the target, and
moved into place; the animation is only rebound on success.
---
 sangfroid/animation.py | 17 ++++++-----
 sangfroid/format.py    | 65 +++++++++++++++++++++++++++++++-----------
 2 files changed, 57 insertions(+), 25 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 5a966d2..6decbc9 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -234,19 +234,18 @@ class Animation(Group):
                         "If you didn't give a filename at creation, "
                         "you must give one when you save."
                         )
-            filename = self._format.filename
+            self._format.save(
+                    content = self._soup,
+                    )
         else:
             new_format = Format.from_filename(filename,
                                               load = False,
                                               )
-            if new_format!=self._format:
-                # XXX copy the images over
-                self._format = new_format
-
-        self._format.save(
-                content = self._soup,
-                filename = filename,
-                )
+            # XXX copy the images over
+            new_format.save(
+                    content = self._soup,
+                    )
+            self._format = new_format
 
 __all__ = [
         'Animation',
diff --git a/sangfroid/format.py b/sangfroid/format.py
index 96cb04e..216e469 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,6 +1,8 @@
 import gzip
 import os
 import re
+import shutil
+import tempfile
 from bs4 import BeautifulSoup
 from bs4.dammit import EncodingDetector, EntitySubstitution
 from bs4.formatter import XMLFormatter
@@ -130,18 +132,49 @@ class Format:
         """
         raise NotImplementedError()
 
-    def _filename_for_saving(self, filename):
+    def _write_to_file(self, data, filename):
+        """
+        Writes data to disk, replacing any existing file.
+
+        If we fail part-way, any existing file is left as it was.
+
+        Args:
+            data (bytes): the contents of the file
+            filename (str or None): as for save()
+        """
         if filename is None:
             filename = self.filename
-        else:
-            self.filename = filename
 
-        return filename
+        target = os.path.realpath(filename)
 
-    def _write_to_file(self, f, content):
-        f.write(content.decode(
-            formatter = OutputFormatter(),
-            ).encode('UTF-8'))
+        fd, temp_filename = tempfile.mkstemp(
+                prefix = '.sangfroid-',
+                dir = os.path.dirname(target),
+                )
+        try:
+            with open(fd, 'wb') as f:
+                f.write(data)
+                f.flush()
+                os.fsync(f.fileno())
+
+            if os.path.exists(target):
+                shutil.copymode(target, temp_filename)
+            else:
+                umask = os.umask(0)
+                os.umask(umask)
+                os.chmod(temp_filename, 0o666 & ~umask)
+
+            os.replace(temp_filename, target)
+        except BaseException:
+            os.unlink(temp_filename)
+            raise
+
+        self.filename = filename
+
+    def _encode(self, content):
+        return content.decode(
+                formatter = OutputFormatter(),
+                ).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -214,10 +247,10 @@ class Sif(Format):
             return FileContextHandler(f.read())
 
     def save(self, content, filename=None):
-        filename = self._filename_for_saving(filename)
-
-        with open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+        self._write_to_file(
+                self._encode(content),
+                filename,
+                )
 
 class Sifz(Format):
 
@@ -229,10 +262,10 @@ class Sifz(Format):
             return FileContextHandler(f.read())
 
     def save(self, content, filename=None):
-        filename = self._filename_for_saving(filename)
-
-        with gzip.open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+        self._write_to_file(
+                gzip.compress(self._encode(content)),
+                filename,
+                )
 
 class Sfg(Format):
     
-- 
2.43.0


From 788a516ce8eb7066647bf5a4f5520346078346aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:07 +0000
Subject: [PATCH 05/39] fix: name the file when complaining that it's empty

---
 sangfroid/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 216e469..1236605 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -90,7 +90,7 @@ class Format:
                 magic = f.read(2)
 
             if not magic:
-                raise ValueError("The file {filename} is empty.")
+                raise ValueError(f"The file {filename} is empty.")
 
             handlers = [h for h in cls.handlers()
                         if h.magic_number==magic]
-- 
2.43.0


From 54ecf20f09f68501b355add13961fa6959f13b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:19 +0000
Subject: [PATCH 06/39] fix: reject malformed times, and apply a leading minus
 to the whole

Anything which wasn't a number and a unit was either ignored or taken
for part of the time: '12' was zero frames, '1e2f' was two frames. The
docs say that '0s 2f' needs a ref. '-1m 5s', which is how we write a
time 65 seconds before the start, was read as -55 seconds.
---
 sangfroid/t.py | 53 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 68b7815..7639a86 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -119,6 +119,9 @@ class T:
 
         assert isinstance(self._frames, float)
 
+        if not math.isfinite(self._frames):
+            raise ValueError(f"Invalid time specification: {value}")
+
     def _parse_time_spec(self, s):
         assert isinstance(s, str)
 
@@ -128,29 +131,34 @@ class T:
 
         s = s.strip()
 
-        seconds = None
-        frames = 0.0
+        parts = {}
+        position = 0
 
-        found = TIMESPEC_RE.split(s)
-        if found is None:
-            complain("This doesn't look like a time specification at all.")
+        while position < len(s):
+            found = TIMESPEC_RE.match(s, position)
+            if found is None:
+                complain("This doesn't look like a time specification at all.")
 
-        parts = {}
-        for spec in found:
-            if spec.strip()=='':
-                continue
-            elif spec[-1] in parts:
+            number, unit = found.groups()
+
+            if unit in parts:
                 complain(
-                        f"The '{spec[-1]}' part was specified "
+                        f"The '{unit}' part was specified "
                         "more than once.")
 
             try:
-                parts[spec[-1]] = float(spec[:-1])
+                parts[unit] = float(number)
             except ValueError:
                 complain(
-                        f"'{spec[:-1]}' is not a valid number.")
+                        f"'{number}' is not a valid number.")
+
+            position = found.end()
+
+        if not parts:
+            complain("This doesn't look like a time specification at all.")
 
         seconds = None
+        negative = False
 
         for unit, size in [
                 ('h', 60*60),
@@ -158,11 +166,20 @@ class T:
                 ('s', 1),
                 ]:
             if unit in parts:
-                seconds = (seconds or 0.0) + parts[unit]*size
+                if seconds is None:
+                    # a leading minus sign applies to all the smaller units
+                    negative = math.copysign(1, parts[unit])<0
+                    seconds = 0.0
+
+                if negative:
+                    seconds -= abs(parts[unit])*size
+                else:
+                    seconds += parts[unit]*size
 
         result = 0.0
 
-        if seconds is not None and seconds!=0.0:
+        if seconds is not None and (
+                seconds!=0.0 or parts.get('f', 0.0)!=0.0):
 
             if self._fps is None:
                 complain("Time specifications in seconds require "
@@ -174,9 +191,7 @@ class T:
                 complain("If you give a number of seconds, the number "
                          "of frames can't be negative.")
 
-            seconds = seconds or 0
-
-            if seconds<0:
+            if negative:
                 result -= parts['f']
             else:
                 result += parts['f']
@@ -291,7 +306,7 @@ class T:
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
 TIMESPEC_RE = re.compile(
-        r'(-?[0-9.]+[hmsf])'
+        r'\s*(-?[0-9.]+)\s*([hmsf])\s*'
         )
 
 def _canvas_root(tag):
-- 
2.43.0


From 8d59e660fe738787faec5d73b8bd2f01b7c9dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:43 +0000
Subject: [PATCH 07/39] fix: write times so that they can be read back

'%g' loses precision above a million frames and can give an exponent,
which a time specification can't have.
---
 sangfroid/t.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 7639a86..4fd8526 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -263,27 +263,36 @@ class T:
         return self._compare(other, lambda a,b:a==b)
 
     def __str__(self):
-        if self._fps is None:
-            return '%gf' % (self._frames, )
-
-        frames = self._frames
-        seconds = abs(self._frames/self._fps)
 
+        frames = abs(self._frames)
         result = []
 
-        for unit, size in [
-                ('h', 60*60),
-                ('m', 60),
-                ('s', 1),
-                ]:
+        if self._fps is not None:
+            seconds, frames = divmod(frames, self._fps)
 
-            if seconds>=size:
-                result.append('%d%c' % (seconds//size, unit))
-                seconds = seconds % size
+            if self._fps - frames < 10**-PRECISION/2:
+                # only rounding error keeps it from being a whole second
+                seconds += 1
+                frames = 0.0
 
-        if seconds!=0 or result==[]:
-            frames = abs(frames) % self._fps
-            result.append('%gf' % (frames,))
+            for unit, size in [
+                    ('h', 60*60),
+                    ('m', 60),
+                    ('s', 1),
+                    ]:
+
+                if seconds>=size:
+                    result.append('%d%c' % (seconds//size, unit))
+                    seconds = seconds % size
+
+        # not "%g", because the exponents couldn't be read back
+        frames = ('%.*f' % (PRECISION, frames)).rstrip('0').rstrip('.')
+
+        if frames!='0':
+            result.append(frames + 'f')
+
+        if not result:
+            return '0f'
 
         if self._frames<0:
             minus = '-'
@@ -309,6 +318,9 @@ TIMESPEC_RE = re.compile(
         r'\s*(-?[0-9.]+)\s*([hmsf])\s*'
         )
 
+# How many decimal places we use for writing a number of frames.
+PRECISION = 6
+
 def _canvas_root(tag):
     parents = tag.find_parents()
 
-- 
2.43.0


From e097b54d5262d31d2625cce04b4c5d80dcdd37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:47 +0000
Subject: [PATCH 08/39] fix: equal Ts have equal hashes, and zero compares at
 any FPS

---
 sangfroid/t.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 4fd8526..7195ada 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -242,7 +242,9 @@ class T:
             if (
                     other.fps is not None and
                     self.fps is not None and
-                    other.fps!=self.fps):
+                    other.fps!=self.fps and
+                    other.frames!=0 and
+                    self.frames!=0):
                 raise ValueError(
                         "Comparison between two Ts with different FPS: "
                         f"{self}, {other}"
@@ -306,11 +308,9 @@ class T:
     __repr__ = __str__
 
     def __hash__(self):
-        if self._frames == 0:
-            return 0
-
-        s = (self._frames, self._fps)
-        return hash(s)
+        # The FPS can't be part of this, because Ts can be equal
+        # if one of them doesn't know its FPS, or to a number of frames.
+        return hash(self._frames)
 
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
-- 
2.43.0


From 8e14f74c74782bb7ad0b89483b2ac33594dde9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:50 +0000
Subject: [PATCH 09/39] fix: making a T from another T gives the same instant

---
 sangfroid/t.py           | 6 ++++++
 sangfroid/value/value.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 7195ada..3b9864a 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -94,6 +94,12 @@ class T:
         try:
             if isinstance(value, str):
                 self._frames = self._parse_time_spec(value)
+            elif isinstance(value, T):
+                # a negative number of frames here is a real time, and
+                # doesn't count from the end
+                self._frames = value.frames
+                if root_tag is None:
+                    self._fps = value.fps
             else:
                 self._frames = float(value)
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2f83224..6b03fcd 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -305,7 +305,7 @@ class Timeline:
             return T(t, ref = self.parent._tag)
         elif isinstance(t, T):
             if t._fps is None:
-                return T(t._frames, self.parent._tag)
+                return T(t, self.parent._tag)
             else:
                 return t
         else:
-- 
2.43.0


From b43e7d9ee04ad6e98dc98f3f6569673a9cf3a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:22 +0000
Subject: [PATCH 10/39] fix: look for a layer's own params before those of its
 sublayers

For example, if a group contained another group, reading or setting
time_offset on the outer group reached the inner one, because the
sublayers come earlier in the file.
---
 sangfroid/field.py       | 32 +++++++++++++++++++++++++++-----
 sangfroid/layer/group.py |  6 +-----
 sangfroid/layer/layer.py | 10 ++++------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index bb1b3e1..e81f6a7 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -195,6 +195,32 @@ class TagAttrField(Field):
 
         obj._tag[self.name] = value
 
+def find_param(tag, name):
+    """
+    Finds the `<param>` tag with a given name.
+
+    The params of the layer itself take precedence over those
+    of any layers inside it, which may have the same names.
+
+    Args:
+        tag (bs4.Tag): the tag of the layer
+        name (str): the name of the param
+
+    Returns:
+        bs4.Tag, or None if there isn't one
+    """
+    for recursive in (False, True):
+        result = tag.find('param',
+                          attrs = {
+                              'name': name,
+                              },
+                          recursive = recursive,
+                          )
+        if result is not None:
+            return result
+
+    return None
+
 class ParamTagField(Field):
     """
     A Field which lives in a `<param>` tag within its layer.
@@ -209,11 +235,7 @@ class ParamTagField(Field):
         assert self.type_.__module__!='builtins', self.type_
 
     def _get_value(self, obj):
-        holder = obj._tag.find('param',
-                               attrs={
-                                   'name': self.name,
-                                   },
-                               )
+        holder = find_param(obj._tag, self.name)
 
         if holder is None:
             raise AttributeError(self.name)
diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e29342b..3e97c10 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -57,11 +57,7 @@ class Group(Layer):
 
     @property
     def canvas_tag(self):
-        param = self._tag.find('param',
-                              attrs={
-                                  'name': 'canvas',
-                                  },
-                              )
+        param = f.find_param(self._tag, 'canvas')
 
         if param is None:
             raise ValueError(
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e3ecbd3..0ceb76d 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -11,6 +11,7 @@ from sangfroid.field import (
         TypeNameField,
         SynfigVersionField,
         DescField,
+        find_param,
         )
 from sangfroid.util import (
         normalise_synfig_layer_type_name,
@@ -89,13 +90,13 @@ class Layer:
         return result
 
     def __getitem__(self, f):
-        found = self._tag.find('param', attrs={'name': f})
+        found = find_param(self._tag, f)
         if found is None:
             raise KeyError(f)
         return _name_and_value_of(found)[1]
 
     def __setitem__(self, f, val):
-        found = self._tag.find('param', attrs={'name': f})
+        found = find_param(self._tag, f)
         if found is None:
             raise KeyError(f)
         old_value = _name_and_value_of(found)[1]
@@ -111,10 +112,7 @@ class Layer:
         old_value.tag.replace_with(new_value.tag)
 
     def __contains__(self, f):
-        found = self._tag.find(
-                'param',
-                attrs={'name': f},
-                )
+        found = find_param(self._tag, f)
         return found is not None
     
     @property
-- 
2.43.0


From af8d3777fe0fefe580398b6fdb9a79a57d5299dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:32 +0000
Subject: [PATCH 11/39] fix: setting a value keeps the other attributes of its
 tag

Setting the value of a colour in a gradient lost its position, so that
the gradient could no longer be read.
---
 sangfroid/value/color.py  |  4 +---
 sangfroid/value/simple.py |  7 ++-----
 sangfroid/value/value.py  | 16 ++++++++++++++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 235d345..291cc30 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -91,9 +91,7 @@ class Color(Value):
         assert isinstance(result, tuple), result
         assert [type(n) for n in result]==[float]*4, result
 
-        self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {}
-        self._tag.clear()
+        self._prepare_static_tag(self.get_name_for_tag())
 
         for i, dimension in enumerate(RGBA):
             dimension_tag = bs4.element.Tag(name=dimension)
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9c1f0a2..43048f3 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -48,11 +48,8 @@ class Simple(Value):
 
         result = self._value_to_str(result)
 
-        self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {
-                'value': result,
-                }
-        self._tag.clear()
+        self._prepare_static_tag(self.get_name_for_tag())
+        self._tag['value'] = result
 
     @classmethod
     def _value_to_str(cls, v):
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 6b03fcd..fbe37d4 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -87,6 +87,22 @@ class Value:
                 if old_tag.parent is not None:
                     old_tag.replace_with(self._tag)
 
+    def _prepare_static_tag(self, name):
+        """
+        Empties our tag, ready to be filled in with a static value.
+
+        If we were static already, our tag keeps its other attributes,
+        such as "static", or the "pos" of a colour in a gradient.
+
+        Args:
+            name (str): the name the tag should have
+        """
+        if self.is_animated:
+            self._tag.attrs = {}
+
+        self._tag.name = name
+        self._tag.clear()
+
     @property
     def timeline(self):
         result = Timeline.__new__(Timeline)
-- 
2.43.0


From 832817add1aa2e6f6656638e610ef08dc2acd14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:36 +0000
Subject: [PATCH 12/39] fix: blend methods can be read, and reading them
 changes nothing

They're stored as integers, so reading layer.blend_method failed an
assertion, and wrapping an existing tag in a BlendMethod modified it.
---
 sangfroid/field.py             |  9 +++++++++
 sangfroid/value/blendmethod.py | 15 +++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index e81f6a7..e029008 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -250,6 +250,15 @@ class ParamTagField(Field):
                     f"contains {len(contents)}.")
 
         result = v.Value.from_tag(contents[0])
+
+        if (
+                not isinstance(result, self.type_)
+                and issubclass(self.type_, type(result))
+                ):
+            # Our type is a special case of the type in the file.
+            # For example, a BlendMethod is stored as an integer.
+            result = self.type_(contents[0])
+
         return result
 
     def __get__(self, obj, obj_type=None):
diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 23f360c..8c7fbcf 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -30,16 +30,19 @@ class BlendMethod(Integer):
     
     ### }}}
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
+    @classmethod
+    def _get_empty_tag(cls):
+        result = super()._get_empty_tag()
+        result['static'] = 'true'
+        return result
 
-        self._tag['static'] = 'true'
-        self._tag.name = 'integer'
+    @classmethod
+    def get_name_for_tag(cls):
+        return 'integer'
 
     @classmethod
     def from_tag(cls, t):
-        v = Integer.from_tag(t)
-        return cls(v.value)
+        return cls(t)
 
     def as_python_expression(self):
         return 'v.'+str(self)
-- 
2.43.0


From 624d157976b2eda02de4498b71ac4717822782dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:52 +0000
Subject: [PATCH 13/39] fix: setting a vector replaces its old members

The new members were added after the old ones, so the vector then had
four. Members which aren't numbers, or aren't the ones the vector should
have, are refused, rather than leaving a vector which can't be read; and
they're listed in the same order however you look at them.
---
 sangfroid/value/vector.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 6cb34ce..93828ca 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -14,12 +14,12 @@ class Vector(Value):
 
     @property
     def value(self):
-        return dict(
+        return dict(sorted(
                 [(field.name,
                   field.string)
                  for field in self._tag.children
                  if isinstance(field, bs4.element.Tag)
-                 ])
+                 ]))
 
     def _raise_type_error(self):
         raise TypeError(
@@ -29,6 +29,10 @@ class Vector(Value):
                 f"{self.__class__.__name__}"
                 "(dict_of_members).")
 
+    def _check_members(self, members):
+        # we don't know what the members should be
+        pass
+
     def __getattr__(self, f):
         if f.startswith('_'):
             raise AttributeError(f)
@@ -61,15 +65,26 @@ class Vector(Value):
         else:
             self._raise_type_error()
 
-        self._tag.name = self.TAG_NAME
-        self._tag.attrs = {}
+        self._check_members(members)
+
+        addenda = []
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
-            if isinstance(v, float):
-                addendum.string = '%.010f' % (v,)
-            else:
+            try:
+                number = self.our_type(v)
+            except (TypeError, ValueError):
+                self._raise_type_error()
+
+            if isinstance(v, int) and not isinstance(v, bool):
                 addendum.string = str(v)
+            else:
+                addendum.string = '%.010f' % (number,)
+            addenda.append(addendum)
+
+        self._prepare_static_tag(self.TAG_NAME)
+
+        for addendum in addenda:
             self._tag.append(addendum)
 
     def __getitem__(self, key):
@@ -181,4 +196,6 @@ class Vector(Value):
         return c(tag)
 
 class X_Y(Vector):
-    pass
+    def _check_members(self, members):
+        if set(members.keys())!=set(self.FIELDS):
+            self._raise_type_error()
-- 
2.43.0


From 567d8f74f45301083a33430c1f6063b3cb0e4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 14/39] fix: a gradient is only changed if the new colours are
 all valid

It was emptied before they were looked at. Setting an animated gradient
also left it marked as animated, so that it couldn't be read.
---
 sangfroid/value/gradient.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 308dd0f..ed1631d 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -10,9 +10,11 @@ class Gradient(Value):
         if len(colours)<2:
             self._raise_colour_count_error()
 
-        result = dict([
+        result = dict(sorted([
                 (float(c['pos']), Color(c)) for c in colours
-                ])
+                ],
+                key = lambda item: item[0],
+                ))
 
         return result
 
@@ -24,16 +26,22 @@ class Gradient(Value):
         if not isinstance(v, dict):
             raise TypeError("Gradient.value must be a dict")
 
-        if len(v)<2:
-            self._raise_colour_count_error()
+        # by position, in the form they're going to be stored
+        colours = {}
+
+        for pos, colour in sorted(v.items(),
+                                  key = lambda item: item[0],
+                                  ):
+            colours['%.06g' % (pos,)] = Color(colour)
 
-        self._tag.clear()
+        if len(colours)<2:
+            self._raise_colour_count_error()
 
-        for pos, colour in sorted(v.items()):
+        self._prepare_static_tag(self.get_name_for_tag())
 
-            colour_tag = Color(colour).tag
-            colour_tag['pos'] = '%.06g' % (pos,)
-            self._tag.append(colour_tag)
+        for pos, colour in colours.items():
+            colour.tag['pos'] = pos
+            self._tag.append(colour.tag)
 
     def _raise_colour_count_error(self):
         raise ValueError("there should be at least two colours in a gradient")
-- 
2.43.0


From 04507dda09e43bfff974f7683512766f59e8a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:14 +0000
Subject: [PATCH 15/39] fix: empty strings are not 'None', and animated strings
 can be set

An empty <string> was read as 'None', and setting the value of an
animated string left it marked as animated.
---
 sangfroid/value/string.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 4e9a420..20e4ffb 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -8,12 +8,13 @@ class String(Value):
 
     @property
     def value(self):
-        result = str(self._tag.string)
-        return result
+        return self._tag.get_text()
 
     @value.setter
     def value(self, v):
-        self._tag.string = str(v)
+        v = str(v)
+        self._prepare_static_tag(self.get_name_for_tag())
+        self._tag.string = v
 
     def as_python_expression(self):
         return repr(self.value)
-- 
2.43.0


From 01181ed93931f4c23c3313612280b2ff6e3951b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 16/39] fix: setting simple values from other values, and times
 in seconds

Comparing a Real with a tuple raised TypeError, which meant that
'layer.amount = other.amount' did too. Time values couldn't be set
in seconds, because the FPS wasn't looked up; and the default of zero
was written to new layers as '0', which isn't a time.
---
 sangfroid/layer/layer.py  |  7 +++++++
 sangfroid/value/simple.py | 20 ++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 0ceb76d..e8d17e0 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -3,6 +3,7 @@ import logging
 import bs4
 import sangfroid.value as v
 from sangfroid.registry import Registry
+from sangfroid.t import T
 from sangfroid.field import (
         Field,
         TagAttrField,
@@ -449,6 +450,12 @@ class _TimeButString(v.Time):
     """
     our_type = str
 
+    def _coerce(self, v):
+        if isinstance(v, str):
+            return v
+        else:
+            return str(T(v))
+
     @classmethod
     def get_name_for_tag(cls):
         return 'time'
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 43048f3..55c2b9f 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -28,17 +28,20 @@ class Simple(Value):
     def _construct_value(self, v):
         return self.our_type(v)
 
+    def _coerce(self, v):
+        return self.our_type(v)
+
     @value.setter
     def value(self, v):
         if self.our_type is None:
             raise NotImplementedError()
 
-        if v==() or v is None:
+        if v is None or (isinstance(v, tuple) and v==()):
             result = self.our_type()
 
         else:
             try:
-                result = self.our_type(v)
+                result = self._coerce(v)
             except TypeError:
                 raise TypeError("I need a value of type "
                                 f"{self.our_type.__name__}, "
@@ -60,8 +63,8 @@ class Simple(Value):
             v = other.value
         else:
             try:
-                v = self.our_type(other)
-            except ValueError:
+                v = self._coerce(other)
+            except (ValueError, TypeError):
                 v = other
 
         return self._compare_with(v)
@@ -147,6 +150,15 @@ class Time(Simple):
                 ref = self._tag,
                 )
 
+    def _coerce(self, v):
+        if isinstance(v, Time):
+            v = v.value
+
+        return self.our_type(
+                v,
+                ref = self._tag,
+                )
+
     def as_python_expression(self):
         v = self.value
 
-- 
2.43.0


From c6b480f90fa7ddd9f53eaacbcb107bcc829b49c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:35 +0000
Subject: [PATCH 17/39] fix: colours equal the tuples they were made from;
 check hex digits

Only six decimal places are stored, so Color(1/3, 0, 0) didn't equal
(1/3, 0, 0). And things like '+1+2+3' were accepted as hex.
---
 sangfroid/value/color.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 291cc30..01ce461 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -1,8 +1,14 @@
+import re
 import bs4
 from sangfroid.value.value import Value
 
 RGBA = 'rgba'
 
+HEX_RE = re.compile('[0-9a-fA-F]{6}([0-9a-fA-F]{2})?')
+
+# we write six decimal places
+NEAR_AS_DAMMIT = 0.000001
+
 @Value.handles_type()
 class Color(Value):
 
@@ -39,7 +45,13 @@ class Color(Value):
         elif isinstance(other, tuple):
             if len(other)==3:
                 other = other+(1.0,)
-            return self.as_tuple() == other
+            try:
+                return len(other)==4 and all([
+                    abs(left-right) <= NEAR_AS_DAMMIT
+                    for left, right in zip(self.as_tuple(), other)
+                    ])
+            except TypeError:
+                return False
         else:
             return False
 
@@ -70,12 +82,11 @@ class Color(Value):
             if v.startswith('#'):
                 v = v[1:]
 
+            if not HEX_RE.fullmatch(v):
+                _raise_format_error()
+
             if len(v)==6:
                 v += 'FF'
-            elif len(v)==8:
-                pass
-            else:
-                _raise_format_error()
 
             result = tuple(
                 round(int(v[i*2:i*2+2], 16)/255, 6)
-- 
2.43.0


From 9ec78087e95f92ca25bda66be551dffa9365aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 18/39] fix: setting part of a transformation keeps the other
 parts

'group.offset = (1,2)' removed the angle, skew_angle, and scale. Members
which are animated can be copied, transformations can't be animated as
a whole (which left them unreadable), and comparing or copying them
doesn't raise exceptions.
---
 sangfroid/value/transformation.py | 40 ++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 4d23e79..13be5bc 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,18 +66,34 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
-        self.tag.clear()
+        new_subtags = {}
 
-        for remaining, v in new_value.items():
+        for k, v in new_value.items():
+            if not isinstance(v, self.REQUIRED_KEYS[k]):
+                v = self.REQUIRED_KEYS[k](v)
 
-            v_as_value = self.REQUIRED_KEYS[remaining](v)
-
-            new_subtag = bs4.Tag(name=remaining)
-            new_subtag.append(copy(v_as_value.tag))
+            new_subtag = bs4.Tag(name=k)
+            new_subtag.append(copy(v.tag))
             new_subtag.append("\n")
-            self.tag.append(new_subtag)
+            new_subtags[k] = new_subtag
+
+        for k in self.REQUIRED_KEYS:
+            if k not in new_subtags and k not in self.keys():
+                raise KeyError(f"{k} is required.")
+
+        # keys which weren't mentioned keep their existing values
+        for k, new_subtag in new_subtags.items():
+            old_subtag = self.tag.find(k, recursive=False)
+
+            if old_subtag is None:
+                self.tag.append(new_subtag)
+            else:
+                old_subtag.replace_with(new_subtag)
 
     def __getattr__(self, key):
+        if key.startswith('_'):
+            raise AttributeError(key)
+
         result = self.get(key, default=None)
 
         if result is None:
@@ -117,6 +133,14 @@ class Composite(Value):
         else:
             return Value.from_tag(values[0])
 
+    def _set_animated(self, whether,
+                      adjust_contents = True,
+                      ):
+        if whether:
+            raise NotImplementedError(
+                    f"{self.__class__.__name__} values can't be animated. "
+                    "Animate their members instead.")
+
     def keys(self):
         # No point constructing all the values
         return [v.name
@@ -145,7 +169,7 @@ class Composite(Value):
             return False
 
         for key, value in self.items():
-            if other[key]!=value:
+            if key not in other.keys() or other[key]!=value:
                 return False
 
         return True
-- 
2.43.0


From e8d795a49d5f0cc97c2f1d2f6d9dc6f7f8c331aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:18 +0000
Subject: [PATCH 19/39] fix: waypoints keep the attributes we don't know about

Synfig gives waypoints attributes such as 'tension', which were lost
when any waypoint on the same timeline was changed. The time is stored
as it will be written to the file, so that it reads the same before and
after saving. Also, complaints about bad waypoints raised NameError.
---
 sangfroid/value/value.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index fbe37d4..04dde4d 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -514,6 +514,23 @@ class Waypoint:
         self._after = self._check_interpolation_type(after, True)
         self.value = value
 
+        # other attributes of the tag, such as "tension"
+        self._attrs = {}
+
+    def _at_time(self, t):
+        """
+        Returns a copy of this Waypoint, at a different time.
+
+        Args:
+            t (T): the new time
+
+        Returns:
+            Waypoint
+        """
+        result = copy.copy(self)
+        result.time = t
+        return result
+
     @property
     def before(self):
         return self._before
@@ -556,7 +573,8 @@ class Waypoint:
     @property
     def tag(self):
         result = bs4.Tag(name="waypoint")
-        result['time'] = self.time
+        result.attrs = dict(self._attrs)
+        result['time'] = str(self.time)
         result['before'] = self._before
         result['after'] = self._after
         result.append(
@@ -580,16 +598,16 @@ class Waypoint:
             raise ValueError(
                     "If a value isn't attached to a document, "
                     "T-values in its timeline must be"
-                    "expressed in frames: {tag}"
+                    f"expressed in frames: {tag}"
                     )
 
         v = [t for t in tag.children if isinstance(t, bs4.element.Tag)]
 
         if len(v)==0:
-            raise ValueError(f"Waypoint without a value: {w}")
+            raise ValueError(f"Waypoint without a value: {tag}")
         elif len(v)!=1:
             raise ValueError(
-                    f"Waypoint with multiple values: {w}")
+                    f"Waypoint with multiple values: {tag}")
         elif v[0].name==Value.ANIMATED:
             raise ValueError("Values in waypoints cannot themselves "
                              "be animated")
@@ -605,6 +623,8 @@ class Waypoint:
                 after = tag['after'],
                 )
 
+        result._attrs = dict(tag.attrs)
+
         return result
 
     def __lt__(self, other):
-- 
2.43.0


From 0a4d58d0e0ba9bea266e96bbaad154ab4870e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 20/39] fix: timelines stay sorted, unique, and of one type, or
 don't change

- the timeline was emptied before the new waypoints were checked
- waypoints of the wrong type were accepted, and couldn't be read back
- waypoints at equal times, differently spelt, were duplicated
- looking up a waypoint only worked if the file listed them in order,
  and not by string
- '+=' to a timeline left the variable as None
- turning animation on lost the precision of colours
- turning animation off failed for values outside a document, and other
  references to the same value were left with a dead tag
---
 sangfroid/value/simple.py |   4 +
 sangfroid/value/value.py  | 199 ++++++++++++++++++++------------------
 2 files changed, 108 insertions(+), 95 deletions(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 55c2b9f..835c1f9 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -159,6 +159,10 @@ class Time(Simple):
                 ref = self._tag,
                 )
 
+    def _new_value(self, v):
+        # the new value won't know our FPS
+        return super()._new_value(self._coerce(v))
+
     def as_python_expression(self):
         v = self.value
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 04dde4d..84d2329 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -56,36 +56,25 @@ class Value:
         elif whether:
 
             if adjust_contents:
-                former_value = self.value
+                self.timeline[0] = self.__class__(
+                        copy.copy(self._tag))
+                return
 
-            our_type = self._tag.name
-            self._tag.attrs = {}
+            self._tag.attrs = {
+                    'type': self._tag.name,
+                    }
             self._tag.name = self.ANIMATED
-            self._tag['type'] = our_type
-
-            if adjust_contents:
-                self._tag.clear()
-                self.timeline[0] = former_value
+            self._tag.clear()
         else:
 
-            if adjust_contents:
-                timeline = self.timeline
-                first_value = timeline.values()[0]
-            else:
-                first_value = None
+            # earliest waypoint; may raise
+            first_tag = copy.copy(
+                    self.timeline.values()[0].value.tag)
 
+            self._tag.name = first_tag.name
+            self._tag.attrs = first_tag.attrs
             self._tag.clear()
-
-            new_tag = self._get_empty_tag()
-            self._tag.replace_with(new_tag)
-            self._tag = new_tag
-
-            if first_value is not None:
-                old_tag = self._tag
-
-                self._tag = copy.deepcopy(first_value.value._tag)
-                if old_tag.parent is not None:
-                    old_tag.replace_with(self._tag)
+            self._tag.extend(list(first_tag.contents))
 
     def _prepare_static_tag(self, name):
         """
@@ -112,10 +101,11 @@ class Value:
     @timeline.setter
     def timeline(self, v):
 
-        if isinstance(v, list) and all([n for n in v if isinstance(n, Waypoint)]):
+        if isinstance(v, dict):
+            v = list(v.values())
+
+        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
             self._set_waypoints(v)
-        elif isinstance(v, dict):
-            self.timeline = list(v.values())
         elif isinstance(v, Timeline):
             if v.parent is self:
                 return
@@ -165,10 +155,28 @@ class Value:
                                     )
                   for wt in waypoints]
 
-        result = dict([(v.time, v) for v in values])
+        result = dict([(v.time, v) for v in sorted(values)])
 
         return result
 
+    def _normalise_time(self, t):
+        """
+        Converts a time to how it would be if it was stored
+        in our timeline and read back again.
+
+        Args:
+            t (T, int, float, or str): the time
+
+        Returns:
+            T
+        """
+        t = T(t, ref = self._tag)
+
+        # We go via frames because we might not know the FPS.
+        t = T('%.06ff' % (t.frames,), ref = self._tag)
+
+        return T(str(t), ref = self._tag)
+
     def _set_waypoints(self, v):
         """
         Sets our timeline to contain exactly the given sequence of waypoints.
@@ -181,7 +189,28 @@ class Value:
             v (list of Waypoints): the waypoints.
         """
 
-        if not v:
+        our_type = self._tag.name
+        if our_type==self.ANIMATED:
+            our_type = self._tag['type']
+
+        waypoints = {}
+
+        for w in v:
+            if w.value.tag.name!=our_type:
+                raise TypeError(
+                        "Waypoint type must match parent: "
+                        f"parent={our_type}, child={w.value.tag.name}")
+
+            waypoints[self._normalise_time(w.time)] = w
+
+        tags = []
+
+        for time, w in sorted(waypoints.items()):
+            waypoint_tag = w.tag
+            waypoint_tag['time'] = str(time)
+            tags.append(waypoint_tag)
+
+        if not tags:
             self._set_animated(
                     whether = False,
                     )
@@ -193,10 +222,22 @@ class Value:
                 )
         self._tag.clear()
 
-        for i, w in enumerate(sorted(v)):
+        for i, waypoint_tag in enumerate(tags):
             if i!=0:
                 self._tag.append('\n')
-            self._tag.append(w.tag)
+            self._tag.append(waypoint_tag)
+
+    def _new_value(self, v):
+        """
+        Creates a new Value of our own type.
+
+        Args:
+            v: the value it should have
+
+        Returns:
+            Value
+        """
+        return self.__class__(v)
 
     def __len__(self):
         return len(self._waypoints())
@@ -313,21 +354,25 @@ class Timeline:
                 )
 
     def __iter__(self):
-        for t,w in sorted(self.parent._waypoints().items()):
-            yield w
-
-    def _ensure_fps(self, t):
-        if isinstance(t, (int, float, str)):
-            return T(t, ref = self.parent._tag)
-        elif isinstance(t, T):
-            if t._fps is None:
-                return T(t, self.parent._tag)
-            else:
-                return t
-        else:
+        yield from self.values()
+
+    def _normalise_time(self, t):
+        if not isinstance(t, (T, int, float, str)):
             raise TypeError("I need T, or an int, float, str to create a T. "
                     f"You gave me {type(t)}.")
 
+        return self.parent._normalise_time(t)
+
+    def _waypoints(self):
+        """
+        Our waypoints, by normalised time.
+
+        Returns:
+            dict mapping T to Waypoint
+        """
+        return dict([(self._normalise_time(t), w)
+                     for t, w in self.parent._waypoints().items()])
+
     def keys(self):
         return list(self.parent._waypoints().keys())
 
@@ -338,7 +383,7 @@ class Timeline:
         return list(self.parent._waypoints().items())
 
     def __iadd__(self, waypoints):
-        self.add(waypoints,
+        return self.add(waypoints,
             overwrite = True,
                  )
 
@@ -366,87 +411,51 @@ class Timeline:
                 raise TypeError(
                         f'{w} has a tag of type {type(w.tag)}')
 
-        existing = self.parent._waypoints()
-        clashes = [
-            (old.time, new.time)
-                for old in existing.values()
-                for new in waypoints
-                if old.time==new.time
-                ]
-
-        if overwrite:
-            for old, _ in clashes:
-                del existing[old]
-        elif clashes:
+        existing = self._waypoints()
+        additional = dict([(self._normalise_time(w.time), w)
+                           for w in waypoints])
+
+        clashes = [t for t in additional if t in existing]
+
+        if clashes and not overwrite:
             raise ValueError("There are already Waypoints with those "
                              "times in this timeline:\n"
                              f"{clashes}")
 
-        self.parent.is_animated = True
-
-        existing |= dict([(w.time, w) for w in waypoints])
-
-        self.parent.tag.clear()
-
-        for w in sorted(existing.values()):
-            self.parent.tag.append(w.tag)
+        self.parent._set_waypoints((existing | additional).values())
 
         return self
 
     def __getitem__(self, time):
-        if 'x_y' in str(self.parent._tag):
-            raise ValueError()
-        for t, wt in self.parent._waypoints().items():
-            if t==time:
-                return wt
-            elif t>time:
-                raise KeyError(time)
-
-        raise KeyError(time)
+        return self._waypoints()[self._normalise_time(time)]
 
     def __setitem__(self, t, v):
 
-        t = self._ensure_fps(t)
+        t = self._normalise_time(t)
 
         if isinstance(v, Waypoint):
-            new_waypoint = v
-            new_waypoint.time = t
+            new_waypoint = v._at_time(t)
         elif isinstance(v, self.parent.__class__):
             new_waypoint = Waypoint(
                     time = t,
                     value = v,
-                    ref = self.parent.tag,
                     )
         else:
             new_waypoint = Waypoint(
                     time = t,
-                    value = self.parent.__class__(v),
-                    ref = self.parent.tag,
-                    )
-
-        if not self.parent.is_animated:
-            self.parent._tag.clear()
-            self.parent._set_animated(
-                    whether = True,
-                    adjust_contents = False,
+                    value = self.parent._new_value(v),
                     )
 
-        waypoints = self.parent._waypoints()
-
+        waypoints = self._waypoints()
         waypoints[t] = new_waypoint
 
         self.parent._set_waypoints(waypoints.values())
 
     def __delitem__(self, t):
 
-        if isinstance(t, (int, float, str)):
-            t = T(t, ref = self.parent._tag)
-        elif isinstance(t, T):
-            t = self._ensure_fps(t)
-
-        waypoints = self.parent._waypoints()
+        waypoints = self._waypoints()
 
-        waypoints.__delitem__(t)
+        del waypoints[self._normalise_time(t)]
 
         self.parent._set_waypoints(waypoints.values())
 
-- 
2.43.0


From 19a0ed8dd40f73b4b3e99478f7877fa15ce65a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:38 +0000
Subject: [PATCH 21/39] fix: assigning a value from another layer copies it

'a["color"] = b["color"]' removed the colour from b, and
'a.color = b.color' ignored or choked on animation. Assigning a plain
value now sets the existing value, so that times in seconds work.
---
 sangfroid/field.py       |  6 +++++-
 sangfroid/layer/layer.py | 11 +++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index e029008..182ca67 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -268,7 +268,11 @@ class ParamTagField(Field):
 
     def __set__(self, obj, value):
         value_obj = self._get_value(obj)
-        value_obj.value = value
+
+        if isinstance(value, v.Value) and value.is_animated:
+            value_obj.timeline = value.timeline
+        else:
+            value_obj.value = value
 
 class TagField(Field):
     """
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e8d17e0..e0e68be 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -106,11 +106,14 @@ class Layer:
             if not isinstance(val, old_value.__class__):
                 raise TypeError(val.__class__)
 
-            new_value = val
-        else:
-            new_value = old_value.__class__(val)
+            new_tag = val.tag
+            if new_tag.parent is not None:
+                # it belongs somewhere else; leave it there
+                new_tag = copy.copy(new_tag)
 
-        old_value.tag.replace_with(new_value.tag)
+            old_value.tag.replace_with(new_tag)
+        else:
+            old_value.value = val
 
     def __contains__(self, f):
         found = find_param(self._tag, f)
-- 
2.43.0


From 9e268a6062cd45b2c9ee93753cad9acc662cb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:42 +0000
Subject: [PATCH 22/39] fix: complaints about bad arguments and bad files raise
 ValueError

There's no such thing as sangfroid.value.ValueError.
---
 sangfroid/layer/layer.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e0e68be..479a529 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -173,7 +173,7 @@ class Layer:
         matching_special = None
 
         if len(args)>1:
-            raise v.ValueError(
+            raise ValueError(
                     "You can only give one positional argument.")
         elif len(args)==1:
 
@@ -183,7 +183,7 @@ class Layer:
                      issubclass(args[0], Layer))
                     ):
                 if 'type' in kwargs:
-                    raise v.ValueError(
+                    raise ValueError(
                             "You can't give a type in both the positional "
                             "and keyword arguments.")
 
@@ -199,13 +199,11 @@ class Layer:
                 raise TypeError(args[0])
 
         if 'attrs' in kwargs:
-            for k,v in kwargs['attrs'].items():
+            for k,v in kwargs.pop('attrs').items():
                 if k in kwargs:
-                    raise v.ValueError("{k} specified both as a kwarg and in attrs")
+                    raise ValueError(f"{k} specified both as a kwarg and in attrs")
                 kwargs[k] = v
 
-            del kwargs['attrs']
-
         for k,v in kwargs.items():
             if k=='type':
                 if not isinstance(v, str):
@@ -269,7 +267,7 @@ class Layer:
                 logger.debug("  -- callback says: %s", result)
                 return result
 
-            raise v.ValueError(found_tag)
+            raise ValueError(found_tag)
 
         result = [
                 self.from_tag(x) for x in
@@ -331,7 +329,7 @@ class Layer:
         """
         tag_type = tag.get('type', None)
         if tag_type is None:
-            raise v.ValueError(
+            raise ValueError(
                     f"tag has no 'type' field: {tag}")
         return cls.handles_type.from_name(name=tag_type)(tag)
 
@@ -419,18 +417,18 @@ class Layer:
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-        raise v.ValueError(f"param is not a <param>: {tag}")
+        raise ValueError(f"param is not a <param>: {tag}")
 
     name = tag.get('name', None)
     if name is None:
-        raise v.ValueError(f"param has no 'name' field: {tag}")
+        raise ValueError(f"param has no 'name' field: {tag}")
 
     value_tags = [tag for tag in tag.children
                   if isinstance(tag, bs4.element.Tag)
                   ]
 
     if len(value_tags)!=1:
-        raise v.ValueError(f"param should have one value: {tag}")
+        raise ValueError(f"param should have one value: {tag}")
 
     value_tag = value_tags[0]
 
-- 
2.43.0


From 4114587733d060b1932e4d3d14f2e1597c72933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:31 +0000
Subject: [PATCH 23/39] fix: find_all only finds layers which match everything
 it was given

It found layers matching any of the criteria. And it couldn't find
layers by type if they had a 'type' param of their own, or if their type
has an underscore in its name; nor by a param which some other layer
has animated.
---
 sangfroid/layer/layer.py | 61 ++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 479a529..0632239 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -222,52 +222,47 @@ class Layer:
 
             found_layer = Layer.from_tag(found_tag)
 
-            if matching_special is None:
+            if isinstance(matching_special, bool):
+                if not matching_special:
+                    return False
 
-                def munge(k,v):
-                    if k=='type':
-                        k = 'type_'
-                        v = v.lower()
+            elif matching_special is not None:
+                result = matching_special(found_tag)
+                logger.debug("  -- callback says: %s", result)
+                if not result:
+                    return False
 
-                    return (k,v)
+            elif not kwargs:
+                return False
 
-                targets = [
-                    munge(k,v)
-                    for k,v in kwargs.items()
-                    ]
+            logger.debug("want: %s", kwargs)
 
-                logger.debug("want: %s", targets)
+            for k, want_value in kwargs.items():
 
-                for k, want_value in targets:
+                if k=='type':
+                    found_value = normalise_synfig_layer_type_name(
+                            found_tag['type'])
+                else:
                     try:
                         found_value = getattr(found_layer, k)
-                        logger.debug("  -- %s field is %s; want %s", k,
-                                     repr(found_value),
-                                     repr(want_value),
-                                     )
                     except AttributeError:
                         logger.debug("  -- it does not have a %s", k)
-                        continue
+                        return False
 
-                    logger.debug("  want: %s  found: %s",
-                                 want_value, found_value)
+                    if getattr(found_value, 'is_animated', False):
+                        logger.debug("  -- the %s is animated", k)
+                        return False
 
-                    if found_value==want_value:
-                        logger.debug("    -- a match!")
-                        return True
-
-                logger.debug("  -- no matches.")
-                return False
+                logger.debug("  -- %s field is %s; want %s", k,
+                             repr(found_value),
+                             repr(want_value),
+                             )
 
-            elif isinstance(matching_special, bool):
-                return matching_special
-
-            else:
-                result = matching_special(found_tag)
-                logger.debug("  -- callback says: %s", result)
-                return result
+                if not found_value==want_value:
+                    return False
 
-            raise ValueError(found_tag)
+            logger.debug("    -- a match!")
+            return True
 
         result = [
                 self.from_tag(x) for x in
-- 
2.43.0


From a60d46ca117e2a56659fcbfb1f1af71369d9f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:34 +0000
Subject: [PATCH 24/39] fix: the immediate children of a group are those in its
 canvas

A non-recursive find_all() on a group found nothing, because the group's
layers aren't immediately inside its own tag; and len() of a group
counted the layers inside its sublayers, though they're not part of
its children.
---
 sangfroid/layer/layer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 0632239..ba58e05 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -266,9 +266,8 @@ class Layer:
 
         result = [
                 self.from_tag(x) for x in
-                self._tag.find_all(matcher,
-                                  recursive=recursive,
-                                  )
+                self._tags_to_search(recursive)
+                if matcher(x)
                 ]
         logger.debug("find_all found: %s",
                      result,
@@ -388,7 +387,7 @@ class Layer:
         return result
 
     def __len__(self):
-        return len(self._sublayer_tags())
+        return len(list(self.children))
 
     def append(self, layer):
         """
@@ -407,8 +406,12 @@ class Layer:
         raise NotImplementedError(
                 "Only Groups can contain other layers.")
 
-    def _sublayer_tags(self):
-        return self._tag.find_all('layer')
+    def _tags_to_search(self, recursive):
+        if recursive:
+            return self._tag.find_all('layer')
+        else:
+            # children go backwards through the file
+            return [child._tag for child in reversed(list(self.children))]
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-- 
2.43.0


From ab714e6d3433ddc3e6a94fe0217e373669fa41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:17 +0000
Subject: [PATCH 25/39] fix: layers' own 'type' params are called 'type', and
 Halftone3 can be made

The fields were declared as type_, and so they looked for (and new layers
contained) a param called 'type_', which Synfig doesn't know about.
Halftone3 could not be created at all, because its tone field had
a type which isn't implemented.
---
 sangfroid/layer/blurs.py       |  1 +
 sangfroid/layer/stylise.py     |  2 ++
 sangfroid/layer/tbd.py         |  5 ++++-
 sangfroid/template/__main__.py | 14 ++++++++++----
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/sangfroid/layer/blurs.py b/sangfroid/layer/blurs.py
index db34a24..f449441 100644
--- a/sangfroid/layer/blurs.py
+++ b/sangfroid/layer/blurs.py
@@ -18,6 +18,7 @@ class Blur(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name='type',
                         )
 
     ### }}}
diff --git a/sangfroid/layer/stylise.py b/sangfroid/layer/stylise.py
index d72ea10..08365e2 100644
--- a/sangfroid/layer/stylise.py
+++ b/sangfroid/layer/stylise.py
@@ -22,6 +22,7 @@ class Shade(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name='type',
                         )
     invert               = f.ParamTagField(v.Bool, False,
                         )
@@ -42,6 +43,7 @@ class Bevel(Layer):
     blend_method         = f.ParamTagField(v.BlendMethod, v.BlendMethod.ONTO,
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name='type',
                         )
     color1               = f.ParamTagField(v.Color, (1.0, 1.0, 1.0, 1.0),
                         )
diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 938be98..179fb04 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -498,12 +498,13 @@ class Halftone3(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.25, 0.25),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name='type',
                         )
     subtractive          = f.ParamTagField(v.Bool, True,
                         )
     color                = f.ParamArrayField(v.Color, (0.0, 1.0, 1.0, 1.0),
                         )
-    tone                 = f.ParamArrayField(v.Tone, default=None)
+    tone                 = f.NotImplementedField("Tone")
 
     ### }}}
 
@@ -530,6 +531,7 @@ class Halftone2(Layer):
     color_dark           = f.ParamTagField(v.Color, (0.0, 0.0, 0.0, 1.0),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name='type',
                         )
 
     ### }}}
@@ -717,6 +719,7 @@ class Spherize(Layer):
     clip                 = f.ParamTagField(v.Bool, False,
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name='type',
                         )
 
     ### }}}
diff --git a/sangfroid/template/__main__.py b/sangfroid/template/__main__.py
index 8036254..c0902c2 100644
--- a/sangfroid/template/__main__.py
+++ b/sangfroid/template/__main__.py
@@ -18,10 +18,13 @@ OVERRIDES = {
         ('duplicate', 'index'): 'f.DuplicatesIndexField(None)',
 
         # XXX this default is wrong
-        ('halftone3', 'tone'): 'f.ParamArrayField(v.Tone, default=None)',
+        ('halftone3', 'tone'): 'f.NotImplementedField("Tone")',
         ('switch', 'canvas'): 'f.SwitchCanvasField()',
 }
 
+# Names of params which need an underscore after them in Python.
+RESERVED_NAMES = ('type',)
+
 DEFAULT_SYMBOL = '?'
 
 def parse_args():
@@ -178,6 +181,11 @@ def scan_pick_and_mix(args):
 
             other_params = []
 
+            if paramname in RESERVED_NAMES:
+                other_params.append(
+                        f'name={repr(paramname)}'
+                        )
+
             if existing_param is not None and existing_param.doc:
                 other_params.append(
                         f'doc={repr(existing_param.doc)}'
@@ -188,9 +196,7 @@ def scan_pick_and_mix(args):
             params[paramname] += f'\n{" "*20})'
 
         for left, right in params.items():
-            if left in (
-                    'type',
-                    ):
+            if left in RESERVED_NAMES:
                 left += '_'
             result += f'{left:20} = {right}\n'
 
-- 
2.43.0


From 19e90827a400d48af74bfdc7ea9a29c43b9e8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:25 +0000
Subject: [PATCH 26/39] fix: read and set animation-wide settings under their
 real names

The fields for gamma, view box, and times looked for attributes with
underscores rather than hyphens; times couldn't be set, the name was
read-only, and setting a description failed if there wasn't one already.
Attributes are now always stored as strings.
---
 sangfroid/animation.py | 46 ++++++++++++++++--------------------------
 sangfroid/field.py     | 13 +++++++++---
 2 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 6decbc9..872f66b 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -33,6 +33,12 @@ class TagTimeAttrField(TagAttrField):
                  ref = obj._tag,
                  )
 
+    def __set__(self, obj, value):
+        super().__set__(obj,
+                        T(value,
+                          ref = obj._tag,
+                          ))
+
 class Animation(Group):
     """
     A Synfig animation.
@@ -55,10 +61,12 @@ class Animation(Group):
     yres = TagAttrField(float,       2834.645669,
                         doc = "The vertical resolution.",
                         )
-    gamma_r = TagAttrField(float,       1.0)
-    gamma_g = TagAttrField(float,       1.0)
-    gamma_b = TagAttrField(float,       1.0)
-    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25') # XXX wrong
+    gamma_r = TagAttrField(float,       1.0, name='gamma-r')
+    gamma_g = TagAttrField(float,       1.0, name='gamma-g')
+    gamma_b = TagAttrField(float,       1.0, name='gamma-b')
+    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25',
+                            name = 'view-box',
+                            ) # XXX wrong
     antialias = TagAttrField(int,         1) # XXX enum?
     fps = TagAttrField(float,       24.0,
         doc = """
@@ -71,9 +79,11 @@ class Animation(Group):
             The time at which this animation starts.
 
             Almost always zero.""",
+           name = 'begin-time',
            )
     end_time = TagTimeAttrField('5s',
             doc = 'The time at which this animation ends.',
+            name = 'end-time',
            )
     bgcolor = TagAttrField(str,         '0.5 0.5 0.5 1.0')
 
@@ -134,10 +144,6 @@ class Animation(Group):
     def canvas_tag(self):
         return self._tag
 
-    @property
-    def name(self):
-        return self._tag.find('name').string
-
     @property
     def size(self):
         """
@@ -146,10 +152,7 @@ class Animation(Group):
         Type:
             (int, int)
         """
-        return (
-                int(self._tag.attrs['width']),
-                int(self._tag.attrs['height']),
-                )
+        return (self.width, self.height)
 
     @property
     def viewbox(self):
@@ -164,24 +167,9 @@ class Animation(Group):
         """
         return tuple([
             float(n) for n in
-            self._tag.attrs['view-box'].split(' ')
+            self.view_box.split()
             ])
 
-
-    @property
-    def begin_time(self):
-        """
-        The time at which this animation starts.
-
-        Almost always zero.
-
-        Type:
-            T
-        """
-        return T(self._tag.attrs['begin-time'],
-                 ref = self._tag,
-                 )
-
     @property
     def framecount(self):
         """
@@ -207,7 +195,7 @@ class Animation(Group):
         """
         triplet = tuple([
             float(n) for n in
-            self._tag.attrs['bgcolor'].split(' ')
+            self.bgcolor.split()
             ])
         result = Color(*triplet)
         return result
diff --git a/sangfroid/field.py b/sangfroid/field.py
index 182ca67..ddcc392 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -191,7 +191,7 @@ class TagAttrField(Field):
             else:
                 value = 'false'
         else:
-            value = self.type_override(value)
+            value = str(self.type_override(value))
 
         obj._tag[self.name] = value
 
@@ -318,7 +318,7 @@ class NamedChildField(Field):
                 )
 
     def get_subtag_for_obj(self, obj):
-        return obj._tag.find(self.name)
+        return obj._tag.find(self.name, recursive=False)
  
     def __get__(self, obj, obj_type=None):
 
@@ -327,12 +327,19 @@ class NamedChildField(Field):
         if subtag is None:
             return ''
         else:
-            return subtag.string
+            return subtag.text
 
     def __set__(self, obj, value):
 
+        if not isinstance(value, self.type_):
+            raise TypeError(type(value))
+
         subtag = self.get_subtag_for_obj(obj)
 
+        if subtag is None:
+            subtag = bs4.Tag(name=self.name)
+            obj._tag.insert(0, subtag)
+
         subtag.string = value
 
 """
-- 
2.43.0


From b010a5391f8679e7ab631b89cdc0b55bd1ccac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:41 +0000
Subject: [PATCH 27/39] fix: a layer without a version reads as its own default

All layers share one field object, and so the default was that
of whichever layer had most recently been created.
---
 sangfroid/field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index ddcc392..79ab171 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -450,6 +450,13 @@ class SynfigVersionField(TagAttrField):
         super().__set_name__(owner, name)
         self.default = owner.SYNFIG_VERSION
 
+    def __get__(self, obj, obj_type=None):
+        if self.name not in obj._tag.attrs:
+            # not self.default, because all layers share that
+            return self.type_override(obj.SYNFIG_VERSION)
+        else:
+            return super().__get__(obj, obj_type)
+
 class DescField(TagAttrField):
     """
     A Field for the description of a layer.
-- 
2.43.0


From 12e00a852a9133cd9c044ef5c7639090b7ad350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:43 +0000
Subject: [PATCH 28/39] fix: setting the canvas of a group puts the layers into
 it

It failed for every list of layers, having first thrown away
the layers which were there before.
---
 sangfroid/value/canvas.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3d5856a..883b3f4 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -26,10 +26,14 @@ class Canvas(Value):
 
         from sangfroid.layer.layer import Layer
 
-        self._tag.clear()
+        layers = list(v)
 
-        for layer in v:
+        for layer in layers:
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
-            self._tag.append(layer)
+
+        self._tag.clear()
+
+        for layer in layers:
+            self._tag.append(layer._tag)
             self._tag.append("\n")
-- 
2.43.0


From ff8f512fcba1c96031d47d954b0837864473be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 29/39] fix: adding a layer where it already is, or inside
 itself

Appending the last layer again, or inserting a layer where it already was,
raised ValueError from Beautiful Soup. Putting a group inside one of its
own descendants cut them all off from the document.
---
 sangfroid/layer/group.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 3e97c10..eb7a5de 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -97,10 +97,20 @@ class Group(Layer):
                 include_descendants = True,
                 )
 
-    def append(self, layer):
+    def _check_can_contain(self, layer):
         if not isinstance(layer, Layer):
             raise TypeError(type(layer))
 
+        cursor = self._tag
+        while cursor is not None:
+            if cursor is layer._tag:
+                raise ValueError(
+                        "You can't put a layer inside itself.")
+            cursor = cursor.parent
+
+    def append(self, layer):
+        self._check_can_contain(layer)
+
         after = None
         # "after" from our perspective; *before* in the XML
 
@@ -114,16 +124,18 @@ class Group(Layer):
 
         if after is None:
             canvas.append(layer._tag)
-        else:
+        elif after is not layer._tag:
             after.insert_before(layer._tag)
 
     def insert(self, index, layer):
-        if not isinstance(layer, Layer):
-            raise TypeError(type(layer))
+        self._check_can_contain(layer)
 
         before = self[index]
         # "before" from our perspective; *after* in the XML
 
+        if before._tag is layer._tag:
+            return
+
         before._tag.insert_after("\n")
         before._tag.insert_after(layer._tag)
         before._tag.insert_after("\n")
-- 
2.43.0


From 7e747a0df1aa4ac9853a7eca2cab610ec41f4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:20 +0000
Subject: [PATCH 30/39] fix: keyframes which don't say whether they're active
 are active

As in Synfig itself. It used to raise KeyError.
---
 sangfroid/keyframe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sangfroid/keyframe.py b/sangfroid/keyframe.py
index 626fb76..6dbba55 100644
--- a/sangfroid/keyframe.py
+++ b/sangfroid/keyframe.py
@@ -16,10 +16,8 @@ class Keyframe:
 
     @property
     def active(self):
-        if self._tag['active']=='true':
-            return True
-        else:
-            return False
+        # keyframes are active unless they say otherwise
+        return self._tag.get('active', 'true')=='true'
 
     def __str__(self):
         if self.active:
-- 
2.43.0


From 74e1688022dd913bbd6df5202435a3d967096669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:21 +0000
Subject: [PATCH 31/39] fix: bywords gives every word its time, weighted by its
 own letters

Words which appeared at the same moment as one another, in different
layers, were dropped. The pauses were weighted by all the text so far,
rather than by the letters in each word, as documented. Text layers
without descriptions, groups without words, and times of under
a ten-thousandth of a second made it crash.
---
 bywords/adjust.py  |  2 +-
 bywords/bywords.py | 32 +++++++++++++++++---------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/bywords/adjust.py b/bywords/adjust.py
index ec8a432..84ef345 100644
--- a/bywords/adjust.py
+++ b/bywords/adjust.py
@@ -7,7 +7,7 @@ logger = logging.getLogger('bywords')
 def set_constant_waypoint(tl, time, value):
     s = sangfroid.value.String(value)
     t = sangfroid.T(
-            f"{time}s",
+            f"{time:.6f}s",
             ref = tl.parent.tag,
             )
     waypoint = sangfroid.value.Waypoint(
diff --git a/bywords/bywords.py b/bywords/bywords.py
index 28c1375..c373d2e 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -23,9 +23,10 @@ bywords_groups = None
 
 @functools.total_ordering
 class WordTiming:
-    def __init__(self, text, item):
+    def __init__(self, text, item, letters):
         self.text = text
         self.item = item
+        self.letters = letters
         self.time = 0
 
     def __lt__(self, other):
@@ -51,6 +52,7 @@ class BywordsGroup:
                 (self.tidy_string(item.desc), item,)
                 for item in
                 list(reversed(group.find_all('text')))
+                if item.desc
                 ]
 
         self.full_text = ' '.join(
@@ -75,36 +77,37 @@ class BywordsGroup:
             return None
 
         for _, item in self.texts:
-            item['text'].is_animated = False
-
             words = [w for w in splitting_re.split(item.desc)
                      if w!=''
                      ]
 
             i = 0
-            while words:
-                word = words.pop(0)
-
+            for word in words:
                 i += len(word)
 
+                if word.strip()=='':
+                    continue
+
                 word_timings.append(
                         WordTiming(
                             text = item.desc[:i],
                             item = item,
+                            letters = len(word),
                             ))
 
-                if words and words[0].strip()=='':
-                    i += len(words.pop(0))
+        if not word_timings:
+            return None
 
-            s = s[len(item.desc):]
+        for _, item in self.texts:
+            item['text'].is_animated = False
 
-        total_letters = sum([len(w.text) for w in word_timings])
+        total_letters = sum([w.letters for w in word_timings])
         ms_per_letter = duration/total_letters
 
         time = start
         for w in word_timings:
             w.time = time/1000
-            time += len(w.text)*ms_per_letter
+            time += w.letters*ms_per_letter
 
         return word_timings
 
@@ -144,7 +147,7 @@ class Bywords:
             and group.desc.lower().startswith('bywords')
             ])
 
-        result = {}
+        result = []
         found = None
 
         for start, duration, text in self.lines:
@@ -157,12 +160,11 @@ class Bywords:
                 if found:
                     break
             if found:
-                for word in found:
-                    result[word.time] = word
+                result.extend(found)
             else:
                 self.no_matches.append(text)
 
-        self.words = sorted(list(result.values()))
+        self.words = sorted(result)
 
     def dump_findings_to_logger(self):
         logger.info("\n\n=== Source timings ===\n")
-- 
2.43.0


From 32f3d4c533f42a9475e1777d0eedf02232ec19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 32/39] fix: switches don't have the params of the images
 inside them

New switch layers were given a filename, corners, and so on, because the
template tool also read the params of the layers inside the example.
---
 sangfroid/layer/tbd.py         | 10 ----------
 sangfroid/template/__main__.py |  2 +-
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 179fb04..919b441 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -47,16 +47,6 @@ class Switch(Layer):
                                         },
                         )
     canvas               = f.SwitchCanvasField()
-    tl                   = f.ParamTagField(v.X_Y, (-0.5333333611, 0.5333333611),
-                        )
-    br                   = f.ParamTagField(v.X_Y, (0.5333333611, -0.5333333611),
-                        )
-    c                    = f.ParamTagField(v.Integer, 1,
-                        )
-    gamma_adjust         = f.ParamTagField(v.Real, 1.0,
-                        )
-    filename             = f.ParamTagField(v.String, 'drop.png',
-                        )
     time_offset          = f.ParamTagField(v.Time, 0,
                         )
     time_dilation        = f.ParamTagField(v.Real, 1.0,
diff --git a/sangfroid/template/__main__.py b/sangfroid/template/__main__.py
index c0902c2..8c21416 100644
--- a/sangfroid/template/__main__.py
+++ b/sangfroid/template/__main__.py
@@ -107,7 +107,7 @@ def scan_pick_and_mix(args):
 
         params = {}
 
-        for param in layer.find_all('param'):
+        for param in layer.find_all('param', recursive=False):
 
             paramname = param['name']
             is_array = False
-- 
2.43.0


From 710ed5ba0cf3011da9523993c597b65f8c3804e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:40 +0000
Subject: [PATCH 33/39] fix: a time just short of a second is written the same
 way every time

---
 sangfroid/t.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 3b9864a..bd1db90 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -278,7 +278,13 @@ class T:
         if self._fps is not None:
             seconds, frames = divmod(frames, self._fps)
 
-            if self._fps - frames < 10**-PRECISION/2:
+            # as it's going to be written
+            written = round(frames, PRECISION)
+
+            if (
+                    self._fps - frames < 10**-PRECISION/10 or
+                    self._fps - written < 10**-PRECISION/4
+                    ):
                 # only rounding error keeps it from being a whole second
                 seconds += 1
                 frames = 0.0
-- 
2.43.0


From 5b0cdae9f31dfae93b258c1fc13caace4f1b1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:34 +0000
Subject: [PATCH 34/39] fix: bywords doesn't lose a word at the start of a
 layer which is in two groups

---
 bywords/adjust.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/bywords/adjust.py b/bywords/adjust.py
index 84ef345..3bea5ff 100644
--- a/bywords/adjust.py
+++ b/bywords/adjust.py
@@ -30,19 +30,13 @@ def adjust(subtitles, animation,
     if logger.level<logging.WARNING:
         bw.dump_findings_to_logger()
 
+    # The same layer can be in more than one group, so show nothing
+    # at the start in all of them before we put any words in.
     for obj in set([o.item for o in bw]):
-        obj.is_animated = True
-        timeline = obj['text'].timeline
+        set_constant_waypoint(obj['text'].timeline, 0, '')
 
-        set_constant_waypoint(timeline, 0, '')
-
-        for word in bw:
-            if word.item!=obj:
-                continue
-
-            seconds = f"{word.time/1000}s"
-
-            set_constant_waypoint(timeline,
-                                  word.time,
-                                  word.text,
-                                  )
+    for word in bw:
+        set_constant_waypoint(word.item['text'].timeline,
+                              word.time,
+                              word.text,
+                              )
-- 
2.43.0


From b2e910cd289333b112508456346d845473e2b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:45 +0000
Subject: [PATCH 35/39] fix: the template tool refuses blocks which begin
 inside other blocks

---
 sangfroid/template/replacer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index 33ba3a2..bc5f89c 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -56,6 +56,9 @@ class Replacer:
 
                 m = START_BLOCK_RE.search(line)
                 if m:
+                    if current_block_name is not None:
+                        raise ValueError(f"{filename}:{i}: beginning block inside another block")
+
                     current_indent = len(m.groups()[0])
                     current_block_name = m.groups()[1]
                     if current_block_name == '':
-- 
2.43.0


From 776978ccf9883dced9ef0238d2ec2c4b769ec787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:13 +0000
Subject: [PATCH 36/39] fix: an Integer was equal to any fraction it's the
 whole part of

---
 sangfroid/value/simple.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 835c1f9..5320509 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -97,6 +97,13 @@ class Real(Numeric):
 class Integer(Numeric):
     our_type = int
 
+    def __eq__(self, other):
+        if isinstance(other, float):
+            # don't round it first
+            return self.value==other
+
+        return super().__eq__(other)
+
     def __int__(self):
         return self.value
 
-- 
2.43.0


From e62641ad8e7135d9eeda8922f2bc838dc1d78ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 37/39] fix: saving in several threads at once could leave the
 process without a umask

---
 sangfroid/format.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 1236605..91c7b2d 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -2,7 +2,7 @@ import gzip
 import os
 import re
 import shutil
-import tempfile
+import uuid
 from bs4 import BeautifulSoup
 from bs4.dammit import EncodingDetector, EntitySubstitution
 from bs4.formatter import XMLFormatter
@@ -147,23 +147,21 @@ class Format:
 
         target = os.path.realpath(filename)
 
-        fd, temp_filename = tempfile.mkstemp(
-                prefix = '.sangfroid-',
-                dir = os.path.dirname(target),
+        temp_filename = os.path.join(
+                os.path.dirname(target),
+                f'.sangfroid-{uuid.uuid4().hex}',
                 )
+
+        f = open(temp_filename, 'xb')
         try:
-            with open(fd, 'wb') as f:
+            with f:
+                if os.path.exists(target):
+                    shutil.copymode(target, temp_filename)
+
                 f.write(data)
                 f.flush()
                 os.fsync(f.fileno())
 
-            if os.path.exists(target):
-                shutil.copymode(target, temp_filename)
-            else:
-                umask = os.umask(0)
-                os.umask(umask)
-                os.chmod(temp_filename, 0o666 & ~umask)
-
             os.replace(temp_filename, target)
         except BaseException:
             os.unlink(temp_filename)
-- 
2.43.0


From 68a6f04a2318ffdd556aedd88ebf730676267270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 38/39] fix: the canvas of a group can't be set to hold the
 group itself

---
 sangfroid/value/canvas.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 883b3f4..244c77d 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -32,6 +32,10 @@ class Canvas(Value):
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
 
+            if any(parent is layer._tag for parent in self._tag.parents):
+                raise ValueError(
+                        "You can't put a layer inside itself.")
+
         self._tag.clear()
 
         for layer in layers:
-- 
2.43.0


From 3b91aa90063e98dc27204a595b827e52e1ef681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:51 +0000
Subject: [PATCH 39/39] fix: making a layer of one class could affect making
 layers of others

The default type and version were kept in fields which all layers share,
and overwritten whenever a layer was made; so layers of different classes
made in different threads could get each other's type or version, and the
type_ of an Animation was that of whatever layer was made last.
---
 sangfroid/field.py       | 31 ++++++++++++++++++++++---------
 sangfroid/layer/layer.py |  3 +--
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 79ab171..14f3a09 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -73,6 +73,21 @@ class Field:
         if self.name is None:
             self.name = name
 
+    def default_for(self, cls):
+        """
+        Returns the default value for a particular class.
+
+        This can differ from one class to another, if they inherit
+        the same field.
+
+        Args:
+            cls (type): the class
+
+        Returns:
+            self.type_
+        """
+        return self.default
+
     def __get__(self, obj, obj_type=None):
         raise NotImplementedError()
 
@@ -165,11 +180,12 @@ class TagAttrField(Field):
     def __get__(self, obj, obj_type=None):
 
         if self.name not in obj._tag.attrs:
+            default = self.default_for(obj.__class__)
             logger.debug("no %s field; returning default: %s",
                          self.name,
-                         self.default,
+                         default,
                          )
-            return self.default
+            return default
 
         value = obj._tag.get(self.name)
         logger.debug("%s field is %s",
@@ -427,9 +443,8 @@ class TypeNameField(TagAttrField):
                 default = None,
             )
 
-    def __set_name__(self, owner, name):
-        super().__set_name__(owner, name)
-        self.default = owner.__name__.lower()
+    def default_for(self, cls):
+        return cls.__name__.lower()
 
     def __set__(self, obj, value):
         raise ValueError("You can't change the name of a type.")
@@ -446,13 +461,11 @@ class SynfigVersionField(TagAttrField):
                 default = None,
             )
 
-    def __set_name__(self, owner, name):
-        super().__set_name__(owner, name)
-        self.default = owner.SYNFIG_VERSION
+    def default_for(self, cls):
+        return cls.SYNFIG_VERSION
 
     def __get__(self, obj, obj_type=None):
         if self.name not in obj._tag.attrs:
-            # not self.default, because all layers share that
             return self.type_override(obj.SYNFIG_VERSION)
         else:
             return super().__get__(obj, obj_type)
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index ba58e05..7487766 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -355,9 +355,8 @@ class Layer:
         for c in cls.mro():
             for field in c.__dict__.values():
                 if isinstance(field, Field):
-                    field.__set_name__(cls, field.name)
                     if isinstance(field, TagAttrField):
-                        value = field.default
+                        value = field.default_for(cls)
                         if value is None:
                             continue
                         elif isinstance(value, str):
-- 
2.43.0

