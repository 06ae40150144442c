From d4a39cff082191ba7883ce669435099926f788c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 01/98] fix: sums and differences of Transposers lack the scale
 attribute

---
 quickly/transpose.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..eddced7 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -89,6 +89,7 @@ class Transposer(AbstractTransposer):
 
     def __add__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps + other.steps, 7)
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
@@ -96,6 +97,7 @@ class Transposer(AbstractTransposer):
 
     def __sub__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
         t.alter = self.alter - other.alter + doct * 6
-- 
2.43.0


From 9c83df3f9c0376d91a0d66f4bd15f5511e937602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 02/98] fix: subtracting Transposers compensated octave
 underflow in the wrong direction

---
 quickly/transpose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index eddced7..433447e 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -100,7 +100,7 @@ class Transposer(AbstractTransposer):
         t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From f4a59a4b7c7f93aade88da14831f2e4bed6154f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 03/98] fix: KeySignature.__repr__ creates a Pitch without
 octave

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..3ee014c 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(-1, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
-- 
2.43.0


From fe888d5e3f08c8f8fbfb751d07913884ff140e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 04/98] fix: chromatic_scale rotates wrongly when the tonic is
 a full octave or more above C

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 3ee014c..bc84746 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2) % len(notes)
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
-- 
2.43.0


From 476a9cd399cf976e17a58ed3d7f4d8da8d48d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 05/98] fix: copies of an element lose the spacing set on it

---
 quickly/dom/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..41df529 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -175,6 +175,10 @@ class Element(Node, metaclass=ElementType):
         for attribute, value in attrs.items():
             setattr(self, attribute, value)
 
+    def _spacing(self):
+        """Return a dict with the spacing attributes set on this element."""
+        return {'space_' + name: value for name, value in getattr(self, '_space', {}).items()}
+
     def copy(self, with_children=True):
         """Copy the node, without the origin.
 
@@ -183,7 +187,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._spacing())
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,7 +197,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._spacing())
         copy.copy_origin_from(self)
         return copy
 
@@ -920,11 +924,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._spacing())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._spacing())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From d824520cfde0d121ecee4a778b27b16b2321661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 06/98] fix: create_value_from_element reads nonexistent value
 attribute of Scheme values

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..6e8b898 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3449,7 +3449,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From 657094be54c9e7a78ebcf34164d7efa5c923ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 07/98] fix: the length of references to unknown variables is 0
 instead of a crash

---
 quickly/time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..8d8c160 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -352,9 +352,12 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            result = node.get_value_with_scope(scope, self.time.wait)
+            if not result:
+                return 0
+            node, scope = result
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From a0db6da87b27a09c3b459ab5cc4b251fc9c3a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 08/98] fix: Time.duration applied the transform of the common
 ancestor twice

---
 quickly/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/time.py b/quickly/time.py
index 8d8c160..ad53306 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -221,9 +221,9 @@ class Time:
         # common part, just follow transform
         index = -1
         for index, (pos, end) in enumerate(zip(start_trail, end_trail)):
-            context = context.enter(node)
             if pos != end:
                 break
+            context = context.enter(node)
             node = node[pos]
         else:
             index += 1
-- 
2.43.0


From 814f597670d847e0703ab5be1f95cf7fdf246e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 09/98] fix: english short names were not preferred with
 prefer_x when there is no x name

---
 quickly/pitch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..e2ae78c 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -585,6 +585,10 @@ class PitchProcessor:
         for name in names:
             if "-" not in name and self.prefer_x == name.endswith('x'):
                 return name
+        # no choice of x, prefer the short name anyway
+        for name in names:
+            if "-" not in name:
+                return name
 
     @_suitable("espanol")
     @_suitable("español")
-- 
2.43.0


From 14de33df0af0cd335a6f0e1df451e4076a34104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 10/98] =?UTF-8?q?fix:=20spelling=20preferences=20were=20ig?=
 =?UTF-8?q?nored=20in=20catal=C3=A0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 quickly/pitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index e2ae78c..492a9b0 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -565,6 +565,7 @@ class PitchProcessor:
                 return name
 
     @_suitable("catalan")
+    @_suitable("català")
     def _catalan(self, names):
         for name in names:
             if self.prefer_deprecated == name.endswith('s'):
-- 
2.43.0


From 4a2c9730804027c3b7de3f3a867131944f2ec45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 11/98] fix: prefer_classic chose the wrong names in norsk

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 492a9b0..9697f1c 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -617,7 +617,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic == (name[:2] in {'es', 'as'}):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 39adc775bd3861d019aeee3a32ae767909ae6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 12/98] fix: a \language command with an unknown name raised
 KeyError while following the language

---
 quickly/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 9697f1c..63d962a 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -454,7 +454,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -472,7 +472,7 @@ class PitchProcessor:
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
-- 
2.43.0


From 5e6de8e07ebc2ba2155b12e55f3e8df557f4bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 13/98] fix: Include.language crashed when there is no filename

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6e8b898..d46bf19 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2829,7 +2829,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
-- 
2.43.0


From a8a7823dc7ee8770541130ca1cf98bdf5462612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 14/98] fix: a Range with the end node before the start node
 evaluated to True if both are below the same child of the ancestor

---
 quickly/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..eee693f 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -786,7 +786,9 @@ class Range(Common):
     def __bool__(self):
         """False if the range is empty."""
         level = self._stack[0]
-        return level.start <= level.end
+        if level.start > level.end:
+            return False
+        return not (self.start_trail and self.end_trail and self.start_trail > self.end_trail)
 
     def __contains__(self, node):
         """Return True if the node is completely within this range.
-- 
2.43.0


From 106052f4736f8474c8409a7ea9801f9b6380fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 15/98] fix: Range.nodes() yielded the start node of an empty
 range

---
 quickly/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index eee693f..4e711c4 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1138,6 +1138,8 @@ class Range(Common):
         of the just yielded node will not be yielded.
 
         """
+        if not self:
+            return
         self._goto_trail(self.start_trail)
         if self.start_trail:
             node = self.node
-- 
2.43.0


From c802152495735f6189ab5a9c587a509299a829c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 16/98] fix: editing through a Range changed the boundaries of
 its copies

---
 quickly/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 4e711c4..d945626 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -768,7 +768,9 @@ class Range(Common):
 
     def copy(self):
         """Return a clean copy of this Range, initialized at the same ancestor."""
-        return type(self)(self.ancestor(), self.start_trail, self.end_trail)
+        start_trail = None if self.start_trail is None else list(self.start_trail)
+        end_trail = None if self.end_trail is None else list(self.end_trail)
+        return type(self)(self.ancestor(), start_trail, end_trail)
 
     def from_here(self):
         """Return a new Range, starting at the current :attr:`node`.
-- 
2.43.0


From 88d805df744877a42a7e5f6c85eef663c5593684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 17/98] fix: deleting the last node via a Range with index -1
 deleted nothing and broke the boundaries

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index d945626..ee56f66 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -957,7 +957,7 @@ class Range(Common):
     def __delitem__(self, i):
         """Delete Node(s) at index or slice. Slice step must be None or 1."""
         if not isinstance(i, slice):
-            i = slice(i, i+1)
+            i = slice(i, i+1 or None)
         self[i] = ()
 
     @property
-- 
2.43.0


From c092ac626ffd3c303ce8a05627e1ce76bfc9d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 18/98] fix: replacing a boundary node via a Range with a
 negative index did not adjust the boundaries

---
 quickly/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index ee56f66..8667158 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -947,6 +947,8 @@ class Range(Common):
                         level.index += added - removed
         else:
             # just replace node at i
+            if i < 0:
+                i += len(level.node)
             if adjust_start and i == level.start:
                 del level.start_trail[level.depth+1:]
             if adjust_end and i == level.end:
-- 
2.43.0


From 52846e9520ce0204abdfa7f6578c25ee3738f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 19/98] fix: setting a slice that ends before its start via a
 Range broke the boundaries

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 8667158..df8cac4 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -893,7 +893,7 @@ class Range(Common):
                 raise ValueError("can't use step other than 1 in slice")
             value = tuple(value)
             index, end, _ = i.indices(len(level.node))
-            removed = end - index
+            removed = max(0, end - index)
             added = len(value)
             length = len(level.node) + added - removed
 
-- 
2.43.0


From e0b0beb781236dd5e8a295b18bcc59771cdd5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 20/98] fix: deleting the end node via a Range included the
 first node after the range

---
 quickly/node.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index df8cac4..5df0c8d 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -924,12 +924,19 @@ class Range(Common):
                 # adjust end boundary
                 if index <= level.end:
                     if index + removed > level.end:
-                        level.end = index + added
+                        level.end = index + added - 1
                         if adjust_end:
                             # deleted node was on the end trail, truncate
                             del level.end_trail[level.depth:]
-                            if level.end < length:
+                            if level.end >= 0:
                                 level.end_trail.append(level.end)
+                                if not added:
+                                    # the last node before the deleted ones is
+                                    # completely in the range
+                                    n = level.node[level.end]
+                                    while len(n):
+                                        level.end_trail.append(len(n) - 1)
+                                        n = n[-1]
                     else:
                         level.end += added - removed
                         if adjust_end:
-- 
2.43.0


From 127c7bb614a3dee0bb37c3cc023e7f1b29bf7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 21/98] fix: iterating a Range skipped the node after a deleted
 node

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 5df0c8d..74d4a4d 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -949,7 +949,7 @@ class Range(Common):
                 # adjust level index
                 if index <= level.index:
                     if index + removed > level.index:
-                        level.index = index + added
+                        level.index = index + added - 1
                     else:
                         level.index += added - removed
         else:
-- 
2.43.0


From 76c94676076bd187dd823635cf9c1695da176704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 22/98] fix: the start trail of a Range pointed to a
 nonexistent node after deleting all nodes

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 74d4a4d..2909176 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -903,7 +903,7 @@ class Range(Common):
                 level.index = -1
                 level.end = -1
                 if level.start_trail:
-                    level.start_trail[level.depth:] = [0]
+                    del level.start_trail[level.depth:]
                 if level.end_trail:
                     del level.end_trail[level.depth:]
             else:
-- 
2.43.0


From 3ae45163392905fd94097c2c36ce47828af509a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 23/98] fix: nodes intersected with a Range that ends at its
 ancestor and thus is empty

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 2909176..4c55dcd 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -843,7 +843,7 @@ class Range(Common):
 
         """
         return (not self.start_trail or trail >= self.start_trail[:len(trail)]) \
-           and (not self.end_trail or trail <= self.end_trail[:len(trail)])
+           and (self.end_trail is None or trail <= self.end_trail[:len(trail)])
 
     def intersects(self, node):
         """Return True if the node is partially or completely in our range.
-- 
2.43.0


From f3a8104ef74ee76f62506550ca67dcc71f1f906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 24/98] fix: nodes added with += did not get the parent set

---
 quickly/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index 4c55dcd..a4c2be9 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -327,6 +327,11 @@ class Node(Common, list):
         for node in self[index:]:
             node._parent = weakref.ref(self)
 
+    def __iadd__(self, nodes):
+        """Append nodes to this node; the parent is set to this node."""
+        self.extend(nodes)
+        return self
+
     def insert(self, index, node):
         """Insert node in this node; the parent is set to this node."""
         node._parent = weakref.ref(self)
-- 
2.43.0


From 0b0604284a8e3943ed6f4279bc8f133144c4730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 25/98] fix: Rel2abs converted all relative music below the
 ancestor, with the wrong pitch language, at the first note in a \relative
 expression

---
 quickly/relative.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..e3ea17c 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -70,8 +70,10 @@ class Rel2abs(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
+                    for m in processor.follow_language(list(n.instances_of(
+                            (lily.Language, lily.Include, lily.Relative)))):
+                        if isinstance(m, lily.Relative):
+                            make_absolute(m)
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
-- 
2.43.0


From 309a1dc5a5da499981bc1fea72cbd83ad119b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 26/98] fix: Rel2abs skipped the note after an \octaveCheck

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e3ea17c..425e134 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -84,7 +84,7 @@ class Rel2abs(edit.Edit):
                     )):
                     pass
                 else:
-                    yield from notes(n)
+                    yield from notes(list(n))   # octave checks are removed
 
         def make_absolute(node):
             """Convert this relative music to absolute music."""
-- 
2.43.0


From 4100c442ee5acd7ff10bb53c12bbb6946172b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 27/98] fix: Rel2abs and Abs2rel missed language changes inside
 music they do not convert

---
 quickly/relative.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 425e134..51f7376 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -26,6 +26,12 @@ from .dom import edit, lily, util
 from .pitch import Pitch, PitchProcessor
 
 
+def _skip(node, processor):
+    """Only follow the pitch language changes in node, which is left as is."""
+    for n in processor.follow_language(node.instances_of((lily.Language, lily.Include))):
+        pass
+
+
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
 
@@ -82,7 +88,7 @@ class Rel2abs(edit.Edit):
                         lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                         lily.Transpose, lily.Transposition, lily.StringTuning,
                     )):
-                    pass
+                    _skip(n, processor)
                 else:
                     yield from notes(list(n))   # octave checks are removed
 
@@ -257,7 +263,7 @@ class Abs2rel(edit.Edit):
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
-                    pass
+                    _skip(n, processor)
                 else:
                     last_pitch = relative_notes(n, last_pitch)
             return last_pitch
-- 
2.43.0


From 71ac6b232d091d06be5cb988ae75946e26af17e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 28/98] fix: the pitch of an added chord inversion (/+) was
 converted

---
 quickly/relative.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 51f7376..3ed8a70 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -85,7 +85,8 @@ class Rel2abs(edit.Edit):
                 elif isinstance(n, lily.Relative):
                     make_absolute(n)
                 elif isinstance(n, (
-                        lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
+                        lily.Inversion, lily.AddInversion, lily.Key,
+                        lily.Absolute, lily.Fixed,
                         lily.Transpose, lily.Transposition, lily.StringTuning,
                     )):
                     _skip(n, processor)
@@ -260,7 +261,8 @@ class Abs2rel(edit.Edit):
                         stack.append(relative_note(note, last_pitch))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
-                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
+                    lily.Inversion, lily.AddInversion, lily.Key,
+                    lily.Absolute, lily.Fixed,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
                     _skip(n, processor)
-- 
2.43.0


From e2178f72cc4ae0e41fb31702d5ce477e86bcd099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 29/98] fix: Rel2abs changed the octaves of relative music
 inside \fixed

---
 quickly/relative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 3ed8a70..5e28034 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -131,10 +131,12 @@ class Rel2abs(edit.Edit):
                         last_pitch = processor.read_node(note)
                     n.parent.remove(n)
         # Do it!
-        nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
+        nodes = r.instances_of((lily.Language, lily.Include, lily.Relative, lily.Fixed))
         for n in processor.follow_language(nodes):
             if isinstance(n, lily.Relative) and r.in_range():
                 make_absolute(n)
+            elif isinstance(n, (lily.Relative, lily.Fixed)):
+                _skip(n, processor) # \fixed does not affect \relative music inside it
 
 
 def rel2abs(music):
-- 
2.43.0


From 1343d6a9f378ef181367f3c3d1f07b17fa5b807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 30/98] fix: Abs2rel wrote the notes of a chord relative to the
 note before the chord

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 5e28034..e174bca 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -260,7 +260,7 @@ class Abs2rel(edit.Edit):
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
                     for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                        stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
                     lily.Inversion, lily.AddInversion, lily.Key,
-- 
2.43.0


From 90cdd150f2b476c993bd19722746d46f6d48244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 31/98] fix: Abs2rel did not convert the notes of chords

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e174bca..89d0c20 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -259,7 +259,7 @@ class Abs2rel(edit.Edit):
                     last_pitch = relative_note(n, last_pitch)
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
+                    for note in (m for body in n / lily.ChordBody for m in body / lily.Pitchable):
                         stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
-- 
2.43.0


From 803a08afd4f95e4ccdde66122c87a62d9f917bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 32/98] fix: Abs2rel converted nested music that already is
 relative

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 89d0c20..0993f8e 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -264,7 +264,7 @@ class Abs2rel(edit.Edit):
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
                     lily.Inversion, lily.AddInversion, lily.Key,
-                    lily.Absolute, lily.Fixed,
+                    lily.Absolute, lily.Fixed, lily.Relative,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
                     _skip(n, processor)
-- 
2.43.0


From bea48e309c8a002de01cc5e52dfee6643ecff667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 33/98] fix: Abs2rel changed the pitch of an \octaveCheck

---
 quickly/relative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/relative.py b/quickly/relative.py
index 0993f8e..af0e569 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -262,6 +262,10 @@ class Abs2rel(edit.Edit):
                     for note in (m for body in n / lily.ChordBody for m in body / lily.Pitchable):
                         stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
+                elif isinstance(n, lily.OctaveCheck):
+                    # the pitch of an OctaveCheck is always absolute
+                    for note in n / lily.Pitchable:
+                        last_pitch = processor.read_node(note)
                 elif isinstance(n, (
                     lily.Inversion, lily.AddInversion, lily.Key,
                     lily.Absolute, lily.Fixed, lily.Relative,
-- 
2.43.0


From 0be402521ca75b6cbd7d51f8f7d201071a457a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 34/98] fix: Abs2rel did not follow the pitch language outside
 the converted music

---
 quickly/relative.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index af0e569..01224e8 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -203,7 +203,9 @@ class Abs2rel(edit.Edit):
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-            for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
+            nodes = r.instances_of((lily.Language, lily.Include, lily.MusicList,
+                                    lily.Relative, lily.ChordMode))
+            for n in processor.follow_language(nodes):
                 if isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
@@ -211,6 +213,8 @@ class Abs2rel(edit.Edit):
                         abs2rel()
                 elif isinstance(n, lily.ChordMode):
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                elif isinstance(n, lily.Relative):
+                    _skip(n, processor)
 
         # Do it!
         abs2rel()
-- 
2.43.0


From 4e3c0de62e0ea08d850ca96af344f377f245dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 35/98] fix: Abs2rel converted music inside \fixed, ignoring
 its octave

---
 quickly/relative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 01224e8..6ebfce9 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -204,7 +204,7 @@ class Abs2rel(edit.Edit):
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
             nodes = r.instances_of((lily.Language, lily.Include, lily.MusicList,
-                                    lily.Relative, lily.ChordMode))
+                                    lily.Relative, lily.ChordMode, lily.Fixed))
             for n in processor.follow_language(nodes):
                 if isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
@@ -213,7 +213,7 @@ class Abs2rel(edit.Edit):
                         abs2rel()
                 elif isinstance(n, lily.ChordMode):
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
-                elif isinstance(n, lily.Relative):
+                elif isinstance(n, (lily.Relative, lily.Fixed)):
                     _skip(n, processor)
 
         # Do it!
-- 
2.43.0


From a724405503675b64651ef7b603420a030f7a9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 36/98] fix: music in a markup was converted as part of the
 music the markup is attached to

---
 quickly/relative.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 6ebfce9..beadcba 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -70,16 +70,21 @@ class Rel2abs(edit.Edit):
         if first_pitch_absolute is None:
             first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
+        def markup(node):
+            """Convert relative music in markup expressions."""
+            for n in processor.follow_language(list(node.instances_of(
+                    (lily.Language, lily.Include, lily.Relative)))):
+                if isinstance(n, lily.Relative):
+                    make_absolute(n)
+
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
             for n in processor.follow_language(nodes):
                 if isinstance(n, lily.Pitchable):
                     yield n
-                    # music in markup expressions?
-                    for m in processor.follow_language(list(n.instances_of(
-                            (lily.Language, lily.Include, lily.Relative)))):
-                        if isinstance(m, lily.Relative):
-                            make_absolute(m)
+                    markup(n)
+                elif isinstance(n, lily.Markup):
+                    markup(n)
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
@@ -261,18 +266,20 @@ class Abs2rel(edit.Edit):
             for n in processor.follow_language(node):
                 if isinstance(n, lily.Pitchable):
                     last_pitch = relative_note(n, last_pitch)
+                    _skip(n, processor)     # music in markup expressions?
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
                     for note in (m for body in n / lily.ChordBody for m in body / lily.Pitchable):
                         stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
+                    _skip(n, processor)
                 elif isinstance(n, lily.OctaveCheck):
                     # the pitch of an OctaveCheck is always absolute
                     for note in n / lily.Pitchable:
                         last_pitch = processor.read_node(note)
                 elif isinstance(n, (
                     lily.Inversion, lily.AddInversion, lily.Key,
-                    lily.Absolute, lily.Fixed, lily.Relative,
+                    lily.Absolute, lily.Fixed, lily.Relative, lily.Markup,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
                     _skip(n, processor)
-- 
2.43.0


From b43d9f215105c5d3c354367e560b1fde323ef8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 37/98] fix: Rel2abs and Abs2rel missed the language set before
 the start of the range

---
 quickly/relative.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index beadcba..2ba6e0b 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -63,8 +63,7 @@ class Rel2abs(edit.Edit):
         node = r.ancestor()
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
+        processor.find_language(r.start_node() or node)
 
         first_pitch_absolute = self.first_pitch_absolute
         if first_pitch_absolute is None:
@@ -204,7 +203,7 @@ class Abs2rel(edit.Edit):
 
     def edit_range(self, r):
         """Do the pitch conversion."""
-        processor, first_pitch_absolute = self._get_settings(r.ancestor())
+        processor, first_pitch_absolute = self._get_settings(r.start_node() or r.ancestor())
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-- 
2.43.0


From c312d01f18e05a68775dec90c3e2ccab7599be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 38/98] fix: Abs2rel wrote the start pitch in the wrong
 language if it changes before the first note

---
 quickly/relative.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/relative.py b/quickly/relative.py
index 2ba6e0b..8d32023 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -239,13 +239,18 @@ class Abs2rel(edit.Edit):
     def _make_relative_internal(self, node, processor, first_pitch_absolute):
         """Implementation of make_relative() with settings."""
         rel = lily.Relative()
+        start_language = processor.language
 
         def get_first_pitch(p):
             if self.start_pitch:
                 last_pitch = Pitch(p.octave, 0, 0)
                 if p.note > 3:
                     last_pitch.octave += 1
+                # the start pitch precedes language changes in the music
+                current_language = processor.language
+                processor.language = start_language
                 rel.append(processor.pitchable(last_pitch, lily.Pitch))
+                processor.language = current_language
             elif first_pitch_absolute:
                 last_pitch = Pitch(-1, 3, 0)
             else:
-- 
2.43.0


From fb781f4298de755f7f1031890842486a6106eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 39/98] fix: converting a part of relative music changed its
 pitches

---
 quickly/relative.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 8d32023..3d23d51 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -32,6 +32,11 @@ def _skip(node, processor):
         pass
 
 
+def _can_convert(node):
+    r"""Return False if node is part of ``\relative`` or ``\fixed`` music that is not converted itself."""
+    return not any(node << (lily.Relative, lily.Fixed))
+
+
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
 
@@ -137,7 +142,7 @@ class Rel2abs(edit.Edit):
         # Do it!
         nodes = r.instances_of((lily.Language, lily.Include, lily.Relative, lily.Fixed))
         for n in processor.follow_language(nodes):
-            if isinstance(n, lily.Relative) and r.in_range():
+            if isinstance(n, lily.Relative) and r.in_range() and _can_convert(n):
                 make_absolute(n)
             elif isinstance(n, (lily.Relative, lily.Fixed)):
                 _skip(n, processor) # \fixed does not affect \relative music inside it
@@ -211,11 +216,11 @@ class Abs2rel(edit.Edit):
                                     lily.Relative, lily.ChordMode, lily.Fixed))
             for n in processor.follow_language(nodes):
                 if isinstance(n, lily.MusicList):
-                    if any(n / lily.Pitchable) and r.in_range():
+                    if any(n / lily.Pitchable) and r.in_range() and _can_convert(n):
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
-                elif isinstance(n, lily.ChordMode):
+                elif isinstance(n, lily.ChordMode) and _can_convert(n):
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                 elif isinstance(n, (lily.Relative, lily.Fixed)):
                     _skip(n, processor)
-- 
2.43.0


From 46e5fa988bb1f6ca31602d18ccb45132d4732694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 40/98] fix: a comment after a string, symbol, number or Scheme
 value made it a List, hiding e.g. a pitch language, version or variable value

---
 quickly/dom/lily.py      | 5 +++--
 quickly/lang/lilypond.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d46bf19..7e09d86 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3446,8 +3446,9 @@ def create_value_from_element(node):
     elif isinstance(node, Fraction):
         return node.fraction()
     elif isinstance(node, Scheme):
-        if len(node) == 1:
-            node = node[0]
+        nodes = [n for n in node if not isinstance(n, base.Comment)]
+        if len(nodes) == 1:
+            node = nodes[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
                 return node.head
 
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..425d0c7 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -269,7 +269,11 @@ class LilyPondTransform(base.Transform):
     def list(self, items):
         """A List, String, Int, Symbol, or Scheme element."""
         nodes = list(self._list_nodes(items))
-        return nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        if nodes and all(isinstance(n, base.Comment) for n in nodes[1:]):
+            # not a real list, but comments after a single value
+            nodes[0].extend(nodes[1:])
+            return nodes[0]
+        return lily.List(*nodes)
 
     start_list = None   # lexicon never creates tokens
 
-- 
2.43.0


From f78f7dc01aa97f0535b656b66fa1b1908b7b01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 41/98] fix: transposing \fixed music went wrong when the
 octave of the reference pitch changed

---
 quickly/transpose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 433447e..6a95fd1 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -202,9 +202,10 @@ class Transpose(edit.Edit):
             for note in nodes:
                 if isinstance(note, lily.Pitchable) and writable(note):
                     # we may change this note, modify the octave
-                    offset = self.transposer.octave
                     with processor.process(note) as p:
+                        octave = p.octave
                         self.transposer.transpose(p)
+                        offset = p.octave - octave
                 else:
                     offset = 0
                 for p in transpose_pitches(nodes):
-- 
2.43.0


From f705ff22476e09865a3c0e3c9f34a2ae98ead917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 42/98] fix: octave checks got the wrong octave when
 transposing \relative music with a start pitch

---
 quickly/transpose.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 6a95fd1..6b7c248 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -249,8 +249,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From 79471c90cb38548cdfdb452526a4353c4c1a5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 43/98] fix: music in \transpose inside \relative was
 transposed as relative music

---
 quickly/transpose.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 6b7c248..c5279e6 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -168,7 +168,10 @@ class Transpose(edit.Edit):
                     pitches, rest = n[:2], n[2:]
                     for p in transpose_pitches(pitches):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    if relative_mode:
+                        transpose_absolute(rest)    # not affected by \relative
+                    else:
+                        yield from notes(rest)
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
-- 
2.43.0


From 24333bc789858aa53b75b6b749aa7ddde1e79fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 44/98] fix: an added chord inversion (/+) got an octave by
 transposing

---
 quickly/transpose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index c5279e6..d7a8f2f 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -156,7 +156,7 @@ class Transpose(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     transpose_absolute(n)   # e.g. notes in markup scores
-                elif isinstance(n, (lily.Key, lily.Inversion)):
+                elif isinstance(n, (lily.Key, lily.Inversion, lily.AddInversion)):
                     transpose_no_octave(n)
                 elif isinstance(n, lily.Absolute):
                     transpose_absolute(n)
-- 
2.43.0


From 90d550f02145ab93de1c9a5ec89ffc9cd42bcbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 45/98] fix: notes in the markup of chords or rests in
 \relative music were transposed as relative notes

---
 quickly/transpose.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index d7a8f2f..0a68ae0 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -156,6 +156,8 @@ class Transpose(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     transpose_absolute(n)   # e.g. notes in markup scores
+                elif isinstance(n, lily.Markup):
+                    transpose_absolute(n)
                 elif isinstance(n, (lily.Key, lily.Inversion, lily.AddInversion)):
                     transpose_no_octave(n)
                 elif isinstance(n, lily.Absolute):
-- 
2.43.0


From 237485dbdc4ba435a8fb127636fde981db3ccd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 46/98] fix: transposing a selection inside \relative or \fixed
 music treated the notes as absolute

---
 quickly/transpose.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 0a68ae0..8c3f953 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -137,14 +137,13 @@ class Transpose(edit.Edit):
         node = r.ancestor()
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
-
         relative_first_pitch_absolute = self.relative_first_pitch_absolute
         if relative_first_pitch_absolute is None:
             relative_first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
-        writable = (lambda n: True) if r.is_full() else (lambda n: n in r)
+        # start at the root, nodes in the range can be in \relative or \fixed music
+        root = node.root()
+        writable = (lambda n: True) if node is root and r.is_full() else (lambda n: n in r)
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
@@ -278,7 +277,7 @@ class Transpose(edit.Edit):
                             last_pitch.transposed = p
                             processor.write_node(note, p)
         # Do it!
-        transpose_absolute((node,))
+        transpose_absolute((root,))
 
 
 def transpose(music, transposer):
-- 
2.43.0


From 4791b287675c6dd00eb8f2f4549a9ea6191dd0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 47/98] fix: changing octaves moved the end of the selection
 while transposing

---
 quickly/transpose.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 8c3f953..4d5bbd6 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -143,7 +143,12 @@ class Transpose(edit.Edit):
 
         # start at the root, nodes in the range can be in \relative or \fixed music
         root = node.root()
-        writable = (lambda n: True) if node is root and r.is_full() else (lambda n: n in r)
+        if node is root and r.is_full():
+            writable = lambda n: True
+        else:
+            # find the notes beforehand, adding or removing octave nodes affects the range
+            selected = set(id(n) for n in root // lily.Pitchable if n in r)
+            writable = lambda n: id(n) in selected
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
-- 
2.43.0


From a0854c99a7e5eeb24acf837ebc6f817a45a90312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 48/98] fix: writing back an unmodified document inserted
 spaces

---
 quickly/dom/element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 41df529..f80a653 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -631,6 +631,7 @@ class Element(Node, metaclass=ElementType):
         end = context.end if end is None else end
         tokens = context.tokens()
         insert_after = ''
+        changed = False     # True if the text before the point was changed
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if point.pos is None:
@@ -639,6 +640,7 @@ class Element(Node, metaclass=ElementType):
                 if text:
                     yield pos, pos, space + text
                     insert_after = point.space_after
+                    changed = True
             else:
                 # existing element
                 if point.pos > pos:
@@ -653,11 +655,12 @@ class Element(Node, metaclass=ElementType):
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
-                elif space:
+                elif space and (changed or point.modified):
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
+                changed = point.modified
                 pos = point.end
                 insert_after = point.space_after
         if pos < end:
-- 
2.43.0


From bce887e1459edbe4126cc762c732f6e5e5c4ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 49/98] fix: the closing brace of \score got no origin

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 425d0c7..a5a95a1 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -103,8 +103,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From 87072418971d716dbf867d88696a8858a0d3c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 50/98] fix: comments after a note or chord without duration
 got lost

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index a5a95a1..16b8885 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -748,7 +748,7 @@ class MusicBuilder:
                 music = lily.Unpitched(dur)
         elif music:
             # move comment after pitch back to toplevel
-            self._comments[0:] = util.pop_comments(music)
+            self._comments[0:0] = util.pop_comments(music)
         if music:
             if self._modifier:
                 music.extend(self._comments)
-- 
2.43.0


From 3cb2589cfa5fca37b53e5683a983af79c3c97e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 51/98] fix: writing back edits could delete text outside the
 range, insert text in the wrong order or comment out music after a new
 comment

---
 quickly/dom/element.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index f80a653..46aaa5a 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -618,7 +618,7 @@ class Element(Node, metaclass=ElementType):
         return combine_text(
             (p.space_before, p.text(), p.space_after) for p in self.points())[1]
 
-    def edits(self, context, start=None, end=None):
+    def edits(self, context, start=None, end=None, text=None):
         """Yield three-tuples (pos, end, text) denoting text changes.
 
         The ``context`` is a parce Context. If ``start`` and/or ``end`` are not
@@ -626,43 +626,53 @@ class Element(Node, metaclass=ElementType):
         modified text fragments will still be written to the document, but no
         text outside the specified range will be deleted.
 
+        If the full ``text`` of the document is given, it is used to see if a
+        new element that needs to be followed by a newline really is.
+
         """
-        pos = context.pos if start is None else start
+        start = context.pos if start is None else start
         end = context.end if end is None else end
         tokens = context.tokens()
+        pos = self.pos
+        if pos is None or pos > start:
+            pos = start
         insert_after = ''
-        changed = False     # True if the text before the point was changed
+        inserted = modified = False     # was the text before the point changed?
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if point.pos is None:
                 # new element
-                text = point.text()
-                if text:
-                    yield pos, pos, space + text
+                new_text = point.text()
+                if new_text:
+                    yield pos, pos, space + new_text
                     insert_after = point.space_after
-                    changed = True
+                    inserted = True
             else:
                 # existing element
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
-                    del_pos = del_end = pos
+                    del_pos = del_end = max(pos, start)
                     for t in tokens:
                         if t.pos >= point.pos:
-                            pos = t.pos
                             break
                         del_end = t.end
+                    if del_end > end:
+                        del_end = end
+                    elif space and del_pos < del_end and point.pos <= end:
+                        del_end = point.pos     # unparsed space can be ditched
                     if del_end > del_pos:
-                        if space and del_end < pos:
-                            del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
-                elif space and (changed or point.modified):
+                    elif inserted and '\n' in space and text is not None and '\n' not in text[pos:point.pos]:
+                        yield pos, point.pos, space
+                elif space and (inserted or modified or point.modified):
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
-                changed = point.modified
+                inserted, modified = False, point.modified
                 pos = point.end
                 insert_after = point.space_after
+        pos = max(pos, start)
         if pos < end:
             yield pos, end, ''
 
@@ -686,7 +696,7 @@ class Element(Node, metaclass=ElementType):
             context = document.builder().root
         n = 0
         with document:
-            for pos, end, text in self.edits(context, start, end):
+            for pos, end, text in self.edits(context, start, end, document.text()):
                 document[pos:end] = text
                 n += 1
         return n
-- 
2.43.0


From 74555dcea90f30b2eca1664fc5d64e94b594994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 52/98] fix: text outside the range could be deleted after a
 new element that ends with a newline

---
 quickly/dom/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 46aaa5a..d481bc4 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -662,7 +662,7 @@ class Element(Node, metaclass=ElementType):
                         del_end = point.pos     # unparsed space can be ditched
                     if del_end > del_pos:
                         yield del_pos, del_end, space
-                    elif inserted and '\n' in space and text is not None and '\n' not in text[pos:point.pos]:
+                    elif inserted and '\n' in space and text is not None and not text[pos:point.pos].strip(' \t'):
                         yield pos, point.pos, space
                 elif space and (inserted or modified or point.modified):
                     yield point.pos, point.pos, space
-- 
2.43.0


From 7c0f68f876c89892cd09e8a354358d15f4b9b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 53/98] fix: transforming a document again after an edit added
 durations of chords, units, articulations or comments twice or lost them

---
 quickly/lang/lilypond.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 16b8885..d478aaa 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -269,8 +269,9 @@ class LilyPondTransform(base.Transform):
         nodes = list(self._list_nodes(items))
         if nodes and all(isinstance(n, base.Comment) for n in nodes[1:]):
             # not a real list, but comments after a single value
-            nodes[0].extend(nodes[1:])
-            return nodes[0]
+            node = nodes[0].copy_with_origin()
+            node.extend(nodes[1:])
+            return node
         return lily.List(*nodes)
 
     start_list = None   # lexicon never creates tokens
@@ -389,7 +390,8 @@ class LilyPondTransform(base.Transform):
                 if result:
                     yield result
             elif isinstance(i.obj, element.Element):
-                yield i.obj
+                # copy, because arguments may be added, and i.obj may be cached
+                yield i.obj.copy_with_origin()
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -522,7 +524,8 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 if step:
                     yield step
-                step = i.obj
+                # copy, because nodes may be added, and i.obj may be cached
+                step = i.obj.copy_with_origin()
         if step:
             yield step
 
@@ -1156,16 +1159,19 @@ class MusicBuilder:
     def music_element(self, obj):
         """An element node that is a music item (chord, figure)."""
         yield from self.pending_music()
-        self._music = obj
+        # copy, because a duration etc. is added, and obj may be cached
+        self._music = obj.copy_with_origin()
 
     @_context("script")
     def script(self, obj):
         """Called for ``script`` context: an articulation."""
-        self.add_articulation(obj)
+        self.add_articulation(obj.copy_with_origin())
 
     @_context("string", "scheme", "list")
     def string_scheme(self, obj):
         """Called for ``string``, ``scheme`` or ``list`` context."""
+        # copy, because arguments may be added, and obj may be cached
+        obj = obj.copy_with_origin()
         if self._events:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
@@ -1190,6 +1196,8 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
+        # copy, because comments may be moved, and obj may be cached
+        obj = obj.copy_with_origin()
         if self._events:
             # after a direction: add as articulation
             self.add_articulation(obj)
-- 
2.43.0


From eb8d920f31c6d38b7d60897faa2b4a371a5a41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 54/98] fix: a comment after a number or Scheme value was
 written without space, and thus read back as part of the value

---
 quickly/dom/lily.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 7e09d86..1cccf4b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2389,6 +2389,8 @@ class PartCombine(element.HeadElement, Music):
 
 class MultilineComment(base.MultilineComment):
     r"""A multiline comment between ``%{`` and ``%}``."""
+    space_before = ' '
+
     @classmethod
     def read_head(cls, origin):
         end = -1 if origin[-1] == "%}" else None
@@ -2400,6 +2402,7 @@ class MultilineComment(base.MultilineComment):
 
 class SinglelineComment(base.SinglelineComment):
     r"""A singleline comment after ``%``."""
+    space_before = ' '
     space_after = '\n'
 
     @classmethod
-- 
2.43.0


From e6fa90897fd6e8873cba2e1292ca657c76bf5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 55/98] fix: writing ignored the whitespace wishes of elements
 without head or tail, and of empty elements

---
 quickly/dom/element.py | 51 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index d481bc4..3eb0115 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -569,32 +569,37 @@ class Element(Node, metaclass=ElementType):
         whitespace before and after it.
 
         """
+        last = None
+        spaces = []
+        for p in self._points():
+            if isinstance(p, str):
+                spaces.append(p)
+            else:
+                if last:
+                    spaces.append(last.space_after)
+                    yield last._replace(space_after=collapse_whitespace(spaces))
+                else:
+                    spaces.append(p.space_before)
+                    p = p._replace(space_before=collapse_whitespace(spaces))
+                spaces.clear()
+                last = p
+        if last:
+            spaces.append(last.space_after)
+            yield last._replace(space_after=collapse_whitespace(spaces))
+
+    def _points(self):
+        """Yield Points and the whitespace (str) wished between them."""
         head_point = self.head_point()
         tail_point = self.tail_point()
 
-        def collapse_last(points, last):
-            """Yield all points, but with the last one, add last spacing wish"""
-            for p in points:
-                for q in points:
-                    yield p
-                    p = q
-                # last point, add last space to space wishes
-                space_after = collapse_whitespace((p.space_after, last))
-                yield p._replace(space_after=space_after)
-
-        if head_point:
-            yield head_point
-        children = iter(self)
-        for n in children:
-            # collapse the whitespace after each child (except the last) with
-            # the return value of self.concat_space() (by default space_between)
-            for m in children:
-                yield from collapse_last(n.points(), self.concat_space(n, m))
-                n = m
-            # collapse own space_after with last child point?
-            yield from collapse_last(n.points(), self.space_after) if not tail_point else n.points()
-        if tail_point:
-            yield tail_point
+        yield head_point or self.space_before
+        prev = None
+        for n in self:
+            if prev is not None:
+                yield self.concat_space(prev, n)
+            yield from n._points()
+            prev = n
+        yield tail_point or self.space_after
 
     def concat_space(self, node, next_node):
         """Return the minimum whitespace to apply between these child nodes.
-- 
2.43.0


From e07fce9ae54ff28206863db492413163db8fa87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 56/98] fix: only one indent level was removed when a line
 starts with a tail that ends multiple levels

---
 quickly/dom/indent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..23afe0b 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -258,7 +258,7 @@ class Indenter:
         """*(Internal.)* Output the tail text."""
         self.output_space()
         if self._can_dedent and self._dedenters:
-            del self._indent_stack[self._dedenters]
+            del self._indent_stack[self._dedenters:]
             self._dedenters = 0
             self._output[-1].indent = self.current_indent()
         self._output[-1].line.append(text)
-- 
2.43.0


From a8d889e8030251e9ff0e8ed8f995b00b0564261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 57/98] fix: the value of an assignment is never the comment
 before it

---
 quickly/dom/lily.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 1cccf4b..d2f3a94 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1011,9 +1011,20 @@ class Assignment(element.Element):
             return child.get_name()
 
     def get_value(self):
-        """Return the value after the equalsign."""
+        """Return the value after the equalsign (comments are skipped)."""
         for child in self / EqualSign:
-            return child.right_sibling()
+            for node in child.right_siblings():
+                if not isinstance(node, base.Comment):
+                    return node
+            return
+
+    def set_value(self, node):
+        """Replace the value after the equalsign with the specified node."""
+        value = self.get_value()
+        if value is None:
+            self.append(node)
+        elif value is not node:
+            value.replace_with(node)
 
 
 class Identifier(List):
-- 
2.43.0


From e2a1e4348d095d44c11acc7c9fadf4af96bd182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 58/98] fix: set_variable replaces the value of an assignment,
 not its last child

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d2f3a94..9f6a26c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -550,7 +550,7 @@ class HandleAssignments(element.Element):
         node = create_element_from_value(value)
         assignment = self.find_assignment(name)
         if assignment:
-            assignment[-1] = node
+            assignment.set_value(node)
         else:
             self.append(Assignment.with_name(name, node))
 
-- 
2.43.0


From 6008ed49b18a02052ca7c0d8771146c43bc69782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 59/98] fix: find an assignment by a name that is a tuple of
 one part

---
 quickly/dom/lily.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 9f6a26c..3b169a0 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -509,6 +509,8 @@ class HandleAssignments(element.Element):
     """Mixin class to handle Assignment children in a convenient way."""
     def find_assignment(self, name):
         """Find the Assignment with the specified name."""
+        if isinstance(name, tuple) and len(name) == 1:
+            name = name[0]  # see Identifier.get_name()
         for n in self/Assignment:
             for v in n/Identifier:
                 if v.get_name() == name:
-- 
2.43.0


From 80b98aeea75aa0cc7f82124fd884128b7c10844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 60/98] fix: a document that includes itself by another url
 caused an endless lookup

---
 quickly/dom/scope.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 1bdcda1..ff9d637 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -91,9 +91,23 @@ class Scope:
         """
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc:
+            if doc and not self._includes(doc):
                 return type(self)(doc, self, self.factory, node)
 
+    def _includes(self, doc):
+        """Return True if ``doc`` is our document or that of an ancestor scope.
+
+        The url of a document can differ from the url it was requested with.
+
+        """
+        scope = self
+        while scope:
+            d = scope.document()
+            if doc is d or (doc.url and doc.url == d.url):
+                return True
+            scope = scope.parent
+        return False
+
     def ancestors(self):
         """Yield the ancestor scopes."""
         scope = self
-- 
2.43.0


From 8bcbc8856891225c57fc713133483a0425b16ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 61/98] fix: included files with a #, ? or ; in their name were
 not found

---
 quickly/dom/scope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index ff9d637..c6d6b87 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -159,7 +159,9 @@ class Scope:
         system. OSErrors raised by the factory are suppressed.
 
         """
-        filename = urlparse(url).path
+        # without a scheme it is just a filename, which may contain "#", "?" or ";"
+        parts = urlparse(url)
+        filename = parts.path if parts.scheme or parts.netloc else url
         try:
             return self.factory(filename)
         except OSError:
-- 
2.43.0


From 8e9e6207bba4d7eea53f39e99d1d794592199d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 62/98] fix: Reference.get_value() ignored the wait argument

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3b169a0..e3b563a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -420,7 +420,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
-- 
2.43.0


From d19c0a02300d1ad0f88c067b127c27a8721d0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 63/98] fix: finding the mode of a key signature that is a
 variable

---
 quickly/dom/lily.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index e3b563a..f63647b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2173,8 +2173,10 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
-                    continue
+                    result = n.get_value_with_scope(scope, wait)
+                    if result:
+                        n, scope = result
+                        continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
                         mode = [n.head for n in n / scm.Number]
-- 
2.43.0


From 95ec0f754fa8d74e7d910a70c949e61938b6e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 64/98] fix: IdentifierRef.with_name() raised a TypeError

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index f63647b..de47fa5 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1105,7 +1105,7 @@ class IdentifierRef(base.BackslashCommand, Reference):
         simple symbol.
 
         """
-        v = cls()
+        v = cls('')
         v.set_name(name)
         return v
 
-- 
2.43.0


From 2dc0f7730528b46b215c68c4c7d82603cf4eb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 65/98] fix: an included document was skipped if it is empty

---
 quickly/dom/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index c6d6b87..b0bcb9f 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -91,7 +91,7 @@ class Scope:
         """
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc and not self._includes(doc):
+            if doc is not None and not self._includes(doc):
                 return type(self)(doc, self, self.factory, node)
 
     def _includes(self, doc):
-- 
2.43.0


From f993cffc1d812b68376c605875216469c6791746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 66/98] fix: the rest command or chord modifier of a note was
 lost if a duration follows

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index d478aaa..665fae5 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -907,7 +907,7 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._articulations:
+        if self._duration or self._modifier or self._articulations:
             yield from self.pending_music()
         self._duration = [token]
 
-- 
2.43.0


From a972f355a6ac9d41a25fafb7b5b13682946f4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 67/98] fix: rhythm commands wrote durations at the notes
 inside a chord

---
 quickly/rhythm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..3866903 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -32,7 +32,7 @@ or any :class:`~.dom.element.Element` node (DOM tree).
 import itertools
 
 
-from .dom import edit, lily, util
+from .dom import base, edit, lily, util
 from .duration import duration
 
 
@@ -42,7 +42,8 @@ class EditRhythm(edit.Edit):
     def durables(r):
         """Yield all Durable instances in range."""
         for n in r.nodes():
-            if isinstance(n, lily.Durable):
+            # a note in a chord can't have a duration, the chord has it
+            if isinstance(n, lily.Durable) and not any(n << lily.ChordBody):
                 # skip \skip with music instead of duration (which is legal
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
-- 
2.43.0


From 870f3e31e7d6d49430597dcfdf677dcfb24c42d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:43 +0000
Subject: [PATCH 68/98] fix: a duration was removed while an unpitched note
 follows after a comment or a music argument

---
 quickly/rhythm.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 3866903..830368e 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -67,12 +67,16 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
-            if isinstance(n, lily.Unpitched):
-                return False
-            elif isinstance(n, lily.LyricItem) and n.duration_required:
-                return False
+        for p, i in node.ancestors_with_index():
+            for n in p[i+1:]:
+                if isinstance(n, lily.Unpitched):
+                    return False
+                elif isinstance(n, lily.LyricItem) and n.duration_required:
+                    return False
+                elif not isinstance(n, base.Comment):
+                    return True
+            if p.write_tail():
+                break
         return True
 
     def edit_range(self, r):
-- 
2.43.0


From 298eba2bff38ffd82517efb5bfdddcc2e1dd65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 69/98] fix: copying a rhythm explicitly repeated the duration
 of a skip

---
 quickly/rhythm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 830368e..c16ea30 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -266,11 +266,13 @@ class CopyRhythm(EditRhythm):
                 prev = None
                 for n in self.durables(r):
                     dur = n.duration_scaling
-                    if dur:
+                    if not dur:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        dur = prev
+                    elif n.duration_sets_previous:
                         prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                    yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
-- 
2.43.0


From f17aed80a51fffa8e777c84714d8cd6fe5cdc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 70/98] fix: removing the scaling left every second of multiple
 scaling factors

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index de47fa5..53ddb77 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -148,7 +148,7 @@ class HandleDuration(element.Element):
     @scaling.setter
     def scaling(self, value):
         for d in self / Duration:
-            scaling = d / DurationScaling
+            scaling = iter(list(d / DurationScaling))
             for s in scaling:
                 if value in (1, None):
                     d.remove(s)
-- 
2.43.0


From 213072eab70f7cced01862fb5c6a9f78687899f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 71/98] fix: cursor_position() raised a TypeError after the
 last element of the document

---
 quickly/time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index ad53306..53edb52 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -247,9 +247,10 @@ class Time:
         dom = cursor.document().get_transform(self.wait)
         if dom:
             node = dom.find_descendant_right(cursor.pos)
-            c = self._music_child(node)
-            if c:
-                return self.position(c)
+            if node:
+                c = self._music_child(node)
+                if c:
+                    return self.position(c)
 
     def cursor_duration(self, cursor):
         """Return a :class:`Result` two-tuple(node, time) or None.
-- 
2.43.0


From f9a6b586386693c50ad8cb14c66fe8e41484809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 72/98] fix: tagged music was not counted when computing the
 length of music

---
 quickly/dom/lily.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 53ddb77..fac5b3b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1465,7 +1465,7 @@ class Chord(Durable):
 
         """
         for body in self:
-            if any(body / Note):
+            if any(body // Note):
                 return super().time_length(context, end)
         return 0
 
@@ -2548,7 +2548,7 @@ class FigureAlteration(element.MappingElement):
     }
 
 
-class Tag(element.HeadElement):
+class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
     head = r'\tag'
 
@@ -2556,7 +2556,7 @@ class Tag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class KeepWithTag(element.HeadElement):
+class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
     head = r'\keepWithTag'
 
@@ -2564,7 +2564,7 @@ class KeepWithTag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class RemoveWithTag(element.HeadElement):
+class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
     head = r'\removeWithTag'
 
-- 
2.43.0


From 4bcfe377de9cfdd8d055738cff5dcdc67430a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 73/98] fix: bass figures had no length, and their durations
 were ignored by the rhythm commands

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index fac5b3b..85d2a8f 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2481,13 +2481,15 @@ class MarkupScoreLines(MarkupScore):
     head = r"\score-lines {"
 
 
-class Figure(Music):
+class Figure(Durable):
     """A bass figure in figure mode.
 
     Always has one FigureBody child, which contains the numbers etc.
     Can also have a duration child.
 
     """
+    def child_order(self):
+        yield FigureBody, Duration, Articulations, base.Comment
 
 
 class FigureBody(element.BlockElement):
-- 
2.43.0


From cacae9fd6cf5818c6c2dcd11cf24db56d4c693be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 74/98] fix: there was no space between a tag command and its
 arguments

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 85d2a8f..41f5c75 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2552,6 +2552,7 @@ class FigureAlteration(element.MappingElement):
 
 class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
+    space_after_head = space_between = " "
     head = r'\tag'
 
     def signatures(self):
@@ -2560,6 +2561,7 @@ class Tag(element.HeadElement, Music):
 
 class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\keepWithTag'
 
     def signatures(self):
@@ -2568,6 +2570,7 @@ class KeepWithTag(element.HeadElement, Music):
 
 class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\removeWithTag'
 
     def signatures(self):
@@ -2576,6 +2579,7 @@ class RemoveWithTag(element.HeadElement, Music):
 
 class TagGroup(element.HeadElement):
     r"""A ``\tagGroup`` command."""
+    space_after_head = space_between = " "
     head = r'\tagGroup'
 
     def signatures(self):
@@ -2584,6 +2588,7 @@ class TagGroup(element.HeadElement):
 
 class PushToTag(element.HeadElement):
     r"""A ``\pushToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\pushToTag'
 
     def signatures(self):
@@ -2592,6 +2597,7 @@ class PushToTag(element.HeadElement):
 
 class AppendToTag(element.HeadElement):
     r"""A ``\appendToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\appendToTag'
 
     def signatures(self):
-- 
2.43.0


From 2131722ee3743f352a8fb69389825c136f14cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 75/98] fix: the nodes in a cursor's selection were not all
 edited, or nodes outside it

---
 quickly/dom/edit.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..36aa0f5 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -106,21 +106,29 @@ class Edit:
 
         """
         d = cursor.document().get_transform(True)
-        r = start = end = None
+        start = end = None
         if cursor.has_selection():
+            r = Range(d, None, [])  # empty if no nodes are selected
             start_node = d.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
+            if start_node and end_node:
+                start = start_node.pos
+                selection_end = end_node.end
+                # all descendants of the end node are in the selection
+                while len(end_node):
+                    end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
+                if r.ancestor() is start_node:
+                    # a range does not include its ancestor
+                    index = start_node.parent.index(start_node)
+                    r = Range(start_node.parent, [index], [index] + r.end_trail)
+                end = min(selection_end, r.ancestor().end)
         elif self.range_from_cursor:
+            r = Range(d, None, [])
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
                 r = Range.from_nodes(start_node)
-        if r is None:
+        else:
             r = Range(d)
         self._document = cursor.document()
         self._changes = 0
-- 
2.43.0


From 889645680f8db4842a66274607ef363082f4a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 76/98] fix: rhythm commands raised an IndexError when the
 range ends in a duration they remove

---
 quickly/rhythm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index c16ea30..c06204c 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -41,7 +41,8 @@ class EditRhythm(edit.Edit):
     @staticmethod
     def durables(r):
         """Yield all Durable instances in range."""
-        for n in r.nodes():
+        # find them beforehand, adding or removing durations affects the range
+        for n in list(r.nodes()):
             # a note in a chord can't have a duration, the chord has it
             if isinstance(n, lily.Durable) and not any(n << lily.ChordBody):
                 # skip \skip with music instead of duration (which is legal
@@ -224,7 +225,7 @@ class RhythmTransform(EditRhythm):
 
     def edit_range(self, r):
         """Transform all durations."""
-        for n in r.nodes():
+        for n in list(r.nodes()):
             if isinstance(n, lily.HandleDuration):
                 dur = n.duration_scaling
                 if dur:
-- 
2.43.0


From 807dd34bae6117136c733fa56fb40d82aea38b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 77/98] fix: an unpitched note after a tag or tweak command was
 read as the duration of the note before the command

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 665fae5..3c4a120 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -907,7 +907,8 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._modifier or self._articulations:
+        if self._duration or self._modifier or self._articulations or self._events:
+            # an unpitched note, maybe tagged or tweaked
             yield from self.pending_music()
         self._duration = [token]
 
-- 
2.43.0


From 1f86ec1410ed631a0ec58c65d4be76b62b120035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 78/98] fix: a comment between a rest, chord, skip or drum note
 and its duration moved after the duration, and was deleted when writing back
 to the document

---
 quickly/lang/lilypond.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 3c4a120..f7613dd 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -910,6 +910,10 @@ class MusicBuilder:
         if self._duration or self._modifier or self._articulations or self._events:
             # an unpitched note, maybe tagged or tweaked
             yield from self.pending_music()
+        if self._music:
+            # comments before the duration
+            self._music.extend(self._comments)
+            self._comments.clear()
         self._duration = [token]
 
     @_action(a.Delimiter.Direction)
-- 
2.43.0


From 2e9e61128be5558e596dd41db80832c1071e70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 79/98] fix: a comment after an articulation of a pitched rest
 or modified chord moved before the articulation

---
 quickly/lang/lilypond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index f7613dd..07ae6e1 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1218,12 +1218,12 @@ class MusicBuilder:
         Comments are preserved as good as possible.
 
         """
-        if self._modifier:
-            self._modifier.append(obj)
-        elif self._events:
+        if self._events:
             self._events[-1].append(obj)
         elif self._articulations:
             self._articulations.append(obj)
+        elif self._modifier:
+            self._modifier.append(obj)
         elif not self._music and not self._duration:
             # no pending music
             yield obj
-- 
2.43.0


From 07140ab1a26b13a182df47a2c92c2f6128e87175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 80/98] fix: a \relative command before the selection was not
 removed when its music was made absolute

---
 quickly/dom/edit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 36aa0f5..c84d95c 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -123,6 +123,10 @@ class Edit:
                     index = start_node.parent.index(start_node)
                     r = Range(start_node.parent, [index], [index] + r.end_trail)
                 end = min(selection_end, r.ancestor().end)
+                # nodes with all children in the range may be edited as well
+                while start_node.parent is not r.ancestor() and start_node.parent[0] is start_node:
+                    start_node = start_node.parent
+                    start = start_node.pos
         elif self.range_from_cursor:
             r = Range(d, None, [])
             start_node = d.find_descendant_right(cursor.pos)
-- 
2.43.0


From 33585a596f8fb7de0a0f54055e29a1ab973c546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 81/98] fix: the length of \afterGrace music was that of the
 grace music if the main music is a variable

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 41f5c75..6cc8be3 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2384,7 +2384,7 @@ class AfterGrace(element.HeadElement, Music):
 
         """
         for n in self[:end]:
-            if isinstance(n, Music):
+            if isinstance(n, MUSIC):
                 return context.length(n)
         return 0
 
-- 
2.43.0


From f9db9729e1da4267e68c3f550d38eeb8a09330cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 82/98] fix: a comment after a Scheme number hid the scaling or
 shifting of durations

---
 quickly/dom/lily.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6cc8be3..7a11416 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -29,7 +29,7 @@ import itertools
 import re
 
 from .. import duration, pitch
-from . import base, element, scm
+from . import base, element, scm, util
 
 
 class Music(element.Element):
@@ -3486,9 +3486,10 @@ def get_num_value(node):
     elif isinstance(node, Fraction):
         return node.fraction()
     elif isinstance(node, Scheme):
-        if len(node) == 1:
-            if isinstance(node[0], scm.Number):
-                return node[0].head
+        values = list(util.skip_comments(node))
+        if len(values) == 1:
+            if isinstance(values[0], scm.Number):
+                return values[0].head
 
 
 def get_int_value(node):
@@ -3498,9 +3499,10 @@ def get_int_value(node):
     elif isinstance(node, Float) and node.head.is_integer():
         return int(node.head)
     elif isinstance(node, Scheme):
-        if len(node) == 1:
-            if isinstance(node[0], scm.Number):
-                v = node[0].head
+        values = list(util.skip_comments(node))
+        if len(values) == 1:
+            if isinstance(values[0], scm.Number):
+                v = values[0].head
                 if isinstance(v, int):
                     return v
                 if isinstance(v, float) and v.is_integer():
-- 
2.43.0


From 902189719d64b04dddb699af559291d76b4516d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 83/98] fix: the duration of a selection that ends with the
 music of an assignment was not found

---
 quickly/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/time.py b/quickly/time.py
index 53edb52..08c2261 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -273,6 +273,10 @@ class Time:
                         n = dom.find_descendant_left(end)
                         if n:
                             end_node = self._music_child(n)
+                            while len(n) and not end_node:
+                                # e.g. an assignment that ends with music
+                                n = n[-1]
+                                end_node = self._music_child(n)
                             if end_node:
                                 result = self.duration(start_node, end_node)
                                 if result and result.time >= 0:
-- 
2.43.0


From 450eb52190b09d6f2cb53bf230b11218f268863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 84/98] fix: blank space after the last text was deleted from
 an unmodified document if an end past it was given

---
 quickly/dom/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 3eb0115..461a02a 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -636,7 +636,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         start = context.pos if start is None else start
-        end = context.end if end is None else end
+        end = context.end if end is None else min(end, context.end)
         tokens = context.tokens()
         pos = self.pos
         if pos is None or pos > start:
-- 
2.43.0


From 201924b3a9f68ea15a7519dae44c227f3fa4b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 85/98] fix: Scheme multiline comments were written without the
 closing delimiter

---
 quickly/dom/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..5052a23 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -86,14 +86,14 @@ class SinglelineComment(base.SinglelineComment):
 
 
 class MultilineComment(base.MultilineComment):
-    """A multiline comment in Scheme after ``#!``."""
+    """A multiline comment in Scheme between ``#!`` and ``!#``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From 912d0b4274f98986f379d5daf4084c477ecd6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 86/98] fix: no space was written between the beat structure
 and the fraction of a \time command

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 7a11416..5e372aa 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2214,7 +2214,7 @@ class Time(element.HeadElement, Music):
     Has an optional List child and a Fraction child.
 
     """
-    space_after_head = " "
+    space_after_head = space_between = " "
     head = r"\time"
 
     def signatures(self):
-- 
2.43.0


From 4fa12396ab406541ba685c91d5f4234ddcd89d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 87/98] fix: a natural sign in figure mode raised a KeyError,
 and was not written

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 5e372aa..1429d1f 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2523,13 +2523,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
-- 
2.43.0


From 01e72d0a7c4a22f2bc004fa4a91999f2197d203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 88/98] fix: complex Scheme numbers with infinity, NaN or
 another radix, and non-integer floats in another radix, were written wrongly

---
 quickly/dom/scm.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 5052a23..16bf8b2 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -163,25 +163,30 @@ class Number(element.TextElement):
 
     def write_head(self):
         v = self.head
+        if isinstance(v, complex):
+            imag = self._write_real(v.imag)
+            sign = '' if imag[0] in '+-' else '+'
+            s = '{}{}{}i'.format(self._write_real(v.real), sign, imag)
+        else:
+            s = self._write_real(v)
+        return self._prefix[self.radix] + s
+
+    def _write_real(self, v):
+        """Write a real value in our radix."""
         if v == math.inf:
-            s = '+inf.0'
+            return '+inf.0'
         elif v == -math.inf:
-            s = '-inf.0'
-        elif v is math.nan:
-            s = '+nan.0'
-        elif isinstance(v, fractions.Fraction):
-            fmt = self._fmt[self.radix]
-            f = lambda n: format(n, fmt)
-            s = f(v.numerator)
-            if v.denominator != 1:
-                s = '{}/{}'.format(s, f(v.denominator))
+            return '-inf.0'
+        elif v != v:
+            return '+nan.0'
         elif isinstance(v, float) and self.radix == 10:
-            s = str(v)
-        elif isinstance(v, complex):
-            s = '{}{:+}i'.format(v.real, v.imag)
-        else:
-            s = format(int(v), self._fmt[self.radix])
-        return self._prefix[self.radix] + s
+            return str(v)
+        v = fractions.Fraction(v)
+        fmt = self._fmt[self.radix]
+        s = format(v.numerator, fmt)
+        if v.denominator != 1:
+            s = '{}/{}'.format(s, format(v.denominator, fmt))
+        return s
 
     def repr_head(self):
         """Dump Scheme numbers in Scheme syntax."""
-- 
2.43.0


From fe1de02de37859593578fb996a4c308c79c9e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 89/98] fix: trees with a NaN Scheme number did not equal their
 copies

---
 quickly/dom/scm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 16bf8b2..b851450 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -188,6 +188,11 @@ class Number(element.TextElement):
             s = '{}/{}'.format(s, format(v.denominator, fmt))
         return s
 
+    def body_equals(self, other):
+        """Reimplemented to let NaN values be equal."""
+        return self.head == other.head or (
+            self.head != self.head and self.write_head() == other.write_head())
+
     def repr_head(self):
         """Dump Scheme numbers in Scheme syntax."""
         return self.write_head()
-- 
2.43.0


From 86f3b77af0348c0d0443565be9bc8b888c10a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 90/98] fix: very large and small floating point numbers were
 written in exponential notation

---
 quickly/dom/lily.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 1429d1f..5d00523 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -24,6 +24,7 @@ Elements needed for LilyPond expressions.
 
 
 import collections
+import decimal
 import fractions
 import itertools
 import re
@@ -653,6 +654,15 @@ class Float(Number):
     def check_head(cls, head):
         return isinstance(head, (int, float))
 
+    def write_head(self):
+        text = str(self.head)
+        if 'e' in text:
+            # LilyPond does not understand the exponential notation
+            text = format(decimal.Decimal(text), 'f')
+            if '.' not in text:
+                text += '.0'
+        return text
+
     def signatures(self):
         yield Unit,
 
-- 
2.43.0


From 26be415bf6c4f21ae797d02b08e7fdd8b59bf129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:50 +0000
Subject: [PATCH 91/98] fix: commands like \voiceFive, \slashedGrace and
 \slurHalfDashed were read as identifier references

---
 quickly/lang/lilypond.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 07ae6e1..5c00069 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -278,6 +278,11 @@ class LilyPondTransform(base.Transform):
 
     def identifier_ref(self, items):
         """An IdentifierRef element."""
+        if len(items) == 1:
+            # a builtin command parce does not know, like \voiceFive
+            cls = MusicBuilder._builtin_mapping.get(items[0].text)
+            if cls:
+                return self.factory(cls, items)
         node = self.factory(lily.IdentifierRef, items[:1])
         node.extend(self._list_nodes(items[1:]))
         return node
-- 
2.43.0


From ea7c6ea12fc6fea5edf69e2b4fe10edd19a2582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 92/98] fix: the arguments of \mark (if like a duration) and of
 \slurDashPattern were not read, or written without space

---
 quickly/dom/lily.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 5d00523..b82f926 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2088,7 +2088,7 @@ class Label(element.HeadElement, Music):
         yield Scheme,
 
 
-class Mark(element.HeadElement, Music):
+class Mark(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""A ``\mark`` command. Has one child."""
     head = r'\mark'
 
@@ -3055,6 +3055,7 @@ class GrobStyle(element.MappingElement):
 
 class GrobDashPattern(element.MappingElement, _ConvertUnpitchedToInt):
     r"""The commands ``\slur``- ``\tie``- and ``\phrasingSlurDashPattern``."""
+    space_after_head = space_between = " "
     mapping = {
         r'\phrasingSlurDashPattern': 'PhrasingSlur',
         r'\slurDashPattern': 'Slur',
-- 
2.43.0


From 81eeeea13020fe32cb65b82dcbeadf5c628cc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 93/98] fix: a number like 1, 2, 4 or 8 as the value of a
 \tweak was read as a duration

---
 quickly/lang/lilypond.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 5c00069..618c4c7 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -912,6 +912,11 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
+        e = self._events
+        if e and isinstance(e[-1], lily.Tweak) and len(e[-1]) == 1 and token.text.isdigit():
+            # not a duration, but the value of a tweak
+            self.add_tweak(self.factory(lily.Int, (token,)))
+            return
         if self._duration or self._modifier or self._articulations or self._events:
             # an unpitched note, maybe tagged or tweaked
             yield from self.pending_music()
-- 
2.43.0


From 5f6f2472be39b72994313e76e636c8188367031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:26 +0000
Subject: [PATCH 94/98] fix: a command parce does not know was not recognized
 when a comment follows

---
 quickly/lang/lilypond.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 618c4c7..933b86c 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -278,13 +278,13 @@ class LilyPondTransform(base.Transform):
 
     def identifier_ref(self, items):
         """An IdentifierRef element."""
-        if len(items) == 1:
-            # a builtin command parce does not know, like \voiceFive
-            cls = MusicBuilder._builtin_mapping.get(items[0].text)
-            if cls:
-                return self.factory(cls, items)
-        node = self.factory(lily.IdentifierRef, items[:1])
-        node.extend(self._list_nodes(items[1:]))
+        nodes = list(self._list_nodes(items[1:]))
+        cls = lily.IdentifierRef
+        if all(isinstance(n, base.Comment) for n in nodes):
+            # can be a builtin command parce does not know, like \voiceFive
+            cls = MusicBuilder._builtin_mapping.get(items[0].text, cls)
+        node = self.factory(cls, items[:1])
+        node.extend(nodes)
         return node
 
     def markup(self, items):
@@ -1219,7 +1219,14 @@ class MusicBuilder:
         else:
             # toplevel expression
             yield from self.pending_music()
+            comments = ()
+            if not isinstance(obj, lily.IdentifierRef):
+                # a builtin command; just like the others it has no comments
+                comments = list(obj / base.Comment)
+                for node in comments:
+                    obj.remove(node)
             yield obj
+            yield from comments
 
     @_context("singleline_comment", "multiline_comment")
     def comment(self, obj):
-- 
2.43.0


From 02f3a9f46127c2d13723c58182a5b29bfa35adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 95/98] fix: articulations and comments after the number of
 \partial, \tuplet, \ottava etc. were lost

---
 quickly/dom/lily.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index b82f926..74daba3 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -488,11 +488,12 @@ class _ConvertUnpitchedToDuration(element.Element):
     """Mixin class to convert Unpitched arguments to their Duration."""
     def add_argument(self, node):
         """Reimplemented to pick the Duration of an Unpitched node."""
-        if isinstance(node, Unpitched):
-            for node in node:
-                node = node.copy_with_origin()
-                break
-        super().add_argument(node)
+        if isinstance(node, Unpitched) and len(node):
+            # there can also be articulations, like \[
+            for n in node:
+                super().add_argument(n.copy_with_origin())
+        else:
+            super().add_argument(node)
 
 
 class _ConvertUnpitchedToInt(element.Element):
@@ -501,7 +502,14 @@ class _ConvertUnpitchedToInt(element.Element):
         """Reimplemented to read the Duration of an Unpitched node as a Int."""
         if isinstance(node, Unpitched):
             for dur in node / Duration:
-                node = convert_duration_to_int(dur) or node
+                value = convert_duration_to_int(dur)
+                if value:
+                    super().add_argument(value)
+                    # there can also be articulations, like \[
+                    for n in node:
+                        if n is not dur:
+                            super().add_argument(n.copy_with_origin())
+                    return
                 break
         super().add_argument(node)
 
-- 
2.43.0


From 69d234d808bd416422bfcf8ff52befd1450888e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:30 +0000
Subject: [PATCH 96/98] fix: articulations, identifiers and markup not
 following a note were lost

---
 quickly/lang/lilypond.py | 47 +++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 933b86c..79a980e 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -771,6 +771,11 @@ class MusicBuilder:
 
             yield music
             yield from self._comments
+        elif self._articulations:
+            # there is no note they belong to, e.g. after an identifier
+            self._comments[:] = util.pop_comments(self._articulations)
+            yield self._articulations
+            yield from self._comments
 
         # if there are tweaks, tags or shapes but no articulations, the
         # tweak, tag or shape is meant for the next note. Output it now.
@@ -781,21 +786,22 @@ class MusicBuilder:
 
     def add_articulation(self, art):
         """Add an articulation or script."""
-        if self._music or self._duration:
-            if self._events:
-                self._events[-1].append(art)
-                art = e = self._events[0]
-                for f in self._events[1:]:
-                    e.append(f)
-                    e = f
-                self._events.clear()
-            if not self._articulations:
-                self._articulations = lily.Articulations()
-            self._articulations.append(art)
-            return True
-        else:
-            print("Unbound event:", art) # TEMP
-            return False
+        if self._events:
+            self._events[-1].append(art)
+            art = e = self._events[0]
+            for f in self._events[1:]:
+                e.append(f)
+                e = f
+            self._events.clear()
+        if not self._articulations:
+            self._articulations = lily.Articulations()
+        self._articulations.append(art)
+
+    def is_event(self):
+        """Return True if the next element belongs to the current note or direction."""
+        e = self._events
+        return bool(e) and bool(self._music or self._duration or
+                isinstance(e[-1], (lily.Direction, lily.SpannerId)))
 
     def add_spanner_id(self, node):
         """Return True if the node could be added to a spanner id that's being built."""
@@ -1187,10 +1193,11 @@ class MusicBuilder:
         """Called for ``string``, ``scheme`` or ``list`` context."""
         # copy, because arguments may be added, and obj may be cached
         obj = obj.copy_with_origin()
-        if self._events:
+        if self._events and self.add_event_argument(obj):
+            pass
+        elif self.is_event():
             # after a direction: an articulation
-            if not self.add_event_argument(obj):
-                self.add_articulation(obj)
+            self.add_articulation(obj)
         else:
             # toplevel expression
             yield from self.pending_music()
@@ -1200,7 +1207,7 @@ class MusicBuilder:
     def markup(self, obj):
         """Called for ``markup`` context: read arguments from items."""
         for node in self.transform.create_markup(obj, self.items):
-            if self._events:
+            if self.is_event():
                 # after a direction: add to the note
                 self.add_articulation(node)
             else:
@@ -1213,7 +1220,7 @@ class MusicBuilder:
         """Called for ``identifier_ref`` context: maybe articulation."""
         # copy, because comments may be moved, and obj may be cached
         obj = obj.copy_with_origin()
-        if self._events:
+        if self.is_event():
             # after a direction: add as articulation
             self.add_articulation(obj)
         else:
-- 
2.43.0


From bb76a02d0e5223914c0d889a0004dba5c588e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:30 +0000
Subject: [PATCH 97/98] fix: \applyContext, \applyMusic and \applyOutput were
 not read as such

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 79a980e..f791fac 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1084,7 +1084,8 @@ class MusicBuilder:
 
     _builtin_mapping = element.head_mapping(
         lily.Absolute, lily.Acciaccatura, lily.AddQuote, lily.AfterGrace,
-        lily.Alternative, lily.AppendToTag, lily.Appoggiatura, lily.Bar,
+        lily.Alternative, lily.AppendToTag, lily.ApplyContext, lily.ApplyMusic,
+        lily.ApplyOutput, lily.Appoggiatura, lily.Bar,
         lily.Break, lily.Breathe, lily.Clef, lily.Default, lily.Fixed,
         lily.Grace, lily.GrobDashPattern, lily.GrobDirection, lily.GrobStyle,
         lily.InStaffSegno, lily.KeepWithTag, lily.Key, lily.Label, lily.Mark,
-- 
2.43.0


From 0fd80ef4d2046d64383eee4d656cf86d481f5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:50 +0000
Subject: [PATCH 98/98] fix: markup helpers that failed or wrote another
 command

fret_diagram(), fret_diagram_terse() and fret_diagram_verbose() raised a
NameError, as did woodwind_diagram(); with_link() wrote \with-color.
---
 quickly/dom/markup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 656fcda..f7d5146 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -111,15 +111,15 @@ def tied_lyric(text):
 
 
 def fret_diagram(s):
-    return c_('fret-diagram', _s(scm.String(s)))
+    return _c('fret-diagram', _s(scm.String(s)))
 
 
 def fret_diagram_terse(s):
-    return c_('fret-diagram-terse', _s(scm.String(s)))
+    return _c('fret-diagram-terse', _s(scm.String(s)))
 
 
 def fret_diagram_verbose(element):
-    return c_('fret-diagram-verbose', element)
+    return _c('fret-diagram-verbose', element)
 
 
 def fromproperty(name):
@@ -242,7 +242,7 @@ def translate_scaled(x, y, *args):
 
 
 def with_link(label, *args):
-    return _c('with-color', _sym(label), _create_list(args))
+    return _c('with-link', _sym(label), _create_list(args))
 
 
 def with_url(url, *args):
@@ -250,7 +250,7 @@ def with_url(url, *args):
 
 
 def woodwind_diagram(instrument, scheme_commands):
-    return _c('woodwind-diagram', _sym(label), scheme_commands)
+    return _c('woodwind-diagram', _sym(instrument), scheme_commands)
 
 
 def draw_squiggle_line(sqlength, x, y, eqend):
-- 
2.43.0

