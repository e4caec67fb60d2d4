From 1b39686c1847a567684dc89f0be93fabed9df4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 01/86] fix: position of children in a horizontal box along y
 uses the parent's height

---
 elsie/boxtree/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..7de68a5 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -162,7 +162,7 @@ class Layout:
                 w = w.compute(rect.width, fill_unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
-                    y = child._y.compute(rect.y, rect.width, h)
+                    y = child._y.compute(rect.y, rect.height, h)
                 else:
                     y = rect.y + (rect.height - h) / 2
                 if child._x is None:
-- 
2.43.0


From 4a2a94b1e14ac4014d95873b2df8d12e3c618315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 02/86] fix: a positioned box with "fill" along the layout
 direction takes the whole parent instead of nothing

---
 elsie/boxtree/layout.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 7de68a5..746c685 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -146,9 +146,12 @@ class Layout:
 
         for child in self.children:
             w, h = child.compute_size_request()
+            # A box with an explicit position does not share the free space with its siblings,
+            # "fill" then means the whole parent
+            unit = fill_unit if child.is_managed(self.horizontal) else None
             if not self.horizontal:
                 w = w.compute(rect.width, None)
-                h = h.compute(rect.height, fill_unit)
+                h = h.compute(rect.height, unit)
                 if child._x is not None:
                     x = child._x.compute(rect.x, rect.width, w)
                 else:
@@ -159,7 +162,7 @@ class Layout:
                 else:
                     y = child._y.compute(rect.y, rect.height, h)
             else:
-                w = w.compute(rect.width, fill_unit)
+                w = w.compute(rect.width, unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
                     y = child._y.compute(rect.y, rect.height, h)
-- 
2.43.0


From bdc355100895b9f113061b8fa250b17cc1582736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 03/86] fix: pruning twice or pruning a cache directory shared
 by two decks fails on already removed files

---
 elsie/utils/cache.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..3450f3f 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -1,3 +1,4 @@
+import contextlib
 import hashlib
 import os
 import tempfile
@@ -29,6 +30,12 @@ class FsCache:
     def _full_path(self, filename):
         return os.path.join(self.cache_dir, filename)
 
+    def _is_cached(self, filename):
+        # The file might have been removed by another user of the same directory
+        return filename in self.cache_files and os.path.isfile(
+            self._full_path(filename)
+        )
+
     def ensure_by_file(self, filename, data_type, constructor, wait_on_collision=True):
         with open(filename, "rb") as f:
             data = f.read()
@@ -47,7 +54,7 @@ class FsCache:
                     condition.wait()
                     assert cache_file in self.cache_files
                 return full_path
-            if cache_file in self.cache_files:
+            if self._is_cached(cache_file):
                 return full_path
 
         condition = threading.Condition(self.lock)
@@ -60,15 +67,18 @@ class FsCache:
         return full_path
 
     def remove_unused(self):
-        for filename in self.cache_files.difference(self.touched_files):
-            os.remove(self._full_path(filename))
+        unused = self.cache_files.difference(self.touched_files)
+        for filename in unused:
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(self._full_path(filename))
+        self.cache_files -= unused
 
     def get(self, input_data, data_type, constructor):
         cache_file = self._get_filename(input_data, data_type)
         self.touched_files.add(cache_file)
         full_path = os.path.join(self.cache_dir, cache_file)
 
-        if cache_file in self.cache_files:
+        if self._is_cached(cache_file):
             with open(full_path, "r") as f:
                 return f.read()
 
-- 
2.43.0


From 90e65ab816ad26646461a1e80295decaaa7f1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 04/86] fix: a text with scale_to_fit keeps its scale when the
 deck is rendered again

---
 elsie/text/textboxitem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..559512a 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -24,6 +24,7 @@ def text_x_in_rect(rect, style):
 class TextBoxItem(BoxItem):
     def __init__(self, box, parsed_text, style, styles, scale_to_fit, rotation):
         super().__init__(box)
+        self._natural_size = None  # size before scaling
         self._text_size = None
         self._text_scale = 1
         self._scale_to_fit = scale_to_fit
@@ -36,7 +37,7 @@ class TextBoxItem(BoxItem):
         if scale_to_fit:
 
             def callback(rect):
-                tw, th = self._text_size
+                tw, th = self._natural_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
@@ -78,7 +79,7 @@ class TextBoxItem(BoxItem):
                 layout.ensure_width(width)
             if layout.height_definition is None:
                 layout.ensure_height(height)
-        self._text_size = (width, height)
+        self._natural_size = self._text_size = (width, height)
 
     def line_box(self, index: int, n_lines=1, **box_args) -> "box.Box":
         """
-- 
2.43.0


From 7519e2927ac440933bd890d20bc084b865baa9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 05/86] fix: Cairo renders a deck with the dimensions of
 another deck sharing the backend

---
 elsie/render/backends/cairo/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index f9e475a..f504b84 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -19,7 +19,8 @@ class CairoBackend(Backend):
     def create_render_unit(self, slide, step: int, export_type: str) -> RenderUnit:
         filename = get_cache_file_path(self.cache_dir, export_type)
         ctx = CairoRenderingContext(
-            *self.dimensions,
+            slide.width,
+            slide.height,
             filename=filename,
             export_format=export_type,
             viewbox=slide.view_box,
-- 
2.43.0


From d8741051f5970caa3a034e1930912999d5c0d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 06/86] fix: a call of box() with an invalid show, above or
 below leaves an invisible box in the layout and moves the fragment counter

---
 elsie/boxtree/box.py      | 12 ++++++++----
 elsie/boxtree/boxmixin.py |  5 ++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/elsie/boxtree/box.py b/elsie/boxtree/box.py
index b1e5b1f..71e4b87 100644
--- a/elsie/boxtree/box.py
+++ b/elsie/boxtree/box.py
@@ -59,16 +59,20 @@ class Box(BoxMixin, StyleContainer):
         """Semi-internal function, you can add your child if you know what you are doing."""
         assert isinstance(obj, Box) or isinstance(obj, BoxItem)
 
+        self.children.insert(self._child_index(prepend, above, below), obj)
+
+    def _child_index(self, prepend=False, above=None, below=None):
+        """Returns the index at which a new child has to be inserted."""
         if above is not None and below is not None:
             raise Exception("'above' and 'below' cannot be both set")
         if below is not None:
-            self.children.insert(self.children.index(below), obj)
+            return self.children.index(below)
         elif above is not None:
-            self.children.insert(self.children.index(above) + 1, obj)
+            return self.children.index(above) + 1
         elif prepend:
-            self.children.insert(0, obj)
+            return 0
         else:
-            self.children.append(obj)
+            return len(self.children)
 
     @property
     def _box_children(self):
diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..054a92c 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -134,6 +134,10 @@ class BoxMixin:
             Name of the box (used for debugging purposes).
         """
         box = self._get_box()
+        # Check everything before the first change, an invalid call must not leave traces
+        show = ShowInfo.parse(show, box.slide.max_step)
+        box._child_index(prepend, above, below)
+
         layout = box.layout.add(
             x=x,
             y=y,
@@ -153,7 +157,6 @@ class BoxMixin:
         if z_level is None:
             z_level = box.z_level
 
-        show = ShowInfo.parse(show, box.slide.max_step)
         box.slide.max_step = max(box.slide.max_step, show.max_step())
 
         new_box = box.__class__(box.slide, layout, box._styles, show, z_level, name)
-- 
2.43.0


From 6c488e37b50ad4c011b8e85469eda2353cce5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 07/86] fix: a rejected list item or list leaves boxes,
 fragments and a used number behind

---
 elsie/boxtree/box.py |  4 ++++
 elsie/ext/list.py    | 36 ++++++++++++++++++++++++------------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/elsie/boxtree/box.py b/elsie/boxtree/box.py
index 71e4b87..a342198 100644
--- a/elsie/boxtree/box.py
+++ b/elsie/boxtree/box.py
@@ -74,6 +74,10 @@ class Box(BoxMixin, StyleContainer):
         else:
             return len(self.children)
 
+    def _remove_child(self, box):
+        self.children.remove(box)
+        self.layout.children.remove(box.layout)
+
     @property
     def _box_children(self):
         return [child for child in self.children if isinstance(child, Box)]
diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 82f8e3a..2bed3c5 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -131,27 +131,37 @@ class ListBuilder:
             Additional arguments that will be passed to the box of the list item.
             These arguments will be combined with the `box_args` of the current list.
         """
-        self.level[-1] += 1
+        actual_label = label if label is not None else self.label
+        if (
+            actual_label is not None
+            and not callable(actual_label)
+            and not isinstance(actual_label, str)
+        ):
+            raise Exception("Label must be either a string or a function")
 
         label_padding = (
             label_padding if label_padding is not None else self.label_padding
         )
-
-        args = dict(self.box_args)
-        args.update(box_args)
         box_args["horizontal"] = True
+        max_step = self.parent.slide.max_step
         box, _ = self._create_box(self.parent, indent=0, **box_args)
         box.update_style("default", TextStyle(align="left"))
 
-        actual_label = label if label is not None else self.label
+        self.level[-1] += 1
         if actual_label is not None:
             label_box = box.box(y="[0%]")
-            if callable(actual_label):
-                actual_label(label_box, self.level)
-            elif isinstance(actual_label, str):
-                label_box.text(actual_label)
-            else:
-                raise Exception("Label must be either a string or a function")
+            try:
+                if callable(actual_label):
+                    actual_label(label_box, self.level)
+                else:
+                    label_box.text(actual_label)
+            except Exception:
+                # An item with an invalid label must not leave traces
+                self.level[-1] -= 1
+                self.parent._remove_child(box)
+                self.parent.slide.max_step = max_step
+                raise
+
         return box.box(p_left=label_padding, width="fill")
 
     def _create_sublist(
@@ -160,7 +170,7 @@ class ListBuilder:
         start = start if start is not None else 1
         assert start >= 1
         indent = indent if indent is not None else self.default_indent
-        level = level if level is not None else self.level
+        level = list(level if level is not None else self.level)
 
         box, total_indent = self._create_box(self.parent, indent=indent, **box_args)
         args = dict(self.box_args)
@@ -252,6 +262,8 @@ def ordered_list(
     default_box_args: kwargs
         Additional arguments that will be passed to the box of each list item in the list.
     """
+    if not isinstance(start, (int, float)):
+        raise Exception("start has to be a number, not {!r}".format(start))
     return ListBuilder(
         parent.sbox(),
         label=label or default_ol_label,
-- 
2.43.0


From c2dffc9eac32fabecbd9bcee7182bc114e41133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 08/86] fix: a rejected image call resizes its box and keeps
 the rejected file in memory

---
 elsie/boxtree/boxmixin.py | 13 +++++++------
 elsie/boxtree/layout.py   |  6 ++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 054a92c..a1d49fd 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -598,15 +598,11 @@ class BoxMixin:
         root = self._get_box().slide.temp_cache.get(key)
         if root is None:
             root = et.parse(filename).getroot()
-            self._get_box().slide.temp_cache[key] = root
 
+        # Check everything before the first change, an invalid call must not leave traces
         image_width = svg_size_to_pixels(root.get("width"))
         image_height = svg_size_to_pixels(root.get("height"))
 
-        self._get_box().layout.set_image_size_request(
-            image_width * (scale or 1), image_height * (scale or 1)
-        )
-
         if select_fragments is not None:
             image_steps = len(select_fragments)
         else:
@@ -614,8 +610,13 @@ class BoxMixin:
                 image_steps = get_image_steps(root)
             else:
                 image_steps = 1
+        steps = show_begin - 1 + image_steps
 
-        self._get_box()._ensure_steps(show_begin - 1 + image_steps)
+        self._get_box().layout.set_image_size_request(
+            image_width * (scale or 1), image_height * (scale or 1)
+        )
+        self._get_box().slide.temp_cache[key] = root
+        self._get_box()._ensure_steps(steps)
 
         image_data = None
 
diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 746c685..ad81af7 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -225,5 +225,7 @@ class Layout:
         minx, miny = self.min_children_size()
         size_x = max(self._width.min_size, minx)
         size_y = max(self._height.min_size, miny)
-        self.ensure_width(size_y * image_width / image_height)
-        self.ensure_height(size_x * image_height / image_width)
+        width = size_y * image_width / image_height
+        height = size_x * image_height / image_width
+        self.ensure_width(width)
+        self.ensure_height(height)
-- 
2.43.0


From 9b5e84beda40313a3cba854e0ff18e363d2dce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 09/86] fix: a failed construction of a cache entry blocks
 later requests for ever and two threads may construct one entry at the same
 time

---
 elsie/utils/cache.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 3450f3f..ccb2464 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -48,22 +48,29 @@ class FsCache:
         full_path = self._full_path(cache_file)
         with self.lock:
             self.touched_files.add(cache_file)
-            condition = self.in_progress.get(cache_file)
-            if condition is not None:
-                if wait_on_collision:
-                    condition.wait()
-                    assert cache_file in self.cache_files
-                return full_path
-            if self._is_cached(cache_file):
-                return full_path
+            while True:
+                if self._is_cached(cache_file):
+                    return full_path
+                condition = self.in_progress.get(cache_file)
+                if condition is None:
+                    break
+                if not wait_on_collision:
+                    return full_path
+                # If the construction fails, then it is tried again here
+                condition.wait()
+            condition = threading.Condition(self.lock)
+            self.in_progress[cache_file] = condition
 
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+        constructed = False
+        try:
+            constructor(input_data, full_path, data_type)
+            constructed = True
+        finally:
+            with self.lock:
+                if constructed:
+                    self.cache_files.add(cache_file)
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
     def remove_unused(self):
-- 
2.43.0


From bd7d619011bb00abeeb8c25b7e6adb679c9e846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 10/86] fix: a killed session or a failed export leaves
 incomplete files that later sessions use as results

---
 elsie/render/backends/svg/backend.py |  6 ++++-
 elsie/utils/cache.py                 | 34 +++++++++++++++++-----------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..866e8a9 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -1,6 +1,7 @@
 import json
 import os
 import re
+import uuid
 from typing import Union
 
 from ....utils.sxml import Xml
@@ -137,5 +138,8 @@ class InkscapeBackend(Backend):
             "inkscape": self.inkscape_version,
             "queries": list(cache.items()),
         }
-        with open(cache_file, "w") as f:
+        # Replaced at once, a session killed meanwhile must not leave an incomplete file
+        temp_file = os.path.join(self.cache_dir, f"cache.{uuid.uuid4().hex}.tmp.json")
+        with open(temp_file, "w") as f:
             json.dump(cache_config, f)
+        os.replace(temp_file, cache_file)
diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index ccb2464..147741f 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -3,6 +3,7 @@ import hashlib
 import os
 import tempfile
 import threading
+import uuid
 
 
 class FsCache:
@@ -36,6 +37,16 @@ class FsCache:
             self._full_path(filename)
         )
 
+    @contextlib.contextmanager
+    def _new_file(self, data_type):
+        """Provides a path for a file that is removed at the end if it is still there."""
+        temp_path = self._full_path(f"cache.{uuid.uuid4().hex}.tmp.{data_type}")
+        try:
+            yield temp_path
+        finally:
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(temp_path)
+
     def ensure_by_file(self, filename, data_type, constructor, wait_on_collision=True):
         with open(filename, "rb") as f:
             data = f.read()
@@ -63,7 +74,10 @@ class FsCache:
 
         constructed = False
         try:
-            constructor(input_data, full_path, data_type)
+            # The entry appears in the directory only when it is complete
+            with self._new_file(data_type) as temp_path:
+                constructor(input_data, temp_path, data_type)
+                os.replace(temp_path, full_path)
             constructed = True
         finally:
             with self.lock:
@@ -81,19 +95,13 @@ class FsCache:
         self.cache_files -= unused
 
     def get(self, input_data, data_type, constructor):
-        cache_file = self._get_filename(input_data, data_type)
-        self.touched_files.add(cache_file)
-        full_path = os.path.join(self.cache_dir, cache_file)
-
-        if self._is_cached(cache_file):
-            with open(full_path, "r") as f:
-                return f.read()
+        def write_result(input_data, output, _data_type):
+            result = constructor(input_data)
+            with open(output, "w") as f:
+                f.write(result)
 
-        result = constructor(input_data)
-        with open(full_path, "w") as f:
-            f.write(result)
-        self.cache_files.add(cache_file)
-        return result
+        with open(self.ensure(input_data, data_type, write_result)) as f:
+            return f.read()
 
 
 def get_cache_file_path(directory: str, extension: str) -> str:
-- 
2.43.0


From 51581efefccbc6b13961751c46b5048f9fdf4c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 11/86] fix: rendering with slide_postprocessing crashes when a
 PDF was added to the deck

---
 elsie/slides/slidedeck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From d6dc3e8fd1d7095ffe1b4c4051d9eb622eed86bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 12/86] fix: looking up a slide by its name crashes when a PDF
 was added to the deck

---
 elsie/slides/slide.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..b32a25d 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -68,6 +68,9 @@ class Slide:
 
 
 class ExternPdfSlide:
+
+    name = None
+
     def __init__(self, filename):
         self.filename = os.path.abspath(filename)
 
-- 
2.43.0


From 273dc09e1472c02cc6331eb2e5209aa3d56e64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 13/86] fix: with slides_per_page an added PDF is moved before
 the preceding incomplete page

---
 elsie/render/render.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..f57a9cb 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -91,6 +91,10 @@ def per_page_grouping(backend, units, count_x, count_y, width, height):
     for unit in units:
         svg = unit.get_svg()
         if svg is None:
+            # The unit stays at its place, the incomplete page goes before it
+            close()
+            xml = new()
+            idx = 0
             new_units.append(unit)
             continue
 
-- 
2.43.0


From 64d59ade071b8cf69b5af33d96731395d04a1430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 14/86] fix: a cache directory used with and without
 text_to_path serves files exported with the other setting

---
 elsie/render/backends/svg/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 866e8a9..b20e814 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -70,7 +70,10 @@ class InkscapeBackend(Backend):
         self.used_query_cache = {}
 
     def get_version(self, elsie_version: str) -> str:
-        return f"{elsie_version}/{self.inkscape_version}"
+        version = f"{elsie_version}/{self.inkscape_version}"
+        if self.inkscape.text_to_path:
+            version += "/text-to-path"
+        return version
 
     def create_render_unit(self, slide, step, export_type):
         ctx = SvgRenderingContext(slide, step, slide.debug_boxes)
-- 
2.43.0


From d39c63d3d7c35915faec1a3292585f90cb200e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 15/86] fix: an image edited after its first use is drawn with
 its old content

---
 elsie/boxtree/boxmixin.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index a1d49fd..e4fcb3a 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -516,27 +516,23 @@ class BoxMixin:
             raise Exception("Unknown image type: {}".format(image_type))
 
     def _image_bitmap(self, source, scale: float, rotation: float):
-        if isinstance(source, str) or isinstance(source, bytes):
-            key = (source, "bitmap")
-            entry = self._get_box().slide.temp_cache.get(key)
-        else:
-            key = None
-            entry = None
+        # Entries are identified by content, as the file might be changed between two uses
+        data = read_helper(source)
+        key = (data, "bitmap")
+        entry = self._get_box().slide.temp_cache.get(key)
 
         if entry is None:
-            data = read_helper(source)
             img = Image.open(io.BytesIO(data))
             mime = Image.MIME[img.format]
             image_width, image_height = img.size
             del img
 
-            if key is not None:
-                self._get_box().slide.temp_cache[key] = (
-                    image_width,
-                    image_height,
-                    mime,
-                    data,
-                )
+            self._get_box().slide.temp_cache[key] = (
+                image_width,
+                image_height,
+                mime,
+                data,
+            )
         else:
             image_width, image_height, mime, data = entry
 
@@ -570,7 +566,7 @@ class BoxMixin:
     def _image_ora(
         self, filename, scale, fragments, show_begin, select_fragments, rotation
     ):
-        key = (filename, "svg")
+        key = (read_helper(filename), "svg")
         slide = self._get_box().slide
         if key not in slide.temp_cache:
 
@@ -594,7 +590,7 @@ class BoxMixin:
         select_fragments: List[int] = None,
         rotation: float = None,
     ):
-        key = (filename, "svg")
+        key = (read_helper(filename), "svg")
         root = self._get_box().slide.temp_cache.get(key)
         if root is None:
             root = et.parse(filename).getroot()
-- 
2.43.0


From 1f827e37ff4c9f30b0abfb557581f04853ea2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 16/86] fix: the second pruning in a session drops the
 measurements of texts that are still used

---
 elsie/render/backends/svg/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index b20e814..ce48da8 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -84,8 +84,7 @@ class InkscapeBackend(Backend):
         return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)
 
     def prune_cache(self):
-        self.query_cache = self.used_query_cache
-        self.used_query_cache = {}
+        self.query_cache = self.used_query_cache.copy()
 
     def save_cache(self):
         self._save_query_cache(self.query_cache)
-- 
2.43.0


From 13fcd94818dc0c87bba0b4eec30531b6f1718371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 17/86] fix: when Inkscape terminates Elsie hangs and its
 memory grows without limit

---
 elsie/render/inkscape.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..2485ea0 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -37,6 +37,8 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception("Inkscape terminated unexpectedly")
             if (
                 character == " "
                 and chars
-- 
2.43.0


From 569675908be187aaf911b52fec96677a9ddbb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 18/86] fix: a file stays open in Inkscape when its measurement
 or export fails

---
 elsie/render/inkscape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 2485ea0..490ebf8 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -11,8 +11,10 @@ def svg_file_input(inkscape, svg: str, binary=False):
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
-        yield
-        inkscape.run_command("file-close")
+        try:
+            yield
+        finally:
+            inkscape.run_command("file-close")
 
 
 class InkscapeShell:
-- 
2.43.0


From cdc3b99a51fda79faab565a0fb8988b95758779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 19/86] fix: a measurement answered with nan or inf is used as
 a size

---
 elsie/render/inkscape.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 490ebf8..d3f3bd9 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -1,5 +1,6 @@
 import contextlib
 import logging
+import math
 import os
 import subprocess
 import tempfile
@@ -78,7 +79,10 @@ class InkscapeShell:
             self.run_command(f"select:{id}")
             value = self.run_command(query)
             try:
-                return float(value)
+                result = float(value)
+                if not math.isfinite(result):
+                    raise ValueError()
+                return result
             except ValueError:
                 raise Exception(
                     f"Inkscape query executed ({query}) and should return "
-- 
2.43.0


From b2de7bf2976cc3c8de689bb20b48993356ddaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 20/86] fix: Elsie hangs when Inkscape prints many warnings

---
 elsie/render/inkscape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index d3f3bd9..b8eac38 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -25,7 +25,8 @@ class InkscapeShell:
             [inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            # Nobody reads it, a full pipe would block Inkscape
+            stderr=subprocess.DEVNULL,
             universal_newlines=True,
         )
         self.wait_for_prompt()
-- 
2.43.0


From 90684660dfc19c7ebda8db0096be7eab2e20fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 21/86] fix: a repeated escape character is not drawn as the
 character

---
 elsie/text/textparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 81860e0..c357b18 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -61,7 +61,12 @@ def parse_text(text, escape_char="~", begin_char="{", end_char="}"):
     counter = 0
     while i < len(text):
         c = text[i]
-        if c == escape_char:
+        if c == escape_char and text[i + 1 : i + 2] == escape_char:
+            # Repeated escape character stands for itself
+            result.append(("text", text[start : i + 1]))
+            i += 2
+            start = i
+        elif c == escape_char:
             result.append(("text", text[start:i]))
             i += 1
             start = i
-- 
2.43.0


From 68a98bf5a7342e07db5dc9386a7fae43fb37fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 22/86] fix: an inline style cannot turn off bold or italic of
 the surrounding text

---
 elsie/render/backends/svg/draw.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..081597d 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -5,7 +5,7 @@ from ....utils.geom import Rect, find_centroid
 from .utils import apply_rotation
 
 
-def set_font_from_style(xml, style):
+def set_font_from_style(xml, style, is_inline=False):
     if style.font is not None:
         xml.set("font-family", style.font)
     if style.size is not None:
@@ -18,8 +18,12 @@ def set_font_from_style(xml, style):
         s += f"fill-opacity:{style.opacity};"
     if style.bold:
         s += "font-weight: bold;"
+    elif style.bold is not None and is_inline:
+        s += "font-weight: normal;"
     if style.italic:
         s += "font-style: italic;"
+    elif style.italic is not None and is_inline:
+        s += "font-style: normal;"
     if s:
         xml.set("style", s)
 
@@ -89,7 +93,7 @@ def draw_text(
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                set_font_from_style(xml, s, is_inline=j > 0)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -106,7 +110,7 @@ def draw_text(
                 xml.set("id", id)
             xml.set("xml:space", "preserve")
             if s:
-                set_font_from_style(xml, s)
+                set_font_from_style(xml, s, is_inline=True)
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-- 
2.43.0


From dafcb4e756b350daaa22914e57bd329b207491f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 23/86] fix: a newline inside an unnamed or ignored inline
 style crashes the rendering

---
 elsie/render/backends/svg/draw.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 081597d..d97e078 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -86,14 +86,13 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s, is_inline=j > 0)
+                if s is not None:
+                    set_font_from_style(xml, s, is_inline=j > 0)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -119,9 +118,8 @@ def draw_text(
         else:
             raise Exception("Invalid token")
 
-    for s in active_styles:
-        if s is not None:
-            xml.close("tspan")
+    for _ in active_styles:
+        xml.close("tspan")
     xml.close("text")
 
 
-- 
2.43.0


From 775065433115019cf4d85195aa63178e6c0d8b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 24/86] fix: after an inline style inside an unnamed or ignored
 one, later styles are compared with a wrong priority

---
 elsie/render/backends/svg/draw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index d97e078..7c5290b 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -113,8 +113,9 @@ def draw_text(
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-            if active_styles and active_styles[-1] is not None:
-                current_priority = active_styles[-1].priority
+            current_priority = next(
+                s.priority for s in reversed(active_styles) if s is not None
+            )
         else:
             raise Exception("Invalid token")
 
-- 
2.43.0


From d53ff90f76f60de2ce74a754571cf19ae1a59467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 25/86] fix: line numbers in code are drawn with the styles of
 multi-line tokens and inline styles

---
 elsie/text/textboxitem.py |  8 ++++++--
 elsie/text/textparser.py  | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index 559512a..247109d 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -3,7 +3,7 @@ from typing import TYPE_CHECKING
 from ..boxtree.boxitem import BoxItem
 from ..boxtree.lazy import LazyValue
 from ..render.backends.backend import Backend
-from .textparser import extract_line, number_of_lines
+from .textparser import ContinuedStyle, extract_line, number_of_lines
 
 if TYPE_CHECKING:
     from ..boxtree import box
@@ -129,7 +129,11 @@ class TextBoxItem(BoxItem):
         assert n_th > 0
         count = n_th
         for (i, token) in enumerate(self._parsed_text):
-            if token[0] == "begin" and token[1] == style_name:
+            if (
+                token[0] == "begin"
+                and token[1] == style_name
+                and not isinstance(token[1], ContinuedStyle)
+            ):
                 count -= 1
                 if count == 0:
                     return self._text_box_helper(i, box_args)
diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index c357b18..66a2f4e 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -2,6 +2,12 @@ END_MARKER = ("end", None)
 NEWLINE_1 = ("newline", 1)
 
 
+class ContinuedStyle(str):
+    """Name of a style of a block that continues after it was interrupted.
+
+    It is not another occurrence of the style."""
+
+
 def number_of_lines(parsed_text):
     lines = 1
     for (token, value) in parsed_text:
@@ -41,16 +47,24 @@ def add_line_numbers(tokens):
     begin = ("begin", "code_lineno")
     result = [begin, ("text", "1".zfill(lines_len) + " "), END_MARKER]
     line = 1
+    opened = []
     for token in tokens:
         if token[0] != "newline":
+            if token[0] == "begin":
+                opened.append(token[1])
+            elif token[0] == "end":
+                opened.pop()
             result.append(token)
             continue
+        # The number is not a part of the blocks that span the end of the line
+        result.extend([END_MARKER] * len(opened))
         for i in range(token[1]):
             line += 1
             result.append(NEWLINE_1)
             result.append(begin)
             result.append(("text", str(line).zfill(lines_len) + " "))
             result.append(END_MARKER)
+        result.extend(("begin", ContinuedStyle(name)) for name in opened)
     return result
 
 
-- 
2.43.0


From c91d4e77999e7e9c9b2b503927a6a4232ce179e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 26/86] fix: inline styles over several tokens of code are
 swapped when a token ends

---
 elsie/text/textparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 66a2f4e..2289114 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -200,11 +200,11 @@ def tokens_merge(tokens1, tokens2):
             result.append(END_MARKER)
             if i2 != index:
                 pos -= 1
-                reopen.append(t2)
+                reopen.append(("begin", ContinuedStyle(t2[1])))
             else:
                 break
         del opened[pos]
-        result.extend(reopen)
+        result.extend(reversed(reopen))
     assert not opened
     return normalize_tokens(result)
 
-- 
2.43.0


From 5fba28a91dfdb4e6862b1f6f010ddd530427d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 27/86] fix: code that starts or ends with a newline inside an
 inline style crashes

---
 elsie/boxtree/boxmixin.py | 16 +++-------------
 elsie/text/highlight.py   |  9 ++++++---
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index e4fcb3a..42cbcdb 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -717,25 +717,15 @@ class BoxMixin:
 
         if language:
             if use_styles:
-                # pygments strips newlines at the beginning
-                # of whole text
-                # and it makes a problem with mering styles
-                # therefore we strips newlines right away
-
-                start_newlines = 0
-                while text.startswith("\n"):
-                    start_newlines += 1
-                    text = text[1:]
-
                 ptext = parse_text(
                     text, escape_char, begin_char=begin_char, end_char=end_char
                 )
                 text = tokens_to_text_without_style(ptext)
-            parsed_text = highlight_code(text, language)
+            # Without the newlines at the beginning and at the end of the text
+            # the highlighted text could not be merged with the styles
+            parsed_text = highlight_code(text, language, keep_newlines=use_styles)
             if use_styles:
                 parsed_text = tokens_merge(parsed_text, ptext)
-                if start_newlines:
-                    parsed_text.insert(0, ("newline", start_newlines))
         else:
             parsed_text = parse_text(
                 text,
diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index de12711..19f3f4b 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -30,11 +30,14 @@ class MyFormatter(Formatter):
                 stream.append(("end", None))
 
 
-def highlight_code(code, language):
-    lexer = get_lexer_by_name(language)
+def highlight_code(code, language, keep_newlines=False):
+    lexer = get_lexer_by_name(language, stripnl=not keep_newlines)
     formatter = MyFormatter()
     highlight(code, lexer, formatter)
-    return normalize_tokens(formatter.stream)
+    tokens = normalize_tokens(formatter.stream)
+    if keep_newlines and code.endswith("\n"):
+        tokens.append(("newline", len(code) - len(code.rstrip("\n"))))
+    return tokens
 
 
 def make_highlight_styles(pygments_style):
-- 
2.43.0


From c5c9c60061bf8e33b335600949f4ebf363263479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 28/86] fix: code in a language with its own token types (yaml,
 postgresql, console, ...) crashes

---
 elsie/boxtree/boxmixin.py |  7 ++++++-
 elsie/text/highlight.py   | 19 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 42cbcdb..249d0f1 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -723,7 +723,12 @@ class BoxMixin:
                 text = tokens_to_text_without_style(ptext)
             # Without the newlines at the beginning and at the end of the text
             # the highlighted text could not be merged with the styles
-            parsed_text = highlight_code(text, language, keep_newlines=use_styles)
+            parsed_text = highlight_code(
+                text,
+                language,
+                keep_newlines=use_styles,
+                styles=self._get_box()._styles,
+            )
             if use_styles:
                 parsed_text = tokens_merge(parsed_text, ptext)
         else:
diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index 19f3f4b..b827fa6 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -8,9 +8,20 @@ from .textstyle import TextStyle
 
 
 class MyFormatter(Formatter):
-    def __init__(self):
+    def __init__(self, styles=None):
         super().__init__()
         self.stream = []
+        self.styles = styles
+
+    def style_name(self, ttype):
+        # Lexers may use their own token types, these get the style of the closest general type
+        while (
+            self.styles is not None
+            and "pygments-" + str(ttype) not in self.styles
+            and ttype.parent is not None
+        ):
+            ttype = ttype.parent
+        return "pygments-" + str(ttype)
 
     def format(self, tokensource, outfile):
         stream = self.stream
@@ -18,7 +29,7 @@ class MyFormatter(Formatter):
             if value == "\n":
                 stream.append(NEWLINE_1)
             else:
-                stream.append(("begin", "pygments-" + str(ttype)))
+                stream.append(("begin", self.style_name(ttype)))
                 if "\n" in value:
                     for t in value.split("\n"):
                         if t:
@@ -30,9 +41,9 @@ class MyFormatter(Formatter):
                 stream.append(("end", None))
 
 
-def highlight_code(code, language, keep_newlines=False):
+def highlight_code(code, language, keep_newlines=False, styles=None):
     lexer = get_lexer_by_name(language, stripnl=not keep_newlines)
-    formatter = MyFormatter()
+    formatter = MyFormatter(styles)
     highlight(code, lexer, formatter)
     tokens = normalize_tokens(formatter.stream)
     if keep_newlines and code.endswith("\n"):
-- 
2.43.0


From c6e828ccf8cec2e0ccde71b03c83974be6149daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 29/86] fix: empty tokens of some lexers add a numbered empty
 line to the code

---
 elsie/text/highlight.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index b827fa6..70b38fd 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -26,6 +26,8 @@ class MyFormatter(Formatter):
     def format(self, tokensource, outfile):
         stream = self.stream
         for ttype, value in tokensource:
+            if not value:
+                continue  # Some lexers (pug, sass, ...) emit empty tokens
             if value == "\n":
                 stream.append(NEWLINE_1)
             else:
-- 
2.43.0


From 21b8524a25a7cafb850c089aeff572e4adc76875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 30/86] fix: changing a style object after set_style or
 update_style changes boxes and already created texts

---
 elsie/text/stylecontainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/text/stylecontainer.py b/elsie/text/stylecontainer.py
index 15dda3c..dbb50ee 100644
--- a/elsie/text/stylecontainer.py
+++ b/elsie/text/stylecontainer.py
@@ -17,7 +17,8 @@ class StyleContainer:
         old_style = self.get_style(style_name, full_style=False)
         old_style.update(style)
         self._styles = self._styles.copy()
-        self._styles[style_name] = old_style
+        # Stored as a copy, a later change of the returned object must not change the boxes
+        self._styles[style_name] = old_style.copy()
         return old_style
 
     def set_style(self, style_name: str, style: TextStyle, base="default"):
@@ -41,7 +42,8 @@ class StyleContainer:
             base_style.update(style)
             style = base_style
         self._styles = self._styles.copy()
-        self._styles[style_name] = style
+        # Stored as a copy, a later change of the passed object must not change the boxes
+        self._styles[style_name] = style.copy()
         return style
 
     def get_style(self, style: Union[str, TextStyle], full_style=False) -> TextStyle:
-- 
2.43.0


From fc92a8243e5e160540a8d007c491365e17385999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 31/86] fix: a quote in an attribute (font, colour, label, ...)
 breaks the resulting SVG

---
 elsie/utils/sxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index a190d65..385de41 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -22,9 +22,10 @@ class Xml:
 
     def set(self, name, value, escape=True):
         assert self.is_open
+        value = escape_text(str(value))
         if escape:
-            value = str(value).replace("'", "\\'")
-        self.chunks.append(" {}='{}'".format(name, escape_text(value)))
+            value = value.replace("'", "&apos;")
+        self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
         self._close()
-- 
2.43.0


From 804667e62e226a36ee52d07138b8d19e48680953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 32/86] fix: tabs, newlines and carriage returns are changed in
 the resulting SVG

---
 elsie/utils/sxml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index 385de41..43a7a6d 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -25,6 +25,9 @@ class Xml:
         value = escape_text(str(value))
         if escape:
             value = value.replace("'", "&apos;")
+            # Otherwise they are read as spaces
+            for c in "\t\n":
+                value = value.replace(c, "&#{};".format(ord(c)))
         self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
@@ -63,4 +66,5 @@ def escape_text(text):
     text = text.replace("&", "&amp;")
     text = text.replace("<", "&lt;")
     text = text.replace(">", "&gt;")
+    text = text.replace("\r", "&#13;")  # Otherwise it is read as a newline
     return text
-- 
2.43.0


From 4968a7531b35697c7d11f403bd6858b0aa17e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 33/86] fix: control characters result in SVG files that are
 not well-formed

---
 elsie/utils/sxml.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index 43a7a6d..3a6dfe9 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -1,3 +1,9 @@
+import re
+
+# Characters that cannot occur in XML, not even escaped
+INVALID_CHARS = re.compile("[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
 class Xml:
     def __init__(self):
         self.chunks = []
@@ -63,6 +69,11 @@ class Xml:
 
 
 def escape_text(text):
+    match = INVALID_CHARS.search(text)
+    if match:
+        raise Exception(
+            "Character {} cannot be used in SVG".format(repr(match.group()))
+        )
     text = text.replace("&", "&amp;")
     text = text.replace("<", "&lt;")
     text = text.replace(">", "&gt;")
-- 
2.43.0


From 6fabdbfa70db71b5f3a6da26d10eec37dc883730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 34/86] fix: SVG and LaTeX files are written in the encoding of
 the platform instead of UTF-8

---
 elsie/boxtree/boxmixin.py | 2 +-
 elsie/ext/latex.py        | 4 ++--
 elsie/render/render.py    | 2 +-
 elsie/utils/cache.py      | 4 ++--
 elsie/utils/sxml.py       | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 249d0f1..4a83207 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -572,7 +572,7 @@ class BoxMixin:
 
             def constructor(_content, output, _data_type):
                 svg = convert_ora_to_svg(filename)
-                with open(output, "w") as f:
+                with open(output, "w", encoding="utf-8") as f:
                     f.write(svg)
 
             cache_file = slide.fs_cache.ensure_by_file(filename, "svg", constructor)
diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index f8c8435..a130c37 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -87,7 +87,7 @@ def _render_latex(text):
     args = ("/usr/bin/pdflatex", "-interaction=batchmode", "content.tex")
 
     with TemporaryDirectory(prefix="elsie-") as wdir:
-        with open(os.path.join(wdir, "content.tex"), "w") as f:
+        with open(os.path.join(wdir, "content.tex"), "w", encoding="utf-8") as f:
             f.write(text)
 
         p = subprocess.Popen(
@@ -100,7 +100,7 @@ def _render_latex(text):
 
         _stdout, _stderr = p.communicate()
         if p.returncode != 0:
-            with open(os.path.join(wdir, "content.log")) as f:
+            with open(os.path.join(wdir, "content.log"), errors="replace") as f:
                 error = f.read()
             raise Exception("pdflatex failed:\n" + error)
 
diff --git a/elsie/render/render.py b/elsie/render/render.py
index f57a9cb..bc2463c 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -34,7 +34,7 @@ class SvgRenderUnit(RenderUnit):
         svg_file = os.path.join(
             out_dir, "{}-{}.svg".format(self.slide.index, self.step)
         )
-        with open(svg_file, "w") as f:
+        with open(svg_file, "w", encoding="utf-8") as f:
             f.write(self.svg)
 
     def export(self, fs_cache, export_type):
diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 147741f..8c7a629 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -97,10 +97,10 @@ class FsCache:
     def get(self, input_data, data_type, constructor):
         def write_result(input_data, output, _data_type):
             result = constructor(input_data)
-            with open(output, "w") as f:
+            with open(output, "w", encoding="utf-8") as f:
                 f.write(result)
 
-        with open(self.ensure(input_data, data_type, write_result)) as f:
+        with open(self.ensure(input_data, data_type, write_result), encoding="utf-8") as f:
             return f.read()
 
 
diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index 3a6dfe9..def34ef 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -63,7 +63,7 @@ class Xml:
 
     def write(self, filename):
         assert len(self.stack) == 0, "Empty stack"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding="utf-8") as f:
             for chunk in self.chunks:
                 f.write(chunk)
 
-- 
2.43.0


From 379e1bf8d2cc9377fe5c8e8f34e0b694249a359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 35/86] fix: inline_box of a style that crosses a token of
 highlighted code covers all its characters

---
 elsie/text/textboxitem.py | 15 +++++++++++++--
 elsie/text/textparser.py  | 23 +++++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index 247109d..1f3c4ee 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -3,7 +3,12 @@ from typing import TYPE_CHECKING
 from ..boxtree.boxitem import BoxItem
 from ..boxtree.lazy import LazyValue
 from ..render.backends.backend import Backend
-from .textparser import ContinuedStyle, extract_line, number_of_lines
+from .textparser import (
+    ContinuedStyle,
+    extract_line,
+    last_part_in_line,
+    number_of_lines,
+)
 
 if TYPE_CHECKING:
     from ..boxtree import box
@@ -160,9 +165,15 @@ class TextBoxItem(BoxItem):
         query_x = backend.compute_text_x(
             line, self._style, self._styles, id_index=index_in_line
         )
+        last_in_line = last_part_in_line(line, index_in_line)
         query_w = backend.compute_text_width(
-            line, self._style, self._styles, id_index=index_in_line
+            line, self._style, self._styles, id_index=last_in_line
         )
+        if last_in_line != index_in_line:
+            last_x = backend.compute_text_x(
+                line, self._style, self._styles, id_index=last_in_line
+            )
+            query_w += last_x - query_x
 
         box_args.setdefault(
             "x",
diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 2289114..1be91ab 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -5,7 +5,15 @@ NEWLINE_1 = ("newline", 1)
 class ContinuedStyle(str):
     """Name of a style of a block that continues after it was interrupted.
 
-    It is not another occurrence of the style."""
+    It is not another occurrence of the style, `origin` is the token that began the block."""
+
+    origin = None
+
+    @classmethod
+    def of(cls, token):
+        result = cls(token[1])
+        result.origin = token
+        return ("begin", result)
 
 
 def number_of_lines(parsed_text):
@@ -169,6 +177,17 @@ def extract_line(tokens, index):
     return result, index - b + len(open_blocks)
 
 
+def last_part_in_line(line, index):
+    """Returns index of the last part of the (possibly interrupted) block that begins at index."""
+    result = index
+    for i in range(index + 1, len(line)):
+        if getattr(line[i][1], "origin", None) is line[index]:
+            part = line[i : _get_block_end_index(line, i)]
+            if tokens_to_text_without_style(part):
+                result = i
+    return result
+
+
 def tokens_to_text_without_style(tokens):
     result = []
     for name, value in tokens:
@@ -200,7 +219,7 @@ def tokens_merge(tokens1, tokens2):
             result.append(END_MARKER)
             if i2 != index:
                 pos -= 1
-                reopen.append(("begin", ContinuedStyle(t2[1])))
+                reopen.append(ContinuedStyle.of(t2))
             else:
                 break
         del opened[pos]
-- 
2.43.0


From cc9b3a7b817cdd3c2df9e330825008cdc0ca95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 36/86] fix: an image whose labels name only its first fragment
 is not shown forever

---
 elsie/boxtree/boxmixin.py | 4 ++--
 elsie/render/image.py     | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 4a83207..35f8148 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -6,7 +6,7 @@ import lxml.etree as et
 from PIL import Image
 
 from ..render.backends.svg.utils import svg_size_to_pixels
-from ..render.image import create_image_data, get_image_steps
+from ..render.image import create_image_data, get_image_steps, has_fragments
 from ..render.ora import convert_ora_to_svg
 from ..shapes import arrow
 from ..shapes.path import (
@@ -616,7 +616,7 @@ class BoxMixin:
 
         image_data = None
 
-        if image_steps == 1 and not select_fragments:
+        if select_fragments is None and not (fragments and has_fragments(root)):
             image_data = et.tostring(root).decode()
 
         def draw(ctx):
diff --git a/elsie/render/image.py b/elsie/render/image.py
index bb50de6..0d5eb5a 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -19,6 +19,12 @@ def get_image_steps(root):
     return steps
 
 
+def has_fragments(root):
+    return any(
+        parse_show_info_from_label(element) is not None for element in root.iter()
+    )
+
+
 def create_image_data(root, step):
     hidden = []
 
-- 
2.43.0


From 75fa99b3cdb1df2834edbad8975b81e038dcc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 37/86] fix: text that follows a hidden element of an SVG image
 is not removed

---
 elsie/render/image.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/elsie/render/image.py b/elsie/render/image.py
index 0d5eb5a..88ded0b 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -25,6 +25,18 @@ def has_fragments(root):
     )
 
 
+def _remove_element(element):
+    """Removes the element but not the text that follows it."""
+    parent = element.getparent()
+    if element.tail:
+        previous = element.getprevious()
+        if previous is not None:
+            previous.tail = (previous.tail or "") + element.tail
+        else:
+            parent.text = (parent.text or "") + element.tail
+    parent.remove(element)
+
+
 def create_image_data(root, step):
     hidden = []
 
@@ -32,12 +44,12 @@ def create_image_data(root, step):
         for child in element:
             show_info = parse_show_info_from_label(child)
             if show_info is not None and not show_info.is_visible(step):
-                hidden.append((element, child))
+                hidden.append(child)
                 continue
             find_hidden_elements(child)
 
     root = deepcopy(root)
     find_hidden_elements(root)
-    for element, child in hidden:
-        element.remove(child)
+    for element in hidden:
+        _remove_element(element)
     return et.tostring(root).decode()
-- 
2.43.0


From 68be1fd96436fae40b560035e45b60f65984ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 38/86] fix: a fragment label of the root element of an SVG
 image hides the image

---
 elsie/boxtree/boxmixin.py | 2 ++
 elsie/render/image.py     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 35f8148..d86d026 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -634,6 +634,8 @@ class BoxMixin:
                 if step < 1:
                     return
                 data = create_image_data(root, step)
+                if data is None:
+                    return
             else:
                 if ctx.step < show_begin:
                     return
diff --git a/elsie/render/image.py b/elsie/render/image.py
index 88ded0b..6bd543b 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -38,6 +38,7 @@ def _remove_element(element):
 
 
 def create_image_data(root, step):
+    """Returns None if nothing of the image is shown."""
     hidden = []
 
     def find_hidden_elements(element):
@@ -48,6 +49,10 @@ def create_image_data(root, step):
                 continue
             find_hidden_elements(child)
 
+    show_info = parse_show_info_from_label(root)
+    if show_info is not None and not show_info.is_visible(step):
+        return None
+
     root = deepcopy(root)
     find_hidden_elements(root)
     for element in hidden:
-- 
2.43.0


From 4599ca036ab4bb920d4cfb86d24e17369eecd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 39/86] fix: a box with one dimension and padding gets the
 proportion of its image inside the padding

---
 elsie/boxtree/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index ad81af7..5b7fa24 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -223,8 +223,8 @@ class Layout:
             self.ensure_height(image_height)
             return
         minx, miny = self.min_children_size()
-        size_x = max(self._width.min_size, minx)
-        size_y = max(self._height.min_size, miny)
+        size_x = max(self._width.min_size - self.p_left - self.p_right, minx)
+        size_y = max(self._height.min_size - self.p_top - self.p_bottom, miny)
         width = size_y * image_width / image_height
         height = size_x * image_height / image_width
         self.ensure_width(width)
-- 
2.43.0


From bdb723bfe13a0319366e70737f136ecf421c227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 40/86] fix: size of SVG images given in inches and picas

---
 elsie/render/backends/svg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index a123166..f0be877 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -33,6 +33,10 @@ def svg_size_to_pixels(text):
         factor = 37.7953
     elif suffix == "pt":
         factor = 1.33333
+    elif suffix == "pc":
+        factor = 16.0
+    elif suffix == "in":
+        factor = 96.0
     else:
         factor = 1.0
     return float(text) * factor
-- 
2.43.0


From 6f8be97c621095d016e362b7590ce697d1011569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 41/86] fix: absent attributes of OpenRaster layers and stacks
 have the default values of the format

---
 elsie/render/ora.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 1bd7297..24dd0ed 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -62,20 +62,20 @@ def convert_ora_to_svg(filename):
 
 
 def _check_visibility(element):
-    return element.get("visibility") == "visible"
+    return element.get("visibility", "visible") == "visible"
 
 
 def _stack_to_svg(element, xml, sources):
     if not _check_visibility(element):
         return
     xml.element("g")
-    x, y = element.get("x"), element.get("y")
+    x, y = element.get("x", "0"), element.get("y", "0")
     if x != "0" or y != "0":
         xml.set("transform", "translate({}, {})".format(x, y))
-    opacity = float(element.get("opacity"))
+    opacity = float(element.get("opacity", 1))
     if opacity < 0.9999:
         xml.set("opacity", opacity)
-    xml.set("inkscape:label", element.get("name"))
+    xml.set("inkscape:label", element.get("name", ""))
     _children_to_svg(element, xml, sources)
     xml.close("g")
 
@@ -87,14 +87,14 @@ def _layer_to_svg(element, xml, sources):
     if source is None:
         return
     data, mime, x, y, image_width, image_height = source
-    extra_args = [("inkscape:label", element.get("name"))]
-    opacity = float(element.get("opacity"))
-    if opacity is not None and opacity < 0.9999:
+    extra_args = [("inkscape:label", element.get("name", ""))]
+    opacity = float(element.get("opacity", 1))
+    if opacity < 0.9999:
         extra_args.append(("opacity", opacity))
     draw_bitmap(
         xml,
-        float(element.get("x")) + x,
-        float(element.get("y")) + y,
+        float(element.get("x", 0)) + x,
+        float(element.get("y", 0)) + y,
         image_width,
         image_height,
         mime,
-- 
2.43.0


From c3aad224cf808b16a3c9392270cadea2512a91db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 42/86] fix: opaque black parts of OpenRaster layers are not
 lost

---
 elsie/render/ora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 24dd0ed..a5fe68e 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -25,7 +25,8 @@ def convert_ora_to_svg(filename):
             if src is not None and src not in sources:
                 with archive.open(src) as f:
                     img = Image.open(f)
-                    box = img.getbbox()
+                    # Only transparent pixels can be left out, black ones are visible
+                    box = img.convert("RGBA").getchannel("A").getbbox()
 
                     if box is None:
                         sources[src] = None
-- 
2.43.0


From 098429edd45b9cf61eee36974999a4d99659ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 43/86] fix: sharp corners are drawn by Cairo with spikes that
 SVG cuts off

---
 elsie/render/backends/cairo/rcontext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..2ea8381 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -75,6 +75,9 @@ class CairoRenderingContext(RenderingContext):
         else:
             assert False
 
+        # Default value in SVG is 4, but 10 in Cairo
+        self.ctx.set_miter_limit(4)
+
         self.line_scaling = 1.0
         if viewbox:
             self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
-- 
2.43.0


From 2a26563627d4ae612be70c23525544e21155bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 44/86] fix: in Cairo, dashes of an ellipse are used for all
 following shapes

---
 elsie/render/backends/cairo/rcontext.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 2ea8381..9797570 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -126,16 +126,21 @@ class CairoRenderingContext(RenderingContext):
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-            transform(
-                self.ctx, center, rotation=rotation, scale_x=scale_x, scale_y=scale_y
-            )
-            if bg_color:
-                fill_shape(self.ctx, draw, bg_color=bg_color)
+            with ctx_scope(self.ctx):
+                transform(
+                    self.ctx,
+                    center,
+                    rotation=rotation,
+                    scale_x=scale_x,
+                    scale_y=scale_y,
+                )
+                if bg_color:
+                    fill_shape(self.ctx, draw, bg_color=bg_color)
+                if color:
+                    draw()
+            # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
             if color:
-                draw()
-        # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
-        if color:
-            stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
+                stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
 
     def draw_polygon(self, points, rotation=None, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 47704a9f5d1e65c43e52ed33a1e9145ecbc189cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 45/86] fix: ellipses without an area crash in Cairo

---
 elsie/render/backends/cairo/rcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 9797570..cdbd0d2 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -92,6 +92,9 @@ class CairoRenderingContext(RenderingContext):
         rotation=None,
         **kwargs,
     ):
+        if rect.width <= 0 or rect.height <= 0:
+            # As in SVG, such a shape is not drawn
+            return
         if rx is None:
             rx = ry
         if ry is None:
@@ -114,6 +117,9 @@ class CairoRenderingContext(RenderingContext):
     def draw_ellipse(
         self, rect: Rect, rotation=None, color=None, bg_color=None, **kwargs
     ):
+        if rect.width <= 0 or rect.height <= 0:
+            # As in SVG, such a shape is not drawn
+            return
         dim_larger = rect.width
         dim_smaller = rect.height
         if dim_larger < dim_smaller:
-- 
2.43.0


From be3e82079adad025dcfc424c1d4ec439b233d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 46/86] fix: two corners of rounded rectangles are deformed in
 Cairo

---
 elsie/render/backends/cairo/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index ad6268e..06a1f61 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -21,11 +21,11 @@ def rounded_rectangle(ctx: cairo.Context, x, y, w, h, rx, ry):
     ctx.new_path()
     ctx.move_to(x + rx, y)
     ctx.rel_line_to(w - 2 * rx, 0.0)
-    ctx.rel_curve_to(c1, 0.0, rx, c2, rx, ry)
+    ctx.rel_curve_to(c1, 0.0, rx, ry - c2, rx, ry)
     ctx.rel_line_to(0, h - 2 * ry)
     ctx.rel_curve_to(0.0, c2, c1 - rx, ry, -rx, ry)
     ctx.rel_line_to(-w + 2 * rx, 0)
-    ctx.rel_curve_to(-c1, 0, -rx, -c2, -rx, -ry)
+    ctx.rel_curve_to(-c1, 0, -rx, c2 - ry, -rx, -ry)
     ctx.rel_line_to(0, -h + 2 * ry)
     ctx.rel_curve_to(0.0, -c2, rx - c1, -ry, rx, -ry)
     ctx.close_path()
-- 
2.43.0


From 3da7143bac69b9b0b0a7921718095b7cc54b2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 47/86] fix: outline of polygons has a gap in its first point
 in Cairo

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index cdbd0d2..31692a0 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -154,8 +154,9 @@ class CairoRenderingContext(RenderingContext):
 
             def draw():
                 self.ctx.move_to(*points[0])
-                for p in points[1:] + [points[0]]:
+                for p in points[1:]:
                     self.ctx.line_to(*p)
+                self.ctx.close_path()
 
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
-- 
2.43.0


From c31ad8149505fa38bdc96ada726367ad3390220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 48/86] fix: dashes separated by commas crash in Cairo

---
 elsie/render/backends/cairo/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 06a1f61..636f8fb 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -42,7 +42,7 @@ def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None)
     stroke_width = stroke_width or 1
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
-        ctx.set_dash([float(v) for v in stroke_dasharray.split()])
+        ctx.set_dash([float(v) for v in stroke_dasharray.replace(",", " ").split()])
     callback()
     ctx.stroke()
 
-- 
2.43.0


From 03140b531554b819bc47b7087d8f681c5314551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 49/86] fix: a zero radius of a rounded rectangle is replaced
 by the other radius in SVG

---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 elsie/render/backends/svg/draw.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 31692a0..2a828a4 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -111,7 +111,7 @@ class CairoRenderingContext(RenderingContext):
                     self.ctx, rect.x, rect.y, rect.width, rect.height, rx, ry
                 )
 
-            draw_fn = draw_rounded if rx or ry else draw
+            draw_fn = draw_rounded if rx and ry else draw
             fill_stroke_shape(self.ctx, draw_fn, **kwargs)
 
     def draw_ellipse(
diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 7c5290b..54d496f 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -150,9 +150,9 @@ def draw_rect(xml, rect: Rect, rx=None, ry=None, rotation=None, **kwargs):
     xml.set("y", rect.y)
     xml.set("width", rect.width)
     xml.set("height", rect.height)
-    if rx:
+    if rx is not None:
         xml.set("rx", rx)
-    if ry:
+    if ry is not None:
         xml.set("ry", ry)
     if rotation:
         apply_rotation(xml, rotation, rect.mid_point)
-- 
2.43.0


From 5ec149eee17331dccf3bc15e3c7023de6952c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 50/86] fix: chained smooth curves have a wrong shape in Cairo

---
 elsie/render/backends/cairo/shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 0afe8ae..857d414 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -28,9 +28,10 @@ def draw_path(ctx: cairocffi.Context, commands):
             last_quadratic_cp = None
             ctx.curve_to(*args[0], *args[1], *args[2])
         elif name == "S":
-            last_cubic_cp = reflect(last_cubic_cp or location, location)
+            first_cp = reflect(last_cubic_cp or location, location)
+            last_cubic_cp = args[0]
             last_quadratic_cp = None
-            ctx.curve_to(*last_cubic_cp, *args[0], *args[1])
+            ctx.curve_to(*first_cp, *args[0], *args[1])
         elif name == "Q":
             last_cubic_cp = None
             last_quadratic_cp = args[0]
-- 
2.43.0


From 0926175d3a2f68534725fc23f24f1ee071cbd817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 51/86] fix: Cairo ignores repeated arguments of path commands

---
 elsie/render/backends/cairo/shapes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 857d414..3dbdfdc 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -1,5 +1,7 @@
 import cairocffi
 
+from ....shapes.path import COMMAND_NARGS
+
 
 def reflect(cp, anchor):
     """
@@ -10,10 +12,21 @@ def reflect(cp, anchor):
     return (anchor[0] + neg[0], anchor[1] + neg[1])
 
 
+def split_commands(commands):
+    """
+    Splits commands with repeated arguments to commands with a single set of arguments.
+    """
+    for name, args in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(args), nargs):
+            # Repeated arguments of "M" are lines
+            yield "L" if name == "M" and i > 0 else name, args[i : i + nargs]
+
+
 def draw_path(ctx: cairocffi.Context, commands):
     last_cubic_cp = None
     last_quadratic_cp = None
-    for name, args in commands:
+    for name, args in split_commands(commands):
         location = ctx.get_current_point()
         if name == "M":
             last_cubic_cp = None
-- 
2.43.0


From 5ca7d465a8432cbe0fac78607a11fe25a6a69081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 52/86] fix: the view box of a slide is not applied on its SVG
 images in Cairo

---
 elsie/render/backends/cairo/rcontext.py |  1 +
 elsie/render/backends/cairo/svg.py      | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 2a828a4..ee77913 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -269,6 +269,7 @@ class CairoRenderingContext(RenderingContext):
             y=y,
             width=width,
             height=height,
+            matrix=self.ctx.get_matrix(),
             rotation=rotation,
             dpi=self.cairosvg_dpi,
         )
diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index fb0663e..bc934a1 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -15,6 +15,7 @@ class CairoSurface(Surface):
         y,
         tree,
         dpi,
+        matrix,
         output=None,
         parent_surface=None,
         parent_width=None,
@@ -85,10 +86,9 @@ class CairoSurface(Surface):
             raise ValueError("The SVG size is undefined")
 
         self.context = cairo.Context(self.cairo)
-        # We must scale the context as the surface size is using physical units
-        self.context.scale(
-            self.device_units_per_user_units, self.device_units_per_user_units
-        )
+        # The image is drawn in the coordinates of the slide
+        # (scaled to physical units, with the view box of the slide applied)
+        self.context.set_matrix(matrix)
         center = (x + width / 2, y + height / 2)
         transform(self.context, center, rotation=rotation)
         self.context.translate(x, y)
@@ -108,7 +108,15 @@ class CairoSurface(Surface):
 
 
 def render_svg(
-    surface: cairo.Surface, svg: str, x, y, width, height, rotation=None, dpi=96
+    surface: cairo.Surface,
+    svg: str,
+    x,
+    y,
+    width,
+    height,
+    matrix: cairo.Matrix,
+    rotation=None,
+    dpi=96,
 ):
     tree = Tree(bytestring=svg.encode())
     instance = CairoSurface(
@@ -118,6 +126,7 @@ def render_svg(
         y=y,
         tree=tree,
         dpi=dpi,
+        matrix=matrix,
         output_width=width,
         output_height=height,
     )
-- 
2.43.0


From 5f89923ad4594ad091f4851276814351a3ec3b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 53/86] fix: lines and arrows without a color crash in Cairo

---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index ee77913..a2a0f95 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -168,7 +168,7 @@ class CairoRenderingContext(RenderingContext):
                 for p in points[1:]:
                     self.ctx.line_to(*p)
 
-            stroke_shape(self.ctx, draw, **kwargs)
+            fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def draw_path(self, commands, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 44d8641517fda5cc6fb00a05cd43e712c77cad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 54/86] fix: images without an area crash in Cairo

---
 elsie/render/backends/cairo/rcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index a2a0f95..1891dc6 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -230,6 +230,9 @@ class CairoRenderingContext(RenderingContext):
             pangocairocffi.show_layout(self.ctx, layout)
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
+        if width <= 0 or height <= 0:
+            return
+
         assert isinstance(data, bytes)
         image = Image.open(io.BytesIO(data))
         if image.mode != "RGBA":
@@ -259,6 +262,9 @@ class CairoRenderingContext(RenderingContext):
         rotation=None,
         **kwargs,
     ):
+        if width <= 0 or height <= 0:
+            return
+
         root = et.fromstring(svg)
         normalized = normalize_svg(root)
         normalized_svg = et.tostring(normalized, encoding="utf8")
-- 
2.43.0


From f12ef1ef338befe50afcbb6d932b02264f14b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 55/86] fix: in Cairo, an ellipse is connected by a line with a
 previously drawn text or bitmap

---
 elsie/render/backends/cairo/rcontext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 1891dc6..dd26b33 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -129,6 +129,7 @@ class CairoRenderingContext(RenderingContext):
         center = rect.mid_point
 
         def draw():
+            self.ctx.new_path()
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-- 
2.43.0


From 86819100cd599238373e1f17af12a921a113a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 56/86] fix: SVG images with sizes in inches or points have a
 wrong scale in PNG from Cairo

---
 elsie/render/backends/cairo/rcontext.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index dd26b33..afb5f89 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -61,7 +61,6 @@ class CairoRenderingContext(RenderingContext):
             )
             self.reference_ctx = self.ctx = cairo.Context(self.surface)
             self.ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
-            self.cairosvg_dpi = TARGET_DPI
         elif export_format == "png":
             self.surface = cairo.ImageSurface(cairo.FORMAT_ARGB32, width, height)
             self.ctx = cairo.Context(self.surface)
@@ -71,7 +70,6 @@ class CairoRenderingContext(RenderingContext):
             )
             self.reference_ctx = cairo.Context(reference_surface)
             self.reference_ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
-            self.cairosvg_dpi = CAIRO_DPI
         else:
             assert False
 
@@ -278,5 +276,5 @@ class CairoRenderingContext(RenderingContext):
             height=height,
             matrix=self.ctx.get_matrix(),
             rotation=rotation,
-            dpi=self.cairosvg_dpi,
+            dpi=TARGET_DPI,
         )
-- 
2.43.0


From f485ff35c0c02c9cc26fc276bd1b54c3bc22ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 57/86] fix: lines of texts in Cairo are wrapped to the width
 of the box and have other distances than line_spacing

---
 elsie/render/backends/cairo/rcontext.py | 47 +++++++++++--------------
 elsie/render/backends/cairo/text.py     | 43 +++++++++++-----------
 2 files changed, 42 insertions(+), 48 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index afb5f89..a7cc821 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -25,7 +25,7 @@ from .text import (
     compute_subtext_extents,
     from_pango_units,
     get_extents,
-    to_pango_units,
+    split_lines,
 )
 from .utils import normalize_svg
 
@@ -76,11 +76,8 @@ class CairoRenderingContext(RenderingContext):
         # Default value in SVG is 4, but 10 in Cairo
         self.ctx.set_miter_limit(4)
 
-        self.line_scaling = 1.0
         if viewbox:
-            self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
-
-        self.pctx = pangocairocffi.create_context(self.reference_ctx)
+            apply_viewbox(self.ctx, width, height, viewbox)
 
     def draw_rect(
         self,
@@ -178,9 +175,7 @@ class CairoRenderingContext(RenderingContext):
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def compute_text_extents(self, parsed_text, style: TextStyle, styles) -> Rect:
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, parsed_text, style, styles)
         return get_extents(layout)
 
     def compute_subtext_extents(
@@ -188,9 +183,7 @@ class CairoRenderingContext(RenderingContext):
     ) -> Rect:
         from ....text.textboxitem import text_x_in_rect
 
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, parsed_text, style, styles)
         extents = get_extents(layout)
         start_x = text_x_in_rect(Rect(x=0, width=extents.width), style)
         x, width = compute_subtext_extents(layout, parsed_text, id_index)
@@ -208,25 +201,27 @@ class CairoRenderingContext(RenderingContext):
         scale=None,
         **kwargs,
     ):
+        from ....text.textboxitem import text_x_in_rect
+
         # TODO: try basic Cairo text API
         with ctx_scope(self.ctx):
-            layout = build_layout(
-                self.reference_ctx,
-                self.pctx,
-                parsed_text,
-                style,
-                styles,
-                resolution_scale=RESOLUTION_SCALE,
-                spacing_scale=self.line_scaling,
-                text_scale=scale,
-            )
-            layout.set_width(to_pango_units(rect.width))
-            baseline = from_pango_units(layout.get_baseline())
-
             if rotation is not None:
                 transform(self.ctx, rect.mid_point, rotation=rotation)
-            self.ctx.move_to(rect.x, y - baseline)
-            pangocairocffi.show_layout(self.ctx, layout)
+
+            line_height = style.size * style.line_spacing * (scale or 1.0)
+            for i, line in enumerate(split_lines(parsed_text)):
+                layout = build_layout(
+                    self.reference_ctx,
+                    line,
+                    style,
+                    styles,
+                    text_scale=scale,
+                )
+                extents = get_extents(layout)
+                line_x = x - text_x_in_rect(Rect(x=0, width=extents.width), style)
+                baseline = from_pango_units(layout.get_baseline())
+                self.ctx.move_to(line_x, y + i * line_height - baseline)
+                pangocairocffi.show_layout(self.ctx, layout)
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         if width <= 0 or height <= 0:
diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 70f1cb9..c609e0e 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -3,8 +3,9 @@ from typing import List, Tuple
 import cairocffi as cairo
 import pangocairocffi
 import pangocffi
-from pangocffi import Attribute, AttrList, FontDescription, Layout, Rectangle, ffi
+from pangocffi import Attribute, AttrList, Layout, Rectangle, ffi
 
+from ....text.textparser import END_MARKER
 from ....text.textstyle import TextStyle
 from ....utils.geom import Rect
 from .utils import get_rgb_color
@@ -114,27 +115,32 @@ def get_text_and_attributes(
     return text, attr_list
 
 
-def get_text_height(pctx: pangocffi.Context, style: TextStyle, resolution_scale: float):
-    font = FontDescription()
-    font.set_family(style.font)
-    font.set_absolute_size(to_pango_units(style.size))
-    ret = pangocffi.pango.pango_context_get_metrics(
-        pctx.get_pointer(), font.get_pointer(), pangocffi.ffi.NULL
-    )
-
-    descent = from_pango_units(pangocffi.pango.pango_font_metrics_get_descent(ret))
-    ascent = from_pango_units(pangocffi.pango.pango_font_metrics_get_ascent(ret))
-    return (ascent + descent) * resolution_scale
+def split_lines(parsed_text):
+    """
+    Splits tokens to lines. Blocks over several lines are closed and opened again in each line.
+    """
+    blocks = []
+    line = []
+    for token in parsed_text:
+        name, value = token
+        if name == "newline":
+            for _ in range(value):
+                yield line + [END_MARKER] * len(blocks)
+                line = list(blocks)
+            continue
+        if name == "begin":
+            blocks.append(token)
+        elif name == "end":
+            blocks.pop()
+        line.append(token)
+    yield line
 
 
 def build_layout(
     ctx: cairo.Context,
-    pctx: pangocffi.Context,
     parsed_text,
     style: TextStyle,
     styles,
-    resolution_scale: float,
-    spacing_scale: float = 1.0,
     text_scale: float = 1.0,
 ) -> pangocffi.Layout:
     # TODO: fix letter spacing
@@ -146,13 +152,6 @@ def build_layout(
     text, attributes = get_text_and_attributes(parsed_text, style, styles, text_scale)
     layout.set_text(text)
     layout.set_attributes(attributes)
-
-    height = get_text_height(pctx, style, resolution_scale)
-
-    assert style.line_spacing >= 1.0
-    spacing = (style.line_spacing * style.size) - height
-    layout.set_spacing(to_pango_units(spacing * spacing_scale))
-
     return layout
 
 
-- 
2.43.0


From 012e2fb8f47f036d5ef7c4773518698791043b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 58/86] fix: in Cairo, inline_box of a nested style covers all
 text to the end of the outermost style

---
 elsie/render/backends/cairo/text.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index c609e0e..1581c41 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -182,10 +182,9 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
         elif type == "begin":
             if i == id_index:
                 start = byte_count
-            stack.append(value)
+            stack.append(i)
         elif type == "end":
-            stack.pop()
-            if start is not None and not stack:
+            if stack.pop() == id_index:
                 return (start, byte_count)
     assert False
 
-- 
2.43.0


From d9f4bc6fcf51290709f0208f95e341fb91faaaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 59/86] fix: styles whose names start with # are ignored in
 Cairo

---
 elsie/render/backends/cairo/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 1581c41..240a575 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -94,11 +94,13 @@ def get_text_and_attributes(
         elif token == "begin":
             push_attrs(active_style(), start, byte_length(text))
             start = byte_length(text)
-            if value.startswith("#"):
+            this_style = styles.get(value)
+            if this_style is None and value.startswith("#"):
                 base_style.append(None)
             else:
                 current_style = active_style()
-                this_style = styles.get(value)
+                if this_style is None:
+                    raise Exception("Style '{}' not found".format(value))
                 if current_style.priority > this_style.priority:
                     base_style.append(None)
                 else:
-- 
2.43.0


From 2104a741a816c32b290539447bc09c36f47b357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 60/86] fix: empty lines of texts have a width in Cairo

---
 elsie/render/backends/cairo/text.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 240a575..1d1c9db 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -57,9 +57,6 @@ def style_to_attributes(
     return attrs
 
 
-INVISIBLE_SPACE = "⠀"  # this is not a normal space, but U+2800
-
-
 def byte_length(text):
     return len(text.encode("utf8"))
 
@@ -79,18 +76,11 @@ def get_text_and_attributes(
     def active_style():
         return [style for style in reversed(base_style) if style is not None][0]
 
-    line = ""
     for (token, value) in parsed_text:
         if token == "text":
-            line += value
             text += value
         elif token == "newline":
-            for _ in range(value):
-                if not line:
-                    # This fixes the height of empty lines
-                    text += INVISIBLE_SPACE
-                text += "\n"
-                line = ""
+            text += "\n" * value
         elif token == "begin":
             push_attrs(active_style(), start, byte_length(text))
             start = byte_length(text)
-- 
2.43.0


From bac82dc2659a6da6c1a238b6492d7b4135df60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 61/86] fix: an empty label given to a list is replaced by the
 default label

---
 elsie/ext/list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 2bed3c5..3fb0421 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -178,7 +178,7 @@ class ListBuilder:
 
         return ListBuilder(
             box,
-            label or default_label,
+            default_label if label is None else label,
             indent,
             level=level,
             total_indent=total_indent,
@@ -225,7 +225,7 @@ def unordered_list(
     """
     return ListBuilder(
         parent.sbox(),
-        label=label or default_ul_label,
+        label=default_ul_label if label is None else label,
         default_indent=indent,
         label_padding=label_padding,
         **default_box_args
@@ -266,7 +266,7 @@ def ordered_list(
         raise Exception("start has to be a number, not {!r}".format(start))
     return ListBuilder(
         parent.sbox(),
-        label=label or default_ol_label,
+        label=default_ol_label if label is None else label,
         default_indent=indent,
         label_padding=label_padding,
         start=start,
-- 
2.43.0


From d04ecd24148e23bdc40f18edf8f58c39b37a442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 62/86] fix: a label function that changes its list of counters
 changes the numbering of the list

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 3fb0421..e2eefe4 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -152,7 +152,7 @@ class ListBuilder:
             label_box = box.box(y="[0%]")
             try:
                 if callable(actual_label):
-                    actual_label(label_box, self.level)
+                    actual_label(label_box, list(self.level))
                 else:
                     label_box.text(actual_label)
             except Exception:
-- 
2.43.0


From 6fa3fc59b10ff70efe359705c3174e6f1831531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 63/86] fix: empty Markdown markup raises ValueError

---
 elsie/text/textparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 1be91ab..1de3e58 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -330,5 +330,7 @@ def _tokens_merge_helper(tokens1, tokens2):
 def trim_indent(text: str) -> str:
     """Find the smallest common indent from the left in the text and remove it from the text."""
     lines = text.splitlines(keepends=False)
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines if line.strip())
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return "\n".join(line[min_indent:] for line in lines)
-- 
2.43.0


From a455d581c9862e0830a73d12393fc1cf6d959474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 64/86] fix: characters escaped by a backslash are lost in
 Markdown

---
 elsie/ext/markdown.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 9047981..6e885ac 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,6 +1,6 @@
 import marko
 from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
-from marko.inline import Emphasis, LineBreak, Link, RawText, StrongEmphasis
+from marko.inline import Emphasis, LineBreak, Link, Literal, RawText, StrongEmphasis
 
 from ..boxtree.box import Box
 from ..text.textparser import trim_indent
@@ -50,6 +50,10 @@ def get_raw_text(ctx: MarkdownContext, node) -> str:
     for child in node.children:
         if isinstance(child, RawText):
             text += child.children
+        elif isinstance(child, Literal):
+            text += child.children
+            if child.children == ctx.escape_char:
+                text += child.children  # It stands for itself
         elif isinstance(child, Emphasis):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_ITALIC_STYLE)
         elif isinstance(child, StrongEmphasis):
-- 
2.43.0


From d6f116562c768433155893fcefbb609fe601bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 65/86] fix: automatic links are lost in Markdown

---
 elsie/ext/markdown.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 6e885ac..97aa110 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,6 +1,14 @@
 import marko
 from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
-from marko.inline import Emphasis, LineBreak, Link, Literal, RawText, StrongEmphasis
+from marko.inline import (
+    AutoLink,
+    Emphasis,
+    LineBreak,
+    Link,
+    Literal,
+    RawText,
+    StrongEmphasis,
+)
 
 from ..boxtree.box import Box
 from ..text.textparser import trim_indent
@@ -58,7 +66,7 @@ def get_raw_text(ctx: MarkdownContext, node) -> str:
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_ITALIC_STYLE)
         elif isinstance(child, StrongEmphasis):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_BOLD_STYLE)
-        elif isinstance(child, Link):
+        elif isinstance(child, (AutoLink, Link)):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_LINK_STYLE)
         elif isinstance(child, LineBreak):
             text += "\n"
-- 
2.43.0


From c42de131d76aed97f3ae1bb047495bc4099fe952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 66/86] fix: underlined headings are lost in Markdown

---
 elsie/ext/markdown.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 97aa110..3fcf358 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,5 +1,14 @@
 import marko
-from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
+from marko.block import (
+    BlankLine,
+    FencedCode,
+    Heading,
+    List,
+    ListItem,
+    Paragraph,
+    Quote,
+    SetextHeading,
+)
 from marko.inline import (
     AutoLink,
     Emphasis,
@@ -143,6 +152,7 @@ def build_list_top(ctx: MarkdownContext, list_node: List):
 
 MD_BUILD_FNS = {
     Heading: build_heading,
+    SetextHeading: build_heading,
     Paragraph: build_paragraph,
     BlankLine: build_blank_line,
     Quote: build_quote,
-- 
2.43.0


From c6f4a83182491f4f9d89bec2f901f45b7bbe349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 67/86] fix: character references are not decoded in Markdown

---
 elsie/ext/markdown.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 3fcf358..34adc9b 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,3 +1,5 @@
+import html
+
 import marko
 from marko.block import (
     BlankLine,
@@ -66,7 +68,7 @@ def get_raw_text(ctx: MarkdownContext, node) -> str:
     text = ""
     for child in node.children:
         if isinstance(child, RawText):
-            text += child.children
+            text += html.unescape(child.children) if child.escape else child.children
         elif isinstance(child, Literal):
             text += child.children
             if child.children == ctx.escape_char:
-- 
2.43.0


From 3958f56ede3709bb717c626315936bf07c025172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 68/86] fix: lists of a Markdown quote in a list item are drawn
 outside the quote

---
 elsie/ext/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 34adc9b..36ad20b 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -124,7 +124,7 @@ def build_blank_line(ctx: MarkdownContext, blank_line: BlankLine):
 def build_quote(ctx: MarkdownContext, quote: Quote):
     container = ctx.box.sbox()
     container.update_style("default", container.get_style(MD_BLOCKQUOTE_STYLE))
-    parent_ctx = ctx.copy(box=container)
+    parent_ctx = ctx.copy(box=container, active_list=None)
     for child in quote.children:
         build(parent_ctx, child)
 
-- 
2.43.0


From 22c461f80090a4d68a2c824e4a72adfc0530fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 69/86] fix: a nested Markdown list that starts with 0 raises
 AssertionError

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index e2eefe4..4b4ae33 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -168,7 +168,7 @@ class ListBuilder:
         self, default_label, start=None, indent=None, label=None, level=None, **box_args
     ):
         start = start if start is not None else 1
-        assert start >= 1
+        assert start >= 0
         indent = indent if indent is not None else self.default_indent
         level = list(level if level is not None else self.level)
 
-- 
2.43.0


From 7174afcac473070c7b65ecddc324a5251529841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 70/86] fix: text after a nested Markdown list is drawn before
 the nested list

---
 elsie/ext/markdown.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 36ad20b..0e8d378 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -134,6 +134,13 @@ def build_fenced_code(ctx: MarkdownContext, fenced_code: FencedCode):
     container.code(fenced_code.lang, get_raw_text(ctx, fenced_code))
 
 
+def continue_item(active_list):
+    """Creates a box for another part of the last item, without a label and a number."""
+    box = active_list.item(label=lambda label_box, level: None)
+    active_list.level[-1] -= 1
+    return box
+
+
 def build_list_top(ctx: MarkdownContext, list_node: List):
     container = ctx.box.sbox()
     if list_node.ordered:
@@ -148,8 +155,14 @@ def build_list_top(ctx: MarkdownContext, list_node: List):
             new_list = unordered_list(container, label=list_node.bullet)
     for child in list_node.children:
         assert isinstance(child, ListItem)
-        box = new_list.item()
-        build_children(ctx.copy(box=box, active_list=new_list), child)
+        item_ctx = ctx.copy(box=new_list.item(), active_list=new_list)
+        after_sublist = False
+        for node in child.children:
+            if after_sublist and not isinstance(node, List):
+                # Sublists are placed below the item, the rest of the item has to follow them
+                item_ctx = item_ctx.copy(box=continue_item(new_list))
+            build(item_ctx, node)
+            after_sublist = isinstance(node, List)
 
 
 MD_BUILD_FNS = {
-- 
2.43.0


From 1f296c829e0f9771fc436b81f202f79c9884cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 71/86] fix: Markdown emphasis is broken when the inline style
 block characters are changed

---
 elsie/ext/markdown.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 0e8d378..e6bd011 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -49,19 +49,23 @@ MD_HEADING_6_STYLE = md_heading_style_name(6)
 class MarkdownContext:
     def __init__(self, box: Box, escape_char: str, active_list=None):
         self.box = box
-        self.escape_char = escape_char
+        self.escape_char = escape_char[:1]
+        self.block_chars = escape_char[1:] or "{}"
         self.text_kwargs = {"escape_char": escape_char}
         self.active_list = active_list
 
     def copy(self, **kwargs):
         args = dict(
-            box=self.box, escape_char=self.escape_char, active_list=self.active_list
+            box=self.box,
+            escape_char=self.text_kwargs["escape_char"],
+            active_list=self.active_list,
         )
         args.update(kwargs)
         return MarkdownContext(**args)
 
     def wrap_text_with_style(self, text: str, style: str):
-        return f"{self.escape_char}{style}{{{text}}}"
+        begin, end = self.block_chars
+        return f"{self.escape_char}{style}{begin}{text}{end}"
 
 
 def get_raw_text(ctx: MarkdownContext, node) -> str:
-- 
2.43.0


From 8105c624eaddf4a8b71d8340d17d01d432b379e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 72/86] fix: references and colours of a LaTeX snippet are
 corrupted when identifiers are similar

---
 elsie/render/backends/svg/utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index f0be877..0f35352 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -1,3 +1,4 @@
+import re
 from typing import TYPE_CHECKING, Tuple
 
 if TYPE_CHECKING:
@@ -42,19 +43,28 @@ def svg_size_to_pixels(text):
     return float(text) * factor
 
 
+URL_REFERENCE = re.compile(r"""(url\(\s*["']?)#([^"')\s]+)""")
+
+
 def rename_ids(root, suffix):
-    ids = []
+    ids = set()
     for e in root.iter():
         e_id = e.get("id")
         if e_id:
-            ids.append("#" + e_id)
+            ids.add(e_id)
             e.set("id", e_id + suffix)
 
+    def rename(match):
+        prefix, e_id = match.groups()
+        return f"{prefix}#{e_id + suffix if e_id in ids else e_id}"
+
     for e in root.iter():
         for name, value in e.attrib.items():
-            for e_id in ids:
-                if e_id in value:
-                    e.set(name, value.replace(e_id, e_id + suffix))
+            if name == "href" or name.endswith("}href"):
+                if value[:1] == "#" and value[1:] in ids:
+                    e.set(name, value + suffix)
+            elif "#" in value:
+                e.set(name, URL_REFERENCE.sub(rename, value))
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 8ff3dc415142b90a8a12eaedc809bac6929175b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 73/86] fix: LaTeX snippets are stretched to their box in Cairo

---
 elsie/ext/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index a130c37..1e7478f 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -77,8 +77,8 @@ def _draw(parent, svg, svg_width, svg_height, scale, ctx):
         svg=svg,
         x=x,
         y=y,
-        width=rect.width,
-        height=rect.height,
+        width=svg_width,
+        height=svg_height,
         scale=scale,
     )
 
-- 
2.43.0


From 71643f1f12f7b841f814bdf00f697befe853f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 74/86] fix: code fences that are longer, unclosed or contain
 other fences swallow the documentation page

---
 .../mkdocs_elsie_plugin/__init__.py           | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index b486023..6244908 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -22,15 +22,21 @@ slide.box().text("Hello world")
 """
 import contextlib
 import os
+import re
 from typing import List
 
 from mkdocs.config.config_options import Choice
 from mkdocs.plugins import BasePlugin
 
 
-def is_fence_delimiter(line):
-    line = line.strip()
-    return line.startswith("```") or line.startswith("~~~")
+def parse_fence_delimiter(line):
+    """Returns (character, length, info string) of a fence delimiter or None."""
+    match = re.fullmatch(r"\s*(?:(`{3,})([^`]*)|(~{3,})(.*))", line)
+    if match is None:
+        return None
+    fence = match.group(1) or match.group(3)
+    info = match.group(2) if match.group(1) else match.group(4)
+    return fence[0], len(fence), info.strip()
 
 
 def get_fence_char(header):
@@ -129,13 +135,21 @@ def iterate_fences(src: str, handle_fence):
     fence_content = []
     inside_fence = False
     fence_header = None
+    fence_char = None
+    fence_len = 0
     nested = 0
 
     for line in src.splitlines(keepends=False):
-        if is_fence_delimiter(line):
+        delimiter = parse_fence_delimiter(line)
+        if delimiter is not None:
+            char, length, info = delimiter
             if inside_fence:
+                # A different or shorter fence is just a content
+                if char != fence_char or length < fence_len:
+                    fence_content.append(line)
+                    continue
                 # Handle nested fenced code blocks
-                if len(line.strip()) != 3:
+                if info:
                     nested += 1
                     fence_content.append(line)
                     continue
@@ -157,11 +171,18 @@ def iterate_fences(src: str, handle_fence):
             else:
                 inside_fence = True
                 fence_header = line
+                fence_char = char
+                fence_len = length
         elif inside_fence:
             fence_content.append(line)
         else:
             lines.append(line)
 
+    # Unclosed fence
+    if inside_fence:
+        lines.append(fence_header)
+        lines += fence_content
+
     return "\n".join(lines)
 
 
-- 
2.43.0


From b59af40e9dfff900ef7fd9f2a176447ba3af8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 75/86] fix: indented elsie fences are not rendered in the
 documentation

---
 .../mkdocs_elsie_plugin/__init__.py           | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index 6244908..a864690 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -39,13 +39,9 @@ def parse_fence_delimiter(line):
     return fence[0], len(fence), info.strip()
 
 
-def get_fence_char(header):
-    return "`" if header[0] == "`" else "~"
-
-
 def parse_fence_header(header):
-    fence_char = get_fence_char(header)
-    items = header.strip(f" {fence_char}").split(",")
+    _, _, info = parse_fence_delimiter(header)
+    items = [item.strip() for item in info.split(",")]
     lang = items[0]
 
     def get_kv(item):
@@ -59,9 +55,8 @@ def parse_fence_header(header):
 
 
 def elsie_to_python_header(header):
-    fence_char = get_fence_char(header) * 3
-    start = header.index(f"{fence_char}elsie")
-    return header[:start] + f"{fence_char}python"
+    start = header.index("elsie")
+    return header[:start] + "python"
 
 
 class CodeContext:
@@ -76,7 +71,9 @@ class CodeContext:
 
 
 def trim_indent(lines):
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines)
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return [line[min_indent:] for line in lines]
 
 
@@ -204,7 +201,7 @@ class ElsiePlugin(BasePlugin):
                 lines = []
                 type = args.get("type", "render")
                 if type == "lib":
-                    ctx.add_lib_code(fence_lines)
+                    ctx.add_lib_code(trim_indent(fence_lines))
                 elif type == "render":
                     width = args.get("width", "300")
                     height = args.get("height", "300")
-- 
2.43.0


From ea42d4f9228f137e6ee82e3d6b83396b7565e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 76/86] fix: open slices in the skip parameter break the
 documentation

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index a864690..590a3b1 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -210,8 +210,8 @@ class ElsiePlugin(BasePlugin):
                     debug_boxes = args.get("debug", "no")
 
                     if ":" in skip:
-                        start, end = skip.split(":")
-                        skip_slice = slice(int(start), int(end))
+                        skip_slice = slice(*(int(v) if v else None
+                                             for v in skip.split(":")))
                     else:
                         skip_slice = slice(int(skip), None)
 
-- 
2.43.0


From 28434d5b3dff279a2bbcb04d156741099f74d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 77/86] fix: form feeds and the last line end of a
 documentation page are lost

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index 590a3b1..f82f73c 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -136,7 +136,7 @@ def iterate_fences(src: str, handle_fence):
     fence_len = 0
     nested = 0
 
-    for line in src.splitlines(keepends=False):
+    for line in src.split("\n"):
         delimiter = parse_fence_delimiter(line)
         if delimiter is not None:
             char, length, info = delimiter
-- 
2.43.0


From e5660c1cbd136889bb053d1e978d6bc12b23c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 78/86] fix: there is a gap between a line and a very sharp
 arrow head

---
 elsie/shapes/arrow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/shapes/arrow.py b/elsie/shapes/arrow.py
index d4cda79..9c551a5 100644
--- a/elsie/shapes/arrow.py
+++ b/elsie/shapes/arrow.py
@@ -55,6 +55,9 @@ class Arrow:
     def move_end_point(self, p1, p2):
         if not self.stroke_width:
             shift = math.cos(self.angle) * self.size / 2
+            if self.inner:
+                # the line has to reach the head
+                shift *= min(1, 2 * self.inner)
         else:
             shift = self.stroke_width / 2
         return segment_resize(p1, p2, -shift)
-- 
2.43.0


From 406dd448abab648d191edc9431736cbdbe8cfe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 79/86] fix: the arrow of a path that ends with a smooth curve
 has a wrong direction

---
 elsie/shapes/path.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/elsie/shapes/path.py b/elsie/shapes/path.py
index 701f7a1..95ea8c7 100644
--- a/elsie/shapes/path.py
+++ b/elsie/shapes/path.py
@@ -32,6 +32,28 @@ def eval_path_commands(commands):
     return result
 
 
+def path_last_segment(commands):
+    """Points of the last segment of a path: start, control points, end"""
+    segment = []
+    last_name = None
+    for name, pairs in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(pairs), nargs):
+            args = pairs[i : i + nargs]
+            start = segment[-1] if segment else args[0]
+            if name in "ST":
+                # The first control point is a reflection of the previous one
+                control = start
+                if last_name and last_name in ("CS" if name == "S" else "QT"):
+                    x, y = segment[-2]
+                    control = (2 * start[0] - x, 2 * start[1] - y)
+                segment = [start, control, *args]
+            else:
+                segment = [start, *args]
+            last_name = name
+    return segment
+
+
 def path_points_for_end_arrow(commands):
     name, pairs = commands[-1]
     if name not in "CSQT":
@@ -39,12 +61,9 @@ def path_points_for_end_arrow(commands):
             "Current version supports path when last command is 'C', 'S', 'Q' ot 'T' "
             "(got '{}')".format(name)
         )
-    if len(pairs) >= 2:
-        return pairs[-2], pairs[-1]
-    if len(commands) >= 2:
-        return commands[-2][1][-1], pairs[-1]
-    else:
+    if len(commands) < 2 and len(pairs) < 2:
         raise Exception("Unsuported commands for end errow")
+    return path_last_segment(commands)[-2:]
 
 
 def path_update_end_point(commands, point):
-- 
2.43.0


From d0b238ddea1a73502274ea645d2504ef5ea1951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 80/86] fix: arrows crash when the last points of a line or a
 path are the same

---
 elsie/boxtree/boxmixin.py | 20 ++++++++++++++++----
 elsie/shapes/path.py      |  4 +++-
 elsie/utils/geom.py       | 10 ++++++++++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index d86d026..28b663f 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -24,6 +24,7 @@ from ..text.textparser import (
     tokens_to_text_without_style,
 )
 from ..utils.files import read_helper
+from ..utils.geom import last_different_point
 from .lazy import eval_pair, eval_value, unpack_point
 
 if TYPE_CHECKING:
@@ -409,11 +410,22 @@ class BoxMixin:
         def draw(ctx):
             p = [eval_pair(p) for p in points]
             p2 = p[:]
+            # Points that determine directions of arrows
+            start_p = last_different_point(p[:0:-1], p[0])
+            end_p = last_different_point(p[:-1], p[-1])
 
             if start_arrow:
-                p2[0] = start_arrow.move_end_point(p[1], p[0])
+                new_p = start_arrow.move_end_point(start_p, p[0])
+                for i in range(len(p)):
+                    if p[i] != p[0]:
+                        break
+                    p2[i] = new_p
             if end_arrow:
-                p2[-1] = end_arrow.move_end_point(p[-2], p[-1])
+                new_p = end_arrow.move_end_point(end_p, p[-1])
+                for i in reversed(range(len(p))):
+                    if p[i] != p[-1]:
+                        break
+                    p2[i] = new_p
 
             ctx.draw_polyline(
                 p2,
@@ -423,10 +435,10 @@ class BoxMixin:
             )
 
             if start_arrow:
-                start_arrow.render(ctx, p[1], p[0], color)
+                start_arrow.render(ctx, start_p, p[0], color)
 
             if end_arrow:
-                end_arrow.render(ctx, p[-2], p[-1], color)
+                end_arrow.render(ctx, end_p, p[-1], color)
 
         assert len(points) >= 2
         points = [unpack_point(p, self) for p in points]
diff --git a/elsie/shapes/path.py b/elsie/shapes/path.py
index 95ea8c7..629328b 100644
--- a/elsie/shapes/path.py
+++ b/elsie/shapes/path.py
@@ -1,4 +1,5 @@
 from ..boxtree.lazy import eval_pair, unpack_point
+from ..utils.geom import last_different_point
 
 COMMAND_NARGS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}
 
@@ -63,7 +64,8 @@ def path_points_for_end_arrow(commands):
         )
     if len(commands) < 2 and len(pairs) < 2:
         raise Exception("Unsuported commands for end errow")
-    return path_last_segment(commands)[-2:]
+    segment = path_last_segment(commands)
+    return last_different_point(segment[:-1], segment[-1]), segment[-1]
 
 
 def path_update_end_point(commands, point):
diff --git a/elsie/utils/geom.py b/elsie/utils/geom.py
index 541c471..c99c7bd 100644
--- a/elsie/utils/geom.py
+++ b/elsie/utils/geom.py
@@ -82,10 +82,20 @@ def segment_len(p1, p2):
 def segment_resize(p1, p2, len_change):
     dx, dy = segment_delta(p1, p2)
     ln = segment_len(p1, p2)
+    if ln == 0:
+        return p2
     t = 1 + (len_change / ln)
     return p1[0] + dx * t, p1[1] + dy * t
 
 
+def last_different_point(points, point):
+    """Returns the last of points that differs from the given one (if there is any)"""
+    for p in reversed(points):
+        if tuple(p) != tuple(point):
+            return p
+    return points[-1]
+
+
 def find_centroid(points) -> Tuple[float, float]:
     xs = sum([p[0] for p in points])
     ys = sum([p[1] for p in points])
-- 
2.43.0


From 4964e384822989061f96d598d04fab4427e423ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 81/86] fix: texts measured by Inkscape are written in the
 encoding of the platform instead of UTF-8

---
 elsie/render/inkscape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index b8eac38..4c4c3b1 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -8,7 +8,8 @@ import tempfile
 
 @contextlib.contextmanager
 def svg_file_input(inkscape, svg: str, binary=False):
-    with tempfile.NamedTemporaryFile("wb" if binary else "w", suffix=".svg") as f:
+    mode, encoding = ("wb", None) if binary else ("w", "utf-8")
+    with tempfile.NamedTemporaryFile(mode, suffix=".svg", encoding=encoding) as f:
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
-- 
2.43.0


From 9423a0d14d59af4154b8d37a0eb9cb41cb99fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 82/86] fix: shapes with zero stroke width are drawn with a
 stroke of width 1

---
 elsie/render/backends/cairo/draw.py | 3 ++-
 elsie/render/backends/svg/draw.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 636f8fb..30a8a5d 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -39,7 +39,8 @@ def fill_shape(ctx, callback, bg_color):
 
 def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None):
     ctx.set_source_rgb(*get_rgb_color(color))
-    stroke_width = stroke_width or 1
+    if stroke_width is None:
+        stroke_width = 1
     ctx.set_line_width(stroke_width)
     if stroke_dasharray:
         ctx.set_dash([float(v) for v in stroke_dasharray.replace(",", " ").split()])
diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 54d496f..487e92b 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -38,7 +38,8 @@ def set_paint_style(
         styles.append("fill:none")
 
     if color:
-        stroke_width = stroke_width or 1
+        if stroke_width is None:
+            stroke_width = 1
         styles.append(f"stroke:{color}")
         styles.append(f"stroke-width:{stroke_width}")
         if stroke_dasharray:
-- 
2.43.0


From f985af35138e6058975c87c0ed4fcde7003ffa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 83/86] fix: half-transparent pixels of PNG pages made by Cairo
 are too dark

---
 elsie/render/backends/cairo/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index f504b84..fea9fc8 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -66,13 +66,13 @@ class CairoRenderUnit(RenderUnit):
             return self.ctx.filename
         elif export_type == "png":
             self.ctx.surface.flush()
-            # Force the image to be saved as RGBA
+            # Force the image to be saved as RGBA (Cairo premultiplies colors by alpha)
             image = Image.frombuffer(
                 "RGBA",
                 (self.ctx.width, self.ctx.height),
                 self.ctx.surface.get_data(),
                 "raw",
-                "BGRA",
+                "BGRa",
                 0,
                 1,
             )
-- 
2.43.0


From 1abd3d07138f31efc668f6458ac5822eb6a1b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:11 +0000
Subject: [PATCH 84/86] fix: Cairo backend does not draw bitmaps embedded in
 SVG and ORA images

---
 elsie/render/backends/cairo/svg.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index bc934a1..9b78afb 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -3,6 +3,7 @@ from cairosvg.colors import color
 from cairosvg.helpers import node_format, size
 from cairosvg.parser import Tree
 from cairosvg.surface import Surface
+from cairosvg.url import fetch
 
 from .draw import transform
 
@@ -107,6 +108,13 @@ class CairoSurface(Surface):
         return self.surface, width, height
 
 
+def fetch_embedded(url, resource_type):
+    """Only data that are embedded in the image are loaded, links are ignored."""
+    if url.startswith("data:"):
+        return fetch(url, resource_type)
+    return b'<svg width="1" height="1"></svg>'
+
+
 def render_svg(
     surface: cairo.Surface,
     svg: str,
@@ -118,7 +126,7 @@ def render_svg(
     rotation=None,
     dpi=96,
 ):
-    tree = Tree(bytestring=svg.encode())
+    tree = Tree(bytestring=svg.encode(), url_fetcher=fetch_embedded)
     instance = CairoSurface(
         surface=surface,
         rotation=rotation,
-- 
2.43.0


From f8abc20dab56f5bc853718804f8067e42aab8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:27 +0000
Subject: [PATCH 85/86] fix: Cairo draws 16-bit grayscale bitmaps in white

---
 elsie/render/backends/cairo/rcontext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index a7cc821..8f71da0 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -229,6 +229,9 @@ class CairoRenderingContext(RenderingContext):
 
         assert isinstance(data, bytes)
         image = Image.open(io.BytesIO(data))
+        if image.mode.startswith("I"):
+            # 16-bit grayscale, convert() would clip the values
+            image = image.convert("I").point(lambda v: v * (1 / 257)).convert("L")
         if image.mode != "RGBA":
             image = image.convert("RGBA")
         img_width, img_height = image.width, image.height
-- 
2.43.0


From 7b5a6fb0418ba953692c6aece8fb3c5a8c527104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:41 +0000
Subject: [PATCH 86/86] fix: documentation plugin fails when render_format is
 not configured

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index f82f73c..bb772c1 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -185,7 +185,7 @@ def iterate_fences(src: str, handle_fence):
 
 class ElsiePlugin(BasePlugin):
     config_scheme = (
-        ("render_format", Choice(("svg", "png"))),
+        ("render_format", Choice(("svg", "png"), default="svg")),
     )
 
     def on_page_markdown(self, src: str, page, config, *args, **kwargs):
-- 
2.43.0

