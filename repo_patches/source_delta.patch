From 72e2411f57966c849343e28196625b27594e5ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 01/81] fix: never give a new object an id that is already
 registered

---
 gsp/object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsp/object.py b/gsp/object.py
index 50ada14..d456099 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -65,6 +65,10 @@ class Object:
 
     def __init__(self):
         self._id = OID()
+        # Identifiers of replayed objects are chosen by the command stream and
+        # may be ahead of the local counter: never reuse an id that is taken.
+        while self._id in Object.objects.keys():
+            self._id = OID()
         if Object.record:
             Object.objects[self.id] = self
 
-- 
2.43.0


From c7af121ac108b2e50ecdcac783514ed4217e5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 02/81] fix: do not record the default value of a parameter
 given as an object

---
 gsp/io/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4502ae4..54b58fe 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -240,7 +240,8 @@ def command(name=None):
 
             # Default parameters
             for key,value in defaults.items():
-                if key not in parameters.keys():
+                if (key not in parameters.keys() and
+                    key + "(id)" not in parameters.keys()):
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
-- 
2.43.0


From 3f3f8e9c371cc0a043e117963571711811f57bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 03/81] fix: resolve dotted creation commands in the backend
 module

---
 gsp/io/command.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 54b58fe..d458e98 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -434,11 +434,9 @@ class Command:
         #         parameters[key] = value()
 
         if "." in self.methodname:
-            module, name = self.methodname.split(".")
-            if len(module) > 0:
-                func = getattr(globals[module], name)
-            else:
-                func = eval(name, globals, locals)
+            func = backend_module
+            for name in self.methodname.split("."):
+                func = getattr(func, name) if len(name) > 0 else func
             object = func(**parameters)
             object.id = oid
             Object.objects[oid] = object
-- 
2.43.0


From de6a8a7b5d2072228b2418d17f8deef6b9020a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 04/81] fix: restore a queue's mode when a replay fails,
 register the default active queue

---
 gsp/io/command.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index d458e98..37a953e 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -62,7 +62,7 @@ class NamedSingleton(type):
     def __call__(cls, name="default", *args, **kwargs):
         if name == "active" or name is None:
             if CommandQueue.active is None:
-                CommandQueue.active = super(NamedSingleton, cls).__call__("default", *args, **kwargs)
+                CommandQueue.active = cls("default", *args, **kwargs)
             return CommandQueue.active
         if name not in cls._instances.keys():
             cls._instances[name] = super(NamedSingleton, cls).__call__(name, *args, **kwargs)
@@ -149,9 +149,11 @@ class CommandQueue(metaclass = NamedSingleton):
 
         readonly = self.readonly
         self.readonly = True
-        for command in self.commands:
-            command.execute(backend_module)
-        self.readonly = readonly
+        try:
+            for command in self.commands:
+                command.execute(backend_module)
+        finally:
+            self.readonly = readonly
 
 
     def push(self, command):
-- 
2.43.0


From 0ded6463d462f9d632872faa0bf5363087addbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 05/81] fix: do not record the replay of a queue in another
 active queue

---
 gsp/io/command.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 37a953e..b1bcc48 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -148,12 +148,16 @@ class CommandQueue(metaclass = NamedSingleton):
         """
 
         readonly = self.readonly
+        active = CommandQueue.active
         self.readonly = True
+        # A replay must not be recorded in any queue, not even in another one
+        CommandQueue.active = self
         try:
             for command in self.commands:
                 command.execute(backend_module)
         finally:
             self.readonly = readonly
+            CommandQueue.active = active
 
 
     def push(self, command):
-- 
2.43.0


From 30a8a9fc146c972172e5bc00f8930d70c2a085ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 06/81] fix: never convert a parameter that already has an
 accepted type

---
 gsp/io/command.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index b1bcc48..38232f3 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -280,6 +280,9 @@ def command(name=None):
                             check = True
                             break
 
+                    # A parameter that has one of the annotated types is never
+                    # converted, and the closest converter comes first.
+                    for annotated_type in annotated_types if not check else ():
                         # Search for possible converters in any base type
                         for base_type in base_types:
                             # Found converter, register it
@@ -292,6 +295,9 @@ def command(name=None):
                                 # else:
                                 # Delayed conversion
                                 parameters[key] = Converter(converter, value)
+                                break
+                        if check:
+                            break
 
                     if check:
                         continue
-- 
2.43.0


From d238dda1b90e55bf382c30264b73195e4b459ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 07/81] fix: dump, save and load use the queue they are given
 even when it is empty

---
 gsp/io/ansi.py | 2 +-
 gsp/io/json.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index 204dacd..cd4ae8b 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -76,7 +76,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = queue if queue is not None else CommandQueue("active")
     commands = ""
     for command in queue.commands:
         commands += dump_command(command, stream=None)
diff --git a/gsp/io/json.py b/gsp/io/json.py
index adc4aaf..0a49cdb 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -60,7 +60,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = queue if queue is not None else CommandQueue("active")
     commands = []
     for command in queue.commands:
         commands.append(dump_command(command, stream=None))
@@ -76,7 +76,7 @@ def dump(queue=None, filename=None):
 def save(filename, queue = None ):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = queue if queue is not None else CommandQueue("active")
     dump(queue, filename)
 
 
@@ -87,7 +87,7 @@ def load(filename, queue = None):
         commands = json.load(stream)["commands"]
 
     # Get default command queue
-    queue = queue or CommandQueue("active")
+    queue = queue if queue is not None else CommandQueue("active")
     queue.empty()
 
     for command in commands:
-- 
2.43.0


From 2b010a8f2659da262ca4b6d69004e7c262fd535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 08/81] fix: record Segments under their own name

---
 gsp_matplotlib/visual/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 3ad7918..95949b7 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -16,7 +16,7 @@ class Segments(visual.Segments):
 
     __doc__ = visual.Segments.__doc__
 
-    @command("visual.Points")
+    @command("visual.Segments")
     def __init__(self, positions   : Transform | Buffer,
                        line_caps   : Transform | Buffer | LineCap,
                        line_colors : Transform | Buffer | Color,
-- 
2.43.0


From 695d4da4d23bcd79e1c570506f4b3181ee6edeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 09/81] fix: make transforms available to the matplotlib
 backend

---
 gsp_matplotlib/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index be10153..1c5fd47 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -7,6 +7,7 @@ from .core.viewport import Viewport
 from .core.buffer import Buffer
 from gsp.core.types import Marker
 
+from gsp import transform
 from . import core
 from . import visual
 
-- 
2.43.0


From fc5d1dd964bf3e4a265df84a64d19c8155067632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 10/81] fix: copy the right operand of an operator

---
 gsp/transform/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 81c1a8d..9a61786 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -115,7 +115,7 @@ class Operator(Transform):
         if isinstance(self._right, Transform):
             transform.set_right(self._right.copy())
         else:
-            transform.set_left(self._left)
+            transform.set_right(self._right)
 
         return transform
 
-- 
2.43.0


From 845fa026310504b5d349fa913eeb83ee60e79630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 11/81] fix: a meter is a hundred centimeters

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 4975fd7..27aad07 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -214,7 +214,7 @@ class Meter(Measure):
         """Evaluate the transform"""
 
         measure = Measure.evaluate(self, variables)
-        return 10e2*self.dpi(variables)/2.54 * measure
+        return 1e2*self.dpi(variables)/2.54 * measure
 
 class Kilometer(Measure):
     """
-- 
2.43.0


From a21cb551d31978ddca4e38803fdb8ea8f22d2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 12/81] fix: honor a colormap bound that is zero

---
 gsp/transform/colormap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 7bae427..fb39c61 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -79,6 +79,7 @@ class Colormap(Transform):
         else:
             value = self._buffer
         cmap = plt.get_cmap(self._colormap)
-        norm = mpl.colors.Normalize(vmin=self._vmin or value.min(),
-                                    vmax=self._vmax or value.max())
+        vmin = self._vmin if self._vmin is not None else value.min()
+        vmax = self._vmax if self._vmax is not None else value.max()
+        norm = mpl.colors.Normalize(vmin=vmin, vmax=vmax)
         return cmap(norm(value))
-- 
2.43.0


From 1689fc8be59cc6a9c4825edbfe8331b238a2eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 13/81] fix: dump objects created by just in time conversions
 before their use

---
 gsp/io/json.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index 0a49cdb..a9794eb 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -61,9 +61,17 @@ def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
     queue = queue if queue is not None else CommandQueue("active")
+    active = CommandQueue("active")
     commands = []
-    for command in queue.commands:
-        commands.append(dump_command(command, stream=None))
+    for command in tuple(queue.commands):
+        # Just in time conversions may create objects (e.g. buffers): the
+        # commands creating them must precede the command using them.
+        count = len(active.commands)
+        payload = dump_command(command, stream=None)
+        for created in active.commands[count:]:
+            commands.append(dump_command(created, stream=None))
+        del active.commands[count:]
+        commands.append(payload)
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From a148490df28d71ec34320a25d8cca5858c309567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 14/81] fix: chaining a transform keeps the transforms already
 chained

---
 gsp/transform/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 2bac37a..e690d9b 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -151,8 +151,9 @@ class Transform(Object):
 
         transform = self.copy()
         if isinstance(other, Transform):
-            transform.set_next(other.copy())
-            transform.set_buffer(None)
+            last = transform.last
+            last.set_next(other.copy())
+            last.set_buffer(None)
         elif isinstance(other, (Buffer, np.ndarray, float, int, tuple)):
             if self.bound:
                 raise ValueError("Transform is already bound")
-- 
2.43.0


From 1c70198f84ce04c963277fe7ec01a2426d889343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 15/81] fix: allow to bind a transform to a tuple

---
 gsp/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index e690d9b..7618489 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -66,7 +66,7 @@ class Transform(Object):
         self._next = next
 
     @command()
-    def set_buffer(self, buffer : Transform | Buffer | float | int = None):
+    def set_buffer(self, buffer : Transform | Buffer | float | int | tuple = None):
         """Bind the transform to the given buffer.
 
         Parameters
-- 
2.43.0


From 9bbd6b38c4319855c383fa162788ec60c9306dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 16/81] fix: a constant operand is always bound

---
 gsp/transform/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 9a61786..23196e5 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -46,7 +46,8 @@ class Operator(Transform):
         Indicate if this transform is bound
         """
 
-        return self.left.bound and self.right.bound
+        return all(operand.bound for operand in (self.left, self.right)
+                   if isinstance(operand, Transform))
 
     @property
     def operator(self):
-- 
2.43.0


From d62a295a95fd48165c102fac8cd7eb86e025322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 17/81] fix: record the name of a copied Out transform

---
 gsp/transform/out.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 4df39a1..8a5abd4 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -34,10 +34,9 @@ class Out(Transform):
         Copy the transform
         """
 
-        transform = self.__class__()
+        transform = self.__class__(self.name)
         transform.set_buffer(self._buffer)
         transform.set_base(self.base)
-        transform.name = self.name
         if self._next:
             transform.set_next(self._next.copy())
         return transform
-- 
2.43.0


From 60679c2cd93d90658b22c888d1cce178cd3716ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 18/81] fix: record the parameters of a copied Colormap
 transform

---
 gsp/transform/colormap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index fb39c61..484f8ce 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -59,10 +59,11 @@ class Colormap(Transform):
         Copy the transform
         """
 
-        transform = Transform.copy(self)
-        transform._colormap = self._colormap
-        transform._vmin = self._vmin
-        transform._vmax = self._vmax
+        transform = self.__class__(self._colormap, self._vmin, self._vmax)
+        transform.set_buffer(self._buffer)
+        transform.set_base(self.base)
+        if self._next:
+            transform.set_next(self._next.copy())
         return transform
 
 
-- 
2.43.0


From 244f16731ffa925b811abddf91e5dce7fe2aea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 19/81] fix: evaluate an accessor without buffers

---
 gsp/transform/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 7d2ea13..d27ce53 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -50,7 +50,7 @@ class Accessor(Transform):
         else:
             raise IndexError(f"Unknown key {self._key}")
 
-        if "index" in buffers.keys():
+        if buffers is not None and "index" in buffers.keys():
             return buffer[buffers["index"]]
         else:
             return buffer
-- 
2.43.0


From a331e58101cd61330c0cb16f0fdaeb9d986f9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 20/81] fix: set_colormap sets the colormap

---
 gsp/transform/colormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 484f8ce..0f89fab 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -52,7 +52,7 @@ class Colormap(Transform):
         colormap:
             Name of the colormap
         """
-        pass
+        self._colormap = colormap
 
     def copy(self):
         """
-- 
2.43.0


From 27a32c71b2e80afb284fd4819bc9a20f6f41be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 21/81] fix: buffers keep the shape of their items when saved,
 loaded and run

---
 gsp/io/json.py                | 3 ++-
 gsp_matplotlib/__init__.py    | 4 +++-
 gsp_matplotlib/core/buffer.py | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index a9794eb..41cb7ac 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -7,6 +7,7 @@ import json
 import base64
 import numpy as np
 from gsp.object import Object
+from . convert import convert
 from . command import CommandQueue, Command
 
 def default(obj):
@@ -17,7 +18,7 @@ def default(obj):
     elif isinstance(obj, bytes):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, np.dtype):
-        return str(obj)
+        return convert(obj, "str")
     elif isinstance(obj, np.ndarray):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, Color):
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 1c5fd47..08ff43e 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -72,7 +72,9 @@ class Tracker:
     def __init__(self, ndarray):
         if ndarray is not None:
             self.ndarray = ndarray
-            self.gsp_buffer = Buffer(len(ndarray), ndarray.dtype, ndarray.data)
+            # One item of the buffer is one row of the array
+            dtype = np.dtype((ndarray.dtype, ndarray.shape[1:]))
+            self.gsp_buffer = Buffer(len(ndarray), dtype, ndarray.data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
     def set_data(self, offset, bytes):
diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 32fa690..771ca90 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -4,6 +4,7 @@
 from __future__ import annotations # Solve circular references with typing
 import numpy as np
 from gsp.io.command import command, register
+from gsp.io.convert import convert
 
 from gsp import core
 
@@ -17,6 +18,8 @@ class Buffer(core.Buffer):
                        data : memoryview | bytes = None):
         super().__init__(count, dtype, data, __no_command__ = True)
         self._count = count
+        if isinstance(dtype, str):
+            dtype = convert(dtype, "dtype")
         self._dtype = dtype
 
         if isinstance(data, str):
-- 
2.43.0


From aa737c32782af4e401391955be2024fc9cee082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 22/81] fix: keep the priority of the last accepted type when
 converting

---
 gsp/io/command.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 38232f3..e91d577 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -281,7 +281,7 @@ def command(name=None):
                             break
 
                     # A parameter that has one of the annotated types is never
-                    # converted, and the closest converter comes first.
+                    # converted
                     for annotated_type in annotated_types if not check else ():
                         # Search for possible converters in any base type
                         for base_type in base_types:
@@ -296,8 +296,6 @@ def command(name=None):
                                 # Delayed conversion
                                 parameters[key] = Converter(converter, value)
                                 break
-                        if check:
-                            break
 
                     if check:
                         continue
-- 
2.43.0


From cee28576ae69a8e3d672f48eb6563bed9c1c2c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 23/81] fix: find the converters of every base type

---
 gsp/io/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index d4f63d0..6d72b5d 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -119,7 +119,7 @@ def get_converter(value : object,
         return converter
 
     # Get converter from bases
-    for base in value.__class__.__bases__:
+    for base in value.__class__.__mro__[1:]:
         src_type = base.__name__
         converter = is_registered(src_type, dst_type)
         if converter:
-- 
2.43.0


From 294bb16b6f088309f24352c23072a520baf56195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 24/81] fix: convert lists to buffers

---
 gsp_matplotlib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 08ff43e..2029f5e 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -35,7 +35,7 @@ def list_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
+    Z = np.asarray(obj).view(glm.ndarray.tracked)
     return Z._tracker.gsp_buffer
 
 @register("list", "List")
-- 
2.43.0


From 8088038f3d3087ed75431321e01142e76c54cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 25/81] fix: accept saved line caps, styles, joins and vectors
 when a scene is loaded and run

---
 gsp/__init__.py            |  8 ++++++++
 gsp_matplotlib/__init__.py | 14 +++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 3e62dcb..f9e01bb 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -28,6 +28,14 @@ def list_to_Color(obj):
 def tuple_to_Color(obj):
     return core.Color(*obj)
 
+@io.register("list", "Vec3")
+def list_to_Vec3(obj):
+    return core.Vec3(*obj)
+
+@io.register("tuple", "Vec3")
+def tuple_to_Vec3(obj):
+    return core.Vec3(*obj)
+
 @io.register("Color", "list")
 def Color_to_list(obj):
     return obj._color.tolist()
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 2029f5e..9fb38d7 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,7 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
-from gsp.core.types import Marker
+from gsp.core.types import Marker, LineCap, LineStyle, LineJoin
 
 from gsp import transform
 from . import core
@@ -51,6 +51,18 @@ def list_to_List(obj):
 def int_to_Marker(obj):
     return Marker(obj)
 
+@register("int", "LineCap")
+def int_to_LineCap(obj):
+    return LineCap(obj)
+
+@register("int", "LineStyle")
+def int_to_LineStyle(obj):
+    return LineStyle(obj)
+
+@register("int", "LineJoin")
+def int_to_LineJoin(obj):
+    return LineJoin(obj)
+
 @register("ndarray", "Buffer")
 def ndarray_to_Buffer(obj):
     # WARN: Do we need to keep track of obj/Buffer such as not create
-- 
2.43.0


From ac538d71ca5d2a2ace97b52fd0375a829138a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 26/81] fix: a copy of a tracked array does not share its
 tracker

---
 gsp_matplotlib/glm/ndarray/tracked.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index a48e145..669a352 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -48,9 +48,14 @@ class tracked(np.ndarray):
         else:
             self._extents = self._compute_extents(obj)
         self._dirty = self._extents
-        self._tracker = getattr(obj, '_tracker', None)
-        if self._tracker is None and self.__tracker_class__ is not None:
-            self._tracker = self.__tracker_class__(obj)
+        if isinstance(obj, tracked):
+            # A copy is not tracked by the tracker of its source
+            shared = np.may_share_memory(self, obj)
+            self._tracker = getattr(obj, '_tracker', None) if shared else None
+        else:
+            self._tracker = None
+            if self.__tracker_class__ is not None:
+                self._tracker = self.__tracker_class__(obj)
 
     def clear(self):
         """ Clear dirty region"""
-- 
2.43.0


From 7f3125db8190bdf40edcb446d1230b89c07e38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 27/81] fix: signal the exact region modified through any view
 or in-place operator

---
 gsp_matplotlib/glm/ndarray/tracked.py | 108 ++++++++++++++------------
 1 file changed, 57 insertions(+), 51 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 669a352..d5cb90b 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -43,10 +43,7 @@ class tracked(np.ndarray):
 
         if not isinstance(obj, tracked):
             self.__class__.__init__(self)
-        if obj is None:
-            self._extents = 0, self.size*self.itemsize
-        else:
-            self._extents = self._compute_extents(obj)
+        self._extents = self._compute_extents(self)
         self._dirty = self._extents
         if isinstance(obj, tracked):
             # A copy is not tracked by the tracker of its source
@@ -57,6 +54,14 @@ class tracked(np.ndarray):
             if self.__tracker_class__ is not None:
                 self._tracker = self.__tracker_class__(obj)
 
+    def _root(self):
+        """ Tracked array that owns (or views) the tracked memory """
+
+        root = self
+        while isinstance(root.base, tracked):
+            root = root.base
+        return root
+
     def clear(self):
         """ Clear dirty region"""
 
@@ -89,17 +94,19 @@ class tracked(np.ndarray):
                 self._dirty = start, stop
 
     def _compute_extents(self, Z):
-        """Compute extents (start, stop) in bytes in the base array"""
-
-        if Z.base is not None:
-            base = Z.base.__array_interface__['data'][0]
-            view = Z.__array_interface__['data'][0]
-            offset = view - base
-            shape = np.array(Z.shape) - 1
-            strides = Z.strides[-len(shape):]
-            size = (shape*strides).sum() + Z.itemsize
-            return offset, offset+size
-        return 0, Z.size*Z.itemsize
+        """Compute extents (start, stop) in bytes in the root array"""
+
+        root = self._root()
+        if Z.size == 0:
+            return 0, 0
+        if not root.flags.c_contiguous:
+            return 0, root.size*root.itemsize
+        offset = (Z.__array_interface__['data'][0]
+                  - root.__array_interface__['data'][0])
+        spans = [(n-1)*stride for n, stride in zip(Z.shape, Z.strides)]
+        start = offset + sum(min(span,0) for span in spans)
+        stop = offset + sum(max(span,0) for span in spans) + Z.itemsize
+        return start, stop
 
     # def _compute_extents(self, Z):
     #     """Compute extents (start, stop) in bytes in the base array"""
@@ -127,38 +134,30 @@ class tracked(np.ndarray):
 
     def __setitem__(self, key, value):
         Z = np.ndarray.__getitem__(self, key)
-        if Z.shape == ():
-            # This test for the case of [...,index] notation. Since we
-            # know the result is a scalar, we can safely remove the
-            # ellipsis component (that should be the first item).
-            if (isinstance(key, tuple)):
-                key = tuple([k for k in key if k is not Ellipsis])
-            key = tuple(np.mod(np.array(key), self.shape))
-            offset = np.ravel_multi_index(key, self.shape, mode='wrap')*self.itemsize
-            self._update(offset, offset+self.itemsize)
+        if not isinstance(Z, np.ndarray):
+            # Single item: the trailing ellipsis makes it a view
+            items = key if isinstance(key, tuple) else (key,)
+            Z = np.ndarray.__getitem__(self, items + (Ellipsis,))
 
         # Test for fancy indexing
-        elif (Z.base is not self and (isinstance(key, list) or
-               (hasattr(key, '__iter__') and
-                any(isinstance(k, (list,np.ndarray)) for k in key)))):
+        if Z.size and not np.may_share_memory(Z, self):
             raise NotImplementedError("Fancy indexing not supported")
-        else:
-            Z._extents = self._compute_extents(Z)
-            self._update(Z._extents[0], Z._extents[1])
+        start, stop = self._compute_extents(Z)
         np.ndarray.__setitem__(self, key, value)
+        if stop > start:
+            self._update(start, stop)
+            self._flush()
 
-        if self._tracker:
-            base = self
-            while base.base is not None and isinstance(base.base, tracked):
-                base = base.base
-            data = base.view(np.ubyte).ravel()
-            start, stop = self._dirty
-            if base is not self:
-                base._tracker.set_data(start, data[start:stop].tobytes())
-                base.clear()
-            else:
-                self._tracker.set_data(start, data[start:stop].tobytes())
-                self.clear()
+    def _flush(self):
+        """ Signal the dirty region to the tracker (if any) """
+
+        root = self._root()
+        if root._tracker and root._dirty:
+            start, stop = root._dirty
+            data = np.ascontiguousarray(np.asarray(root))
+            data = data.reshape(-1).view(np.ubyte)
+            root._tracker.set_data(start, data[start:stop].tobytes())
+            root.clear()
 
     def __getslice__(self, start, stop):
         return self.__getitem__(slice(start, stop))
@@ -166,18 +165,25 @@ class tracked(np.ndarray):
     def __setslice__(self, start, stop,  value):
         self.__setitem__(slice(int(start), int(stop)), value)
 
+    def _inplace(self, operator, other):
+        """ Apply an in-place operator and signal the modified region """
+
+        result = operator(self, other)
+        self._update(*self._compute_extents(self))
+        self._flush()
+        return result
+
     def __iadd__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__iadd__(self, other)
+        return self._inplace(np.ndarray.__iadd__, other)
 
     def __isub__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__isub__(self, other)
+        return self._inplace(np.ndarray.__isub__, other)
 
     def __imul__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__imul__(self, other)
+        return self._inplace(np.ndarray.__imul__, other)
+
+    def __itruediv__(self, other):
+        return self._inplace(np.ndarray.__itruediv__, other)
 
-    def __idiv__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__idiv__(self, other)
+    def __ifloordiv__(self, other):
+        return self._inplace(np.ndarray.__ifloordiv__, other)
-- 
2.43.0


From 580aa89142a93a1fff6d5a46949e8015323e3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 28/81] fix: swizzled assignments do not depend on the number
 of vectors

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index 3eb6d82..0ec0584 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -34,22 +34,32 @@ class swizzle(tracked):
 
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
-                value = np.asarray(value)
+                components = isinstance(value, (tuple, list))
+                # Copy because value may share memory with self (Z.yx = Z)
+                value = np.array(value)
                 shape = value.shape
                 indices = [swizzle.index(c) for c in key]
+                # Z.xy = Z.yx
+                rows = (not components and value.ndim == self.ndim and
+                        shape[-1:] == (len(key),))
 
                 # Z.xy = 1
                 if not len(shape):
                     for index in indices:
                         self[..., index] = value
                     break
+                # Z.xy = 1,2 or Z.xy = np.ones(10), np.ones(10)
+                elif components and len(key) == len(value):
+                    for src_index, tgt_index in enumerate(indices):
+                        self[..., tgt_index] = value[src_index]
+                    break
                 # Z.xy = np.ones(10)
-                elif len(self) == value.size: # shape[-1] == 1:
+                elif not rows and len(self) == value.size: # shape[-1] == 1:
                     for index in indices:
                         self[..., index] = np.squeeze(value)
                     break
-                # Z.xy = np.ones(10), np.ones(10)
-                elif len(key) == len(value):
+                # Z.xy = np.array([1,2])
+                elif not rows and len(key) == len(value):
                     for src_index, tgt_index in enumerate(indices):
                         self[..., tgt_index] = value[src_index]
                     break
-- 
2.43.0


From 50fb138bc14ea4844fd2e73842548199d69f1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 29/81] fix: partial slices of a vlist select only their items

---
 gsp_matplotlib/glm/ndarray/ragged.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 01fdeb7..bfe695c 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -72,7 +72,7 @@ class ragged:
         if itemsize is None:
             itemsize = len(data)
 
-        if isinstance(itemsize, int):
+        if isinstance(itemsize, (int, np.integer)):
             if (len(data) % itemsize) != 0:
                 raise ValueError("Cannot partition data as requested")
             count = len(data) // itemsize
@@ -91,9 +91,19 @@ class ragged:
         self._items[0:, 1] += C
 
 
+    def _itemkey(self, key):
+        """ Explicit item numbers for slices that are not consecutive items """
+
+        if isinstance(key, slice):
+            items = range(self._count)[key]
+            if len(items) == 0 or items.step != 1:
+                return list(items)
+        return key
+
     def __getitem__(self, key):
         """ x.__getitem__(y) <==> x[y] """
 
+        key = self._itemkey(key)
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
@@ -108,6 +118,7 @@ class ragged:
     def __setitem__(self, key, value):
         """ x.__setitem__(y, v) <==> x[y] = v"""
 
+        key = self._itemkey(key)
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
-- 
2.43.0


From f4bc67283cc0a134685ed6297fb29a5d2474b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 30/81] fix: translate x in the orthographic projection

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index ceaa163..78eed43 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -213,7 +213,7 @@ def ortho(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=Fal
     M[1, 1] = +2.0 / (top - bottom)
     M[2, 2] = -2.0 / (zfar - znear)
     M[3, 3] = 1.0
-    M[0, 2] = -(right + left) / float(right - left)
+    M[0, 3] = -(right + left) / float(right - left)
     M[1, 3] = -(top + bottom) / float(top - bottom)
     M[2, 3] = -(zfar + znear) / float(zfar - znear)
 
-- 
2.43.0


From 648528733bd1d08138daa89ea7fdef88faea4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 31/81] fix: shear y in the off-center frustum

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 78eed43..835548c 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -131,7 +131,7 @@ def frustum(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=F
     M[1, 1] = +2.0 * znear / (top - bottom)
     M[2, 2] = -(zfar + znear) / (zfar - znear)
     M[0, 2] = (right + left) / (right - left)
-    M[2, 1] = (top + bottom) / (top - bottom)
+    M[1, 2] = (top + bottom) / (top - bottom)
     M[2, 3] = -2.0 * znear * zfar / (zfar - znear)
     M[3, 2] = -1.0
 
-- 
2.43.0


From 566f421ff648b5cf260f296a180383eedd63d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 32/81] fix: fit uses the bounds it computed

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 835548c..aed1eb1 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -310,7 +310,7 @@ def fit(vertices):
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
     # return 2*(vertices-vmin) / max(vmax-vmin)-1
-    V = 2*(vertices - Vmin) / max(Vmax-Vmin) - 1
+    V = 2*(vertices - vmin) / max(vmax-vmin) - 1
     return  V - (V.min(axis=0) + V.max(axis=0))/2
 
 
-- 
2.43.0


From a1daf4a0d77b111f7e42b26a856183534d930629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 33/81] fix: lookat honors transpose

---
 gsp_matplotlib/glm/glm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index aed1eb1..40150b8 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -257,12 +257,17 @@ def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,0,1), dtype=np.float32, transpos
     Y = up
     X = normalize(np.cross(Y, Z))
     Y = normalize(np.cross(Z, X))
-    return np.array([
+    M = np.array([
         [X[0], X[1], X[2], -np.dot(X, eye)],
         [Y[0], Y[1], Y[2], -np.dot(Y, eye)],
         [Z[0], Z[1], Z[2], -np.dot(Z, eye)],
         [0, 0, 0, 1]], dtype=dtype)
 
+    if transpose:
+        return np.transpose(M)
+    else:
+        return M
+
 
 def scale(scale, dtype=np.float32, transpose=False):
     """Non-uniform scaling along the x, y, and z axes
-- 
2.43.0


From aa485f70fafcf2740867a03d9f06fd3a7601e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 34/81] fix: camera passes vectors to scale and translate

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 40150b8..5be9b36 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -568,8 +568,8 @@ def camera(xrotation=25, yrotation=45, zoom=1, mode="perspective"):
     xrotation = min(max(xrotation, 0), 90)
     yrotation = min(max(yrotation, 0), 90)
     zoom = max(0.1, zoom)
-    model = scale(zoom,zoom,zoom) @ xrotate(xrotation) @ yrotate(yrotation)
-    view  = translate(0, 0, -4.5)
+    model = scale((zoom,zoom,zoom)) @ xrotate(xrotation) @ yrotate(yrotation)
+    view  = translate((0, 0, -4.5))
     if mode == "ortho":
         proj  = ortho(-1, +1, -1, +1, 1, 100)
     else:
-- 
2.43.0


From 1f493658a6f2be5d59b1df112d2f3c6121459a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 35/81] fix: align vectors that are already aligned

---
 gsp_matplotlib/glm/glm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 5be9b36..3677679 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -531,12 +531,11 @@ def align(U, V, dtype=np.float32, transpose=False):
     a, b = normalize(U), normalize(V)
     v = np.cross(a, b)
     c = np.dot(a, b)
-    s = np.linalg.norm(v)
     K = np.array([[   0, -v[2], v[1]],
                   [ v[2],   0, -v[0]],
                   [-v[1], v[0],   0]])
     R = np.zeros((4,4), dtype=dtype)
-    R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / (s ** 2))
+    R[:3, :3] = np.eye(3) + K + K@K / (1 + c)
     R[3, 3] = 1
 
     if transpose:
-- 
2.43.0


From 64a7dd23c9a5386e8067cb68012c47422ddfe7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 36/81] fix: center returns the centered vertices

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 3677679..8e490a4 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -365,7 +365,7 @@ def center(vertices):
 
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
-    return V - (vmax+vmin)/2
+    return vertices - (vmax+vmin)/2
 
 
 def xrotate(theta=0, dtype=np.float32, transpose=False):
-- 
2.43.0


From 8324d9647bb9b53bcd4a389f343a2f3b6ebda1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 37/81] fix: icosahedron face type

---
 gsp_matplotlib/glm/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/shapes.py b/gsp_matplotlib/glm/shapes.py
index 19d951a..eae99fd 100644
--- a/gsp_matplotlib/glm/shapes.py
+++ b/gsp_matplotlib/glm/shapes.py
@@ -105,5 +105,5 @@ def icosahedron():
               [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9],
               [4, 9, 5], [2, 4, 11], [6, 2, 10], [8, 6, 7], [9, 8, 1] ]
     verts = np.array(verts, dtype=np.float32)/np.sqrt(a+2)/2
-    faces = np.array(faces, dtype=uint32)
+    faces = np.array(faces, dtype=np.uint32)
     return verts, faces
-- 
2.43.0


From 56790866817ec0c6850e867df5f5c51a7f9f1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 38/81] fix: give views and copies of tracked arrays a buffer
 of their own

---
 gsp_matplotlib/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 9fb38d7..01cd755 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -77,7 +77,14 @@ def ndarray_to_Buffer(obj):
 
 @register("tracked", "Buffer")
 def tracked_to_Buffer(obj):
-    return obj._tracker.gsp_buffer
+    tracker = obj._tracker
+    # The buffer of the tracker describes the root array: a view with another
+    # layout or a copy (that has no tracker) needs a buffer of its own.
+    if tracker is None or not tracker.describes(obj):
+        tracker = Tracker(obj)
+        if not isinstance(obj.base, glm.ndarray.tracked):
+            obj._tracker = tracker
+    return tracker.gsp_buffer
 
 
 class Tracker:
@@ -86,9 +93,16 @@ class Tracker:
             self.ndarray = ndarray
             # One item of the buffer is one row of the array
             dtype = np.dtype((ndarray.dtype, ndarray.shape[1:]))
-            self.gsp_buffer = Buffer(len(ndarray), dtype, ndarray.data)
+            data = np.ascontiguousarray(ndarray).data
+            self.gsp_buffer = Buffer(len(ndarray), dtype, data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
+    def describes(self, ndarray):
+        return all(getattr(self.ndarray, name) == getattr(ndarray, name)
+                   for name in ("shape", "strides", "dtype")) and (
+            self.ndarray.__array_interface__["data"] ==
+            ndarray.__array_interface__["data"])
+
     def set_data(self, offset, bytes):
         self.gsp_buffer.set_data(offset, bytes)
 
-- 
2.43.0


From 6155faf1775b8fb0c933a40224240c7780948cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 39/81] fix: update the content of a buffer

---
 gsp_matplotlib/core/buffer.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 771ca90..7b5451e 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -32,10 +32,22 @@ class Buffer(core.Buffer):
     @command()
     def set_data(self, offset : int,
                        data : memoryview | bytes):
-        # Be careful with set_data when the underlying data is already tracked
-        # buffer = np.asanyarray(self).view(np.ubyte)
-        # buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
-        pass
+        # A memoryview gives access to the (tracked) source: there is nothing
+        # to update since any change is already visible.
+        if isinstance(self._data, memoryview):
+            return
+        if isinstance(data, str):
+            import base64
+            data = base64.b64decode(data)
+        if self._data is None:
+            content = bytearray(np.asanyarray(self).tobytes())
+        else:
+            content = bytearray(self._data)
+        if offset < 0 or offset + len(data) > len(content):
+            raise IndexError("Data does not fit into the buffer")
+        content[offset:offset+len(data)] = data
+        self._data = bytes(content)
+        self._array = None
 
     def __array__(self):
         if self._array is None:
-- 
2.43.0


From e18ce02911ea5db87205330a9afa132a25342a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 40/81] fix: evaluate transforms bound to a buffer

---
 gsp/transform/accessor.py | 2 +-
 gsp/transform/colormap.py | 3 ++-
 gsp/transform/operator.py | 5 +++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index d27ce53..85f8c94 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -37,7 +37,7 @@ class Accessor(Transform):
         if self._next:
             buffer = self._next.evaluate(buffers)
         elif self._buffer is not None:
-            buffer = self._buffer
+            buffer = np.asanyarray(self._buffer)
         else:
             raise ValueError("Transform is not bound")
 
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 0f89fab..5aae7d4 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from gsp.io.command import command
 from gsp.transform import Transform
@@ -78,7 +79,7 @@ class Colormap(Transform):
         if self._next:
             value = self._next.evaluate(buffers)
         else:
-            value = self._buffer
+            value = np.asanyarray(self._buffer)
         cmap = plt.get_cmap(self._colormap)
         vmin = self._vmin if self._vmin is not None else value.min()
         vmax = self._vmax if self._vmax is not None else value.max()
diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 23196e5..324cd93 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from . transform import Transform
 from gsp.io.command import command
@@ -124,11 +125,15 @@ class Operator(Transform):
 
         if isinstance(self._left, Transform):
             left = self._left.evaluate(variables)
+        elif isinstance(self._left, Buffer):
+            left = np.asanyarray(self._left)
         else:
             left = self._left
 
         if isinstance(self._right, Transform):
             right = self._right.evaluate(variables)
+        elif isinstance(self._right, Buffer):
+            right = np.asanyarray(self._right)
         else:
             right = self._right
 
-- 
2.43.0


From 2089620d17d19c6664c81b417409417926122c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 41/81] fix: draw nearest pixels last

---
 gsp_matplotlib/visual/pixels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index fab47b4..9cafc81 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -69,7 +69,8 @@ class Pixels(visual.Pixels):
         positions = self.eval_variable("positions")
         # positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-        sort_indices = np.argsort(positions[:,2])
+        # Farthest first
+        sort_indices = np.argsort(-positions[:,2])
         collection.set_offsets(positions[sort_indices,:2])
 
         self.set_variable("screen[positions]", positions)
-- 
2.43.0


From 93ee3fad6a1d0b68af9747bf2c0191ba72761823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 42/81] fix: accept a unique size that is an array

---
 gsp_matplotlib/visual/markers.py | 2 +-
 gsp_matplotlib/visual/points.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 20550f7..7196348 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -150,7 +150,7 @@ class Markers(visual.Markers):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.ravel(sizes))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 57e9ac8..faaeca7 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -94,7 +94,7 @@ class Points(visual.Points):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.ravel(sizes))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
-- 
2.43.0


From 21652dcc0ec3dda6e58645a90eace43938964eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 43/81] fix: report the misuse of an Out transform

---
 gsp/transform/out.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 8a5abd4..bb930ce 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -26,7 +26,7 @@ class Out(Transform):
         Transform.__init__(self, __no_command__ = True)
         self.name = name
 
-    def __call__(self):
+    def __call__(self, other):
         raise ValueError("Out transform cannot be composed")
 
     def copy(self):
@@ -59,6 +59,8 @@ class Out(Transform):
                 if set(key).issubset(set(swizzle)):
                     index = [swizzle.index(c) for c in key]
                     break
+            else:
+                raise ValueError(f"Unknown key {key}")
         else:
             name = self.name
             index = None
-- 
2.43.0


From 5e7ed790d87f33b6dc3215447d9275fe0047b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 44/81] fix: record the key of a copied accessor

---
 gsp/transform/accessor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 85f8c94..a9ba501 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -29,8 +29,15 @@ class Accessor(Transform):
         self._key = key
 
     def copy(self):
-        transform = Transform.copy(self)
-        transform._key = self._key
+        # Only the generic accessor needs to be given the key
+        if type(self) is Accessor:
+            transform = Accessor(key=self._key)
+        else:
+            transform = self.__class__()
+        transform.set_buffer(self._buffer)
+        transform.set_base(self.base)
+        if self._next:
+            transform.set_next(self._next.copy())
         return transform
 
     def evaluate(self, buffers=None):
-- 
2.43.0


From 2030fdbf7c905680fbf1fd0bb8a786019f184e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 45/81] fix: register a converter for all the source types or
 none

---
 gsp/io/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 6d72b5d..c920190 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -52,12 +52,13 @@ def register(src_types : str | tuple[str,...],
 
     def inner(func):
         if isinstance(src_types,(list,tuple)):
+            # All or nothing
             for src_type in src_types:
-                if (src_type,dst_type) not in converters.keys():
-                    converters[(src_type, dst_type)] = func
-                else:
+                if (src_type,dst_type) in converters.keys():
                     raise TypeError(
                         f"A converter for '{src_type}' to '{dst_type}' has already been registered.")
+            for src_type in src_types:
+                converters[(src_type, dst_type)] = func
         else:
             src_type = src_types
             if (src_type,dst_type) not in converters.keys():
-- 
2.43.0


From 5a39539852cd3aea3c150189ce778e0e3fa26a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 46/81] fix: loading an unknown format leaves the current scene
 untouched

---
 gsp/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index f9e01bb..f26ce7f 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -88,13 +88,12 @@ def load(filename, format=None):
     import pathlib
     from gsp.io import queue, json
 
-    Object.objects = {}
-    queue = queue("active").empty()
-
     format = format or pathlib.Path(filename).suffix[1:]
-    if format in ["json"]:
-        json.load(filename)
-    else:
+    if format not in ["json"]:
         raise ValueError(f"Unknown format ({format})")
 
+    Object.objects = {}
+    queue = queue("active").empty()
+    json.load(filename)
+
     return queue
-- 
2.43.0


From b0ef52440208344ef793e9480a1e088e2b7b2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 47/81] fix: create a generic measure

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 27aad07..6cb1fd1 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -45,7 +45,7 @@ class Measure(Transform):
 
     @command("transform.Measure")
     def __init__(self):
-        super.__init__(__no_command__ = True)
+        Transform.__init__(self, __no_command__ = True)
 
 
     def evaluate(self, variables):
-- 
2.43.0


From 36299021e5a4e6eedb6e3b95822b469110bcd78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 48/81] fix: a color is never mistaken for an array of four
 items

---
 gsp/visual/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index ae20046..cf6887c 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -79,7 +79,7 @@ class Visual(Object):
             value = np.asanyarray(value)
         elif isinstance(value, (List, list)):
             return value
-        elif isinstance(value, (float, int, str)):
+        elif isinstance(value, (float, int, str, tuple)):
             return value
         elif value is None:
             return None
-- 
2.43.0


From 102f59d1132880feb94c58fb3426110634498fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 49/81] fix: restore tracking when a rendering fails

---
 gsp_matplotlib/visual/markers.py   |  2 ++
 gsp_matplotlib/visual/paths.py     |  2 ++
 gsp_matplotlib/visual/pixels.py    |  2 ++
 gsp_matplotlib/visual/points.py    |  2 ++
 gsp_matplotlib/visual/polygons.py  |  2 ++
 gsp_matplotlib/visual/segments.py  |  2 ++
 gsp_matplotlib/visual/untracked.py | 17 +++++++++++++++++
 7 files changed, 29 insertions(+)
 create mode 100644 gsp_matplotlib/visual/untracked.py

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 7196348..04dd067 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -5,6 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
+from . untracked import untracked
 from gsp.io.command import command
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color, Marker, Vec3
@@ -65,6 +66,7 @@ class Markers(visual.Markers):
             self.paths.append(path)
 
 
+    @untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index b1df20d..44296a6 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -5,6 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
+from . untracked import untracked
 from gsp.io.command import command
 from gsp.transform import Transform
 from gsp.core import Viewport, List, Buffer, Color, Measure, LineCap, LineStyle, LineJoin
@@ -28,6 +29,7 @@ class Paths(visual.Paths):
                          line_styles, line_joins, line_caps, __no_command__ = True)
 
 
+    @untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 9cafc81..986a227 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -5,6 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
+from . untracked import untracked
 from gsp.io.command import command
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color
@@ -30,6 +31,7 @@ class Pixels(visual.Pixels):
         super().__init__(positions, colors, __no_command__ = True)
 
 
+    @untracked
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index faaeca7..3e3dd14 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -5,6 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
+from . untracked import untracked
 from gsp.io.command import command
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color
@@ -25,6 +26,7 @@ class Points(visual.Points):
                          line_widths, __no_command__ = True)
 
 
+    @untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index e0d737b..9a33576 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -5,6 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
+from . untracked import untracked
 from gsp.io.command import command
 from gsp.transform import Transform
 from gsp.core import Viewport, List, Buffer, Color, Measure, LineStyle, LineJoin
@@ -28,6 +29,7 @@ class Polygons(visual.Polygons):
                          line_widths, line_styles, line_joins, __no_command__ = True)
 
 
+    @untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 95949b7..e3319a9 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -5,6 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
+from . untracked import untracked
 from gsp.io.command import command
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color, LineCap
@@ -26,6 +27,7 @@ class Segments(visual.Segments):
                          line_widths, __no_command__ = True)
 
 
+    @untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/untracked.py b/gsp_matplotlib/visual/untracked.py
new file mode 100644
index 0000000..dae41e7
--- /dev/null
+++ b/gsp_matplotlib/visual/untracked.py
@@ -0,0 +1,17 @@
+# Package: Graphic Server Protocol / Matplotlib
+# Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
+# License: BSD 3 clause
+from functools import wraps
+from gsp_matplotlib import glm
+
+def untracked(render):
+    """ Restore tracking after rendering, even when rendering fails """
+
+    @wraps(render)
+    def inner(*args, **kwargs):
+        tracker = glm.ndarray.tracked.__tracker_class__
+        try:
+            return render(*args, **kwargs)
+        finally:
+            glm.ndarray.tracked.__tracker_class__ = tracker
+    return inner
-- 
2.43.0


From f17e38d9555e042311fb5ef326c2fbd1629b627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 50/81] fix: a resize redraws a viewport with its own matrices

---
 gsp/visual/visual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index cf6887c..7bab1d5 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -22,6 +22,7 @@ class Visual(Object):
         self._in_variables = { }
         self._out_variables = { }
         self._viewports = {}
+        self._matrices = {}
         self._model = np.eye(4)
         self._view = np.eye(4)
         self._proj = np.eye(4)
@@ -107,13 +108,17 @@ class Visual(Object):
             Projection matrix to use for rendering
         """
 
-        # We store the model/view/proj matrices for resize events
+        # We store the model/view/proj matrices for resize events: a visual
+        # may be rendered on several viewports with different matrices
+        if viewport in self._matrices:
+            self._model, self._view, self._proj = self._matrices[viewport]
         if model is not None:
             self._model = model
         if view is not None:
             self._view = view
         if proj is not None:
             self._proj = proj
+        self._matrices[viewport] = self._model, self._view, self._proj
 
         try:
             self._transform = self._proj @ self._view @ self._model
-- 
2.43.0


From a67933d5fe579f3abb43ca559a08cf73b6bea8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 51/81] fix: matrices can be saved, loaded and replayed

---
 gsp/__init__.py                   |  8 ++++++++
 gsp/core/types.py                 |  6 +++---
 gsp/io/json.py                    |  4 +++-
 gsp/visual/visual.py              | 14 +++++++++++---
 gsp_matplotlib/__init__.py        |  2 +-
 gsp_matplotlib/visual/markers.py  |  4 +---
 gsp_matplotlib/visual/paths.py    |  4 +---
 gsp_matplotlib/visual/pixels.py   |  4 +---
 gsp_matplotlib/visual/points.py   |  4 +---
 gsp_matplotlib/visual/polygons.py |  4 +---
 gsp_matplotlib/visual/segments.py |  4 +---
 11 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index f26ce7f..5e32b83 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -36,6 +36,14 @@ def list_to_Vec3(obj):
 def tuple_to_Vec3(obj):
     return core.Vec3(*obj)
 
+@io.register("list", "Matrix")
+def list_to_Matrix(obj):
+    return core.Matrix(obj)
+
+@io.register("tuple", "Matrix")
+def tuple_to_Matrix(obj):
+    return core.Matrix(obj)
+
 @io.register("Color", "list")
 def Color_to_list(obj):
     return obj._color.tolist()
diff --git a/gsp/core/types.py b/gsp/core/types.py
index 4ccef29..bd61125 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -50,10 +50,10 @@ class Matrix:
             The 16 values of the matrix
         """
 
-        self._data = np.frombuffer(data, dtype=np.float32)
+        self._data = np.array(data, dtype=np.float32).reshape(4,4)
 
-    def __array__(self):
-        return self._data
+    def __array__(self, dtype=None, copy=None):
+        return self._data if dtype is None else self._data.astype(dtype)
 
 
 # class Color:
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 41cb7ac..d59fe44 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -11,7 +11,7 @@ from . convert import convert
 from . command import CommandQueue, Command
 
 def default(obj):
-    from gsp.core.types import Color
+    from gsp.core.types import Color, Matrix
 
     if isinstance(obj, memoryview):
         return base64.b64encode(bytes(obj)).decode()
@@ -23,6 +23,8 @@ def default(obj):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, Color):
         return tuple(obj._color.tolist())
+    elif isinstance(obj, Matrix):
+        return np.asarray(obj).ravel().tolist()
     elif isinstance(obj, Object):
         return obj.id
     raise TypeError(f'Object of type {obj.__class__.__name__} is not JSON serializable')
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 7bab1d5..2c76936 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -87,6 +87,14 @@ class Visual(Object):
 
         return np.atleast_1d(value)
 
+    @staticmethod
+    def _as_array(matrix):
+        """ Matrix as a (4,4) array """
+
+        if isinstance(matrix, np.ndarray):
+            return matrix
+        return np.asarray(matrix, dtype=np.float32).reshape(4,4)
+
     @command()
     def render(self, viewport : Viewport,
                      model : Matrix = None,
@@ -113,11 +121,11 @@ class Visual(Object):
         if viewport in self._matrices:
             self._model, self._view, self._proj = self._matrices[viewport]
         if model is not None:
-            self._model = model
+            self._model = self._as_array(model)
         if view is not None:
-            self._view = view
+            self._view = self._as_array(view)
         if proj is not None:
-            self._proj = proj
+            self._proj = self._as_array(proj)
         self._matrices[viewport] = self._model, self._view, self._proj
 
         try:
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 01cd755..3fc141d 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,7 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
-from gsp.core.types import Marker, LineCap, LineStyle, LineJoin
+from gsp.core.types import Marker, LineCap, LineStyle, LineJoin, Matrix
 
 from gsp import transform
 from . import core
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 04dd067..d4fcc93 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -70,9 +70,7 @@ class Markers(visual.Markers):
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-        model = model if model is not None else self._model
-        view = view if view is not None else self._view
-        proj = proj if proj is not None else self._proj
+        model, view, proj = self._model, self._view, self._proj
 
         # Disable tracking for newly created glm.ndarray (or else,
         # this will create GSP buffers)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 44296a6..b677c48 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -33,9 +33,7 @@ class Paths(visual.Paths):
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-        model = model if model is not None else self._model
-        view = view if view is not None else self._view
-        proj = proj if proj is not None else self._proj
+        model, view, proj = self._model, self._view, self._proj
 
         # Disable tracking for newly created glm.ndarray (or else,
         # this will create GSP buffers)
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 986a227..1fb6436 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -35,9 +35,7 @@ class Pixels(visual.Pixels):
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-        model = model if model is not None else self._model
-        view = view if view is not None else self._view
-        proj = proj if proj is not None else self._proj
+        model, view, proj = self._model, self._view, self._proj
 
         # Disable tracking for newly created glm.ndarray (or else,
         # this will create GSP buffers)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 3e3dd14..58917e9 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -30,9 +30,7 @@ class Points(visual.Points):
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-        model = model if model is not None else self._model
-        view = view if view is not None else self._view
-        proj = proj if proj is not None else self._proj
+        model, view, proj = self._model, self._view, self._proj
 
         # Disable tracking for newly created glm.ndarray (or else,
         # this will create GSP buffers)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 9a33576..a0c1157 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -33,9 +33,7 @@ class Polygons(visual.Polygons):
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-        model = model if model is not None else self._model
-        view = view if view is not None else self._view
-        proj = proj if proj is not None else self._proj
+        model, view, proj = self._model, self._view, self._proj
 
         # Disable tracking for newly created glm.ndarray (or else,
         # this will create GSP buffers)
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index e3319a9..3f3032a 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -31,9 +31,7 @@ class Segments(visual.Segments):
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-        model = model if model is not None else self._model
-        view = view if view is not None else self._view
-        proj = proj if proj is not None else self._proj
+        model, view, proj = self._model, self._view, self._proj
 
         # Disable tracking for newly created glm.ndarray (or else,
         # this will create GSP buffers)
-- 
2.43.0


From 655a4b5065ace08597dbcf0ae99f9bab2289c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 52/81] fix: convert nested lists to List and iterate over a
 List

---
 gsp/core/list.py            |  2 +-
 gsp_matplotlib/__init__.py  | 11 +++++------
 gsp_matplotlib/core/list.py | 13 +++++++++++++
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/gsp/core/list.py b/gsp/core/list.py
index ddca82f..61301c6 100644
--- a/gsp/core/list.py
+++ b/gsp/core/list.py
@@ -41,7 +41,7 @@ class List(Object):
         """ Return the number of items in the list """
         
         if isinstance(self._itemsizes, (int)):
-            return len(data) / self._itemsizes
+            return len(self._data) // self._itemsizes
         else:
             return len(self._itemsizes)
         
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 3fc141d..0929676 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,6 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
+from .core.list import List
 from gsp.core.types import Marker, LineCap, LineStyle, LineJoin, Matrix
 
 from gsp import transform
@@ -40,12 +41,10 @@ def list_to_Buffer(obj):
 
 @register("list", "List")
 def list_to_List(obj):
-    count = [len(sublist) for sublist in obj]
-    count = glm.ndarray.tracked(count)
-    items = [item for sublist in obj for item in sublist]
-    # items = glm.ndarray.tracked(items)
-    items = items.view(glm.ndarray.tracked)
-    return List(items, count)
+    items = [np.atleast_1d(np.asarray(item, dtype=np.int64)) for item in obj]
+    count = np.array([len(item) for item in items], dtype=np.int64)
+    items = np.concatenate(items + [np.empty(0, dtype=np.int64)])
+    return List(ndarray_to_Buffer(items), ndarray_to_Buffer(count))
 
 @register("int", "Marker")
 def int_to_Marker(obj):
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 37a57f0..45facf0 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp.io.command import command, register
 
 from gsp import core
+from . buffer import Buffer
 
 class List(core.List):
 
@@ -19,5 +20,17 @@ class List(core.List):
     def __array__(self):
         return self._data.__array__()
 
+    def __iter__(self):
+        """ Iterate over the (variable size) items of the list """
+
+        data = np.asarray(self)
+        sizes = self._itemsizes
+        if isinstance(sizes, int):
+            sizes = [sizes]*len(self)
+        start = 0
+        for size in np.asarray(sizes):
+            yield data[start:start+size]
+            start += size
+
     def __repr__(self):
         return f"List({len(self)}, {self._data._dtype})"
-- 
2.43.0


From a9ac6962b029d736ab3dfed88a0472e4f628be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 53/81] fix: create markers from buffers

---
 gsp_matplotlib/visual/markers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index d4fcc93..a43a4f3 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -36,6 +36,8 @@ class Markers(visual.Markers):
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
         angles = self.eval_variable("angles")
+        if isinstance(positions, Buffer):
+            positions = np.asanyarray(positions)
         self.paths = []
 
         for i in range(len(positions)):
-- 
2.43.0


From 3eb513907013170ea39bbafe6466125850e258d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 54/81] fix: keep the shape of multidimensional items in dtype
 descriptions

---
 gsp/io/convert.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index c920190..e71d2dd 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -143,17 +143,25 @@ def convert(value : object,
         raise ValueError(f"No converter found for converting '{value}' ({src_type}) to '{dst_type}'.")
 
 
+def numpy_shape_to_str(shape):
+    """ 3 for (3,), 2x3 for (2,3) and 1 for () """
+
+    return "x".join(str(n) for n in shape) or "1"
+
+def numpy_str_to_shape(desc):
+    return tuple(int(n) for n in desc.split("x"))
+
 @register("dtype", "str")
 def numpy_dtype_to_str(dt):
     if dt.names:
         elements = []
         for name in dt.names:
-            size = int(np.prod(dt[name].shape))
+            size = numpy_shape_to_str(dt[name].shape)
             type = dt[name].base.str
             elements.append (f"{type}:{name}:{size}")
         return ",".join(elements)
     else:
-        size = int(np.prod(dt.shape))
+        size = numpy_shape_to_str(dt.shape)
         type = dt.base.str
         return f"{type}::{size}"
 
@@ -164,13 +172,13 @@ def numpy_str_to_dtype(desc):
     for element in elements:
         type,name,size = element.split(":")
         if name :
-            if size and int(size) > 1:
-                dt.append((name, type, int(size)))
+            if size and size != "1":
+                dt.append((name, type, numpy_str_to_shape(size)))
             else:
                 dt.append((name, type))
         else:
-            if size and int(size) > 1:
-                dt.append((type, int(size)))
+            if size and size != "1":
+                dt.append((type, numpy_str_to_shape(size)))
             else:
                 dt.append(type)
     if len(dt) == 1 and not len(name):
-- 
2.43.0


From 56962ae72ed53458bd6a53db198770cede405b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 55/81] fix: parse svg commands that follow a closepath

---
 gsp/core/svg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index bcf525f..a1036d0 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -342,7 +342,6 @@ def _parse_path(pathdef, current_pos):
             yield COMMAND_CODES['Z'], verts
 
             current_pos = start_pos
-            start_pos = None
             command = None  # You can't have implicit commands after closing.
 
         # LINETO
@@ -395,7 +394,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'S':
             # Smooth curve. First control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'CS':
+            if last_command is None or last_command not in 'CS':
                 # If there is no previous command or if the previous command
                 # was not an C, c, S or s, assume the first control point is
                 # coincident with the current point.
@@ -437,7 +436,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'T':
             # Smooth curve. Control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'QT':
+            if last_command is None or last_command not in 'QT':
                 # If there is no previous command or if the previous command
                 # was not an Q, q, T or t, assume the first control point is
                 # coincident with the current point.
-- 
2.43.0


From 82f92b7006d5c0dcd3e1f140c9b3e582d424b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 56/81] fix: dump objects created by conversions whatever the
 recording mode

---
 gsp/io/json.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index d59fe44..bfc9fdf 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -64,17 +64,23 @@ def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
     queue = queue if queue is not None else CommandQueue("active")
-    active = CommandQueue("active")
     commands = []
-    for command in tuple(queue.commands):
-        # Just in time conversions may create objects (e.g. buffers): the
-        # commands creating them must precede the command using them.
-        count = len(active.commands)
-        payload = dump_command(command, stream=None)
-        for created in active.commands[count:]:
-            commands.append(dump_command(created, stream=None))
-        del active.commands[count:]
-        commands.append(payload)
+    # Just in time conversions may create objects (e.g. buffers): the commands
+    # creating them must precede the command using them. They are recorded in
+    # an anonymous queue, even if recording is currently off.
+    module = sys.modules[CommandQueue.__module__]
+    recording, active = module.__record__, CommandQueue.active
+    created = type.__call__(CommandQueue, "dump")
+    module.__record__ = True
+    try:
+        for command in tuple(queue.commands):
+            payload = dump_command(command, stream=None)
+            for other in created.commands:
+                commands.append(dump_command(other, stream=None))
+            created.empty()
+            commands.append(payload)
+    finally:
+        module.__record__, CommandQueue.active = recording, active
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From 69f0ac637768722c416b8647fd880ac8bca7c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 57/81] fix: never give a new object an id used by a loaded
 command stream

---
 gsp/io/json.py | 3 ++-
 gsp/object.py  | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index bfc9fdf..b4c15cd 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -6,7 +6,7 @@ import sys
 import json
 import base64
 import numpy as np
-from gsp.object import Object
+from gsp.object import Object, OID
 from . convert import convert
 from . command import CommandQueue, Command
 
@@ -114,6 +114,7 @@ def load(filename, queue = None):
         except ValueError:
             classname, methodname = method, "__init__"
         parameters = command["parameters"]
+        OID.reserved.add(parameters["id"])
         command = Command(classname,  methodname, parameters)
         queue.push(command)
 
diff --git a/gsp/object.py b/gsp/object.py
index d456099..aae7f22 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -22,6 +22,9 @@ class OID(int):
     # Identifier counter
     counter = itertools.count()
 
+    # Identifiers chosen by a loaded command stream that may not be ran yet
+    reserved = set()
+
     def __new__(cls, oid=None):
         """
         Creates a new identifier unless oid is provided
@@ -29,6 +32,8 @@ class OID(int):
 
         if oid is None:
             oid = 1 + next(OID.counter)
+            while oid in OID.reserved:
+                oid = 1 + next(OID.counter)
         else:
             oid = int(oid)
         return super(OID, cls).__new__(cls, oid)
-- 
2.43.0


From 8d30150d671a59ed1ef8d84f56a3a2c27aa65ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 58/81] fix: a loaded command has the name it has been saved
 with

---
 gsp/io/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index b4c15cd..be83166 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -112,7 +112,10 @@ def load(filename, queue = None):
         try:
             classname, methodname = method.split("/")
         except ValueError:
-            classname, methodname = method, "__init__"
+            if "." in method:
+                classname, methodname = method.split(".")[-1], method
+            else:
+                classname, methodname = method, "__init__"
         parameters = command["parameters"]
         OID.reserved.add(parameters["id"])
         command = Command(classname,  methodname, parameters)
-- 
2.43.0


From 2f793e207742c0d0fa5908895ed69a01bc20c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 59/81] fix: signal the region modified by any in-place
 operator

---
 gsp_matplotlib/glm/ndarray/tracked.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index d5cb90b..4a9528e 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -187,3 +187,24 @@ class tracked(np.ndarray):
 
     def __ifloordiv__(self, other):
         return self._inplace(np.ndarray.__ifloordiv__, other)
+
+    def __imod__(self, other):
+        return self._inplace(np.ndarray.__imod__, other)
+
+    def __ipow__(self, other):
+        return self._inplace(np.ndarray.__ipow__, other)
+
+    def __ilshift__(self, other):
+        return self._inplace(np.ndarray.__ilshift__, other)
+
+    def __irshift__(self, other):
+        return self._inplace(np.ndarray.__irshift__, other)
+
+    def __iand__(self, other):
+        return self._inplace(np.ndarray.__iand__, other)
+
+    def __ixor__(self, other):
+        return self._inplace(np.ndarray.__ixor__, other)
+
+    def __ior__(self, other):
+        return self._inplace(np.ndarray.__ior__, other)
-- 
2.43.0


From 71a467db7d71c085053361c51d20dd1c41beb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 60/81] fix: an in-place operator on an empty view modifies
 nothing

---
 gsp_matplotlib/glm/ndarray/tracked.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 4a9528e..15119e3 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -169,8 +169,10 @@ class tracked(np.ndarray):
         """ Apply an in-place operator and signal the modified region """
 
         result = operator(self, other)
-        self._update(*self._compute_extents(self))
-        self._flush()
+        start, stop = self._compute_extents(self)
+        if stop > start:
+            self._update(start, stop)
+            self._flush()
         return result
 
     def __iadd__(self, other):
-- 
2.43.0


From 09b259ce3ccd1e1293973acf767824d8b09c22c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 61/81] fix: components names can be mixed

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index 0ec0584..5bfaa57 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -22,7 +22,17 @@ class swizzle(tracked):
 
     swizzle = None
 
+    def _rename(self, key):
+        """ Rename components using the first set of names (xyba -> xyzw) """
+
+        names = dict(zip("".join(self.swizzle),
+                         self.swizzle[0]*len(self.swizzle)))
+        if all(c in names for c in key):
+            return "".join(names[c] for c in key)
+        return key
+
     def __getattr__(self, key):
+        key = self._rename(key)
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
                 return self[..., [swizzle.index(c) for c in key]]
@@ -32,6 +42,7 @@ class swizzle(tracked):
         """
         """
 
+        key = self._rename(key)
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
                 components = isinstance(value, (tuple, list))
-- 
2.43.0


From 4a756c177f00fd542df55321f6cb1ff49b9c9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 62/81] fix: convert integer vectors to vec2

---
 gsp_matplotlib/glm/vec234.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/vec234.py b/gsp_matplotlib/glm/vec234.py
index 82985c0..19d667d 100644
--- a/gsp_matplotlib/glm/vec234.py
+++ b/gsp_matplotlib/glm/vec234.py
@@ -67,7 +67,7 @@ def to_vec2(other, dtype  = None):
         elif V.shape[1] == 3:
             return _V
         elif V.shape[1] == 4:
-            _V /= V[:,3, np.newaxis]
+            _V[...] = V[:,:2] / V[:,3, np.newaxis]
             return _V
 
     raise TypeError("Cannot convert %s to vec2" % other)
-- 
2.43.0


From ea940dcf7c85111deddb87f43b345306bca28b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 63/81] fix: refuse to partition data into items of negative
 size

---
 gsp_matplotlib/glm/ndarray/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index bfe695c..0602258 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -78,7 +78,7 @@ class ragged:
             count = len(data) // itemsize
             itemsize = np.ones(count, dtype=int) * (len(data) // count)
         else:
-            if np.sum(itemsize) != len(data):
+            if np.sum(itemsize) != len(data) or np.any(np.less(itemsize, 0)):
                 raise ValueError("Cannot partition data as requested")
             count = len(itemsize)
 
-- 
2.43.0


From 6249409bc1942e597b58f3a5881a907bcb78366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 64/81] fix: a transform chained with a bound operator is bound

---
 gsp/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 7618489..3f3e207 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -130,7 +130,9 @@ class Transform(Object):
         """
         Indicate if this transform is bound
         """
-        return self.last.buffer is not None
+        if self._next:
+            return self._next.bound
+        return self._buffer is not None
 
     def copy(self):
         """
-- 
2.43.0


From 597cf14e82f5d4d1640c935be14c594cb9bb726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 65/81] fix: refuse an accessor key that is not a single
 component

---
 gsp/transform/accessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index a9ba501..28a7e6a 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -50,9 +50,9 @@ class Accessor(Transform):
 
         if buffer.dtype.names:
             buffer = buffer[self._key]
-        elif self._key in "xyzw":
+        elif self._key in tuple("xyzw"):
             buffer = buffer[..., "xyzw".index(self._key)]
-        elif self._key in "rgba":
+        elif self._key in tuple("rgba"):
             buffer = buffer[..., "rgba".index(self._key)]
         else:
             raise IndexError(f"Unknown key {self._key}")
-- 
2.43.0


From 949df9a5ccc730e06118910c31ab6615c7b966e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 66/81] fix: evaluate a transform bound to another transform

---
 gsp/transform/accessor.py | 2 ++
 gsp/transform/colormap.py | 2 ++
 gsp/transform/measure.py  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 28a7e6a..2e2c2b8 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -43,6 +43,8 @@ class Accessor(Transform):
     def evaluate(self, buffers=None):
         if self._next:
             buffer = self._next.evaluate(buffers)
+        elif isinstance(self._buffer, Transform):
+            buffer = self._buffer.evaluate(buffers)
         elif self._buffer is not None:
             buffer = np.asanyarray(self._buffer)
         else:
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 5aae7d4..412eb6e 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -78,6 +78,8 @@ class Colormap(Transform):
 
         if self._next:
             value = self._next.evaluate(buffers)
+        elif isinstance(self._buffer, Transform):
+            value = self._buffer.evaluate(buffers)
         else:
             value = np.asanyarray(self._buffer)
         cmap = plt.get_cmap(self._colormap)
diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 6cb1fd1..cbc56cc 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -76,6 +76,8 @@ class Measure(Transform):
 
         if self._next:
             value = self._next.evaluate(variables)
+        elif isinstance(self._buffer, Transform):
+            value = self._buffer.evaluate(variables)
         elif self._buffer is not None:
             value = self._buffer
         else:
-- 
2.43.0


From d4b4eaaafff2e327098cf73b38a69a55c9768b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 67/81] fix: do not draw points, pixels and markers twice

---
 gsp_matplotlib/visual/markers.py | 1 -
 gsp_matplotlib/visual/pixels.py  | 1 -
 gsp_matplotlib/visual/points.py  | 1 -
 3 files changed, 3 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index a43a4f3..ccb2db2 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -85,7 +85,6 @@ class Markers(visual.Markers):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 1fb6436..7028612 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -49,7 +49,6 @@ class Pixels(visual.Pixels):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 58917e9..d2c9500 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -43,7 +43,6 @@ class Points(visual.Points):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
-- 
2.43.0


From d7ffe555fc95a703869bc376e159c5bfd974cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 68/81] fix: create pixels, points and markers from transforms

---
 gsp/visual/markers.py            | 2 ++
 gsp/visual/pixels.py             | 2 ++
 gsp/visual/points.py             | 2 ++
 gsp_matplotlib/visual/markers.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/gsp/visual/markers.py b/gsp/visual/markers.py
index 5c463fa..8f70a6d 100644
--- a/gsp/visual/markers.py
+++ b/gsp/visual/markers.py
@@ -98,6 +98,8 @@ class Markers(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/pixels.py b/gsp/visual/pixels.py
index 005a9cd..a40ca80 100644
--- a/gsp/visual/pixels.py
+++ b/gsp/visual/pixels.py
@@ -66,6 +66,8 @@ class Pixels(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/points.py b/gsp/visual/points.py
index 3ab38ce..1f38a04 100644
--- a/gsp/visual/points.py
+++ b/gsp/visual/points.py
@@ -82,6 +82,8 @@ class Points(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index ccb2db2..75a643f 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -36,6 +36,8 @@ class Markers(visual.Markers):
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
         angles = self.eval_variable("angles")
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         if isinstance(positions, Buffer):
             positions = np.asanyarray(positions)
         self.paths = []
-- 
2.43.0


From 56150cab870f61e57c37debc07f18bdbf39989c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 69/81] fix: Buffer.set_data accepts bytes, like the backend
 and the constructor

---
 gsp/core/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/core/buffer.py b/gsp/core/buffer.py
index 2d62fa8..2de6579 100644
--- a/gsp/core/buffer.py
+++ b/gsp/core/buffer.py
@@ -40,7 +40,7 @@ class Buffer(Object):
 
     @command()
     def set_data(self, offset : int,
-                       data : memoryview):
+                       data : memoryview | bytes):
 
         """Update buffer content at given offset with new data.
 
-- 
2.43.0


From 0f247977485c35ae010eccd05d6315146462ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 70/81] fix: the buffer of a non contiguous tracked array
 follows the array

---
 gsp_matplotlib/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 0929676..2e70c1b 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -92,7 +92,8 @@ class Tracker:
             self.ndarray = ndarray
             # One item of the buffer is one row of the array
             dtype = np.dtype((ndarray.dtype, ndarray.shape[1:]))
-            data = np.ascontiguousarray(ndarray).data
+            # (a copy that the tracker updates when memory is not contiguous)
+            data = ndarray.data if ndarray.flags.c_contiguous else ndarray.tobytes()
             self.gsp_buffer = Buffer(len(ndarray), dtype, data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
-- 
2.43.0


From 503f3749c579cde291e0656e824ac6d866ce225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 71/81] fix: convert str (base64) to memoryview

---
 gsp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 5e32b83..1256ea0 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -18,7 +18,8 @@ if sys.version_info < (3, 11):
 
 @io.register("str", "memoryview")
 def str_to_memoryview(obj):
-    return memoryview(bytes(obj))
+    import base64
+    return memoryview(base64.b64decode(obj))
 
 @io.register("list", "Color")
 def list_to_Color(obj):
-- 
2.43.0


From 2fdc56eeee44584e6617650d057d1199f9e87127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 72/81] fix: convert Color (a named tuple) to list and tuple

---
 gsp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 1256ea0..297b6db 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -47,11 +47,11 @@ def tuple_to_Matrix(obj):
 
 @io.register("Color", "list")
 def Color_to_list(obj):
-    return obj._color.tolist()
+    return list(obj)
 
 @io.register("Color", "tuple")
 def Color_to_tuple(obj):
-    return tuple(obj._color.tolist())
+    return tuple(obj)
 
 @io.register("list", "tuple")
 def list_to_tuple(obj):
-- 
2.43.0


From bcd93a18b4421a2bf16ca23c61e115471bd83f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 73/81] fix: the text of a type keeps the padding of its fields

---
 gsp/io/convert.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index e71d2dd..a107ab1 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -155,10 +155,20 @@ def numpy_str_to_shape(desc):
 def numpy_dtype_to_str(dt):
     if dt.names:
         elements = []
+        end = 0
         for name in dt.names:
+            # Bytes that belong to no field are written as unnamed elements
+            padding = dt.fields[name][1] - end
+            if padding < 0:
+                raise ValueError("Fields overlap or are not in the order of memory")
+            if padding:
+                elements.append (f"|V{padding}::1")
             size = numpy_shape_to_str(dt[name].shape)
             type = dt[name].base.str
             elements.append (f"{type}:{name}:{size}")
+            end += padding + dt[name].itemsize
+        if dt.itemsize > end:
+            elements.append (f"|V{dt.itemsize - end}::1")
         return ",".join(elements)
     else:
         size = numpy_shape_to_str(dt.shape)
@@ -169,9 +179,14 @@ def numpy_dtype_to_str(dt):
 def numpy_str_to_dtype(desc):
     dt = []
     elements = desc.split(",")
+    padded = False
     for element in elements:
         type,name,size = element.split(":")
-        if name :
+        if len(elements) > 1 and not name and type.startswith("|V"):
+            # Bytes that belong to no field (see numpy_dtype_to_str)
+            dt.append((f"|{len(dt)}", type))
+            padded = True
+        elif name :
             if size and size != "1":
                 dt.append((name, type, numpy_str_to_shape(size)))
             else:
@@ -183,7 +198,15 @@ def numpy_str_to_dtype(desc):
                 dt.append(type)
     if len(dt) == 1 and not len(name):
         dt = dt[0]
-    return np.dtype(dt)
+    dt = np.dtype(dt)
+    if padded:
+        names = [element.split(":")[1] for element in elements]
+        fields = [(name, *dt.fields[field][:2])
+                  for name,field in zip(names, dt.names) if name]
+        names, formats, offsets = zip(*fields)
+        dt = np.dtype({"names": names, "formats": formats,
+                       "offsets": offsets, "itemsize": dt.itemsize})
+    return dt
 
 
 # ----------------------------------------------------------------------
-- 
2.43.0


From 1f5b350b32ce25e801ba35ff0f1e20dd3d3d99bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 74/81] fix: find the converter of a type given by name when
 the destination is a type

---
 gsp/io/convert.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index a107ab1..4c50291 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -98,6 +98,12 @@ def get_converter(value : object,
     A convert function or None
     """
 
+    # Get dst type
+    if isinstance(dst_type, type):
+        dst_type = dst_type.__name__
+    elif not isinstance(dst_type, str):
+        raise ValueError("dst_type must be a type or a string")
+
     # Get source type
     src_type = None
     if isinstance(value, type):
@@ -108,12 +114,6 @@ def get_converter(value : object,
         else:
             src_type = type(value).__name__
 
-    # Get dst type
-    if isinstance(dst_type, type):
-        dst_type = dst_type.__name__
-    elif not isinstance(dst_type, str):
-        raise ValueError("dst_type must be a type or a string")
-
     # Get direct converter
     converter = is_registered(src_type, dst_type)
     if converter:
-- 
2.43.0


From 2ddf2eef8951b663578e99752db607c252f08949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 75/81] fix: the converter from str comes before the converter
 from any type

---
 gsp/io/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 4c50291..c51d22e 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -109,7 +109,7 @@ def get_converter(value : object,
     if isinstance(value, type):
         src_type = value.__name__
     else:
-        if isinstance(value, str) and is_registered(value, dst_type):
+        if isinstance(value, str) and (value, dst_type) in converters:
             src_type = value
         else:
             src_type = type(value).__name__
-- 
2.43.0


From 73a32a00493a4bb46dd8f24a12640e8e5a9fd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 76/81] fix: trackball angles beyond a quarter turn are read as
 they were set

---
 gsp_matplotlib/glm/trackball.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/glm/trackball.py b/gsp_matplotlib/glm/trackball.py
index 33a6901..42c959b 100644
--- a/gsp_matplotlib/glm/trackball.py
+++ b/gsp_matplotlib/glm/trackball.py
@@ -192,9 +192,9 @@ class Trackball(object):
         ''' Return current computed orientation (theta,phi). '''
 
         q0,q1,q2,q3 = self._rotation
-        ax = math.atan(2*(q0*q1+q2*q3)/(1-2*(q1*q1+q2*q2)))*180.0/math.pi
-        az = math.atan(2*(q0*q3+q1*q2)/(1-2*(q2*q2+q3*q3)))*180.0/math.pi
-        return -az,ax
+        ax = math.atan2(2*(q0*q1+q2*q3), 1-2*(q1*q1+q2*q2))*180.0/math.pi
+        az = math.atan2(2*(q0*q3+q1*q2), 1-2*(q0*q0+q1*q1))*180.0/math.pi
+        return az,ax
 
     def _set_orientation(self, theta, phi):
         ''' Computes rotation corresponding to theta and phi. '''
-- 
2.43.0


From 982d4c907d7463e7fac36e50cee237d45e1f6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 77/81] fix: setting an angle of the trackball after a drag
 keeps the current other angle

---
 gsp_matplotlib/glm/trackball.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/trackball.py b/gsp_matplotlib/glm/trackball.py
index 42c959b..7f15c1c 100644
--- a/gsp_matplotlib/glm/trackball.py
+++ b/gsp_matplotlib/glm/trackball.py
@@ -174,7 +174,7 @@ class Trackball(object):
     @theta.setter
     def theta(self, theta):
         self._set_orientation(math.fmod(theta,360.0),
-                              math.fmod(self._phi,360.0))
+                              math.fmod(self.phi,360.0))
 
     @property
     def phi(self):
@@ -184,7 +184,7 @@ class Trackball(object):
 
     @phi.setter
     def phi(self, phi):
-        self._set_orientation(math.fmod(self._theta,360.),
+        self._set_orientation(math.fmod(self.theta,360.),
                               math.fmod(phi,360.0))
 
 
-- 
2.43.0


From 37d336091705d7836632f7ed8023ab0609f5939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 78/81] fix: align opposite vectors

---
 gsp_matplotlib/glm/glm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 8e490a4..8d175bd 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -535,7 +535,11 @@ def align(U, V, dtype=np.float32, transpose=False):
                   [ v[2],   0, -v[0]],
                   [-v[1], v[0],   0]])
     R = np.zeros((4,4), dtype=dtype)
-    R[:3, :3] = np.eye(3) + K + K@K / (1 + c)
+    if 1 + c > 1e-12:
+        R[:3, :3] = np.eye(3) + K + K@K / (1 + c)
+    else: # Opposite vectors: half turn around an orthogonal axis
+        k = normalize(np.cross(a, np.eye(3)[np.argmin(abs(a))]))
+        R[:3, :3] = 2*np.outer(k, k) - np.eye(3)
     R[3, 3] = 1
 
     if transpose:
-- 
2.43.0


From 95932dc5d18f717e1117fd9b1586a57d9e55a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 79/81] fix: objects given to a command are references when it
 is executed or saved

---
 gsp/io/command.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index e91d577..a77b8f4 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -372,11 +372,16 @@ class Command:
             raise ValueError("Parameters needs to have an id")
         self.classname = classname
         self.methodname = methodname
-        self.parameters = parameters
+        self.parameters = {}
 
         for key, value in parameters.items():
+            # References are marked as such
+            if (isinstance(value, (Object, OID)) and key != "id"
+                and not key.endswith("(id)")):
+                key = key + "(id)"
             if isinstance(value, Object):
-                self.parameters[key] = value.id
+                value = value.id
+            self.parameters[key] = value
 
         self.annotations = annotations
 
@@ -429,8 +434,6 @@ class Command:
         for key, value in parameters.items():
             if key.endswith("(id)"):
                 _parameters[key[:-4]] = Object.objects[value]
-            elif isinstance(value, OID):
-                parameters[key] = Object.objects[value]
             elif isinstance(value, Converter):
                 _parameters[key] = value()
             else:
-- 
2.43.0


From f7a111234b308b21c6c8be342f6c5b426d984ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 80/81] fix: the image of a resized canvas has its current size

---
 gsp_matplotlib/core/canvas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index 17ce1dd..af065c5 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -52,6 +52,7 @@ class Canvas(core.Canvas):
                 self._figure.savefig(output, format="raw")
                 output.seek(0)
                 data = np.frombuffer(output.getvalue(), dtype=np.uint8)
-            return data.reshape(self._height, self._width, -1)
+            width, height = self._figure.canvas.get_width_height()
+            return data.reshape(height, width, -1)
         else:
             self._figure.savefig(target, dpi=self._dpi)
-- 
2.43.0


From a838b3ca97a1e659d9f7a166de681f836ce186a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 81/81] fix: sizes and widths of points and markers may be
 computed from their depth

---
 gsp_matplotlib/visual/markers.py | 4 ++--
 gsp_matplotlib/visual/points.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 75a643f..3c8a579 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -145,13 +145,13 @@ class Markers(visual.Markers):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes(np.ravel(sizes))
 
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index d2c9500..ae49149 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -85,13 +85,13 @@ class Points(visual.Points):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes(np.ravel(sizes))
 
-- 
2.43.0

