From 5d6b2706e3f4c4053913936794ec390ef08665b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 01/48] fix: make dig_for search breadth-first as documented

---
 dustgoggles/structures.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..b5d5453 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -1,5 +1,5 @@
 """structured data and manipulators thereof"""
-from collections import defaultdict, OrderedDict
+from collections import defaultdict, deque, OrderedDict
 from copy import copy
 from functools import reduce, partial
 from itertools import chain
@@ -229,18 +229,15 @@ def dig_for(mapping, predicate, mtypes):
     """
     return the first item, using a breadth-first search, matching ref
     """
-    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
-    if level_items:
-        return level_items
-    if not nests:
-        return None
-    dug, iternests = None, iter(nests)
-    while dug is None:
-        try:
-            dug = dig_for(next(iternests), predicate, mtypes)
-        except StopIteration:
-            return None
-    return dug
+    queue = deque([mapping])
+    while queue:
+        level_items, nests = _evaluate_diglevel(
+            queue.popleft(), predicate, mtypes
+        )
+        if level_items:
+            return level_items
+        queue.extend(nests)
+    return None
 
 
 def dig_wrapper(mapping, ref, match, base_pred, element_ix, mtypes):
-- 
2.43.0


From 674c558c0c0bc7230b1bb953f6d99d35adc920c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 02/48] fix: apply rmerge's mtypes at every depth

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index b5d5453..399071e 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -303,7 +303,7 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]])
+            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
         else:
             output[kv[0]] = map2[kv[0]]
     return output
-- 
2.43.0


From e831fc71043f6d025c6b62a883023dc281a1f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 03/48] fix: get_from returns default for missing non-string
 keys

---
 dustgoggles/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 399071e..c263c05 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -154,7 +154,8 @@ def get_from(collection, keys, default=None):
     for key in keys:
         try:
             level = getitemattr(level, key)
-        except AttributeError:
+        except (AttributeError, TypeError):
+            # TypeError: key is not a string, so it cannot name an attribute
             return default
     return level
 
-- 
2.43.0


From 16181c35d70c8834140974ad6124d9abde1a5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 04/48] fix: do not treat unchunked MaybePool results as chunks
 after a chunked map

---
 dustgoggles/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index c263c05..0702bfd 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -374,13 +374,13 @@ class MaybePool:
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
             rec['kwargs'] = rec.get('kwargs', {})
-        if (as_chunks is False) or (self.pool is None):
+        self.chunked = (as_chunks is not False) and (self.pool is not None)
+        if self.chunked is False:
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
             }
         else:
-            self.chunked = True
             chunks = divide(self.threads, argrecs)
             self.results = {
                 f"chunk_{i}": self.apply(_chunkwrap, (func, chunk))
-- 
2.43.0


From 67ba2362234becdf67063f89711427d932796d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 05/48] fix: keep other results of a chunk when one of its jobs
 fails

---
 dustgoggles/structures.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 0702bfd..abe4da1 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -355,8 +355,9 @@ class MaybeResult:
 
 
 def _chunkwrap(func, argrecs):
+    # wrapped so that one failing job does not discard the rest of its chunk
     return {
-        rec['key']: func(*rec['args'], **rec['kwargs'])
+        rec['key']: MaybeResult(func, rec['args'], rec['kwargs'])
         for rec in argrecs
     }
 
@@ -408,16 +409,22 @@ class MaybePool:
         output = {}
         for k, v in self.results.items():
             try:
-                if self.chunked is True:
-                    output |= v.get()
-                else:
-                    output[k] = v.get()
+                value = v.get()
             except KeyboardInterrupt:
                 raise
             except Exception as ex:
                 if raise_exc:
                     raise ex
                 output[k] = ex
+                continue
+            if self.chunked is False:
+                output[k] = value
+                continue
+            for key, result in value.items():
+                if raise_exc:
+                    output[key] = result.get()
+                else:
+                    output[key] = result.value
         return output
 
     @property
-- 
2.43.0


From f4ba1fb540c13b320a067c36e5763e3d3042cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 06/48] fix: MaybePool.map no longer writes position keys into
 the caller's records

---
 dustgoggles/structures.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index abe4da1..356cc44 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -371,10 +371,11 @@ class MaybePool:
             self.pool = Pool(threads)
 
     def map(self, func, argrecs, as_chunks=False):
-        for i, rec in enumerate(argrecs):
-            rec['key'] = rec.get('key', i)
-            rec['args'] = rec.get('args', ())
-            rec['kwargs'] = rec.get('kwargs', {})
+        # copies, so that records can be reused at other positions
+        argrecs = [
+            {'key': i, 'args': (), 'kwargs': {}} | rec
+            for i, rec in enumerate(argrecs)
+        ]
         self.chunked = (as_chunks is not False) and (self.pool is not None)
         if self.chunked is False:
             self.results = {
-- 
2.43.0


From 6ef1c5069624746b05a8fd54d16f5fa042911766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 07/48] fix: replacing a step of a tracked Composition no
 longer tracks the old step too

---
 dustgoggles/composition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 1bea027..6f58f4b 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -77,6 +77,11 @@ class Composition:
     def _add_track_send(self, step_name: Hashable):
         if self.tracker is None:
             return
+        # if this step replaced another one, stop tracking the old one
+        self.sends[step_name] = [
+            send for send in self.sends.get(step_name, ())
+            if getattr(send[0], "is_track_pipe", False) is False
+        ]
         self.add_send(
             step_name,
             pipe=_track_factory(self.tracker, step_name, self.steps[step_name])
@@ -293,4 +298,5 @@ def _track_factory(tracker, step, func):
     def track(_):
         return tracker.track(func, step=step)
 
+    track.is_track_pipe = True
     return track
-- 
2.43.0


From 84ee2e58021edf448ed353c2fdb2a2dee31ea16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 08/48] fix: Composition.execute no longer turns a step's
 StopIteration into a RuntimeError

---
 dustgoggles/composition.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 6f58f4b..cc51b24 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -1,4 +1,3 @@
-from itertools import count
 from operator import attrgetter
 from typing import Optional, Union, Mapping, Any, Callable, Sequence, Hashable, \
     MutableSequence
@@ -247,17 +246,19 @@ class Composition:
 
     def execute(self, signal: Any = None, **special_kwargs):
         """execute the pipeline, initializing it with signal."""
-        step_ix = -1
+        step_ix = 0
         try:
-            iterpipe = self.itercall(signal, **special_kwargs)
-            state = None
-            for step_ix, state in zip(count(), iterpipe):
-                pass
-            return state
+            # not by way of itercall(): passing through a generator would
+            # turn a step's StopIteration into a RuntimeError
+            self._bind_special_runtime_kwargs(special_kwargs)
+            state, output = signal, None
+            for step_ix, step_name in enumerate(self.steps.keys()):
+                output = state = self._do_step(step_name, state)
+            return output
         except Exception as ex:
             if self.tracker is not None:
                 self.tracker.track(
-                    self.steps[tuple(self.steps.keys())[step_ix + 1]],
+                    self.steps[tuple(self.steps.keys())[step_ix]],
                     **exc_report(ex)
                 )
             if self.optional is True:
-- 
2.43.0


From 114ca94ec9b77efc3e789045d58c51f471e3ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 09/48] fix: unloading a Dynamic that was never loaded no
 longer raises

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..bcc321d 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -134,7 +134,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From b0a8205f57188b43f29647956c1e4868acbee458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 10/48] fix: Dynamic.from_function keeps source and globals, so
 that it can be reloaded

---
 dustgoggles/dynamic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index bcc321d..3520958 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -1,5 +1,6 @@
 """utilities for dynamic function generation and code introspection"""
 from inspect import getsource, signature, Signature, getmodule
+from textwrap import dedent
 from types import FunctionType, CodeType, MethodType
 from typing import Optional, Callable, MutableSequence
 
@@ -174,17 +175,21 @@ class Dynamic:
         #  fancy getattr overrides
         dynamic = super().__new__(cls)
         try:
-            dynamic.source = getsource(func)
+            source = getsource(func)
         except TypeError:  # it's some kind of weirdo callable
             # noinspection PyUnresolvedReferences
             func = func.__call__
-            dynamic.source = getsource(func)
+            source = getsource(func)
         dynamic.code = func.__code__
         dynamic.func = func
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
-        dynamic.globals_ = func.__globals__
         dynamic.__init__(*init_args, **init_kwargs)
+        # the constructor overwrites these; they are needed to reload
+        if dynamic.source is None:
+            dynamic.source = dedent(source)
+        if dynamic.globals_ is None:
+            dynamic.globals_ = func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 619f9e0ae67970b6eca104efbfd15d994b192a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 11/48] fix: dynamically defined functions keep their default
 arguments

---
 dustgoggles/dynamic.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 3520958..387d0a0 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -1,5 +1,7 @@
 """utilities for dynamic function generation and code introspection"""
+import ast
 from inspect import getsource, signature, Signature, getmodule
+from itertools import chain
 from textwrap import dedent
 from types import FunctionType, CodeType, MethodType
 from typing import Optional, Callable, MutableSequence
@@ -55,6 +57,26 @@ def define(code: CodeType, globals_: Optional[dict] = None) -> FunctionType:
     return FunctionType(code, globals_)
 
 
+def get_defaults(source: str, globals_: dict) -> tuple:
+    """
+    evaluate the default arguments of the first function defined in source
+    (which are not part of that function's code object).
+    """
+    node = nth(0, chain(filter(
+        lambda n: isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)),
+        ast.parse(source).body
+    ), (None,)))
+    if node is None:
+        return None, None
+
+    def evaluate(expr):
+        return eval(compile(ast.Expression(expr), "", "eval"), dict(globals_))
+
+    named = zip(node.args.kwonlyargs, node.args.kw_defaults)
+    kwdefaults = {n.arg: evaluate(d) for n, d in named if d is not None}
+    return tuple(map(evaluate, node.args.defaults)), kwdefaults
+
+
 def exc_report(exc, stringify_exception=True):
     if exc is None:
         return {}
@@ -130,7 +152,11 @@ class Dynamic:
     def define(self, redefine=False):
         if (self.func is not None) and (redefine is not True):
             raise AlreadyLoadedError("self.func already defined")
-        self.func = define(self.code, self.globals_)
+        func = define(self.code, self.globals_)
+        func.__defaults__, func.__kwdefaults__ = get_defaults(
+            self.source, func.__globals__
+        )
+        self.func = func
         self.__signature__ = signature(self.func)
         self.__name__ = self.func.__name__
 
-- 
2.43.0


From 4117935f73d4fb01fd8574fd2363fda9020787d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 12/48] fix: delete_block's missing_ok accepts a missing block

---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..a417b92 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -49,7 +49,7 @@ def delete_block(address: str, missing_ok=False):
         block = SharedMemory(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From f93345d1223232831e0744cbe16587a09049c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 13/48] fix: deleting from a MetaTagIndex no longer waits on
 its own lock

---
 dustgoggles/codex/implements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..1c973ee 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -583,7 +583,8 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            # not super().__delitem__(), which would wait for our own lock
+            found_at = super()._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 54d03161545f81ba1e64bbcf485b3b4f3dd094e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 14/48] fix: Notepad lookups raise KeyError for missing keys
 and only for those

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 1c973ee..e3805be 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -748,10 +748,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not apparently assigned")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From f0bb4a028c7439fe09bb760f7c4a1dc0ae23ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 15/48] fix: GridPaper.clear no longer fails

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index e3805be..d7517b6 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -922,7 +922,7 @@ class GridPaper(AbstractNotepad):
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
+        for key in self.update_index():
             del self[key]
 
     def __str__(self):
-- 
2.43.0


From 653277f62bb805ef6ca44b31685f6afe2919585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 16/48] fix: arrays of any size and dimensionality can be
 stored and replaced

---
 dustgoggles/codex/codecs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..185fd50 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,11 +133,19 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        if array.dtype.hasobject:
+            raise TypeError("can't place arrays of Python objects in memory")
+        if (exists_ok is False) and exists_block(address):
+            raise FileExistsError
+        # blocks cannot be empty
+        blocksize = max(array.size * array.itemsize, 1)
+        block = open_block(address, blocksize)
+        if block.size != blocksize:
+            block = open_block(address, blocksize, overwrite=True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
             "dtype": array.dtype.str,
-- 
2.43.0


From d4610486260bc81be5c49cf70e9c118e1ccc2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 17/48] fix: a Sticky can be restuck with an object of another
 size

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index d7517b6..233ee43 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -988,7 +988,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From b80f0e9a40dc39d6a1668938b025457c6038d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 18/48] fix: a key that cannot be stored does not corrupt its
 index

---
 dustgoggles/codex/implements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 233ee43..fedef0a 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -420,7 +420,6 @@ class TagIndex(ShareableIndex):
             raise FileExistsError
         self.update_length()
         new_length_bytes = (self.length + 1).to_bytes(8, "little")
-        self.memory.buf[:] = new_length_bytes
         keybytes = str(key).encode()
         keyblock = open_block(
             self.key_address(self.length),
@@ -432,6 +431,8 @@ class TagIndex(ShareableIndex):
         position_bytes = self.length.to_bytes(8, "little")
         nameblock = open_block(self.hash_address(key), create=True, size=8)
         nameblock.buf[:] = position_bytes
+        # last, so that a key that cannot be stored is not counted
+        self.memory.buf[:] = new_length_bytes
         if getattr(self, "debug") is True:
             log(f"{here()},,set {self.length} to {key}")
         return self.length
-- 
2.43.0


From da6fd14f95c59abf281287f2c5d3de7150c4e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 19/48] fix: failing to store a value does not leave its key
 listed

---
 dustgoggles/codex/implements.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fedef0a..470a8c9 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -570,9 +570,15 @@ class MetaTagIndex(TagIndex):
 
     def add(self, key, value=None, exists_ok=True):
         with self.lock_class(self.name, self.debug):
+            is_new = self.check(key) is None
             writehead = super()._add(key, exists_ok)
             if value is not None:
-                self.memorize(value, self.val_address(writehead))
+                try:
+                    self.memorize(value, self.val_address(writehead))
+                except Exception:
+                    if is_new is True:
+                        super()._delitem(key)
+                    raise
             return writehead
 
     def __getitem__(self, key):
@@ -764,8 +770,15 @@ class Notepad(AbstractNotepad):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
         try:
+            is_new = not exists_block(self.address(key))
             self.index.add(key, meta, exists_ok=exists_ok)
-            self.memorize(value, self.address(key), exists_ok)
+            try:
+                self.memorize(value, self.address(key), exists_ok)
+            except Exception:
+                # do not list a key that was not stored
+                if is_new is True:
+                    self.index.remove(key)
+                raise
             if self.debug is True:
                 log(f"{here()},,set key={key} to {value}")
         except FileExistsError:
@@ -870,6 +883,7 @@ class GridPaper(AbstractNotepad):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved namespace.")
         try:
+            is_new = not exists_block(self.address(key))
             metadata, block = self.memorize(
                 value, self.address(key), exists_ok, keep_open
             )
@@ -880,7 +894,13 @@ class GridPaper(AbstractNotepad):
                 f"{key} already exists in this object's cache. pass "
                 f"exists_ok=True to overwrite it."
             )
-        self.index.add(key, metadata)
+        try:
+            self.index.add(key, metadata)
+        except Exception:
+            # do not keep an array whose key cannot be listed
+            if is_new is True:
+                delete_block(self.address(key))
+            raise
 
     def _add_index_key(self, key):
         raise TypeError
-- 
2.43.0


From a718047196f75068241e0ed52b00fa526ad6c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 20/48] fix: no key can be used to delete a notepad's own index
 blocks

---
 dustgoggles/codex/implements.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 470a8c9..aa32aae 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -767,7 +767,7 @@ class Notepad(AbstractNotepad):
             return default
 
     def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
-        if isinstance(key, str) and key.startswith("index"):
+        if str(key).startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
         try:
             is_new = not exists_block(self.address(key))
@@ -791,8 +791,8 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if str(key).startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
@@ -880,7 +880,7 @@ class GridPaper(AbstractNotepad):
     def __setitem__(
         self, key, value, exists_ok: bool = True, keep_open: bool = False
     ):
-        if isinstance(key, str) and key.startswith("index"):
+        if str(key).startswith("index"):
             raise KeyError("'index' is a reserved namespace.")
         try:
             is_new = not exists_block(self.address(key))
@@ -922,8 +922,8 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if str(key).startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-- 
2.43.0


From c47f52e7c9356f8cc4d4dea9c6f32173c7c564d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 21/48] fix: closing an index also removes the blocks of its
 keys

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index aa32aae..74a0bf7 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -485,6 +485,8 @@ class TagIndex(ShareableIndex):
             return self._delitem(target)
 
     def close(self):
+        for key in self.update():
+            self.remove(key)
         self.memory.unlink()
         self.memory.close()
         if exists_block(f"{self.name}_count"):
-- 
2.43.0


From 5445a775e83c138d3956c7d85b3cd5998d61828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 22/48] fix: only one process at a time can be inside a
 SlidingLock

---
 dustgoggles/codex/implements.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 74a0bf7..34609da 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -158,6 +158,7 @@ class SlidingLock:
     def __init__(self, name, debug=False):
         self.name = name
         self.lock = None
+        self.held = None
         self.count = open_block(f"{self.name}_count", 5)
         self.number = 0
         self.floor = None
@@ -219,9 +220,19 @@ class SlidingLock:
         except FileExistsError:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},already have lock")
-            self.acquired = True
+            self.acquired = self.held is not None
         while self.acquired is False:
-            self.acquired = self._check_acquirement()
+            self.acquired = self._check_acquirement() and self._hold()
+
+    def _hold(self):
+        # precedence alone does not exclude processes that have not placed
+        # their lock yet or that read the count before it was last set
+        try:
+            self.held = SharedMemory(f"{self.name}_held", size=1, create=True)
+        except FileExistsError:
+            self.wait()
+            return False
+        return True
 
     def wait(self):
         self.spins += 1
@@ -237,7 +248,7 @@ class SlidingLock:
             self.count.buf[:] = self.number.to_bytes(5, "little")
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},set floor to {self.number}")
-        for thing in ("lock", "marker"):
+        for thing in ("lock", "marker", "held"):
             block = getattr(self, thing)
             if block is None:
                 continue
@@ -249,7 +260,7 @@ class SlidingLock:
         self.acquired = False
 
     def close(self):
-        for obj in self.lock, self.count, self.marker:
+        for obj in self.lock, self.count, self.marker, self.held:
             try:
                 delete_block(obj.name)
             except (FileNotFoundError, TypeError, AttributeError):
-- 
2.43.0


From cd50d69b9145b23955c123199003511ddaa3f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 23/48] fix: a SlidingLock can be released whatever its count

---
 dustgoggles/codex/implements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 34609da..454940b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -245,7 +245,9 @@ class SlidingLock:
 
     def release(self):
         if self.acquired is True:
-            self.count.buf[:] = self.number.to_bytes(5, "little")
+            # start over rather than outgrow the count block
+            floor = self.number % 2 ** 40
+            self.count.buf[:] = floor.to_bytes(5, "little")
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},set floor to {self.number}")
         for thing in ("lock", "marker", "held"):
-- 
2.43.0


From 3f894b2a31b74b3cede8e3d0b911aa6678f1822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 24/48] fix: metadata records of files without statistics do
 not fail

---
 dustgoggles/mosaic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..bf4e1af 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -27,7 +27,8 @@ def parquet_metadata_records(parquet_fn):
     ):
         record = meta.row_group(group_ix).column(col_ix).to_dict()
         if "statistics" in record.keys():
-            record |= record.pop("statistics")
+            # these are None if the file has no statistics
+            record |= record.pop("statistics") or {}
         records.append(record | {"row_group": group_ix, "col_ix": col_ix})
     return records
 
-- 
2.43.0


From c18472906e2db7b59104c01e0446fb30c0963ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 25/48] fix: sort_chunked passes verbose on as verbose

---
 dustgoggles/mosaic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index bf4e1af..2fe8747 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -157,7 +157,11 @@ def sort_chunked(
     try:
         for window in windows:
             window_table = read_between(
-                sort_reader, sort_column, window, relevant_records, verbose
+                sort_reader,
+                sort_column,
+                window,
+                relevant_records,
+                verbose=verbose
             )
             if window_table is None:
                 continue
-- 
2.43.0


From 351c338dce9b2d552ac971684d71ed9ea466ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 26/48] fix: sort_chunked sorts in descending order across
 chunks

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 2fe8747..3923364 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -154,6 +154,8 @@ def sort_chunked(
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
     windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    if direction == "descending":
+        windows.reverse()
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From af0019de29d1160a0de550a4280d9eddd8a5756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 27/48] fix: sort_chunked keeps the largest values, and sorts
 large integers

---
 dustgoggles/mosaic.py | 44 +++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 3923364..bc19a36 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -98,12 +98,17 @@ def read_between(
 ):
     """
     managed read-between bounds operation, more efficient in some cases
-    than parquet.read_table with specified filters
+    than parquet.read_table with specified filters. either bound may be None
+    for a range that is open at that end.
     """
+    lower, upper = bounds
     bound_records = []
     for rec in meta_records:
-        if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
-            bound_records.append(rec)
+        if upper is not None and rec["min"] > upper:
+            continue
+        if lower is not None and rec["max"] < lower:
+            continue
+        bound_records.append(rec)
     if verbose is True:
         print(len(bound_records), len(meta_records))
     if len(bound_records) == 0:
@@ -112,14 +117,32 @@ def read_between(
 
     for rec in bound_records:
         group = parquet_file.read_row_group(rec["row_group"])
-        less_than = pac.filter(group, pac.less(group[field], bounds[1]))
-        more_than = pac.filter(
-            less_than, pac.greater_equal(less_than[field], bounds[0])
-        )
-        bound_groups.append(more_than)
+        if upper is not None:
+            group = pac.filter(group, pac.less(group[field], upper))
+        if lower is not None:
+            group = pac.filter(group, pac.greater_equal(group[field], lower))
+        bound_groups.append(group)
     return pa.concat_tables(bound_groups)
 
 
+def _sort_windows(min_value, max_value, n_chunks):
+    """consecutive ranges that include all values. the outer ones are open."""
+    import numpy as np
+
+    if isinstance(min_value, int):
+        # not all integers can be compared to floats
+        edges = [
+            min_value + (max_value - min_value) * ix // (n_chunks - 1)
+            for ix in range(n_chunks)
+        ]
+    elif np.isfinite(float(max_value) - float(min_value)):
+        edges = np.linspace(min_value, max_value, n_chunks).tolist()
+    else:
+        edges = [None, None]
+    edges[0], edges[-1] = None, None
+    return list(windowed(edges, 2))
+
+
 def sort_chunked(
     input_file,
     output_file,
@@ -133,8 +156,6 @@ def sort_chunked(
     verbose=True,
     version="2.6"
 ):
-    import numpy as np
-
     write_kwargs, open_kwargs = {}, {}
     if row_group_size is not None:
         write_kwargs["row_group_size"] = row_group_size
@@ -152,8 +173,7 @@ def sort_chunked(
     )
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
-    windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    windows = _sort_windows(min_value, max_value, n_chunks)
     if direction == "descending":
         windows.reverse()
     try:
-- 
2.43.0


From 787acd6e69fd90a0246e086391cc158f7317fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 28/48] fix: sort_chunked does not leave its output open if it
 cannot start

---
 dustgoggles/mosaic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index bc19a36..6fee727 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -168,14 +168,14 @@ def sort_chunked(
     ]
     if schema is None:
         schema = sort_reader.read_row_group(0).schema
-    sort_writer = parquet.ParquetWriter(
-        output_file, version=version, schema=schema, **open_kwargs
-    )
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = _sort_windows(min_value, max_value, n_chunks)
     if direction == "descending":
         windows.reverse()
+    sort_writer = parquet.ParquetWriter(
+        output_file, version=version, schema=schema, **open_kwargs
+    )
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From 5d316515fcdca19ffec9ffdc613194b226e71d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 29/48] fix: duplicate columns that differ are not dropped

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 382d9cd..bb4f2bd 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -50,7 +50,8 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     if len(extra_columns) == 0:
         return dataframe
     for column in extra_columns:
-        test_equality = dataframe.loc[:, column] == dataframe.loc[:, column]
+        group = dataframe.loc[:, column]
+        test_equality = group.eq(group.iloc[:, 0], axis=0)
         if not test_equality.all(axis=None):
             raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
-- 
2.43.0


From 6dab5aca5ce1b2016958e76a3a18f330c07512e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 30/48] fix: extract_constants handles columns of lists

---
 dustgoggles/pivot.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index bb4f2bd..eee6d04 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -57,6 +57,16 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
+def _all_equal(series: pd.Series) -> bool:
+    if len(series) == 0:
+        return True
+    first = series.iloc[0]
+    if isinstance(first, list):
+        # pandas would compare the elements of the list to the series
+        return all(value == first for value in series)
+    return bool((series == first).all())
+
+
 def extract_constants(
     df: pd.DataFrame,
     to_dict=True,
@@ -76,27 +86,14 @@ def extract_constants(
     """
     if how not in ("rows", "columns"):
         raise ValueError(f"unknown how {how}")
-    if how == "rows":
-        constant_indices = pd.Series(False, df.columns)
-    else:
-        constant_indices = pd.Series(False, df.index)
-    try:
-        method = "iterrows" if how == "columns" else "items"
-        for ix, series in getattr(df, method)():
-            series = series if dropna is False else series.dropna()
-            if (len(series) == 0) or (series == series.iloc[0]).all():
-                constant_indices.loc[ix] = True
-    except TypeError:
-        # TODO: still necessary?
-        if how == "columns":
-            raise NotImplementedError("nested fields not supported columnwise")
-        for c in df.columns:
-            if isinstance(df[c].iloc[0], list):
-                test_series = df[c].map(tuple)
-            else:
-                test_series = df[c]
-            if (test_series.iloc[0] == test_series).all():
-                constant_indices.loc[c] = True
+    method = "iterrows" if how == "columns" else "items"
+    constant_indices = np.array(
+        [
+            _all_equal(series if dropna is False else series.dropna())
+            for _, series in getattr(df, method)()
+        ],
+        dtype=bool
+    )
     if how == "rows":
         constants = df.loc[:, constant_indices]
         variables = df.loc[:, ~constant_indices]
-- 
2.43.0


From 23374e54fa7807d125889ba4e0c5d9b0652cf0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 31/48] fix: extract_constants reports the constant values

---
 dustgoggles/pivot.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index eee6d04..c3cf9ba 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -67,6 +67,14 @@ def _all_equal(series: pd.Series) -> bool:
     return bool((series == first).all())
 
 
+def _constant_value(series: pd.Series) -> Any:
+    present = series.dropna()
+    if len(present) > 0:
+        return itemize_numpy(present.iloc[0])
+    # nothing but missing values, or nothing at all
+    return None if len(series) == 0 else series.iloc[0]
+
+
 def extract_constants(
     df: pd.DataFrame,
     to_dict=True,
@@ -101,7 +109,10 @@ def extract_constants(
         constants = df.loc[constant_indices]
         variables = df.loc[~constant_indices]
     if to_dict:
-        constants = constants.iloc[0].to_dict()
+        constants = {
+            ix: _constant_value(series)
+            for ix, series in getattr(constants, method)()
+        }
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From 13431c6916c121b867a3ffaad4a8f52e9ba2de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 32/48] fix: check_in_dtype_bounds is exact for wide integer
 types

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index c3cf9ba..d734d60 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -158,6 +158,9 @@ def check_in_dtype_bounds(
     amin: Union[int, float], amax: Union[int, float], dt: np.dtype
 ):
     info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)
+    if dt.kind in 'iu' and isinstance(amin, np.floating):
+        # numpy would round the limits of wide integer types
+        amin, amax = amin.item(), amax.item()
     try:
         return bool(amin >= info.min and amax <= info.max)
     except TypeError:  # just too big!
-- 
2.43.0


From 8fe3f462cf389ed42f92737ca1222fdd82ccce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 33/48] fix: downcast returns a record for zeros with missing
 values

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index d734d60..00d27b4 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -221,7 +221,7 @@ def downcast(
     if arr_nzero.size == 0 and not has_nonfinite:
         return _maybeseries(arr, np.uint8, library, name, 0, 0)
     elif arr_nzero.size == 0 and use_nillable_int is False:
-        return arr.astype(np.float16)
+        return _maybeseries(arr, np.float16, library, name, 0, 0)
     elif arr_nzero.size == 0:
         return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
     amin, amax = arr_finite.min(), arr_finite.max()
-- 
2.43.0


From 4a2b9a53a9ef6567e63eb2655f958597b55785fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 34/48] fix: downcast can produce nillable integers

---
 dustgoggles/pivot.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 00d27b4..b8cee79 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -168,7 +168,10 @@ def check_in_dtype_bounds(
 
 
 def _maybeseries(arr, dtype, library, name, aerr, rerr):
-    arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
+    if isinstance(dtype, pd.api.extensions.ExtensionDtype):
+        arr = pd.array(np.trunc(arr), dtype=dtype)
+    else:
+        arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
     if library == 'pandas':
         arr = pd.Series(arr, name=name)
     return {'recast': arr, 'aerr': aerr, 'rerr': rerr}
@@ -216,6 +219,9 @@ def downcast(
         # there's no meaningful way to recast in this case
         return _maybeseries(arr, arr.dtype, library, name, 0, 0)
     has_nonfinite = arr_finite.size < arr.size
+    if np.isinf(arr).any():
+        # nillable integers have no infinities
+        use_nillable_int = False
     nzero_mask = arr_finite != 0
     arr_nzero = arr_finite[nzero_mask]
     if arr_nzero.size == 0 and not has_nonfinite:
@@ -250,9 +256,8 @@ def downcast(
             continue
         if kind in ('uint', 'int') and has_nonfinite:
             # we've already checked to make sure we're returning this as pandas
-            dtype = getattr(
-                pd, f"{kind[0].upper()}{kind[1:].capitalize}{number}Dtype"
-            )()
+            nillable = {'uint': 'UInt', 'int': 'Int'}[kind]
+            dtype = getattr(pd, f"{nillable}{number}Dtype")()
         return _maybeseries(arr, dtype, library, name, aerr, rerr)
     raise TypeError("Unusual error in recasting this array.")
 
-- 
2.43.0


From b83f0538e747ee59d7840ab20eca519af2b113df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 35/48] fix: downcast_df keeps the index

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index b8cee79..deb0157 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -275,9 +275,9 @@ def downcast_df(
         if not is_numeric_dtype(col.dtype):
             cast_series.append(col if copy_all is False else col.copy())
             continue
-        cast_series.append(
-            downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
-        )
+        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
+        recast.index = col.index
+        cast_series.append(recast)
     if reassemble is True:
         return pd.concat(cast_series, axis=1)
     return cast_series
-- 
2.43.0


From ed81d2cdb526ac5864577983191cbf80d2927b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 36/48] fix: unpack_column handles duplicate labels and leaves
 its input alone

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index deb0157..caf7b50 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -334,8 +334,11 @@ def unpack(series: pd.Series):
 
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
+    # labels may be duplicated, and the original should not gain columns
+    index, df = df.index, df.reset_index(drop=True)
     unpacked = unpack(df[colname])
     df.loc[unpacked.index, unpacked.columns] = unpacked
+    df.index = index
     return df.drop(columns=colname)
 
 
-- 
2.43.0


From 5f3dafb24d2da9519e6ff0adecf58e73857a04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 37/48] fix: unique_to_records includes records with missing
 values

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index caf7b50..317f6fb 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -343,7 +343,7 @@ def unpack_column(df: pd.DataFrame, colname):
 
 
 def unique_to_records(df, cols):
-    unique_tuples = df[cols].value_counts().index.to_list()
+    unique_tuples = df[cols].value_counts(dropna=False).index.to_list()
     records = [
         {col: value for col, value in zip(cols, values)}
         for values in unique_tuples
-- 
2.43.0


From b3878b945596755203a81e2e94183e9cfeb6a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 38/48] fix: dupe_df_block does not convert columns to a common
 type

---
 dustgoggles/pivot.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 317f6fb..a8e47d6 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -33,10 +33,9 @@ def dupe_df_block(dataframe: pd.DataFrame, repeats: int):
     """
     create a new dataframe by duplicating "dataframe" "repeats" times
     """
-    return pd.DataFrame(
-        np.repeat(dataframe.values, repeats, axis=0),
-        columns=dataframe.columns,
-    )
+    # the columns may not all fit into an array of one type
+    rows = np.repeat(np.arange(len(dataframe)), repeats)
+    return dataframe.iloc[rows].reset_index(drop=True)
 
 
 # TODO, maybe: allow this to work with columns that have collections
-- 
2.43.0


From ba71091b2f212e74483ddda1a6e4b6e1b6e9ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 39/48] fix: captured text that is no literal never makes
 scraping fail

---
 dustgoggles/scrape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..395db99 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,10 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        except (
+            ValueError, SyntaxError, TypeError, MemoryError, RecursionError
+        ):
+            # everything literal_eval may raise for text that is no literal
             return result.group(1)
 
     return scrape
-- 
2.43.0


From b887c891a3e8bbbd5c3ffbb8a80dcdbd0c422e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 40/48] fix: extended metadata summary of columns with equal
 sizes in every row group

---
 dustgoggles/mosaic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 6fee727..f6a61bc 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -18,6 +18,10 @@ BRIEF_PQ_META_FIELDS = (
     "col_ix",
 )
 
+SUMMED_FIELDS = [
+    "num_values", "total_compressed_size", "total_uncompressed_size"
+]
+
 
 def parquet_metadata_records(parquet_fn):
     meta = parquet.read_metadata(parquet_fn)
@@ -39,14 +43,13 @@ def _flatten_meta_df(meta_df, extended):
     col_series = []
     for col in meta_df["path_in_schema"].unique():
         col_slice = meta_df.loc[meta_df["path_in_schema"] == col]
-        constants, _ = extract_constants(col_slice)
+        # sums replace constants
+        constants, _ = extract_constants(col_slice.drop(columns=SUMMED_FIELDS))
         if extended is False:
             constants = keyfilter(
                 lambda k: k in BRIEF_PQ_META_FIELDS, constants
             )
-        col_stats = col_slice[
-            ["num_values", "total_compressed_size", "total_uncompressed_size"]
-        ].sum()
+        col_stats = col_slice[SUMMED_FIELDS].sum()
         col_series.append(pd.concat([pd.Series(constants), col_stats]))
     return pd.concat(col_series, axis=1).T
 
-- 
2.43.0


From d9f33bb20c5f8dfff861df76ebc1aae8156bf914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 41/48] fix: ast codec could not restore strings (str() of a
 string is not a literal)

---
 dustgoggles/codex/codecs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 185fd50..f883838 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -40,7 +40,8 @@ def ast_codec_factory():
     Python literals than using JSON serialization, but is much slower.
     """
     def encode(value: Any) -> bytes:
-        return str(value).encode()
+        # str() of a string is not a literal
+        return repr(value).encode()
 
     def decode(blob: bytes) -> Any:
         return ast.literal_eval(blob.decode())
-- 
2.43.0


From 3b98a576d1fc3e4d0f5c0a2aba98c2bc2412a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 42/48] fix: digsource could not get the source of a Dynamic,
 or of a partial of one

---
 dustgoggles/dynamic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 387d0a0..4950f20 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -31,9 +31,12 @@ def digsource(obj: Callable):
     """
     if isinstance(obj, (FunctionType, MethodType)):
         return getsource(obj)
+    if isinstance(obj, Dynamic) and obj.source is not None:
+        # dynamically-defined functions have no source file
+        return obj.source
     if "func" in dir(obj):
         # noinspection PyUnresolvedReferences
-        return getsource(obj.func)
+        return digsource(obj.func)
     raise TypeError(f"cannot get source for type {type(obj)}")
 
 
-- 
2.43.0


From baf74918dd3b8222bfc9ac1c851d4f45d1e27e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 43/48] fix: reindexing a pipeline separated its steps from
 their inserts, sends and tracking

---
 dustgoggles/composition.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index cc51b24..d02ff1d 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -87,7 +87,33 @@ class Composition:
         )
 
     def reindex(self):
+        """
+        rename the steps to their positions. inserts, sends, and captures stay
+        with their steps.
+        """
+        new = {name: ix for ix, name in enumerate(self.steps.keys())}
+
+        def rename(mapping):
+            others = {
+                k: v for k, v in mapping.items()
+                if k not in new.keys() and k not in new.values()
+            }
+            return others | {
+                new[k]: v for k, v in mapping.items() if k in new.keys()
+            }
+
         self.steps = reindex_mapping(self.steps)
+        self.inserts, self.sends = rename(self.inserts), rename(self.sends)
+        if self.captures is not None:
+            self.captures = rename(self.captures)
+        for step_name, buses in self.sends.items():
+            self.sends[step_name] = [
+                (pipe, new.get(target, target), pointer)
+                if isinstance(target, (str, int)) else (pipe, target, pointer)
+                for pipe, target, pointer in buses
+            ]
+        # tracked under their new names
+        self._add_track_sends()
 
     @property
     def index(self):
-- 
2.43.0


From 82d697271b2be6688748fec835cf637ee93966c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 44/48] fix: dumping a key that is not in a notepad emptied the
 file it was to go to

---
 dustgoggles/codex/implements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 454940b..873f01d 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -825,9 +825,11 @@ class Notepad(AbstractNotepad):
     def dump(self, key, fn=None, mode="wb"):
         if fn is None:
             fn = f"{self.prefix}_{key}".replace(".", "_")
+        # before touching the file, in case there is no such key
+        raw = self.get_raw(key)
         with open(fn, mode) as file:
             # noinspection PyTypeChecker
-            file.write(self.get_raw(key))
+            file.write(raw)
 
     def close(self, dump=False):
         try:
-- 
2.43.0


From 129deb4ab97d9929186c26f20b50e4932bd47e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 45/48] fix: a wait for a lock that was interrupted left blocks
 behind that made everyone wait

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 873f01d..6dfb3c8 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -173,7 +173,7 @@ class SlidingLock:
         try:
             self._renumber()
             self.acquire()
-        except Exception as ex:
+        except BaseException as ex:  # also when interrupted while waiting
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},crashing out: {ex}")
             self.release()
-- 
2.43.0


From 08a50b47e9cef28779024ccec0f31a49f371163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 46/48] fix: a pulled sticky that was to be cleaned up on exit
 removed the next note at its address

---
 dustgoggles/codex/implements.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 6dfb3c8..a59dd6f 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -982,6 +982,7 @@ class Sticky:
         self.address = str(address)
         self.encode, self.decode = pickle_codec_factory()
         self._cached_value = value
+        self.cleanup_on_exit = cleanup_on_exit
         if cleanup_on_exit is True:
             atexit.register(self.close)
 
@@ -1019,6 +1020,8 @@ class Sticky:
         block = SharedMemory(self.address)
         block.unlink()
         block.close()
+        # whatever is stuck here from now on is not ours
+        atexit.unregister(self.close)
 
     def pull(self):
         return self.close()
@@ -1029,6 +1032,10 @@ class Sticky:
         block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
+        if self.cleanup_on_exit is True:
+            # may have been unregistered by an earlier pull
+            atexit.unregister(self.close)
+            atexit.register(self.close)
 
     def __str__(self):
         if self._cached_value is not None:
-- 
2.43.0


From 61ce7ec509422a68aa66e043eb338c4a0fd2ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 47/48] fix: pass resources other than shared memory on to the
 tracker after deactivating it

---
 dustgoggles/codex/memutilz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index a417b92..bf3da97 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -84,14 +84,14 @@ def deactivate_shared_memory_resource_tracker():
     def fix_register(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.register(self, name, rtype)
+        return resource_tracker._resource_tracker.register(name, rtype)
     resource_tracker.register = fix_register
 
     # noinspection PyUnresolvedReferences
     def fix_unregister(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.unregister(self, name, rtype)
+        return resource_tracker._resource_tracker.unregister(name, rtype)
     resource_tracker.unregister = fix_unregister
 
     if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
-- 
2.43.0


From aa317ba4c073b9ffb7c6b80a68beec498f6d8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 48/48] fix: exit cleanup of a Sticky with nothing stuck to its
 address

---
 dustgoggles/codex/implements.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index a59dd6f..1a47ca6 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -984,7 +984,8 @@ class Sticky:
         self._cached_value = value
         self.cleanup_on_exit = cleanup_on_exit
         if cleanup_on_exit is True:
-            atexit.register(self.close)
+            # there may be nothing stuck to our address by then
+            atexit.register(self.close, missing_ok=True)
 
     @classmethod
     def note(
@@ -1016,10 +1017,8 @@ class Sticky:
         self._cached_value = self.decode(stream)
         return self._cached_value
 
-    def close(self):
-        block = SharedMemory(self.address)
-        block.unlink()
-        block.close()
+    def close(self, missing_ok=False):
+        delete_block(self.address, missing_ok)
         # whatever is stuck here from now on is not ours
         atexit.unregister(self.close)
 
@@ -1035,7 +1034,7 @@ class Sticky:
         if self.cleanup_on_exit is True:
             # may have been unregistered by an earlier pull
             atexit.unregister(self.close)
-            atexit.register(self.close)
+            atexit.register(self.close, missing_ok=True)
 
     def __str__(self):
         if self._cached_value is not None:
-- 
2.43.0

