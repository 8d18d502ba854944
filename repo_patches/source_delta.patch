From ae6c0bddffe0c55672c7490daa7f63176f86ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 01/44] fix: keep BackgroundWriteDatabase serving its queue
 after a failed write

---
 hypothesis-python/src/hypothesis/database.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 8442185..f29812e 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -14,6 +14,7 @@ import os
 import struct
 import sys
 import tempfile
+import threading
 import warnings
 import weakref
 from collections.abc import Iterable
@@ -988,8 +989,16 @@ class BackgroundWriteDatabase(ExampleDatabase):
     def _worker(self) -> None:
         while True:
             method, args = self._queue.get()
-            getattr(self._db, method)(*args)
-            self._queue.task_done()
+            try:
+                getattr(self._db, method)(*args)
+            except Exception:
+                # report the failed write, but keep serving the queue: if this
+                # thread died, every later fetch() would wait for it forever.
+                threading.excepthook(
+                    threading.ExceptHookArgs((*sys.exc_info(), self._thread))
+                )
+            finally:
+                self._queue.task_done()
 
     def _join(self, timeout: Optional[float] = None) -> None:
         # copy of Queue.join with a timeout. https://bugs.python.org/issue9634
-- 
2.43.0


From adbcf43ff3626b36e9eeb2c34bcbfcc827d3800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 02/44] fix: tolerate a key directory vanishing during
 DirectoryBasedExampleDatabase.fetch

---
 hypothesis-python/src/hypothesis/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index f29812e..e1c8489 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -359,9 +359,12 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
 
     def fetch(self, key: bytes) -> Iterable[bytes]:
         kp = self._key_path(key)
-        if not kp.is_dir():
+        try:
+            names = os.listdir(kp)
+        except OSError:
+            # no such key, or another process removed it while we were looking
             return
-        for path in os.listdir(kp):
+        for path in names:
             try:
                 yield (kp / path).read_bytes()
             except OSError:
-- 
2.43.0


From 76f570abd4fe6e1dfd57fe79dcc92e8756db1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 03/44] fix: save examples when the temporary directory is on
 another file system

---
 hypothesis-python/src/hypothesis/database.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index e1c8489..e37438d 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -9,6 +9,7 @@
 # obtain one at https://mozilla.org/MPL/2.0/.
 
 import abc
+import errno
 import json
 import os
 import struct
@@ -394,8 +395,22 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 os.close(fd)
                 try:
                     tmppath.rename(path)
-                except OSError:  # pragma: no cover
+                except OSError as err:  # pragma: no cover
                     tmppath.unlink()
+                    if err.errno != errno.EXDEV:
+                        return
+                    # the system temporary directory is on a different file
+                    # system to the database, so we can't rename from there.
+                    # Use a directory outside the database, so that neither
+                    # fetch() nor a listener ever sees the temporary file.
+                    fd, tmpname = tempfile.mkstemp(dir=self.path.parent)
+                    tmppath = Path(tmpname)
+                    os.write(fd, value)
+                    os.close(fd)
+                    try:
+                        tmppath.rename(path)
+                    except OSError:
+                        tmppath.unlink()
                 assert not tmppath.exists()
         except OSError:  # pragma: no cover
             pass
-- 
2.43.0


From d69e17a3277d362cc70ccd34d092e54af197b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 04/44] fix: reject instead of asserting when sampled_from has
 too few unique elements

---
 .../src/hypothesis/strategies/_internal/collections.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index bcdbe7f..24182b2 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -334,7 +334,9 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
-        assert self.max_size >= len(result) >= self.min_size
+        if len(result) < self.min_size:
+            data.mark_invalid("sampled_from elements exhausted below min_size")
+        assert self.max_size >= len(result)
         return result
 
 
-- 
2.43.0


From 2cb32a0ec9d4ac2c3035370f4c81573cc2fbedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 05/44] fix: support .flatmap() on stateful consumes(bundle)

---
 hypothesis-python/src/hypothesis/stateful.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 2ade095..798692c 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -569,7 +569,7 @@ class Bundle(SearchStrategy[Ex]):
 
     def flatmap(self, expand):
         if self.draw_references:
-            return type(self)(
+            return Bundle(
                 self.name,
                 consume=self.__reference_strategy.consume,
                 draw_references=False,
-- 
2.43.0


From b8ef5695336069e03709f7d556edd9f4afba2829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 06/44] fix: share values between shared() strategies with a
 falsey key

---
 hypothesis-python/src/hypothesis/strategies/_internal/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
index 285dbb6..ba25db5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
@@ -34,7 +34,7 @@ class SharedStrategy(SearchStrategy[Ex]):
     # Ideally would be -> Ex, but key collisions with different-typed values are
     # possible. See https://github.com/HypothesisWorks/hypothesis/issues/4301.
     def do_draw(self, data: ConjectureData) -> Any:
-        key = self.key or self
+        key = self if self.key is None else self.key
         if key not in data._shared_strategy_draws:
             data._shared_strategy_draws[key] = data.draw(self.base)
         return data._shared_strategy_draws[key]
-- 
2.43.0


From 0bdd9c7ad266937665e2b33e98dac5b97bb64cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 07/44] fix: do not print to stdout when filtering dates()

---
 .../src/hypothesis/strategies/_internal/datetime.py              | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
index 12f5154..88b84e8 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
@@ -290,7 +290,6 @@ class DateStrategy(SearchStrategy):
             }[condition.func]
             lo = max(lo, self.min_value)
             hi = min(hi, self.max_value)
-            print(lo, hi)
             if hi < lo:
                 return nothing()
             if lo <= self.min_value and self.max_value <= hi:
-- 
2.43.0


From 3b09288d17e95450b808e9408a31f1e8a745b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 08/44] fix: round bounds inwards when rewriting floats()
 filters

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index f56e9b8..eef783d 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -315,7 +315,7 @@ def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "min_value" in constraints:
         min_value = constraints["min_value"]
         constraints["min_value"] = float(constraints["min_value"])
-        if min_value < constraints["min_value"] or (
+        if min_value > constraints["min_value"] or (
             min_value == constraints["min_value"]
             and constraints.get("exclude_min", False)
         ):
@@ -324,7 +324,7 @@ def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "max_value" in constraints:
         max_value = constraints["max_value"]
         constraints["max_value"] = float(constraints["max_value"])
-        if max_value > constraints["max_value"] or (
+        if max_value < constraints["max_value"] or (
             max_value == constraints["max_value"]
             and constraints.get("exclude_max", False)
         ):
-- 
2.43.0


From bf4f73aed2238396b5bf25c241f5e7cfe396400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 09/44] fix: never replay a generated random value for
 different arguments

---
 .../src/hypothesis/strategies/_internal/random.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index e28b259..568b152 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -212,12 +212,14 @@ class ArtificialRandom(HypothesisRandom):
     def _hypothesis_do_random(self, method, kwargs):
         if method == "choices":
             key = (method, len(kwargs["population"]), kwargs.get("k"))
+        elif method == "sample":
+            key = (method, len(kwargs["population"]), kwargs["k"])
         elif method == "choice":
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
             key = (method, len(kwargs["x"]))
         else:
-            key = (method, *sorted(kwargs))
+            key = (method, *sorted(kwargs.items()))
 
         try:
             result, self.__state = self.__state.next_states[key]
-- 
2.43.0


From e988386d00c520447c2a037772dba65bf9ee5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 10/44] fix: accept bounds too large for a float when rewriting
 numeric filters

---
 .../src/hypothesis/internal/filtering.py           | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index eef783d..4f8285a 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -230,7 +230,7 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
         if (
             (isinstance(arg, Decimal) and Decimal.is_snan(arg))
             or not isinstance(arg, (int, float, Fraction, Decimal))
-            or math.isnan(arg)
+            or arg != arg  # nan; math.isnan would overflow for huge integers
         ):
             return unchanged
         options = {
@@ -287,7 +287,7 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "min_value" in constraints:
         if constraints["min_value"] == -math.inf:
             del constraints["min_value"]
-        elif math.isinf(constraints["min_value"]):
+        elif constraints["min_value"] == math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["min_value"] != int(constraints["min_value"]):
             constraints["min_value"] = ceil(constraints["min_value"])
@@ -297,7 +297,7 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
             del constraints["max_value"]
-        elif math.isinf(constraints["max_value"]):
+        elif constraints["max_value"] == -math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["max_value"] != int(constraints["max_value"]):
             constraints["max_value"] = floor(constraints["max_value"])
@@ -310,8 +310,16 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
 
 
 def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
+    original_predicate = predicate
     constraints, predicate = get_numeric_predicate_bounds(predicate)
 
+    try:
+        for bound in constraints.keys() & {"min_value", "max_value"}:
+            float(constraints[bound])
+    except OverflowError:
+        # no float is near this bound, so we can't express it as one
+        return ConstructivePredicate.unchanged(original_predicate)
+
     if "min_value" in constraints:
         min_value = constraints["min_value"]
         constraints["min_value"] = float(constraints["min_value"])
-- 
2.43.0


From 97ebe8d5da5f69451c90a45de21ab1ff49dfc1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 11/44] fix: clear undecodable examples from the secondary
 corpus too

---
 hypothesis-python/src/hypothesis/internal/conjecture/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 2d9c760..2c4de39 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -866,6 +866,7 @@ class ConjectureRunner:
                 if choices is None:
                     # clear out any keys which fail deserialization
                     self.settings.database.delete(self.database_key, existing)
+                    self.settings.database.delete(self.secondary_key, existing)
                     continue
                 data = self.cached_test_function(choices, extend="full")
                 if data.status != Status.INTERESTING:
-- 
2.43.0


From 83c60b38edd2bfdc58db97bf16088ffc3abab411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 12/44] fix: accept integral non-int bounds when filtering
 integers()

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 4f8285a..c7f8747 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -293,6 +293,8 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             constraints["min_value"] = ceil(constraints["min_value"])
         elif constraints.get("exclude_min", False):
             constraints["min_value"] = int(constraints["min_value"]) + 1
+        else:
+            constraints["min_value"] = int(constraints["min_value"])
 
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
@@ -303,6 +305,8 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             constraints["max_value"] = floor(constraints["max_value"])
         elif constraints.get("exclude_max", False):
             constraints["max_value"] = int(constraints["max_value"]) - 1
+        else:
+            constraints["max_value"] = int(constraints["max_value"])
 
     kw_categories = {"min_value", "max_value", "len"}
     constraints = {k: v for k, v in constraints.items() if k in kw_categories}
-- 
2.43.0


From 8a02a5baf725fb724ecc032c5b2bc9bab50feaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 13/44] fix: report failing explicit examples as failed to
 observability callbacks

---
 hypothesis-python/src/hypothesis/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 0498522..1b497c3 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -573,8 +573,13 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                     new.__cause__ = err
                     err = new
 
+                failed = isinstance(
+                    err, failure_exceptions_to_catch()
+                ) and not isinstance(err, skip_exceptions_to_reraise())
                 with contextlib.suppress(StopTest):
-                    empty_data.conclude_test(Status.INVALID)
+                    empty_data.conclude_test(
+                        Status.INTERESTING if failed else Status.INVALID
+                    )
                 yield (fragments_reported, err)
                 if (
                     state.settings.report_multiple_bugs
-- 
2.43.0


From 826e3226843c698ac8e9793d287d0f91c7708143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 14/44] fix: write saved examples completely or not at all

os.write() may write only part of the value (for example when the disk is
nearly full), in which case DirectoryBasedExampleDatabase.save published a
truncated example; and an error while writing left the temporary file behind.
---
 hypothesis-python/src/hypothesis/database.py | 31 ++++++++++----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index e37438d..055a4d9 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -389,32 +389,33 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 # directory, and only move to the final path after. This avoids
                 # any intermediate state where the file is created (and empty)
                 # but not yet written to.
-                fd, tmpname = tempfile.mkstemp()
-                tmppath = Path(tmpname)
-                os.write(fd, value)
-                os.close(fd)
                 try:
-                    tmppath.rename(path)
+                    self._publish(value, path)
                 except OSError as err:  # pragma: no cover
-                    tmppath.unlink()
                     if err.errno != errno.EXDEV:
                         return
                     # the system temporary directory is on a different file
                     # system to the database, so we can't rename from there.
                     # Use a directory outside the database, so that neither
                     # fetch() nor a listener ever sees the temporary file.
-                    fd, tmpname = tempfile.mkstemp(dir=self.path.parent)
-                    tmppath = Path(tmpname)
-                    os.write(fd, value)
-                    os.close(fd)
-                    try:
-                        tmppath.rename(path)
-                    except OSError:
-                        tmppath.unlink()
-                assert not tmppath.exists()
+                    self._publish(value, path, directory=self.path.parent)
         except OSError:  # pragma: no cover
             pass
 
+    def _publish(
+        self, value: bytes, path: Path, *, directory: Optional[Path] = None
+    ) -> None:
+        fd, tmpname = tempfile.mkstemp(dir=directory)
+        tmppath = Path(tmpname)
+        try:
+            # unlike os.write(), this either writes all of the value or raises
+            with open(fd, "wb") as f:
+                f.write(value)
+            tmppath.rename(path)
+        except OSError:  # pragma: no cover
+            tmppath.unlink()
+            raise
+
     def move(self, src: bytes, dest: bytes, value: bytes) -> None:
         if src == dest:
             self.save(src, value)
-- 
2.43.0


From d60beb657579e8da3c73b72ab706ff0be0bdb8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 15/44] fix: distinguish integer choices with different weights

choice_constraints_key() used only the keys of weights, so two draws over the
same values with different probabilities were pooled as one.
---
 .../src/hypothesis/internal/conjecture/choice.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 9cdd278..4c1d4ba 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -613,7 +613,11 @@ def choice_constraints_key(choice_type, constraints):
         return (
             constraints["min_value"],
             constraints["max_value"],
-            None if constraints["weights"] is None else tuple(constraints["weights"]),
+            (
+                None
+                if constraints["weights"] is None
+                else tuple(constraints["weights"].items())
+            ),
             constraints["shrink_towards"],
         )
     return tuple(constraints[key] for key in sorted(constraints))
-- 
2.43.0


From 85ebb774faf1810106cd73afee9f460da6566d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 16/44] fix: refuse to draw from a frozen ConjectureData

The other operations which change the recorded test case already check that
it is not frozen, but drawing a choice after freeze() appended a node to it.
---
 hypothesis-python/src/hypothesis/internal/conjecture/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/data.py b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
index 200ea12..21fbcda 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/data.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/data.py
@@ -738,6 +738,7 @@ class ConjectureData:
     # `observe` formalizes this. The choice will only be written to the choice
     # sequence if observe is True.
     def _draw(self, choice_type, constraints, *, observe, forced):
+        self.__assert_not_frozen("draw")
         # this is somewhat redundant with the length > max_length check at the
         # end of the function, but avoids trying to use a null self.random when
         # drawing past the node of a ConjectureData.for_choices data.
-- 
2.43.0


From 9aa6efa20aab9d051b67b97b81e3902847ca2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 17/44] fix: close the last element's span when a unique
 sampled list uses every element

---
 .../src/hypothesis/strategies/_internal/collections.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 24182b2..4d3d336 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -319,7 +319,7 @@ class UniqueSampledListStrategy(UniqueListStrategy):
 
         remaining = LazySequenceCopy(self.element_strategy.elements)
 
-        while remaining and should_draw.more():
+        while should_draw.more():
             j = data.draw_integer(0, len(remaining) - 1)
             value = self.element_strategy._transform(remaining.pop(j))
             if value is not filter_not_satisfied and all(
@@ -334,6 +334,10 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
+            if not remaining:
+                # There are no elements left to draw, so close the span of this one.
+                should_draw.stop_span()
+                break
         if len(result) < self.min_size:
             data.mark_invalid("sampled_from elements exhausted below min_size")
         assert self.max_size >= len(result)
-- 
2.43.0


From 495e0e1bfed9342eaf52e67f672f0a636bad6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 18/44] fix: Bundle(consume=True) passed directly to a rule
 consumes the values it draws

---
 hypothesis-python/src/hypothesis/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 798692c..f604c6f 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -482,8 +482,7 @@ class Rule:
             assert not isinstance(v, BundleReferenceStrategy)
             if isinstance(v, Bundle):
                 bundles.append(v)
-                consume = isinstance(v, BundleConsumer)
-                v = BundleReferenceStrategy(v.name, consume=consume)
+                v = BundleReferenceStrategy(v.name, consume=v.consume)
             self.arguments_strategies[k] = v
         self.bundles = tuple(bundles)
 
@@ -542,6 +541,7 @@ class Bundle(SearchStrategy[Ex]):
         self, name: str, *, consume: bool = False, draw_references: bool = True
     ) -> None:
         self.name = name
+        self.consume = consume
         self.__reference_strategy = BundleReferenceStrategy(name, consume=consume)
         self.draw_references = draw_references
 
-- 
2.43.0


From 39a3685b525a775d1b5913430fbb8cf3ffaabe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 19/44] fix: clear the monitoring events of the branch tracer
 when it exits

---
 hypothesis-python/src/hypothesis/internal/scrutineer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis-python/src/hypothesis/internal/scrutineer.py b/hypothesis-python/src/hypothesis/internal/scrutineer.py
index 1df6a04..d8cafe5 100644
--- a/hypothesis-python/src/hypothesis/internal/scrutineer.py
+++ b/hypothesis-python/src/hypothesis/internal/scrutineer.py
@@ -119,6 +119,7 @@ class Tracer:
             sys.settrace(None)
             return
 
+        sys.monitoring.set_events(MONITORING_TOOL_ID, sys.monitoring.events.NO_EVENTS)
         sys.monitoring.free_tool_id(MONITORING_TOOL_ID)
         for event in MONITORING_EVENTS:
             sys.monitoring.register_callback(MONITORING_TOOL_ID, event, None)
-- 
2.43.0


From 9f3b230d24db50c41d8791a2b6325f07f5a29096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 20/44] fix: restore the random state when seeding a registered
 generator fails

---
 hypothesis-python/src/hypothesis/internal/entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/entropy.py b/hypothesis-python/src/hypothesis/internal/entropy.py
index d7ce146..924bdfc 100644
--- a/hypothesis-python/src/hypothesis/internal/entropy.py
+++ b/hypothesis-python/src/hypothesis/internal/entropy.py
@@ -200,8 +200,8 @@ def deterministic_PRNG(seed: int = 0) -> Generator[None, None, None]:
         register_random(hypothesis.core._hypothesis_global_random)
 
     seed_all, restore_all = get_seeder_and_restorer(seed)
-    seed_all()
     try:
+        seed_all()
         yield
     finally:
         restore_all()
-- 
2.43.0


From e101a4402fc7f6fdf599f0ca06a15b7d090d5606 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 21/44] fix: keep the current profile when loading an
 unregistered one fails

---
 hypothesis-python/src/hypothesis/_settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index f341ecb..973e0e1 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -866,8 +866,9 @@ class settings(metaclass=settingsMeta):
         defined default for that setting.
         """
         check_type(str, name, "name")
+        profile = settings.get_profile(name)
         settings._current_profile = name
-        default_variable.value = settings.get_profile(name)
+        default_variable.value = profile
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 30aa8ee85831aa229031bfe88305848c3e5bfb87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 22/44] fix: raise InvalidArgument for a nan deadline

---
 hypothesis-python/src/hypothesis/_settings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index 973e0e1..9bcb77f 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -336,6 +336,9 @@ def _validate_deadline(
             raise invalid_deadline_error
         try:
             x = duration(milliseconds=x)
+        except ValueError:
+            # timedelta refuses nan
+            raise invalid_deadline_error from None
         except OverflowError:
             raise InvalidArgument(
                 f"deadline={x!r} is invalid, because it is too large to represent "
-- 
2.43.0


From 268b0514fd360de6ef440b4fcc875cd6dbf87544 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 23/44] fix: do not rewrite filters from the source of a
 wrapped predicate

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index c7f8747..8e42d0e 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -251,6 +251,9 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     # help to clarify it.  We start by finding the source code for our predicate and
     # parsing it to an abstract syntax tree; if this fails for any reason we bail out
     # and fall back to standard rejection sampling (a running theme).
+    if hasattr(predicate, "__wrapped__"):
+        # We would find the source of the wrapped function, not of this one.
+        return unchanged
     try:
         if predicate.__name__ == "<lambda>":
             source = extract_lambda_source(predicate)
-- 
2.43.0


From fd142fe7cb183275c6325a11683356a99e48344c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 24/44] fix: keep explicit infinite bounds when rewriting
 filters

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 8e42d0e..bb02e55 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -162,11 +162,11 @@ def merge_preds(*con_predicates: ConstructivePredicate) -> ConstructivePredicate
 
     if not base["exclude_min"]:
         del base["exclude_min"]
-        if base["min_value"] == -math.inf:
+        if not any("min_value" in kw for kw, _ in con_predicates):
             del base["min_value"]
     if not base["exclude_max"]:
         del base["exclude_max"]
-        if base["max_value"] == math.inf:
+        if not any("max_value" in kw for kw, _ in con_predicates):
             del base["max_value"]
     return ConstructivePredicate(base, predicate)
 
-- 
2.43.0


From 480f0b83f6211b55f0b505fb9ebea8aae21de5d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 25/44] fix: exclude the bound when rewriting floats() filters
 at zero or infinity

---
 hypothesis-python/src/hypothesis/internal/filtering.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index bb02e55..925d6e1 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -334,7 +334,10 @@ def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             min_value == constraints["min_value"]
             and constraints.get("exclude_min", False)
         ):
-            constraints["min_value"] = next_up(constraints["min_value"])
+            if constraints["min_value"] == math.inf:
+                return ConstructivePredicate({"min_value": 1.0, "max_value": -1.0}, None)
+            # `or 0.0` because the next float after -0.0 is 0.0, which is not greater
+            constraints["min_value"] = next_up(constraints["min_value"] or 0.0)
 
     if "max_value" in constraints:
         max_value = constraints["max_value"]
@@ -343,7 +346,9 @@ def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             max_value == constraints["max_value"]
             and constraints.get("exclude_max", False)
         ):
-            constraints["max_value"] = next_down(constraints["max_value"])
+            if constraints["max_value"] == -math.inf:
+                return ConstructivePredicate({"min_value": 1.0, "max_value": -1.0}, None)
+            constraints["max_value"] = next_down(constraints["max_value"] or -0.0)
 
     constraints = {
         k: v for k, v in constraints.items() if k in {"min_value", "max_value"}
-- 
2.43.0


From 03bdf450e5c7482d4430482dc82ce8d6eff672d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 26/44] fix: exclude nan when rewriting floats() filters with
 infinite bounds

---
 .../src/hypothesis/strategies/_internal/numbers.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 59bf66e..9c2b143 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -231,7 +231,7 @@ class FloatStrategy(SearchStrategy[float]):
         if (
             min_bound > self.min_value
             or self.max_value > max_bound
-            or (self.allow_nan and (-math.inf < min_bound or max_bound < math.inf))
+            or self.allow_nan  # no comparison is true of nan
         ):
             self = type(self)(
                 min_value=min_bound,
-- 
2.43.0


From 59d51745444886cc146325503b3f37872d628409 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 27/44] fix: filter infinite floats() by math.isfinite without
 an internal error

---
 .../src/hypothesis/strategies/_internal/numbers.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 9c2b143..5c0f0b2 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -191,9 +191,13 @@ class FloatStrategy(SearchStrategy[float]):
     def filter(self, condition):
         # Handle a few specific weird cases.
         if condition is math.isfinite:
+            min_value = max(self.min_value, next_up(float("-inf")))
+            max_value = min(self.max_value, next_down(float("inf")))
+            if min_value > max_value:
+                return nothing()
             return FloatStrategy(
-                min_value=max(self.min_value, next_up(float("-inf"))),
-                max_value=min(self.max_value, next_down(float("inf"))),
+                min_value=min_value,
+                max_value=max_value,
                 allow_nan=False,
                 smallest_nonzero_magnitude=self.smallest_nonzero_magnitude,
             )
-- 
2.43.0


From 9d12d3758017dd32492dd57865a3e88fb0ee18e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 28/44] fix: filter text() by the match method of patterns with
 flags

---
 .../src/hypothesis/strategies/_internal/strings.py   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 4f38627..043db58 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -248,8 +248,16 @@ def _string_filter_rewrite(self, kind, condition):
 
         if condition.__name__ == "match":
             # Replace with an easier-to-handle equivalent condition
-            caret, close = ("^(?:", ")") if kind is str else (b"^(?:", b")")
-            pattern = re.compile(caret + pattern.pattern + close, flags=pattern.flags)
+            # (in verbose mode, the pattern might end with a comment)
+            caret, close = r"\A(?:", "\n)" if pattern.flags & re.VERBOSE else ")"
+            if kind is bytes:
+                caret, close = caret.encode(), close.encode()
+            try:
+                pattern = re.compile(
+                    caret + pattern.pattern + close, flags=pattern.flags
+                )
+            except re.error:  # e.g. inline flags must be at the start
+                return None
             condition = pattern.search
 
         if condition.__name__ in ("search", "findall", "fullmatch"):
-- 
2.43.0


From fd61e14f80685f11c7cca012d0e227d61e4a116c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 29/44] fix: keep the sign of a zero bound when filtering
 floats()

---
 .../src/hypothesis/strategies/_internal/numbers.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 5c0f0b2..b76975d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -217,8 +217,8 @@ class FloatStrategy(SearchStrategy[float]):
         constraints, pred = get_float_predicate_bounds(condition)
         if not constraints:
             return super().filter(pred)
-        min_bound = max(constraints.get("min_value", -math.inf), self.min_value)
-        max_bound = min(constraints.get("max_value", math.inf), self.max_value)
+        min_bound = max(self.min_value, constraints.get("min_value", -math.inf))
+        max_bound = min(self.max_value, constraints.get("max_value", math.inf))
 
         # Adjustments for allow_subnormal=False, if any need to be made
         if -self.smallest_nonzero_magnitude < min_bound < 0:
-- 
2.43.0


From 660872e07e1f9cc39477a832967664211b051f41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 30/44] fix: keep filtering by str.split, which is falsey for
 whitespace

---
 .../src/hypothesis/strategies/_internal/strings.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 043db58..656e6a6 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -131,8 +131,6 @@ _nonempty_names = (
     "expandtabs",
     "join",
     "lower",
-    "rsplit",
-    "split",
     "splitlines",
     "swapcase",
     "title",
@@ -148,7 +146,9 @@ _nonempty_and_content_names = (
     "isspace",
     "istitle",
     "lstrip",
+    "rsplit",
     "rstrip",
+    "split",
     "strip",
 )
 
-- 
2.43.0


From 5b76d0dbcff6c733aed6436deff2cf0aa54c2218 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 31/44] fix: keep the empty string when filtering by
 str.isascii

---
 hypothesis-python/src/hypothesis/strategies/_internal/strings.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 656e6a6..071cf84 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -141,7 +141,6 @@ _nonempty_and_content_names = (
     "isupper",
     "isalnum",
     "isalpha",
-    "isascii",
     "isdigit",
     "isspace",
     "istitle",
-- 
2.43.0


From 2f17475cb738ce6de58d84bcdcdd12770def184f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 32/44] fix: keep the empty string when filtering by the split
 method of a pattern

---
 .../src/hypothesis/strategies/_internal/strings.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 071cf84..2a60e22 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -282,11 +282,11 @@ def _string_filter_rewrite(self, kind, condition):
         elif condition.__name__ == "split":
             warnings.warn(
                 f"You applied {pretty(condition)} as a filter, but this allows "
-                f"any nonempty string!  Did you mean .search ?",
+                f"any string at all!  Did you mean .search ?",
                 HypothesisWarning,
                 stacklevel=3,
             )
-            return self.filter(bool)
+            return self
 
     # We use ListStrategy filter logic for the conditions that *only* imply
     # the string is nonempty.  Here, we increment the min_size but still apply
-- 
2.43.0


From 5aecb078073d14a9dac377ba760248fc8cc7898a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 33/44] fix: do not rewrite filters or maps from part of a
 multi-line lambda

---
 .../src/hypothesis/internal/filtering.py      |  3 ++
 .../src/hypothesis/internal/reflection.py     | 29 +++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index 925d6e1..d0701ae 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -37,6 +37,7 @@ from hypothesis.internal.floats import next_down, next_up
 from hypothesis.internal.reflection import (
     extract_lambda_source,
     get_pretty_function_description,
+    is_lambda_source,
 )
 
 Ex = TypeVar("Ex")
@@ -257,6 +258,8 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     try:
         if predicate.__name__ == "<lambda>":
             source = extract_lambda_source(predicate)
+            if not is_lambda_source(source, predicate):
+                return unchanged
         else:
             source = inspect.getsource(predicate)
         tree: ast.AST = ast.parse(source)
diff --git a/hypothesis-python/src/hypothesis/internal/reflection.py b/hypothesis-python/src/hypothesis/internal/reflection.py
index 6e3de42..e531abc 100644
--- a/hypothesis-python/src/hypothesis/internal/reflection.py
+++ b/hypothesis-python/src/hypothesis/internal/reflection.py
@@ -28,7 +28,7 @@ from io import StringIO
 from keyword import iskeyword
 from random import _inst as global_random_instance
 from tokenize import COMMENT, detect_encoding, generate_tokens, untokenize
-from types import ModuleType
+from types import CodeType, ModuleType
 from typing import Any, Callable, Optional, TypeVar
 from unittest.mock import _patch as PatchType
 from weakref import WeakKeyDictionary
@@ -440,6 +440,30 @@ def extract_lambda_source(f):
     return source
 
 
+def is_lambda_source(source, f):
+    """Check that this source code compiles to the code of the lambda ``f``.
+
+    Where the body of a lambda continues on the next line, ``inspect.getsource``
+    might return only the first, which can be a valid expression on its own.
+    That is good enough for a description, but not to work out what ``f`` does.
+    """
+    expected = f.__code__
+    try:
+        # Nesting it in a function of the free variables makes them free here, too.
+        code = compile(
+            f"lambda {', '.join(expected.co_freevars)}: {source}", "<string>", "eval"
+        )
+    except SyntaxError:
+        return False
+    for _ in range(2):
+        code = next(c for c in code.co_consts if isinstance(c, CodeType))
+    return (code.co_code, code.co_consts, code.co_names) == (
+        expected.co_code,
+        expected.co_consts,
+        expected.co_names,
+    )
+
+
 def get_pretty_function_description(f: object) -> str:
     if isinstance(f, partial):
         return pretty(f)
@@ -671,4 +695,5 @@ def proxies(target: T) -> Callable[[Callable], T]:
 
 def is_identity_function(f: object) -> bool:
     # TODO: pattern-match the AST to handle `def ...` identity functions too
-    return bool(re.fullmatch(r"lambda (\w+): \1", get_pretty_function_description(f)))
+    source = get_pretty_function_description(f)
+    return bool(re.fullmatch(r"lambda (\w+): \1", source)) and is_lambda_source(source, f)
-- 
2.43.0


From 97383df149770ed5c3fd4f7c6f3dcb5a42c6a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 34/44] fix: respect map and filter on a sampled_from()
 alphabet of text() and from_regex()

---
 .../src/hypothesis/strategies/_internal/core.py        |  5 ++++-
 .../src/hypothesis/strategies/_internal/strings.py     | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 8e35eba..151372d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -810,7 +810,10 @@ def text(
     check_valid_sizes(min_size, max_size)
     if isinstance(alphabet, SearchStrategy):
         char_strategy = unwrap_strategies(alphabet)
-        if isinstance(char_strategy, SampledFromStrategy):
+        if (
+            isinstance(char_strategy, SampledFromStrategy)
+            and not char_strategy._transformations
+        ):
             # Check this via the up-front validation logic below, and incidentally
             # convert into a `characters()` strategy for standard text shrinking.
             return text(char_strategy.elements, min_size=min_size, max_size=max_size)
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 2a60e22..3ab98fb 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -27,6 +27,7 @@ from hypothesis.strategies._internal.strategies import (
     OneOfStrategy,
     SampledFromStrategy,
     SearchStrategy,
+    filter_not_satisfied,
 )
 from hypothesis.vendor.pretty import pretty
 
@@ -104,11 +105,16 @@ class OneCharStringStrategy(SearchStrategy[str]):
         if isinstance(char_strategy, cls):
             return char_strategy
         elif isinstance(char_strategy, SampledFromStrategy):
-            for c in char_strategy.elements:
+            chars = [
+                c
+                for c in map(char_strategy._transform, char_strategy.elements)
+                if c is not filter_not_satisfied
+            ]
+            for c in chars:
                 _check_is_single_character(c)
             return cls.from_characters_args(
                 categories=(),
-                include_characters=char_strategy.elements,
+                include_characters=chars,
             )
         elif isinstance(char_strategy, OneOfStrategy):
             intervals = IntervalSet()
-- 
2.43.0


From 7836d9eaca42d3178a5cf0d767020eacb6c5c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 35/44] fix: decimals(allow_infinity=True) does not generate
 infinities outside the bounds

---
 hypothesis-python/src/hypothesis/strategies/_internal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 151372d..6cdb526 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1746,9 +1746,9 @@ def decimals(
     special: list[Decimal] = []
     if allow_nan or (allow_nan is None and (None in (min_value, max_value))):
         special.extend(map(Decimal, ("NaN", "-NaN", "sNaN", "-sNaN")))
-    if allow_infinity or (allow_infinity is None and max_value is None):
+    if max_value is None and allow_infinity is not False:
         special.append(Decimal("Infinity"))
-    if allow_infinity or (allow_infinity is None and min_value is None):
+    if min_value is None and allow_infinity is not False:
         special.append(Decimal("-Infinity"))
     return strat | (sampled_from(special) if special else nothing())
 
-- 
2.43.0


From 2c8f7efad60bd35270e665c51b34ffda5a1604e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 36/44] fix: floats() rejects bounds that only contain
 subnormals if those are not allowed

---
 .../src/hypothesis/strategies/_internal/numbers.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index b76975d..f901fdd 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -483,6 +483,18 @@ def floats(
                 f"excludes values above float{width}'s "
                 f"smallest negative normal {-smallest_normal}"
             )
+    elif (
+        min_value is not None
+        and max_value is not None
+        and (
+            0 < min_value <= max_value < smallest_normal
+            or -smallest_normal < min_value <= max_value < 0
+        )
+    ):
+        raise InvalidArgument(
+            f"There are no normal {width}-bit floating-point values between "
+            f"{min_value=} and {max_value=}, but allow_subnormal=False"
+        )
 
     if min_value is None:
         min_value = float("-inf")
-- 
2.43.0


From 1ff3cf4fc59a9831e8a818f34621795fd828b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 37/44] fix: dates() rejects datetime bounds instead of failing
 with a TypeError

---
 .../src/hypothesis/strategies/_internal/datetime.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
index 88b84e8..8cbf1d4 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
@@ -309,8 +309,10 @@ def dates(
 
     Examples from this strategy shrink towards January 1st 2000.
     """
-    check_type(dt.date, min_value, "min_value")
-    check_type(dt.date, max_value, "max_value")
+    for name, value in [("min_value", min_value), ("max_value", max_value)]:
+        check_type(dt.date, value, name)
+        if isinstance(value, dt.datetime):
+            raise InvalidArgument(f"{name}={value!r} must be a date, not a datetime")
     check_valid_interval(min_value, max_value, "min_value", "max_value")
     if min_value == max_value:
         return just(min_value)
-- 
2.43.0


From 828d616b4c6edfcfb0e95694cfe013027851671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 38/44] fix: decimals(places=...) does not round its bounds
 outwards

---
 .../src/hypothesis/strategies/_internal/core.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 6cdb526..1e2bc7b 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1720,10 +1720,11 @@ def decimals(
 
         factor = Decimal(10) ** -places
         min_num, max_num = None, None
+        # Bounds may have more decimal places than we want, so this must be exact.
         if min_value is not None:
-            min_num = ceil(ctx(min_value).divide(min_value, factor))
+            min_num = ceil(Fraction(min_value) * 10**places)
         if max_value is not None:
-            max_num = floor(ctx(max_value).divide(max_value, factor))
+            max_num = floor(Fraction(max_value) * 10**places)
         if min_num is not None and max_num is not None and min_num > max_num:
             raise InvalidArgument(
                 f"There are no decimals with {places} places between "
-- 
2.43.0


From d55db032697234bc3b6daaaa359533f0cd99f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 39/44] fix: decimals() does not round values out of bounds

---
 .../src/hypothesis/strategies/_internal/core.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 1e2bc7b..72e7a0b 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1738,9 +1738,15 @@ def decimals(
                 ceil(math.log10(abs(val.numerator) or 1) + math.log10(val.denominator))
                 + 1
             )
-            return Context(prec=precision or 1).divide(
+            result = Context(prec=precision or 1).divide(
                 Decimal(val.numerator), val.denominator
             )
+            # Rounding to this precision must not take the value out of bounds.
+            if min_value is not None and result < min_value:
+                return min_value
+            if max_value is not None and result > max_value:
+                return max_value
+            return result
 
         strat = fractions(min_value, max_value).map(fraction_to_decimal)
     # Compose with sampled_from for infinities and NaNs as appropriate
-- 
2.43.0


From d78c3f80c6b6c374f49651c4addc7ee6530ecdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 40/44] fix: refuse a signalling NaN bound instead of failing
 with a ValueError

---
 hypothesis-python/src/hypothesis/internal/validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/validation.py b/hypothesis-python/src/hypothesis/internal/validation.py
index 9cf9df5..2de5625 100644
--- a/hypothesis-python/src/hypothesis/internal/validation.py
+++ b/hypothesis-python/src/hypothesis/internal/validation.py
@@ -59,7 +59,8 @@ def check_valid_bound(value, name):
         return
     if not isinstance(value, (Real, decimal.Decimal)):
         raise InvalidArgument(f"{name}={value!r} must be a real number.")
-    if math.isnan(value):
+    # Note that math.isnan() fails for signalling NaN decimals.
+    if value.is_nan() if isinstance(value, decimal.Decimal) else math.isnan(value):
         raise InvalidArgument(f"Invalid end point {name}={value!r}")
 
 
-- 
2.43.0


From f505af7c744c2ea687fc3d99b0323e2cd9625fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 41/44] fix: integers() refuses infinite bounds instead of
 failing with an OverflowError

---
 .../src/hypothesis/strategies/_internal/numbers.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index f901fdd..ca9d94d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -125,14 +125,14 @@ def integers(
     check_valid_interval(min_value, max_value, "min_value", "max_value")
 
     if min_value is not None:
-        if min_value != int(min_value):
+        if min_value in (math.inf, -math.inf) or min_value != int(min_value):
             raise InvalidArgument(
                 "min_value=%r of type %r cannot be exactly represented as an integer."
                 % (min_value, type(min_value))
             )
         min_value = int(min_value)
     if max_value is not None:
-        if max_value != int(max_value):
+        if max_value in (math.inf, -math.inf) or max_value != int(max_value):
             raise InvalidArgument(
                 "max_value=%r of type %r cannot be exactly represented as an integer."
                 % (max_value, type(max_value))
-- 
2.43.0


From e131af7af6cadf592b3a1cb8c6a2d44a25965dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 42/44] fix: times() refuses a timezones argument that is not a
 strategy, like datetimes() does

---
 .../src/hypothesis/strategies/_internal/datetime.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
index 8cbf1d4..9a72fe6 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
@@ -252,6 +252,11 @@ def times(
     if max_value.tzinfo is not None:
         raise InvalidArgument(f"{max_value=} must not have tzinfo")
     check_valid_interval(min_value, max_value, "min_value", "max_value")
+    if not isinstance(timezones, SearchStrategy):
+        raise InvalidArgument(
+            f"{timezones=} must be a SearchStrategy that can "
+            "provide tzinfo for times (either None or dt.tzinfo objects)"
+        )
     return TimeStrategy(min_value, max_value, timezones)
 
 
-- 
2.43.0


From 93265f2245267f2795960d0c1e5bdb3cc67a728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 43/44] fix: registering a type strategy discards the
 strategies cached by other threads

---
 .../src/hypothesis/strategies/_internal/utils.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/utils.py b/hypothesis-python/src/hypothesis/strategies/_internal/utils.py
index ec7e583..360457b 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/utils.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/utils.py
@@ -49,19 +49,21 @@ def convert_value(v):
 
 
 _CACHE = threading.local()
+# Replaced by clear_cache(), which makes every thread discard its own cache.
+_CACHE_TOKEN = object()
 
 
 def get_cache() -> LRUReusedCache:
-    try:
-        return _CACHE.STRATEGY_CACHE
-    except AttributeError:
+    token = _CACHE_TOKEN
+    if getattr(_CACHE, "TOKEN", None) is not token:
         _CACHE.STRATEGY_CACHE = LRUReusedCache(1024)
-        return _CACHE.STRATEGY_CACHE
+        _CACHE.TOKEN = token
+    return _CACHE.STRATEGY_CACHE
 
 
 def clear_cache() -> None:
-    cache = get_cache()
-    cache.clear()
+    global _CACHE_TOKEN
+    _CACHE_TOKEN = object()
 
 
 def cacheable(fn: "T") -> "T":
-- 
2.43.0


From 5e0bdedaa578993ed822a950634f68fd69b825c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 44/44] fix: from_type(LiteralString) uses a strategy that was
 registered for it

---
 .../src/hypothesis/strategies/_internal/core.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 72e7a0b..7d0f247 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1316,7 +1316,11 @@ def _from_type(thing: type[Ex]) -> SearchStrategy[Ex]:
             # We can't really cover this because it needs either
             # typing-extensions or python3.11+ typing.
             # `LiteralString` from runtime's point of view is just a string.
-            # Fallback to regular text.
+            # Fallback to regular text, unless there's a registered strategy.
+            if thing in types._global_type_lookup:
+                strategy = as_strategy(types._global_type_lookup[thing], thing)
+                if strategy is not NotImplemented:
+                    return strategy
             return text()
     # We also have a special case for TypeVars.
     # They are represented as instances like `~T` when they come here.
-- 
2.43.0

