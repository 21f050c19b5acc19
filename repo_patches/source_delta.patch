From b32a35965fd4903202bc7df172a87e680296c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 01/15] fix: release and join the workers when starting one
 fails or is interrupted

If a thread could not be started, or KeyboardInterrupt arrived while the
workers were being started, the pool waited for workers that never received
their DONE item (a hang), or left them running after run had raised.
---
 .../_execution/run_function_on_graph.py       | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/uberjob/_execution/run_function_on_graph.py b/src/uberjob/_execution/run_function_on_graph.py
index 153dc26..e9341a3 100644
--- a/src/uberjob/_execution/run_function_on_graph.py
+++ b/src/uberjob/_execution/run_function_on_graph.py
@@ -44,12 +44,6 @@ def coerce_max_errors(max_errors):
     return max_errors
 
 
-def thread(fn):
-    t = threading.Thread(target=fn)
-    t.start()
-    return t
-
-
 DONE = object()
 
 
@@ -64,19 +58,26 @@ def worker_thread(queue, process_item):
             finally:
                 queue.task_done()
 
-    return thread(process_items)
+    return threading.Thread(target=process_items)
 
 
 @contextmanager
-def worker_pool(queue, process_item, worker_count):
+def worker_pool(queue, process_item, worker_count, *, on_exit):
     workers = []
     try:
         for _ in range(worker_count):
-            workers.append(worker_thread(queue, process_item))
+            worker = worker_thread(queue, process_item)
+            workers.append(worker)
+            worker.start()
         yield
     finally:
+        # This must also release the workers when starting one of them fails or is interrupted.
+        on_exit()
+        for _ in workers:
+            queue.put(DONE)
         for worker in workers:
-            worker.join()
+            if worker.is_alive():
+                worker.join()
 
 
 class PreparedNodes(NamedTuple):
@@ -154,13 +155,12 @@ def run_function_on_graph(
                         if remaining_pred_count_mapping[successor] == 0:
                             queue.put(successor)
 
-    with worker_pool(queue, process_node, worker_count):
-        try:
-            queue.join()
-        finally:
-            stop = True
-            for _ in range(worker_count):
-                queue.put(DONE)
+    def set_stop():
+        nonlocal stop
+        stop = True
+
+    with worker_pool(queue, process_node, worker_count, on_exit=set_stop):
+        queue.join()
 
     if first_node_error:
         raise first_node_error
-- 
2.43.0


From 86557252f8dd85f374e02b7973c1ba0cf6237a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 02/15] fix: report dependency cycles that consist of literals
 only

Pruning a literal with a self-loop removed the loop, so a cycle among
literals was silently ignored instead of being reported.
---
 src/uberjob/_transformations/pruning.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_transformations/pruning.py b/src/uberjob/_transformations/pruning.py
index c4a20f5..ea193bc 100644
--- a/src/uberjob/_transformations/pruning.py
+++ b/src/uberjob/_transformations/pruning.py
@@ -48,8 +48,9 @@ def prune_plan(
 def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     """
     Prunes the literal if:
-    a) it is not an argument to any function, and
-    b) removing it does not increase the number of dependencies in the graph.
+    a) it is not an argument to any function,
+    b) it does not depend on itself, and
+    c) removing it does not increase the number of dependencies in the graph.
     """
     if not all(
         type(dependency) is Dependency
@@ -60,6 +61,10 @@ def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     predecessors = list(plan.graph.predecessors(literal))
     successors = list(plan.graph.successors(literal))
 
+    # Removing a literal that depends on itself would hide the cycle.
+    if literal in predecessors:
+        return
+
     m = len(predecessors)
     n = len(successors)
 
-- 
2.43.0


From 982ca05bc037d911e2a2355176057356d08bd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 03/15] fix: do not assign __traceback__ on user exceptions

Exceptions that forbid attribute assignment, such as frozen dataclasses,
made the handler itself fail: observers got no failed notification and the
raised CallError was caused by FrozenInstanceError instead of the call's
exception. BaseException.with_traceback does not go through __setattr__.
---
 src/uberjob/_execution/run_physical.py  | 2 +-
 src/uberjob/_transformations/caching.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_execution/run_physical.py b/src/uberjob/_execution/run_physical.py
index 3294665..62c30e2 100644
--- a/src/uberjob/_execution/run_physical.py
+++ b/src/uberjob/_execution/run_physical.py
@@ -102,7 +102,7 @@ def prep_run_physical(
                 bound_call.value.run(node.fn, retry)
             except Exception as exception:
                 # Drop internal frames
-                exception.__traceback__ = exception.__traceback__.tb_next.tb_next
+                exception.with_traceback(exception.__traceback__.tb_next.tb_next)
                 progress_observer.increment_failed(
                     section="run",
                     scope=scope,
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index c5b4110..be4f476 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -110,7 +110,7 @@ def _get_stale_nodes(
                 process(node)
             except Exception as exception:
                 # Drop internal frames
-                exception.__traceback__ = (
+                exception.with_traceback(
                     exception.__traceback__.tb_next.tb_next.tb_next
                 )
                 progress_observer.increment_failed(
-- 
2.43.0


From 30a59f34b2d2c591002383ce9da9c649bbee6670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 04/15] fix: report a failing modified-time query of a
 registered literal as a CallError

---
 src/uberjob/_plan.py                    |  7 +++++--
 src/uberjob/_transformations/caching.py | 11 ++++++++++-
 src/uberjob/graph.py                    |  6 ++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index dca52ac..b2d4f1a 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -87,7 +87,10 @@ class Plan:
         """
         if isinstance(value, Node):
             raise TypeError(f"The value is already a {Node.__name__}.")
-        literal = Literal(value, scope=self._scope)
+        return self._lit(get_stack_frame(), value)
+
+    def _lit(self, stack_frame, value) -> Literal:
+        literal = Literal(value, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(literal)
         return literal
 
@@ -118,7 +121,7 @@ class Plan:
             return root
 
         value = recurse(value)
-        return value if isinstance(value, Node) else self.lit(value)
+        return value if isinstance(value, Node) else self._lit(stack_frame, value)
 
     def gather(self, value) -> Node:
         """
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index be4f476..0d8bd1c 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -121,7 +121,16 @@ def _get_stale_nodes(
                 raise NodeError(node) from exception
             progress_observer.increment_completed(section="stale", scope=scope)
         else:
-            process(node)
+            try:
+                process(node)
+            except BaseException as exception:
+                # A literal is not a call; name the query that failed instead.
+                query = Call(
+                    registry[node].__class__.get_modified_time,
+                    scope=node.scope,
+                    stack_frame=node.stack_frame,
+                )
+                raise NodeError(query) from exception
 
     run_function_on_graph(
         plan.graph, process_with_callbacks, worker_count=max_workers, scheduler="cheap"
diff --git a/src/uberjob/graph.py b/src/uberjob/graph.py
index 5577d72..bc719f5 100644
--- a/src/uberjob/graph.py
+++ b/src/uberjob/graph.py
@@ -42,12 +42,14 @@ class Literal(Node):
     A symbolic literal value.
 
     :param value: The value of the literal.
+    :param stack_frame: The stack frame of the call site.
     """
 
-    __slots__ = ("value",)
+    __slots__ = ("value", "stack_frame")
 
-    def __init__(self, value, *, scope=()):
+    def __init__(self, value, *, scope=(), stack_frame=None):
         self.value = value
+        self.stack_frame = stack_frame
         super().__init__(scope=scope)
 
     def __repr__(self):
-- 
2.43.0


From f486da38e538450034fef7c5f0245bc4720a91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 05/15] fix: remove the staging file when replacing the target
 fails

---
 src/uberjob/stores/_file_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/stores/_file_store.py b/src/uberjob/stores/_file_store.py
index 1d84783..90b000c 100644
--- a/src/uberjob/stores/_file_store.py
+++ b/src/uberjob/stores/_file_store.py
@@ -64,10 +64,10 @@ def staged_write_path(
         staging_path = pathlib.Path(staging_path)
     try:
         yield staging_path
+        os.replace(staging_path, path)
     except BaseException:
         _try_remove(staging_path)
         raise
-    os.replace(staging_path, path)
 
 
 @contextmanager
-- 
2.43.0


From e5d58942c165174401a1a2cf3518354df2348c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 06/15] fix: keep the newlines of text stored in a
 TextFileStore

---
 src/uberjob/stores/_text_file_store.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/stores/_text_file_store.py b/src/uberjob/stores/_text_file_store.py
index 5ccec2a..45f9616 100644
--- a/src/uberjob/stores/_text_file_store.py
+++ b/src/uberjob/stores/_text_file_store.py
@@ -35,7 +35,7 @@ class TextFileStore(FileStore):
 
     def read(self) -> str:
         """Read the string value from the file."""
-        with open(self.path, encoding=self.encoding) as inputfile:
+        with open(self.path, encoding=self.encoding, newline="") as inputfile:
             return inputfile.read()
 
     def write(self, value: str) -> None:
@@ -44,7 +44,9 @@ class TextFileStore(FileStore):
 
         :param value: The value.
         """
-        with staged_write(self.path, encoding=self.encoding) as outputfile:
+        with staged_write(
+            self.path, encoding=self.encoding, newline=""
+        ) as outputfile:
             outputfile.write(value)
 
     def __repr__(self):
-- 
2.43.0


From baed3a62b480f2fa10d4adf9b12c6f4e9f6e327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 07/15] fix: accept keyword arguments named self, fn and
 stack_frame in Plan.call

---
 src/uberjob/_plan.py            | 2 +-
 src/uberjob/_util/validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index b2d4f1a..a0f2da8 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -49,7 +49,7 @@ class Plan:
         self._scope = ()
         self._scope_lock = RLock()
 
-    def _call(self, stack_frame, fn: Callable, *args, **kwargs) -> Call:
+    def _call(self, stack_frame, fn: Callable, /, *args, **kwargs) -> Call:
         call = Call(fn, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(call)
         for index, arg in enumerate(args):
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index baf40e1..2f4b8a9 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -64,7 +64,7 @@ def try_get_signature(fn: Callable):
         return None
 
 
-def assert_can_bind(fn: Callable, *args, **kwargs):
+def assert_can_bind(fn: Callable, /, *args, **kwargs):
     sig = try_get_signature(fn)
     if sig is None:
         return
-- 
2.43.0


From fbbaa9b8824fff4ed9963994d21f3ae7591f21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 08/15] fix: accept unhashable callables in Plan.call

---
 src/uberjob/_util/__init__.py   | 23 +++++++++++++++++++++--
 src/uberjob/_util/validation.py |  5 ++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index c432564..4d547fb 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -13,10 +13,29 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 #
-from functools import lru_cache
+from functools import lru_cache, wraps
 from reprlib import Repr
 
 
+def lru_cache_hashable(maxsize):
+    """Like :func:`functools.lru_cache`, but an unhashable argument is not cached instead of rejected."""
+
+    def decorator(f):
+        cached = lru_cache(maxsize)(f)
+
+        @wraps(f)
+        def wrapper(x):
+            try:
+                hash(x)
+            except TypeError:
+                return f(x)
+            return cached(x)
+
+        return wrapper
+
+    return decorator
+
+
 def safe_max(*args):
     iterable = args[0] if len(args) == 1 else args
     return max((value for value in iterable if value is not None), default=None)
@@ -87,7 +106,7 @@ def repr_helper(instance, *args, defaults=None, **kwargs):
     )
 
 
-@lru_cache(4096)
+@lru_cache_hashable(4096)
 def fully_qualified_name(x):
     qualname = getattr(x, "__qualname__", None)
     if not qualname:
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index 2f4b8a9..eeef1ea 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -15,9 +15,8 @@
 #
 import inspect
 from collections.abc import Callable
-from functools import lru_cache
 
-from uberjob._util import fully_qualified_name
+from uberjob._util import fully_qualified_name, lru_cache_hashable
 
 
 def assert_is_callable(argument_value, parameter_name, *, optional=False):
@@ -56,7 +55,7 @@ def assert_is_instance(
         )
 
 
-@lru_cache(4096)
+@lru_cache_hashable(4096)
 def try_get_signature(fn: Callable):
     try:
         return inspect.signature(fn)
-- 
2.43.0


From da2f9123e8910747c12bbfdf09e6a5a0c050d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 09/15] fix: read naive modified times and fresh_time as local
 time in the stale check

---
 src/uberjob/_transformations/caching.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index 0d8bd1c..7b9b34a 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -39,11 +39,15 @@ Barrier = BarrierType()
 
 
 def _to_naive_utc_time(value: dt.datetime | None) -> dt.datetime | None:
-    return (
-        value.astimezone(dt.timezone.utc).replace(tzinfo=None)
-        if value and value.tzinfo
-        else value
-    )
+    if value is None:
+        return None
+    try:
+        # A naive value is in local time.
+        value = value.astimezone(dt.timezone.utc)
+    except (OverflowError, ValueError):
+        # The value is too close to datetime.min or datetime.max to be converted.
+        pass
+    return value.replace(tzinfo=None)
 
 
 def _get_stale_scope(call: Call, registry: Registry) -> tuple:
-- 
2.43.0


From f4877984d757438b8e6f31070c6be16d68021e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 10/15] fix: attribute the gather of a run's output to the
 caller of run

---
 src/uberjob/_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_run.py b/src/uberjob/_run.py
index 3b6418d..7845abf 100644
--- a/src/uberjob/_run.py
+++ b/src/uberjob/_run.py
@@ -27,6 +27,7 @@ from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.caching import plan_with_value_stores
 from uberjob._transformations.pruning import prune_plan
 from uberjob._util.retry import create_retry
+from uberjob._util.traceback import get_stack_frame
 from uberjob._util.validation import assert_is_callable, assert_is_instance
 from uberjob.graph import Call, Node
 from uberjob.progress import (
@@ -141,7 +142,9 @@ def run(
 
     plan = get_mutable_plan(plan, inplace=False)
 
-    output_node = plan.gather(output) if output is not None else None
+    output_node = (
+        plan._gather(get_stack_frame(), output) if output is not None else None
+    )
     redirected_output_node = output_node
 
     progress = _coerce_progress(progress)
-- 
2.43.0


From 0dfc1414b77ac0b17df3484ac7d5e9243d7613d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 11/15] fix: render scopes whose values cannot be ordered or
 converted to a string

---
 .../progress/_simple_progress_observer.py     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 6f1820e..d839f49 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -20,16 +20,32 @@ from abc import ABC, abstractmethod
 from uberjob.progress._progress_observer import ProgressObserver
 
 
+def _safe_str(value):
+    try:
+        return str(value)
+    except Exception:
+        return object.__repr__(value)
+
+
 def _universal_sort_key(*args):
     return tuple((str(type(x)), x) for x in args)
 
 
+def _fallback_sort_key(*args):
+    return tuple((type.__repr__(type(x)), _safe_str(x)) for x in args)
+
+
 def sorted_scope_items(scope_dict):
-    return sorted(scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0]))
+    items = list(scope_dict.items())
+    try:
+        return sorted(items, key=lambda pair: _universal_sort_key(*pair[0]))
+    except Exception:
+        # The values of a scope are merely hashable; they need not be orderable.
+        return sorted(items, key=lambda pair: _fallback_sort_key(*pair[0]))
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-    scope_string = ", ".join(str(value) for value in scope)
+    scope_string = ", ".join(_safe_str(value) for value in scope)
     if add_zero_width_spaces:
         scope_string = scope_string.replace(".", "\u200B.")
     return scope_string
-- 
2.43.0


From e54017d7e9b3aa554a8f65067160751911a5e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 12/15] fix: render exceptions that the traceback module cannot
 format

---
 src/uberjob/progress/_console_progress_observer.py | 4 ++--
 src/uberjob/progress/_html_progress_observer.py    | 4 ++--
 src/uberjob/progress/_ipython_progress_observer.py | 4 ++--
 src/uberjob/progress/_simple_progress_observer.py  | 9 +++++++++
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index b9ee3dc..984f833 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -15,13 +15,13 @@
 #
 import datetime as dt
 import textwrap
-import traceback
 from functools import partial
 from io import StringIO
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -69,7 +69,7 @@ def _print_new_exceptions(print_, new_exception_index, exception_tuples):
             )
             print_(
                 textwrap.indent(
-                    "".join(traceback.format_exception(*exception_tuple)),
+                    get_exception_string(exception_tuple),
                     prefix=" " * 4,
                 )
             )
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 6748bff..19f6bd9 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -15,7 +15,6 @@
 #
 import datetime as dt
 import pathlib
-import traceback
 from collections.abc import Callable
 from html import escape
 
@@ -23,6 +22,7 @@ from uberjob.progress._simple_progress_observer import (
     ScopeState,
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -186,7 +186,7 @@ def _render_exception_tuples(exception_tuples):
 def _render_exception_tuple(i, scope, exception_tuple):
     show = "show" if i == 0 else ""
     collapsed = "collapsed" if i != 0 else ""
-    exception_tuple_str = "".join(traceback.format_exception(*exception_tuple))
+    exception_tuple_str = get_exception_string(exception_tuple)
     return f"""
         <div class="accordion-item">
           <h2 class="accordion-header" id="heading{i}">
diff --git a/src/uberjob/progress/_ipython_progress_observer.py b/src/uberjob/progress/_ipython_progress_observer.py
index 0fa4870..5242f52 100644
--- a/src/uberjob/progress/_ipython_progress_observer.py
+++ b/src/uberjob/progress/_ipython_progress_observer.py
@@ -15,11 +15,11 @@
 #
 import datetime as dt
 import html
-import traceback
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -133,7 +133,7 @@ class IPythonProgressObserver(SimpleProgressObserver):
             exception_text_widget = self._get("exception_text", i, default=widgets.HTML)
             exception_text_widget.value = (
                 '<pre style="line-height: 120%">{}</pre>'.format(
-                    html.escape("".join(traceback.format_exception(*exception_tuple)))
+                    html.escape(get_exception_string(exception_tuple))
                 )
             )
             exception_text_widgets.append(exception_text_widget)
diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index d839f49..e4da2ba 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -15,6 +15,7 @@
 #
 import threading
 import time
+import traceback
 from abc import ABC, abstractmethod
 
 from uberjob.progress._progress_observer import ProgressObserver
@@ -51,6 +52,14 @@ def get_scope_string(scope, *, add_zero_width_spaces=False):
     return scope_string
 
 
+def get_exception_string(exception_tuple):
+    try:
+        return "".join(traceback.format_exception(*exception_tuple))
+    except Exception:
+        # The traceback module cannot format every exception.
+        return f"{_safe_str(exception_tuple[1])}\n"
+
+
 def _get_progress_string(*, completed, failed, running, total):
     all_done = completed + failed == total
     started = completed + failed + running > 0
-- 
2.43.0


From 568d39f22091f2d90bd7080c6360460353b35fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 13/15] fix: emit progress that the encoding of the output
 cannot represent

---
 src/uberjob/progress/_console_progress_observer.py | 8 +++++++-
 src/uberjob/progress/_html_progress_observer.py    | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index 984f833..5122ef9 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 #
 import datetime as dt
+import sys
 import textwrap
 from functools import partial
 from io import StringIO
@@ -109,4 +110,9 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             return buffer.getvalue()
 
     def _output(self, value):
-        print(value, end="", flush=True)
+        try:
+            print(value, end="", flush=True)
+        except UnicodeEncodeError:
+            encoding = getattr(sys.stdout, "encoding", None) or "ascii"
+            value = value.encode(encoding, errors="backslashreplace").decode(encoding)
+            print(value, end="", flush=True)
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 19f6bd9..0c4a575 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -230,7 +230,9 @@ class HtmlProgressObserver(SimpleProgressObserver):
         self._output_fn = output
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
-        return _render_html(state, exception_tuples, elapsed).encode()
+        return _render_html(state, exception_tuples, elapsed).encode(
+            errors="backslashreplace"
+        )
 
     def _output(self, value):
         self._output_fn(value)
-- 
2.43.0


From 574554d9a7fe6bc5a6bdc3dc0fff9dbad1b57ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 14/15] fix: print a finished console section again when it
 grew and finished again between updates

---
 src/uberjob/progress/_console_progress_observer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index 5122ef9..63113ae 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -87,7 +87,7 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             min_update_interval=min_update_interval,
             max_update_interval=max_update_interval,
         )
-        self._skipped_sections = set()
+        self._skipped_section_totals = {}
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
         with StringIO() as buffer:
@@ -100,12 +100,17 @@ class ConsoleProgressObserver(SimpleProgressObserver):
                         s.completed + s.failed == s.total
                         for s in scope_mapping.values()
                     )
-                    if not is_done or section not in self._skipped_sections:
+                    # A section that is done changes only when its total grows.
+                    total = sum(s.total for s in scope_mapping.values())
+                    if (
+                        not is_done
+                        or self._skipped_section_totals.get(section) != total
+                    ):
                         _print_section(print_, section, scope_mapping)
                     if is_done:
-                        self._skipped_sections.add(section)
+                        self._skipped_section_totals[section] = total
                     else:
-                        self._skipped_sections.discard(section)
+                        self._skipped_section_totals.pop(section, None)
             _print_new_exceptions(print_, new_exception_index, exception_tuples)
             return buffer.getvalue()
 
-- 
2.43.0


From 259fab0500daf6b27a63ae2bc70154e8f08e8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 15/15] fix: do not keep the arguments of failed calls alive in
 progress displays

---
 src/uberjob/progress/_console_progress_observer.py |  5 ++---
 src/uberjob/progress/_html_progress_observer.py    | 10 ++++------
 src/uberjob/progress/_ipython_progress_observer.py |  5 ++---
 src/uberjob/progress/_simple_progress_observer.py  | 11 +++++------
 4 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index 63113ae..0c6177c 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -22,7 +22,6 @@ from io import StringIO
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
-    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -62,7 +61,7 @@ def _print_new_exceptions(print_, new_exception_index, exception_tuples):
     if new_exception_index < len(exception_tuples):
         print_("new exceptions:")
         for exception_index in range(new_exception_index, len(exception_tuples)):
-            scope, exception_tuple = exception_tuples[exception_index]
+            scope, exception_string = exception_tuples[exception_index]
             print_(
                 "  exception {}; {}".format(
                     exception_index + 1, get_scope_string(scope)
@@ -70,7 +69,7 @@ def _print_new_exceptions(print_, new_exception_index, exception_tuples):
             )
             print_(
                 textwrap.indent(
-                    get_exception_string(exception_tuple),
+                    exception_string,
                     prefix=" " * 4,
                 )
             )
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 0c4a575..28b44b3 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -22,7 +22,6 @@ from uberjob.progress._simple_progress_observer import (
     ScopeState,
     SimpleProgressObserver,
     get_elapsed_string,
-    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -172,8 +171,8 @@ def _render_scope(scope, scope_state, *, is_bold=False):
 
 def _render_exception_tuples(exception_tuples):
     rendered_exceptions = "\n".join(
-        _render_exception_tuple(i, scope, exception_tuple)
-        for i, (scope, exception_tuple) in enumerate(exception_tuples)
+        _render_exception_tuple(i, scope, exception_string)
+        for i, (scope, exception_string) in enumerate(exception_tuples)
     )
     return f"""
         <h3 class="mt-4">Exceptions</h3>
@@ -183,10 +182,9 @@ def _render_exception_tuples(exception_tuples):
         """
 
 
-def _render_exception_tuple(i, scope, exception_tuple):
+def _render_exception_tuple(i, scope, exception_string):
     show = "show" if i == 0 else ""
     collapsed = "collapsed" if i != 0 else ""
-    exception_tuple_str = get_exception_string(exception_tuple)
     return f"""
         <div class="accordion-item">
           <h2 class="accordion-header" id="heading{i}">
@@ -197,7 +195,7 @@ def _render_exception_tuple(i, scope, exception_tuple):
           </h2>
           <div id="collapse{i}" class="accordion-collapse collapse {show}" data-bs-parent="#accordion0">
             <div class="accordion-body">
-              <pre style="line-height: 120%">{escape(exception_tuple_str)}</pre>
+              <pre style="line-height: 120%">{escape(exception_string)}</pre>
             </div>
           </div>
         </div>
diff --git a/src/uberjob/progress/_ipython_progress_observer.py b/src/uberjob/progress/_ipython_progress_observer.py
index 5242f52..4990a1a 100644
--- a/src/uberjob/progress/_ipython_progress_observer.py
+++ b/src/uberjob/progress/_ipython_progress_observer.py
@@ -19,7 +19,6 @@ import html
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
-    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -129,11 +128,11 @@ class IPythonProgressObserver(SimpleProgressObserver):
         )
         exception_text_widgets = []
         exception_titles = []
-        for i, (scope, exception_tuple) in enumerate(exception_tuples):
+        for i, (scope, exception_string) in enumerate(exception_tuples):
             exception_text_widget = self._get("exception_text", i, default=widgets.HTML)
             exception_text_widget.value = (
                 '<pre style="line-height: 120%">{}</pre>'.format(
-                    html.escape(get_exception_string(exception_tuple))
+                    html.escape(exception_string)
                 )
             )
             exception_text_widgets.append(exception_text_widget)
diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index e4da2ba..e893001 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -52,12 +52,12 @@ def get_scope_string(scope, *, add_zero_width_spaces=False):
     return scope_string
 
 
-def get_exception_string(exception_tuple):
+def get_exception_string(exception):
     try:
-        return "".join(traceback.format_exception(*exception_tuple))
+        return "".join(traceback.format_exception(exception))
     except Exception:
         # The traceback module cannot format every exception.
-        return f"{_safe_str(exception_tuple[1])}\n"
+        return f"{_safe_str(exception)}\n"
 
 
 def _get_progress_string(*, completed, failed, running, total):
@@ -246,6 +246,5 @@ class SimpleProgressObserver(ProgressObserver, ABC):
             self._stale = True
             self._state.increment_failed(section, scope)
             if len(self._exception_tuples) < self._max_exception_count:
-                self._exception_tuples.append(
-                    (scope, (type(exception), exception, exception.__traceback__))
-                )
+                # The exception's traceback would keep the arguments of the failed call alive.
+                self._exception_tuples.append((scope, get_exception_string(exception)))
-- 
2.43.0

