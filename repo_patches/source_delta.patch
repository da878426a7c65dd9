From 053c5407503a7c73dc89633cba6d5dd65f754750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:17 +0000
Subject: [PATCH 01/18] fix: pop Stack context elements even when assertions
 are disabled

Stack.__call__ popped inside an assert statement, so under python -O the
element was never removed and with_rng, custom_getter, intercept_methods and
module scopes leaked.
---
 haiku/_src/data_structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/data_structures.py b/haiku/_src/data_structures.py
index 81e9717..b54d971 100644
--- a/haiku/_src/data_structures.py
+++ b/haiku/_src/data_structures.py
@@ -75,7 +75,8 @@ class Stack(Generic[T]):
     try:
       yield
     finally:
-      assert self.pop() is elem
+      popped = self.pop()
+      assert popped is elem
 
 
 class ThreadLocalStack(Stack[T], threading.local):
-- 
2.43.0


From d096245b3654d2ba93748240811b9b3744050d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:27 +0000
Subject: [PATCH 02/18] fix: without_apply_rng keeps the kind of transformed
 pair it was given

It wrapped a Transformed in a TransformedWithState, so without_apply_rng
followed by any helper that dispatches on the pair type (without_apply_rng
itself, without_state, get_original_fn users) misread its signature.
---
 haiku/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/transform.py b/haiku/_src/transform.py
index b439f7e..318c352 100644
--- a/haiku/_src/transform.py
+++ b/haiku/_src/transform.py
@@ -145,7 +145,7 @@ def without_apply_rng(f: TransformedT) -> TransformedT:
 
   tie_in_original_fn(f, f.init, apply_fn)
 
-  return TransformedWithState(init=f.init, apply=apply_fn)
+  return type(f)(init=f.init, apply=apply_fn)
 
 
 # TODO(tomhennigan) Remove apply_rng.
-- 
2.43.0


From d699e93516e7c2f122f3ef5b1650eb9b2b068b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:53 +0000
Subject: [PATCH 03/18] fix: hk.vmap and hk.eval_shape report use outside of
 hk.transform

Both failed with an IndexError from an empty deque instead of the ValueError
that every other transform-only function raises.
---
 haiku/_src/stateful.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..2d99952 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -556,6 +556,7 @@ def vmap(fun, in_axes=0, out_axes=0, axis_name=None):
 
   @functools.wraps(fun)
   def mapped_fun(*args):
+    base.assert_context("vmap")
     mapped_pure_fun = jax.vmap(pure_fun, in_axes=in_axes, out_axes=out_axes,
                                axis_name=axis_name)
     state = internal_state()
@@ -627,6 +628,7 @@ def named_call(
 
 def eval_shape(fun, *args, **kwargs):
   """Equivalent to jax.eval_shape with any changed Haiku state discarded."""
+  base.assert_context("eval_shape")
   with temporary_internal_state(internal_state()):
     out_shape = jax.eval_shape(fun, *args, **kwargs)
   # Don't update changed state
-- 
2.43.0


From 78f312198066bd7954444fa74d1b4ce3f37e5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:11 +0000
Subject: [PATCH 04/18] fix: assert_state_unchanged detects consumed rng keys
 and repeated writes

Taking a pre-reserved key only removes an id, which the one-sided set
difference missed, and ids of values freed inside the block could be reused by
their replacements.
---
 haiku/_src/base.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..c309cc4 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -803,7 +803,12 @@ def assert_no_new_parameters():
     raise AssertionError(f"New parameters were created: {list(sorted(diff))}")
 
 
-def _get_ids(collection_name: str) -> FrozenSet[int]:
+def _by_id(values: Iterable[Any]) -> Mapping[int, Any]:
+  # NOTE: The values are kept alive so their ids cannot be reused.
+  return {id(v): v for v in values}
+
+
+def _get_ids(collection_name: str) -> Mapping[int, Any]:
   """Returns the identity for all state in the current context."""
   out = []
   collection = getattr(current_frame(), collection_name)
@@ -813,9 +818,9 @@ def _get_ids(collection_name: str) -> FrozenSet[int]:
       warnings.warn(f"Invalid entry {mod_name!r} in collection {collection}")
       continue
 
-    out.extend(map(id, bundle.values()))
+    out.extend(bundle.values())
 
-  return frozenset(out)
+  return _by_id(out)
 
 
 def _all_state():
@@ -824,9 +829,9 @@ def _all_state():
   rng = current_frame().rng_stack.peek()
   if rng is not None:
     key, subkeys = rng.internal_state
-    rng = frozenset(map(id, [key] + list(subkeys)))
+    rng = _by_id([key] + list(subkeys))
   else:
-    rng = frozenset()
+    rng = {}
   return params, state, rng
 
 
@@ -837,9 +842,9 @@ def assert_state_unchanged():
   yield
   params_after, state_after, rng_after = _all_state()
 
-  params_diff = params_after - params_before
-  state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
+  params_diff = params_after.keys() ^ params_before.keys()
+  state_diff = state_after.keys() ^ state_before.keys()
+  rng_diff = rng_after.keys() ^ rng_before.keys()
   if params_diff or state_diff or rng_diff:
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
-- 
2.43.0


From 308638917f1143e283e61f7be6eec24aa353d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:34 +0000
Subject: [PATCH 05/18] fix: keep the rng block size constant across
 hk.while_loop iterations

Like scan and fori_loop, the loop carry must keep its structure: with keys
reserved beforehand a body that drew a key failed to trace.
---
 haiku/_src/stateful.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 2d99952..3be2cc9 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -599,9 +599,11 @@ def while_loop(cond_fun, body_fun, init_val):
     val, state = val
     with temporary_internal_state(state):
       val = body_fun(val)
+      reserve_up_to_full_rng_block()
       state = internal_state()
       return val, state
 
+  reserve_up_to_full_rng_block()
   init_val = (init_val, internal_state())
   val, state = jax.lax.while_loop(pure_cond_fun, pure_body_fun, init_val)
   update_internal_state(state)
-- 
2.43.0


From 158e0e4286724d6e3698e31b00d14b356eb1eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:34 +0000
Subject: [PATCH 06/18] fix: hk.while_loop conditions see the state written by
 the loop body

cond_fun ran against the state from before the loop, so a condition on a value
that the body updates with hk.set_state never changed.
---
 haiku/_src/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 3be2cc9..af3d1b2 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -583,9 +583,9 @@ def while_loop(cond_fun, body_fun, init_val):
         "      val = hk.while_loop(lambda val: val.mean() < 1, module, val)\n")
 
   def pure_cond_fun(val):
-    val, _ = val
+    val, state = val
     try:
-      with base.assert_state_unchanged():
+      with temporary_internal_state(state), base.assert_state_unchanged():
         return cond_fun(val)
     except base.StateChangedError as e:
       # If we find a use case for updating state/using rng in `cond` we would
-- 
2.43.0


From 5341347121ecccd80400ab30a293fe05c16836de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:34 +0000
Subject: [PATCH 07/18] fix: order hk.scan outputs correctly when initializing
 in reverse

During init the first step runs on the last element of xs, but its output was
placed at the front of ys.
---
 haiku/_src/stateful.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index af3d1b2..6e9dcb0 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -505,7 +505,10 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    # NOTE: When scanning in reverse `y0` belongs to the last element of `xs`.
+    ys = jax.tree_multimap(
+        lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys]),
+        y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From fd6849bc64b1cc4de5e6d3e310591a2d11f863f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:45 +0000
Subject: [PATCH 08/18] fix: count rng requests per thread in optimize_rng_use

The counter replaced a module global, so concurrent transforms in other
threads were counted too (changing the keys that get reserved) and overlapping
uses could leave the replacement installed.
---
 haiku/_src/base.py   | 3 +++
 haiku/_src/random.py | 9 ++-------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index c309cc4..d381a72 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -48,6 +48,7 @@ param_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 state_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 param_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
 state_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
+rng_request_stack: ThreadLocalStack[Callable[[], None]] = ThreadLocalStack()
 
 
 class Frame(NamedTuple):
@@ -615,6 +616,8 @@ def next_rng_key() -> PRNGKey:
 
 # NOTE: Split for monkey patching in random.py.
 def next_rng_key_internal() -> PRNGKey:
+  for on_request in rng_request_stack:
+    on_request()
   rng_seq = rng_seq_or_fail()
   return next(rng_seq)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 5b87314..980ee7c 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -29,15 +29,10 @@ def count_hk_rngs_requested():
   # TODO(tomhennigan): Don't include keys returned under a `with_rng` context.
   # TODO(tomhennigan): Optimize use of keys within a `with_rng` heading as well.
   count = [0]
-  orig_next_rng_key = base.next_rng_key_internal
-  def counting_next_rng_key(*a, **k):
+  def on_request():
     count[0] += 1
-    return orig_next_rng_key(*a, **k)
-  try:
-    base.next_rng_key_internal = counting_next_rng_key
+  with base.rng_request_stack(on_request):
     yield lambda: count[0]
-  finally:
-    base.next_rng_key_internal = orig_next_rng_key
 
 
 def optimize_rng_use(fun):
-- 
2.43.0


From 00ff8275ff959d91e8a9f4c6a8c58fd7ea041550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:13 +0000
Subject: [PATCH 09/18] fix: optimize_rng_use traces fun in the current context

It traced fun in a fresh context: module names lost their parent prefix and
parameters created earlier froze the trace, so init or apply failed for
functions that work without the wrapper.
---
 haiku/_src/random.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 980ee7c..ed8a875 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -18,8 +18,7 @@ import contextlib
 import functools
 
 from haiku._src import base
-from haiku._src import data_structures
-import jax
+from haiku._src import stateful
 
 
 @contextlib.contextmanager
@@ -71,24 +70,8 @@ def optimize_rng_use(fun):
   def wrapper(*args, **kwargs):
     base.assert_context("optimize_rng_use")
 
-    # Extract all current state.
-    frame = base.current_frame()
-    params = frame.params or None
-    if params is not None:
-      params = data_structures.to_immutable_dict(params)
-    state = frame.state or None
-    if state is not None:
-      state = base.extract_state(state, initial=True)
-    rng = frame.rng_stack.peek()
-    if rng is not None:
-      rng = rng.internal_state
-
-    def pure_fun(params, state, rng, *args, **kwargs):
-      with base.new_context(params=params, state=state, rng=rng):
-        return fun(*args, **kwargs)
-
     with count_hk_rngs_requested() as rng_count_f:
-      jax.eval_shape(pure_fun, params, state, rng, *args, **kwargs)
+      stateful.eval_shape(fun, *args, **kwargs)
     rng_count = rng_count_f()
 
     if rng_count:
-- 
2.43.0


From 3893b17f260d2cdbba4da3c1bd5896ca1e9b810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 10/18] fix: optimize_rng_use fails when only an inner with_rng
 draws keys

---
 haiku/_src/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index ed8a875..d8a561f 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -74,8 +74,10 @@ def optimize_rng_use(fun):
       stateful.eval_shape(fun, *args, **kwargs)
     rng_count = rng_count_f()
 
-    if rng_count:
-      base.current_frame().rng_stack.peek().reserve(rng_count)
+    # NOTE: All requests may have been served by an inner `with_rng` or transform.
+    rng_seq = base.current_frame().rng_stack.peek()
+    if rng_count and rng_seq is not None:
+      rng_seq.reserve(rng_count)
     return fun(*args, **kwargs)
 
   return wrapper
-- 
2.43.0


From db58c89fe8c8872026bcd0dad0b97dced25085fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:24 +0000
Subject: [PATCH 11/18] fix: module names with a trailing newline are rejected

---
 haiku/_src/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index ac0a3eb..22772b7 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -439,7 +439,7 @@ def wrap_method(method_name, unbound_method):
   return wrapped
 
 
-_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*$")
+_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*\Z")
 valid_identifier = lambda name: bool(_VALID_IDENTIFIER_R.match(name))
 
 
-- 
2.43.0


From 0eb7e075c7dca104e74a24b2fb764b852634d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:04 +0000
Subject: [PATCH 12/18] fix: accept (low, high) padding pairs in convolutions

ConvND documents padding given as a sequence of (low, high) integer pairs,
but pad.create called every element as a pad function and raised TypeError.
---
 haiku/_src/pad.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/pad.py b/haiku/_src/pad.py
index dd99f2a..4aa2ea8 100644
--- a/haiku/_src/pad.py
+++ b/haiku/_src/pad.py
@@ -53,7 +53,7 @@ def reverse_causal(effective_kernel_size: int) -> Tuple[int, int]:
 
 
 def create(
-    padding: Union[hk.pad.PadFn, Sequence[hk.pad.PadFn]],
+    padding: Union[hk.pad.PadFn, Sequence[Union[hk.pad.PadFn, Tuple[int, int]]]],
     kernel: Union[int, Sequence[int]],
     rate: Union[int, Sequence[int]],
     n: int,
@@ -64,7 +64,8 @@ def create(
     padding: callable or list of callables of length n. The callables take an
       integer representing the effective kernel size (kernel size when the rate
       is 1) and return a list of two integers representing the padding before
-      and padding after for that dimension.
+      and padding after for that dimension. Explicit ``(before, after)`` pairs
+      may be given in place of the callables.
     kernel: int or list of ints of length ``n``. The size of the kernel for each
       dimension. If it is an int it will be replicated for the non channel and
       batch dimensions.
@@ -83,7 +84,7 @@ def create(
       lambda kernel, rate: (kernel - 1) * rate + 1,
       utils.replicate(kernel, n, "kernel"), utils.replicate(rate, n, "rate"))
   paddings = map(  # pylint: disable=deprecated-lambda
-      lambda x, y: x(y), utils.replicate(padding, n, "padding"),
-      effective_kernel_size)
+      lambda x, y: x(y) if callable(x) else tuple(x),
+      utils.replicate(padding, n, "padding"), effective_kernel_size)
 
   return tuple(paddings)
-- 
2.43.0


From afd7b260616c5e7d06d748c795b521dca76660f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 13/18] fix: use collections.abc so layers work on Python 3.10
 and later

collections.Sequence, Mapping and Iterable were removed in Python 3.10, so
every convolution, normalisation layer with explicit axes and the state copy
behind hk.jit and friends raised AttributeError.
---
 haiku/_src/group_norm.py | 4 ++--
 haiku/_src/layer_norm.py | 4 ++--
 haiku/_src/stateful.py   | 3 ++-
 haiku/_src/utils.py      | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..213707a 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Group normalization implementation for Haiku."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..8df833f 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Layer Norm."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 6e9dcb0..2c6f603 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -15,6 +15,7 @@
 """Wrappers for JAX transformations that respect Haiku internal state."""
 
 import collections
+import collections.abc
 import functools
 import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
@@ -45,7 +46,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..0bfbcb7 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Misc utility functions."""
 
-import collections
+import collections.abc
 import decimal
 import inspect
 import pprint
@@ -119,7 +119,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From 5ae42a55c1a5cd95123718575a46f4fbf6caf79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:00 +0000
Subject: [PATCH 14/18] fix: warm up moving averages of any floating point type

lax.select does not promote, so ExponentialMovingAverage with warmup_length
raised TypeError for every value that was not float32.
---
 haiku/_src/moving_averages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index b5f0e35..db47470 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -115,7 +115,7 @@ class ExponentialMovingAverage(hk.Module):
 
     decay = jax.lax.convert_element_type(self.decay, value.dtype)
     if self.warmup_length > 0:
-      decay = jax.lax.select(counter <= 0, 0.0, decay)
+      decay = jax.lax.select(counter <= 0, jnp.zeros_like(decay), decay)
 
     one = jnp.ones([], value.dtype)
     hidden = hk.get_state("hidden", value.shape, value.dtype, init=jnp.zeros)
-- 
2.43.0


From 2141329795e3cf945f6f0f3caa851ab99eae1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:20 +0000
Subject: [PATCH 15/18] fix: GroupNorm accepts inputs of another size after its
 first call

The shapes of the first input were stored and reused, so a later input with
other spatial sizes was silently cut into blocks along its batch axis.
---
 haiku/_src/group_norm.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 213707a..99748ab 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -181,7 +181,7 @@ class GroupNorm(hk.Module):
           f"was channels={channels}, groups={self.groups}")
 
     if self.rank is None:
-      self._initialize(x, channels)
+      self._initialize(x)
 
     dtype = x.dtype
     if self.channel_index == -1:
@@ -196,11 +196,19 @@ class GroupNorm(hk.Module):
     if self.create_offset:
       offset = hk.get_parameter("offset", params_shape, dtype, self.offset_init)
 
-    x = x.reshape(self.group_shape)
+    input_shape = x.shape
+    if self.channel_index == -1:
+      group_shape = input_shape[:-1] + (self.groups, channels // self.groups)
+    else:
+      group_shape = (
+          input_shape[:1] + (self.groups, channels // self.groups) +
+          input_shape[2:])
+
+    x = x.reshape(group_shape)
     mean = jnp.mean(x, self.axis, keepdims=True)
     var = jnp.var(x, self.axis, keepdims=True)
     x = (x - mean) * jax.lax.rsqrt(var + self.eps)
-    x = x.reshape(self.first_input_shape)
+    x = x.reshape(input_shape)
 
     if scale is not None:
       scale = jax.lax.broadcast_to_rank(scale, x.ndim)
@@ -212,7 +220,7 @@ class GroupNorm(hk.Module):
 
     return x
 
-  def _initialize(self, x: jnp.ndarray, channels: int):
+  def _initialize(self, x: jnp.ndarray):
     assert self.rank is None
     self.rank = x.ndim
 
@@ -223,12 +231,6 @@ class GroupNorm(hk.Module):
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
     else:
       assert self.channel_index == 1
       self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1, self.groups, channels // self.groups) + x.shape[2:])
-
-    self.first_input_shape = (-1,) + x.shape[1:]
-- 
2.43.0


From 20322f54597c49cc95fcf4adff87f009702258b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 16/18] fix: GroupNorm normalizes over negative axes of its
 input

---
 haiku/_src/group_norm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 99748ab..378d917 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -228,6 +228,9 @@ class GroupNorm(hk.Module):
     if isinstance(self.axis, slice):
       axes = tuple(range(self.rank))
       self.axis = axes[self.axis]
+    else:
+      # Negative axes count from the end of the input, not of the grouped input.
+      self.axis = tuple(a + self.rank if a < 0 else a for a in self.axis)
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-- 
2.43.0


From 2138cf5b62d89e302f97c1bb324c1a869aeee956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 17/18] fix: BatchNorm parameters do not span negative axes it
 reduces

---
 haiku/_src/batch_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/batch_norm.py b/haiku/_src/batch_norm.py
index 963ac8f..f12d3c8 100644
--- a/haiku/_src/batch_norm.py
+++ b/haiku/_src/batch_norm.py
@@ -157,7 +157,7 @@ class BatchNorm(hk.Module):
       channel_index += inputs.ndim
 
     if self.axis is not None:
-      axis = self.axis
+      axis = [i + inputs.ndim if i < 0 else i for i in self.axis]
     else:
       axis = [i for i in range(inputs.ndim) if i != channel_index]
 
-- 
2.43.0


From 240c91139dacfa525bec455a3d4c19bae5841dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 18/18] fix: summarise functions that handle exceptions raised
 by their modules

---
 haiku/_src/summarise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/summarise.py b/haiku/_src/summarise.py
index 7583547..14e75fd 100644
--- a/haiku/_src/summarise.py
+++ b/haiku/_src/summarise.py
@@ -209,7 +209,8 @@ def eval_summary(
     used_modules = []
     with sidechannel(used_modules):
       jax.eval_shape(init_apply, *args, **kwargs)
-    return used_modules
+    # Calls that raised (an exception that ``f`` handled) have no invocation.
+    return [m for m in used_modules if m is not None]
 
   return wrapper
 
-- 
2.43.0

