From 6ca790304f1c595840c223cdb936ae3296239b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 01/27] fix: emit an empty text when a Text value has no words

Text.emit_many left out the values that have zero words, so it returned
fewer values than requested (and emit raised an IndexError). It also
requested one separator too few for each of them.
---
 src/fauxdoc/emitters/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..7c26d63 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -287,11 +287,13 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_seps = sum(max(length - 1, 0) for length in lengths)
+        seps = iter(self._emitters['sep'](total_seps))
         for length in lengths:
+            render = []
             if length:
-                render = [next(words)]
+                render.append(next(words))
                 for _ in range(1, length):
                     render.extend([next(seps, ' '), next(words)])
-                texts.append(''.join(render))
+            texts.append(''.join(render))
         return texts
-- 
2.43.0


From 63008a860a91d693991382cfb5347bd152f1fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 02/27] fix: count each possible length once in Word and Text
 unique values

A length that occurs more than once among the length emitter's items
does not add unique values, and a text with no words has no separators
(it made num_unique_values a float).
---
 src/fauxdoc/emitters/text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 7c26d63..d90fcd8 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -111,7 +111,7 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
         nchars = self._emitters['alphabet'].num_unique_values
         if nchars is not None and hasattr(self._emitters['length'], 'items'):
             poss_items = self._emitters['length'].items
-            self._num_unique_values = sum([nchars ** i for i in poss_items])
+            self._num_unique_values = sum([nchars ** i for i in set(poss_items)])
 
     def reset(self) -> None:
         """See superclass."""
@@ -217,9 +217,10 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         sep_em_has_uv = self._emitters['sep'].num_unique_values is not None
         if word_em_has_uv and sep_em_has_uv and hasattr(numwords, 'items'):
             nums: List[int] = []
-            for length in numwords.items:
+            for length in set(numwords.items):
+                n_seps = max(length - 1, 0)
                 n_uw = self._emitters['word'].num_unique_values ** length
-                n_us = self._emitters['sep'].num_unique_values ** (length - 1)
+                n_us = self._emitters['sep'].num_unique_values ** n_seps
                 nums.append(n_uw * n_us)
             self._num_unique_values = sum(nums)
 
-- 
2.43.0


From e7b3884edf7af8e9798fdd6027e0747152a55dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 03/27] fix: let weighted_shuffle handle weights of 0

A weight of 0 raised a ZeroDivisionError (or a ValueError, when the
number of items needed is low). This affected e.g. gaussian_choice
without replacement, where weights underflow to 0.
---
 src/fauxdoc/mathtools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 7291ee2..19efe2a 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -129,7 +129,12 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
-        scores = zip((math.log(rng.random()) / w for w in weights), items)
+        # An item with a weight of 0 always comes after the ones that do
+        # have weight.
+        scores = zip(
+            ((w > 0, math.log(rng.random()) / (w or 1)) for w in weights),
+            items
+        )
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
@@ -149,7 +154,8 @@ def weighted_shuffle(items: Sequence[T],
         )
 
     # The k threshold where the `high_k` method becomes faster than the
-    # `low_k` is k =~ 42% of the total number of items.
-    if number <= nitems * 0.42:
+    # `low_k` is k =~ 42% of the total number of items. (The `low_k`
+    # method cannot select items with a weight of 0.)
+    if number <= nitems * 0.42 and number <= sum(w > 0 for w in weights):
         return _faster_for_low_k(items, weights, rng, number)
     return _faster_for_high_k(items, weights, rng, number)
-- 
2.43.0


From 43c7bdcbba8fa0fdbd12d3600b7a007aa336dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 04/27] fix: avoid an OverflowError in poisson for high x
 values

Because of this, poisson_choice did not work with more than 170 items.
---
 src/fauxdoc/mathtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 19efe2a..fa2be5c 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -19,7 +19,11 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    try:
+        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    except OverflowError:
+        # For high values of x and/or mu, use logarithms.
+        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From fc63a437db82e8b41d941858cc3d1448b8d9e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 05/27] fix: keep the previous wrapper when a new wrapper is
 rejected

WrapOne and WrapMany raised a TypeError for a wrapper with the wrong
signature, but used it from then on all the same.
---
 src/fauxdoc/emitters/wrappers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index 4db4d38..5984c5f 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -282,10 +282,8 @@ class WrapOne(Generic[SourceT, OutputT], RandomWithChildrenMixin,
         """
         try:
             wrapper.try_mock_call(self._emitters['source']())
-        except TypeError:
-            raise
-        finally:
             self._wrapper = wrapper
+        finally:
             self.reset()
 
     def emit(self) -> OutputT:
@@ -389,10 +387,8 @@ class WrapMany(Generic[SourceT, OutputT], RandomWithChildrenMixin,
         kwargs = {k: v() for k, v in self._emitters.items()}
         try:
             wrapper.try_mock_call(**kwargs)
-        except TypeError:
-            raise
-        finally:
             self._wrapper = wrapper
+        finally:
             self.reset()
 
     def emit(self) -> OutputT:
-- 
2.43.0


From f6ce0b19beee532aff1169d613596914405d04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 06/27] fix: keep the previous action when a new action is
 rejected

BasedOnFields raised a TypeError for an action with the wrong signature,
but used it from then on all the same.
---
 src/fauxdoc/emitters/fromfields.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index db0d82f..1c8f46c 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -250,7 +250,6 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
         Args:
             action: See the 'action' attribute.
         """
-        self._action = action
         if len(self.source) == 1:
             args = [self.source[0]()]
             kwargs = {}
@@ -258,9 +257,8 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
             args = []
             kwargs = {field.name: field() for field in self.source}
         try:
-            self._action.try_mock_call(*args, **kwargs)
-        except TypeError:
-            raise
+            action.try_mock_call(*args, **kwargs)
+            self._action = action
         finally:
             self.reset()
 
-- 
2.43.0


From fa2df21429255123574ed04fc019e5396f9677f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 07/27] fix: do not use up source field data when setting a
 valid action

BasedOnFields called its source fields to check the signature of each
action it was given, so e.g. a field based on an Iterative emitter that
counts from 1 did not start at 1 in the first document. Now it calls
them only if the check needs (or shows) actual values.
---
 src/fauxdoc/emitters/fromfields.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index 1c8f46c..8f3c2fb 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -250,18 +250,31 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
         Args:
             action: See the 'action' attribute.
         """
-        if len(self.source) == 1:
-            args = [self.source[0]()]
-            kwargs = {}
-        else:
-            args = []
-            kwargs = {field.name: field() for field in self.source}
         try:
-            action.try_mock_call(*args, **kwargs)
+            self._check_action(action)
             self._action = action
         finally:
             self.reset()
 
+    def _check_action(self, action: BoundWrapper[FieldReturn[SourceT],
+                                                 OutputT]) -> None:
+        """Raises a TypeError if an action has an incorrect signature."""
+        def mock_call(get_val: Callable[[FieldLike[SourceT]], Any]) -> None:
+            if len(self.source) == 1:
+                action.try_mock_call(get_val(self.source[0]))
+            else:
+                action.try_mock_call(**{f.name: get_val(f)
+                                        for f in self.source})
+
+        if action.signature is not None:
+            # Data from source fields is not needed just to check the
+            # signature, and calling the fields uses up their data.
+            try:
+                return mock_call(lambda field: field.previous)
+            except TypeError:
+                pass
+        mock_call(lambda field: field())
+
     def reset_source(self) -> None:
         """Calls `reset` on all source fields.
 
-- 
2.43.0


From a37d480c3b39670bac92d4505e4de6524efa69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 08/27] fix: make multi_valued False for any repeat emitter
 with only None

It was only False if the items were in a list, and not e.g. a tuple.
---
 src/fauxdoc/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..aee467f 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -135,7 +135,7 @@ class Field(RandomWithChildrenMixin, Generic[T]):
     def multi_valued(self) -> bool:
         """See the 'multi_valued' attribute."""
         if hasattr(self.repeat_emitter, 'items'):
-            return bool(self.repeat_emitter.items != [None])
+            return any(item is not None for item in self.repeat_emitter.items)
         return True
 
     @property
-- 
2.43.0


From 3b4acf738db5836e837e50400da77d716e45dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 09/27] fix: count unique values if items are not hashable

num_unique_values raised a TypeError for e.g. Static([]). A Choice with
such items also raised that instead of a uniqueness violation.
---
 src/fauxdoc/emitters/choice.py |  2 +-
 src/fauxdoc/mixins.py          | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3807891..d366cfc 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -290,7 +290,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         selected.
         """
         if not self._replace:
-            return len(set(self._shuffled[self._shuffled_index:]))
+            return self._count_unique(self._shuffled[self._shuffled_index:])
         return super().num_unique_values
 
     @property
diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index c185ff4..752d277 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -1,6 +1,6 @@
 """Contains mixin classes."""
 import random
-from typing import Any, Generic, Sequence
+from typing import Any, Generic, List, Sequence
 
 from fauxdoc.group import ObjectMap
 from fauxdoc.typing import EmitterLike, T
@@ -92,7 +92,20 @@ class ItemsMixin(Generic[T]):
     @property
     def num_unique_values(self) -> int:
         """Returns an int, the number of unique values emittable."""
-        return len(set(self._items))
+        return self._count_unique(self._items)
+
+    @staticmethod
+    def _count_unique(items: Sequence[T]) -> int:
+        """Returns an int, the number of unique values in a sequence."""
+        try:
+            return len(set(items))
+        except TypeError:
+            # At least one value isn't hashable.
+            unique: List[T] = []
+            for item in items:
+                if item not in unique:
+                    unique.append(item)
+            return len(unique)
 
 
 class ChildrenMixin:
-- 
2.43.0


From fc95c17ab8474050768e3594a3f877e6ab812266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 10/27] fix: make dtrange return an empty range if stop comes
 before start

Like range(5, 1). It had a negative length, which made len raise an
error.
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..85cc905 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -354,4 +354,4 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
     length += 1 if rem else 0
-    return DateOrTimeRange(start_obj, length, step_td)
+    return DateOrTimeRange(start_obj, max(length, 0), step_td)
-- 
2.43.0


From 6ecb755b77357f4ba7087abfe8a43d1c75c80ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 11/27] fix: support a negative step in a 24-hour dtrange

A time range where start equals stop had a negative length if the step
was negative.
---
 src/fauxdoc/dtrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 85cc905..28fb486 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -349,7 +349,8 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # 24-hour clock as a time range. E.g., midnight to midnight is
         # a 24-hour range instead of an empty range.
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        day = timedelta(days=1 if step_td > timedelta(0) else -1)
+        stop_refdate = start_refdate + day
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
-- 
2.43.0


From f192ad3f2841bc6df0ecad99e87a09286c1fef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 12/27] fix: keep tzinfo in ranges of timezone-aware times

Values of a range with an aware start time were naive (so they were not
even in the range).
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 28fb486..8a1b3a3 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta).timetz()
     return start + delta
 
 
-- 
2.43.0


From a14b019bbbcf3e9a917db4849eb5f97baca0eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 13/27] fix: treat incomparable values as not in a date/time
 range

Checking if a datetime is in a range of dates, or if a naive value is in
an aware range (or vice versa), raised a TypeError.
---
 src/fauxdoc/dtrange.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 8a1b3a3..55bad62 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -240,9 +240,15 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
-            if not rem and index in self._index_range[start:stop]:
-                return index
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # E.g., value is a datetime in a date range, or only
+                # one of value and start has a timezone.
+                pass
+            else:
+                if not rem and index in self._index_range[start:stop]:
+                    return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
-- 
2.43.0


From 244ab47396765521b073077d055f15c392e57579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 14/27] fix: allow any slice of a date/time range with under
 two values

These raised an error if the multiplied step was a day or more in a time
range, e.g. an hourly one sliced with [::24], or if the calculated step
or start of the slice was out of bounds.
---
 src/fauxdoc/dtrange.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 55bad62..6969444 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -179,6 +179,11 @@ class DateOrTimeRange(Sequence[DT]):
         """Returns the requested value or values from the range."""
         if isinstance(index, slice):
             slc = self._index_range[index]
+            if len(slc) < 2:
+                # Don't calculate a start that's past the end or a step
+                # that isn't used: these may not be possible.
+                start = self[slc[0]] if slc else self._start
+                return type(self)(start, len(slc), self._step)
             start = _index_to_value(slc.start, self.start, self.step)
             return type(self)(start, len(slc), self.step * slc.step)
         try:
-- 
2.43.0


From e99fde102bc182f05b3980f5033fc1234cbfe87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 15/27] fix: compare date/time ranges by the values that they
 contain

Time ranges with the same values, but with steps that differ by 24
hours, were not equal.
---
 src/fauxdoc/dtrange.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 6969444..d468f67 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -222,14 +222,14 @@ class DateOrTimeRange(Sequence[DT]):
             return True
         if my_len == 1:
             return self.start == other.start
-        return (self.start, self.step) == (other.start, other.step)
+        return (self.start, self[1]) == (other.start, other[1])
 
     def __hash__(self) -> int:
         """Returns a hash number for an instance of this type."""
         my_len = len(self)
         start = self.start if my_len > 0 else None
-        step = self.step if my_len > 1 else None
-        return hash((type(self), my_len, start, step))
+        second = self[1] if my_len > 1 else None
+        return hash((type(self), my_len, start, second))
 
     def index(self,
               value: DT,
-- 
2.43.0


From d0b41021ed6cc8aa0ddbf954df2a154cb7705fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 16/27] fix: find times in the part of a time range past the
 first 24 hours

If a time range covers more than 24 hours, then index, count, and `in`
only considered the first 24 hours of the range.
---
 src/fauxdoc/dtrange.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index d468f67..36cdc07 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -1,6 +1,6 @@
 """Contains an implementation of a custom date/time range type."""
 from datetime import date, datetime, time, timedelta
-from typing import Optional, overload, Sequence, Tuple, TypeVar, Union
+from typing import Iterator, Optional, overload, Sequence, Tuple, TypeVar, Union
 
 
 DT = TypeVar('DT', date, datetime, time)
@@ -244,18 +244,30 @@ class DateOrTimeRange(Sequence[DT]):
             stop: (Optional.) Limit your search based on this stop
                 index value.
         """
-        if isinstance(value, type(self.start)):
-            try:
-                index, rem = _value_to_index(value, self._start, self._step)
-            except TypeError:
-                # E.g., value is a datetime in a date range, or only
-                # one of value and start has a timezone.
-                pass
-            else:
-                if not rem and index in self._index_range[start:stop]:
-                    return index
+        for index in self._iter_indexes(value):
+            if index in self._index_range[start:stop]:
+                return index
         raise ValueError(f'{value} is not in range')
 
+    def _iter_indexes(self, value: object) -> Iterator[int]:
+        """Yields each 0-based index for a given value, in order."""
+        if not isinstance(value, type(self.start)):
+            return
+        try:
+            index, rem = _value_to_index(value, self._start, self._step)
+        except TypeError:
+            # E.g., value is a datetime in a date range, or only one of
+            # value and start has a timezone.
+            return
+        day = timedelta(days=1 if self._step > timedelta(0) else -1)
+        while index < len(self):
+            if not rem and index >= 0:
+                yield index
+            if not isinstance(self._start, time):
+                break
+            # Times repeat if the range covers more than 24 hours.
+            index, rem = divmod(index * self._step + rem + day, self._step)
+
     def __contains__(self, value: object) -> bool:
         """Returns True if a value is in this range."""
         if isinstance(value, type(self.start)):
@@ -273,7 +285,7 @@ class DateOrTimeRange(Sequence[DT]):
         Args:
             value: A date, time, or datetime that may be in this range.
         """
-        return 1 if value in self else 0
+        return sum(1 for _ in self._iter_indexes(value))
 
 
 def _parse_user_date(val: Union[DT, str], label: str) -> DT:
-- 
2.43.0


From 05d84bbfa43055f9f05bd3f0385f6bc253123c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 17/27] fix: do_method no longer hides AttributeErrors raised
 inside a member's method

---
 src/fauxdoc/group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 05feb02..a071dd3 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -51,9 +51,10 @@ class GroupMixin(Generic[T], ABC):
         for obj in self.objects_iterable:
             if obj is not None:
                 try:
-                    getattr(obj, method_name)(*args, **kwargs)
+                    method = getattr(obj, method_name)
                 except AttributeError:
-                    pass
+                    continue
+                method(*args, **kwargs)
 
 
 class ObjectGroup(GroupMixin[T], UserList[T]):
-- 
2.43.0


From 0418b8d7973a1a9f92ee597b16740dc24153d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 18/27] fix: slices, sums, multiples and copies of an
 ObjectGroup are groups of its members

---
 src/fauxdoc/group.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index a071dd3..0cd5f03 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,5 +1,6 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import Any, Generic, Iterable, Mapping
 
 from fauxdoc.typing import OrderedDict, T, UserList
@@ -84,6 +85,36 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
         """Iterates through the objects in this group."""
         return self
 
+    def _like_self(self, objects: Iterable[T]) -> 'ObjectGroup[T]':
+        """Returns a group of the same type with the given objects.
+
+        This is needed wherever UserList would make a new instance, as
+        it passes one list to `__init__`.
+        """
+        group = copy(self)
+        group.data = list(objects)
+        return group
+
+    def __getitem__(self, i: Any) -> Any:
+        if isinstance(i, slice):
+            return self._like_self(self.data[i])
+        return self.data[i]
+
+    def __add__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._like_self([*self.data, *other])
+
+    def __radd__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._like_self([*other, *self.data])
+
+    def __mul__(self, n: int) -> 'ObjectGroup[T]':
+        return self._like_self(self.data * n)
+
+    __rmul__ = __mul__
+
+    def copy(self) -> 'ObjectGroup[T]':
+        """Returns a shallow copy of this group."""
+        return self._like_self(self.data)
+
 
 class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     """Class for operating on groups of similar objects (as a dict).
-- 
2.43.0


From 5b7e66596765c623a6829c6e8b3441fd5e4e5bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 19/27] fix: an ObjectMap can be copied like an OrderedDict

---
 src/fauxdoc/group.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 0cd5f03..1de2c93 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,7 +1,7 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
 from copy import copy
-from typing import Any, Generic, Iterable, Mapping
+from typing import Any, Generic, Iterable, Mapping, Optional
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -128,14 +128,16 @@ class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     skip them.
     """
 
-    def __init__(self, objects: Mapping[str, T]) -> None:
+    def __init__(self, objects: Optional[Mapping[str, T]] = None) -> None:
         """Inits an ObjectMap with the given objects.
 
         Args:
-            objects: Your initial dict that maps keys to objects in
-                this group.
+            objects: (Optional.) Your initial dict that maps keys to
+                objects in this group. If not provided, the group is
+                empty. (OrderedDict methods that make a new instance,
+                such as `copy`, rely on this.)
         """
-        super().__init__(objects)
+        super().__init__({} if objects is None else objects)
 
     @property
     def objects_iterable(self) -> Iterable[T]:
-- 
2.43.0


From b2d2b217965dbf0bbee9c3de223876dd57787d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 20/27] fix: a date/time range with a step of zero is rejected
 with a ValueError

It was a ZeroDivisionError from dtrange; and a DateOrTimeRange could be
made with such a step, but then not be searched.
---
 src/fauxdoc/dtrange.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 36cdc07..050c52b 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -134,6 +134,8 @@ class DateOrTimeRange(Sequence[DT]):
             raise ValueError(
                 "Attribute 'step' must be an instance of datetime.timedelta."
             )
+        if not step_val:
+            raise ValueError("Attribute 'step' must not be zero.")
         start_is_date_only = not hasattr(self.start, 'second')
         start_is_time_only = not hasattr(self.start, 'day')
         if start_is_date_only and step_val.total_seconds() % 86400:
@@ -366,6 +368,9 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
             "timedelta: weeks, days, hours, minutes, seconds, or microseconds."
         )
 
+    if not step_td:
+        raise ValueError("The 'step' argument must not be zero.")
+
     if isinstance(start_obj, time) and start_obj == stop_obj:
         # This is kind of hacky but the simplest way I could think of
         # to accommodate the (common) edge case where you want the full
-- 
2.43.0


From 08ca27e3af1201fefd2f0919699e36db42f8e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 21/27] fix: the length of a date/time range may be castable to
 an int, as documented

A length like '5' or 5.0 passed the check but then was a TypeError.
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 050c52b..efb1446 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -94,7 +94,7 @@ class DateOrTimeRange(Sequence[DT]):
         self.length = length
         self.start = start
         self.step = step
-        self._index_range = range(0, length)
+        self._index_range = range(0, self.length)
 
     @property
     def start(self) -> DT:
-- 
2.43.0


From 45b4e232efd3713f1f04f46c7c85a1860625d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 22/27] fix: poisson weights are not all 0 for a mu of more
 than 745

---
 src/fauxdoc/mathtools.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index fa2be5c..a1cc203 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -19,11 +19,14 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    try:
-        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
-    except OverflowError:
-        # For high values of x and/or mu, use logarithms.
-        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
+    if mu < 700:
+        try:
+            return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+        except OverflowError:
+            pass
+    # For high values of x and/or mu, use logarithms. (Otherwise these
+    # overflow, or `exp(-mu)` is 0 although the result is not.)
+    return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From f633bcb6dc35863557d2622efe615a3b2b878ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 23/27] fix: values of very long time ranges no longer overflow
 the calendar

---
 src/fauxdoc/dtrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index efb1446..105e7df 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,8 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).timetz()
+        # Whole days don't change the time, but may be too many to add.
+        return (ref_dt + delta % timedelta(days=1)).timetz()
     return start + delta
 
 
-- 
2.43.0


From a200bdb0084191278411670af39def5942d15813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 24/27] fix: steps of date ranges are exactly whole days,
 however large

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 105e7df..298d167 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -139,7 +139,7 @@ class DateOrTimeRange(Sequence[DT]):
             raise ValueError("Attribute 'step' must not be zero.")
         start_is_date_only = not hasattr(self.start, 'second')
         start_is_time_only = not hasattr(self.start, 'day')
-        if start_is_date_only and step_val.total_seconds() % 86400:
+        if start_is_date_only and step_val % timedelta(days=1):
             raise ValueError(
                 "The 'step' amount is invalid for a date range lacking a time "
                 "component. It must be some number of whole days, e.g. "
-- 
2.43.0


From c45f627fd32b302a44ee1cd7924cb8f2767eb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 25/27] fix: values of other time zones are counted in the zone
 of a range

---
 src/fauxdoc/dtrange.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 298d167..b32d6c2 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -49,6 +49,10 @@ def _value_to_index(value: DT, start: DT,
     else:
         valdt = value
         startdt = start
+        if getattr(value, 'tzinfo', None) and getattr(start, 'tzinfo', None):
+            # Steps are steps in the local time of the start value, so
+            # we have to count in the same time zone.
+            valdt = value.astimezone(start.tzinfo)
     return divmod(valdt - startdt, step)
 
 
@@ -264,7 +268,7 @@ class DateOrTimeRange(Sequence[DT]):
             return
         day = timedelta(days=1 if self._step > timedelta(0) else -1)
         while index < len(self):
-            if not rem and index >= 0:
+            if not rem and index >= 0 and self[index] == value:
                 yield index
             if not isinstance(self._start, time):
                 break
-- 
2.43.0


From 3f6439abd2fb9417840809834e45ac4d0c3752e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 26/27] fix: ranges that only start with the same values are
 not equal

---
 src/fauxdoc/dtrange.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b32d6c2..54abb4f 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -229,7 +229,13 @@ class DateOrTimeRange(Sequence[DT]):
             return True
         if my_len == 1:
             return self.start == other.start
-        return (self.start, self[1]) == (other.start, other[1])
+        if (self.start, self[1]) != (other.start, other[1]):
+            return False
+        # If offsets change, values in different time zones may be the
+        # same at first but not later on.
+        same_tz = (getattr(self.start, 'tzinfo', None)
+                   == getattr(other.start, 'tzinfo', None))
+        return same_tz or all(mine == oth for mine, oth in zip(self, other))
 
     def __hash__(self) -> int:
         """Returns a hash number for an instance of this type."""
-- 
2.43.0


From 395132b08d087c88d249f4d7aac66c7ef320c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:17 +0000
Subject: [PATCH 27/27] fix: give equal date ranges equal hashes if one is of a
 subclass

A range and a range of a subclass with the same values are equal, so
their hashes have to be the same, too.
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 54abb4f..e5826ef 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -242,7 +242,7 @@ class DateOrTimeRange(Sequence[DT]):
         my_len = len(self)
         start = self.start if my_len > 0 else None
         second = self[1] if my_len > 1 else None
-        return hash((type(self), my_len, start, second))
+        return hash((my_len, start, second))
 
     def index(self,
               value: DT,
-- 
2.43.0

