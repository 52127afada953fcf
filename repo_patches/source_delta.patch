From 57b8290f78c42dc66ae6d9b2d12a0d6c2399fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 01/28] fix: don't mix up repeated hours in the Timezone lookup
 cache

The cache of _find_observance was keyed by a naive datetime, which compares equal
regardless of its fold, so the first lookup of an ambiguous wall time decided the offset
of both of its occurrences.
---
 src/ics/timezone/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index fe8b500..2ce8e1c 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -186,14 +186,15 @@ class Timezone(Component, _tzinfo):
         if len(self.observances) < 2:
             return self.observances[0]
 
-        return self._find_observance_cachable(dt.replace(tzinfo=None))
+        # datetimes that only differ in their fold compare equal, so fold needs to be an explicit part of the cache key
+        return self._find_observance_cachable(dt.replace(tzinfo=None), dt.fold)
 
-    def _find_observance_cachable(self, dt):
+    def _find_observance_cachable(self, dt, fold):
         # adapted from dateutil.tz.tz._tzicalvtz._find_comp
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and getattr(dt, "fold", 0):
+            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From d7ef4b0cad6749968514a185da1de94763ff0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 02/28] fix: make Timeline.now() use the local time

A naive utcnow() is interpreted as local time when it is compared, so outside of UTC
the wrong events were reported.
---
 src/ics/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index f6d8bcb..8c44753 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -152,4 +152,4 @@ class Timeline:
         """
         Iterates (in chronological order) over all events that occur right now.
         """
-        return self.at(datetime.utcnow())
+        return self.at(datetime.now())
-- 
2.43.0


From 9d4d0e60a5de933a2ed9497131ee4b8d25e069ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 03/28] fix: validate assignments with the fields of the
 object's own class

The cached field table was looked up through inheritance, so once a base class had been
assigned to, attributes and rules added by a subclass were skipped.
---
 src/ics/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/types.py b/src/ics/types.py
index 6575f00..226ec42 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -126,7 +126,7 @@ class RuntimeAttrValidation:
     def __setattr__(self, key, value):
         if getattr(self, "__post_init__", None):
             cls = self.__class__  # type: Any
-            if not getattr(cls, "__attr_fields__", None):
+            if "__attr_fields__" not in cls.__dict__:  # don't use those inherited from a base class
                 cls.__attr_fields__ = attr.fields_dict(cls)
             try:
                 field = cls.__attr_fields__[key]
-- 
2.43.0


From 5c2da77ad4f7e3318b0e78679c0d4e210127e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 04/28] fix: only split Calendar lines at line breaks when
 iterating

str.splitlines() also splits at other separators that may occur unescaped within values,
so iterating a Calendar yielded pieces that are no lines.
---
 src/ics/icalendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 2000a7b..082605c 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -1,4 +1,5 @@
 from datetime import tzinfo
+from io import StringIO
 from typing import ClassVar, Iterable, Iterator, List, Optional, Union, overload
 
 import attr
@@ -163,4 +164,5 @@ class Calendar(CalendarAttrs):
             >>> c = Calendar(); c.events.append(Event(summary="My cool event"))
             >>> open('my.ics', 'w').writelines(c)
         """
-        return iter(self.serialize().splitlines(keepends=True))
+        # unlike str.splitlines(), StringIO only splits at actual line breaks and not at, e.g., "\x85" within values
+        return StringIO(self.serialize(), newline="")
-- 
2.43.0


From f1aa84dec609aa4c69baf503b47c9f237cedd03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 05/28] fix: check items before modifying a Container

extend and item assignment validated the contents only after storing them, so rejected items
stayed in the Container.
---
 src/ics/contentline/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3e64b04..f71cccb 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -284,8 +284,9 @@ class Container(MutableSequence[ContainerItem]):
         self.data.append(value)
 
     def extend(self, values):
+        values = list(values)
+        self.check_items(*values)
         self.data.extend(values)
-        attr.validate(self)
 
     def __getitem__(self, i):
         if isinstance(i, str):
@@ -304,8 +305,12 @@ class Container(MutableSequence[ContainerItem]):
     def __setitem__(
         self, index, value
     ):  # index might be slice and value might be iterable
+        if isinstance(index, slice):
+            value = list(value)
+            self.check_items(*value)
+        else:
+            self.check_items(value)
         self.data.__setitem__(index, value)
-        attr.validate(self)
 
     __contains__ = _wrap_list_func(list.__contains__)
     __iter__ = _wrap_list_func(list.__iter__)
-- 
2.43.0


From 2d7c4555fb52ce84dc3bfca2dd0d5f530eb2f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 06/28] fix: keep extra lines and parameters when cloning a
 Component

attr.evolve only handles init attributes, so the copy lacked extra and extra_params.
---
 src/ics/component.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index e102983..2122c35 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -4,7 +4,12 @@ import attr
 from attr.validators import instance_of
 
 from ics.contentline import Container
-from ics.types import ContextDict, ExtraParams, RuntimeAttrValidation
+from ics.types import (
+    ContextDict,
+    ExtraParams,
+    RuntimeAttrValidation,
+    copy_extra_params,
+)
 
 ComponentType = TypeVar("ComponentType", bound="Component")
 ComponentExtraParams = Dict[str, Union[ExtraParams, List[ExtraParams]]]
@@ -96,4 +101,16 @@ class Component(RuntimeAttrValidation):
     def clone(self):
         """Returns an exact (shallow) copy of self"""
         # TODO deep copies?
-        return attr.evolve(self)
+        new = attr.evolve(self)
+        object.__setattr__(new, "extra", self.extra.clone(deep=True))
+        object.__setattr__(
+            new,
+            "extra_params",
+            {
+                key: [copy_extra_params(v) for v in value]
+                if isinstance(value, list)
+                else copy_extra_params(value)
+                for key, value in self.extra_params.items()
+            },
+        )
+        return new
-- 
2.43.0


From 495b5eea678fdb7cf398a08d040912247dc71136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 07/28] fix: use the correct precision in unset_all_day

"seconds" is no known precision, so unset_all_day raised a KeyError for entries with a duration
and left an invalid precision behind otherwise.
---
 src/ics/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d3a8d3c..71c58a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -172,7 +172,7 @@ class CalendarEntryAttrs(Component):
         self.timespan = self.timespan.make_all_day()
 
     def unset_all_day(self):
-        self.timespan = self.timespan.replace(precision="seconds")
+        self.timespan = self.timespan.replace(precision="second")
 
     @property
     def floating(self) -> bool:
-- 
2.43.0


From 179fac1ab1a5659f48aa6551afb470e1f45633e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 08/28] fix: don't let adjacent timespans intersect

A timespan doesn't include its end instant, so one that ends when another one begins
does not intersect it.
---
 src/ics/timespan.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index fee1f42..e6eb197 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -511,9 +511,7 @@ class Timespan:
         # the timespan doesn't include its end instant / day
         return (
             second.begin <= first.begin < second.end
-            or second.begin <= first.end < second.end
             or first.begin <= second.begin < first.end
-            or first.begin <= second.end < first.end
         )
 
     def includes(self, other: Union["Timespan", datetime]) -> bool:
-- 
2.43.0


From c2c0971d6b907c864d38a1126f124990820bb785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 09/28] fix: don't include the next day in Timeline.on() for
 the last second of a day

Adding a second to an instant after 23:59:59 and rounding up ended the query a day too late.
---
 src/ics/timeline.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 8c44753..10ba365 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -1,5 +1,5 @@
 import heapq
-from datetime import date, datetime, timedelta
+from datetime import date, datetime
 from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 
 import attr
@@ -7,11 +7,7 @@ import attr
 from ics.event import Event
 from ics.timespan import Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
-from ics.utils import (
-    ceil_datetime_to_midnight,
-    ensure_datetime,
-    floor_datetime_to_midnight,
-)
+from ics.utils import TIMEDELTA_DAY, ensure_datetime, floor_datetime_to_midnight
 
 if TYPE_CHECKING:
     from ics.icalendar import Calendar
@@ -133,7 +129,7 @@ class Timeline:
         :param strict: if True events will be returned only if they are strictly *included* in `day`
         """
         begin = floor_datetime_to_midnight(ensure_datetime(instant))
-        end = ceil_datetime_to_midnight(ensure_datetime(instant) + timedelta(seconds=1))
+        end = begin + TIMEDELTA_DAY
         query = self.__normalize_timespan(begin, end)
         if strict:
             return self.included(query)
-- 
2.43.0


From 1f1534386d4b5e9068fea8956ec7ae7394a663b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 10/28] fix: support mixed floating and zoned times in
 Timeline.start_after

The raw comparison raised a TypeError, unlike all other queries, which interpret floating times
as local time.
---
 src/ics/timeline.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 10ba365..afce0f0 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 import attr
 
 from ics.event import Event
-from ics.timespan import Normalization, Timespan
+from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import TIMEDELTA_DAY, ensure_datetime, floor_datetime_to_midnight
 
@@ -108,9 +108,12 @@ class Timeline:
         Iterates (in chronological order) on every event from the :class:`ics.icalendar.Calendar` in chronological order.
         The first event of the iteration has a starting date greater (later) than `instant`.
         """
-        instant = self.__normalize_datetime(instant)
+        instant = CMP_NORMALIZATION.normalize(self.__normalize_datetime(instant))
         for timespan, event in self.iterator():
-            if timespan.begin_time is not None and timespan.begin_time > instant:
+            if (
+                timespan.begin_time is not None
+                and CMP_NORMALIZATION.normalize(timespan.begin_time) > instant
+            ):
                 yield event
 
     def at(self, instant: DatetimeLike) -> Iterator[Event]:
-- 
2.43.0


From 2fcd798c27957dbc2936b4b6b55a94e1df9b20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 11/28] fix: keep extra parameters of DTEND when saving

They were stored under "END" when loading but looked up as "DTEND" when saving.
---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f74ef71..7c1395e 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -125,7 +125,7 @@ class TimespanConverter(AttributeConverter):
         if value.get_end_representation() == "end":
             end_name = {"end": "DTEND", "due": "DUE"}[value._end_name()]
             params = copy_extra_params(
-                cast(ExtraParams, self.get_extra_params(component, end_name))
+                cast(ExtraParams, self.get_extra_params(component, value._end_name()))
             )
             params.update(value_type)
             dt_value = dt_conv.serialize(value.get_effective_end(), params, context)
-- 
2.43.0


From a4d87a882ed9dc55ff1bd337e5b35075b920c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 12/28] fix: limit contentline_set_wrap to the current thread
 or task

It changed a global, so it also affected whatever other threads or tasks serialized at the same
time, and overlapping scopes could leave a wrong width behind forever.
---
 src/ics/contentline/container.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index f71cccb..f86b1e3 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -3,8 +3,9 @@ import re
 import sys
 from collections import UserString
 from contextlib import contextmanager
+from contextvars import ContextVar
 from textwrap import TextWrapper
-from typing import List, MutableSequence, Tuple, Union
+from typing import List, MutableSequence, Optional, Tuple, Union
 
 import attr
 
@@ -16,7 +17,25 @@ from ics.types import (
 )
 from ics.utils import limit_str_length, validate_truthy
 
-DEFAULT_LINE_WRAP = TextWrapper(
+scoped_line_wrap_width: ContextVar[Optional[int]] = ContextVar(
+    "ics.contentline.scoped_line_wrap_width", default=None
+)
+
+
+class ScopedTextWrapper(TextWrapper):
+    """A TextWrapper whose width can be overridden for the current context, see contentline_set_wrap"""
+
+    @property
+    def width(self):
+        width = scoped_line_wrap_width.get()
+        return self._width if width is None else width
+
+    @width.setter
+    def width(self, value):
+        self._width = value
+
+
+DEFAULT_LINE_WRAP = ScopedTextWrapper(
     width=75,
     initial_indent="",
     subsequent_indent=" ",
@@ -31,15 +50,13 @@ DEFAULT_LINE_WRAP = TextWrapper(
 
 @contextmanager
 def contentline_set_wrap(width):
-    oldwidth = DEFAULT_LINE_WRAP.width
     if not width or width <= 0:
-        DEFAULT_LINE_WRAP.width = sys.maxsize
-    else:
-        DEFAULT_LINE_WRAP.width = width
+        width = sys.maxsize
+    token = scoped_line_wrap_width.set(width)
     try:
         yield
     finally:
-        DEFAULT_LINE_WRAP.width = oldwidth
+        scoped_line_wrap_width.reset(token)
 
 
 @attr.s(slots=True, frozen=True, auto_exc=True)  # type: ignore[misc]
-- 
2.43.0


From e324f6794124129e024f52d9e01e71e83cc1cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 13/28] fix: serialize empty parameter values in a way that can
 be parsed

A saved line with an empty parameter value or a parameter without any values was rejected when
loading it again.
---
 src/ics/contentline/container.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index f86b1e3..5b98756 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -188,13 +188,20 @@ class ContentLine(RuntimeAttrValidation):
     def _serialize_iter_unwrapped(self, newline=False):
         yield self.name
         for pname in self.params:
+            if not self.params[pname]:
+                continue  # nothing that could be read back
             yield ";"
             yield pname
             yield "="
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
-                if isinstance(pval, QuotedParamValue) or re.search("[:;,]", pval):
+                if (
+                    len(pval) == 0
+                    or isinstance(pval, QuotedParamValue)
+                    or re.search("[:;,]", pval)
+                ):
+                    # The parser doesn't accept empty values unless they're quoted.
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
                     # MUST be specified as quoted-string text values.
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
-- 
2.43.0


From f431169ce6e5c4b678657eea0ec2f79974b54b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 14/28] fix: don't turn DTSTART into an additional RDATE when
 loading recurrences

A Timezone that was saved, loaded and saved again gained RDATE lines.
---
 src/ics/converter/types/various.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90f4466..bbd7036 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -51,6 +51,11 @@ class RecurrenceConverter(AttributeConverter):
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        # compatible=True always adds DTSTART as RDATE, remove this again if it already is the first occurrence of a RRULE
+        for rule in rrule._rrule:  # type: ignore
+            if rule._dtstart in rrule._rdate and rule._dtstart in rule:  # type: ignore
+                rrule._rdate.remove(rule._dtstart)  # type: ignore
+                break
         rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
         rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
         self.set_or_append_value(component, rrule)
-- 
2.43.0


From bff2aed2465cf89aa5e420b4bb320ab0b0694560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 15/28] fix: don't serialize the ACTION of a CustomAlarm twice

Such an alarm could not be loaded again.
---
 src/ics/converter/types/various.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index bbd7036..db60a6b 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -142,7 +142,9 @@ class AlarmMeta(ComponentMeta):
             )
             if c is not None
         ]
-        convs.append(AlarmActionConverter())
+        if not any("ACTION" in c.filter_ics_names for c in convs):
+            # CustomAlarm already stores its ACTION in an attribute of its own
+            convs.append(AlarmActionConverter())
         return sort_converters(convs)
 
     def load_instance(
-- 
2.43.0


From d74d169adc31a6adb691ecceb7629edb7c704c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 16/28] fix: use the default precision when loading an entry
 without any times

The precision of its timespan was None, so it differed from the saved entry and setting a duration
raised a KeyError.
---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 7c1395e..017c415 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -84,7 +84,7 @@ class TimespanConverter(AttributeConverter):
             ensure_datetime(context[CONTEXT_BEGIN_TIME]),
             ensure_datetime(context[CONTEXT_END_TIME]),
             context[CONTEXT_DURATION],
-            context[CONTEXT_PRECISION],
+            context[CONTEXT_PRECISION] or "second",
         )
         # missing values will be reported by the Timespan validator
         if (
-- 
2.43.0


From 75acc0c097d62a7df342e269442a1d1c47b3ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 17/28] fix: don't split URIs of attachments and attendees at
 commas

Loading a saved attachment or attendee whose URI contains a comma gave two broken ones.
---
 src/ics/valuetype/generic.py | 6 +++++-
 src/ics/valuetype/special.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index f6555a6..e534415 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,5 +1,5 @@
 import base64
-from typing import Type, Union
+from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
 from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
@@ -164,6 +164,10 @@ class URIConverterClass(ValueConverter[URL]):
     def python_type(self) -> Type[URL]:
         return URL
 
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # commas are valid within URIs and there's no property that contains a list of URIs
+        yield values
+
     def parse(
         self,
         value: str,
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 11905c9..05745d7 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Generic, Type, TypeVar, Union, cast
+from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
 from ics import Attendee, Organizer
@@ -46,6 +46,10 @@ P = TypeVar("P", bound=Person)
 
 
 class PersonConverter(Generic[P], ValueConverter[P], abc.ABC):
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # commas are valid within URIs and there's no property that contains a list of persons
+        yield values
+
     def parse(
         self,
         value: str,
-- 
2.43.0


From 81b6a93c6fca3e69f0064c44d16a8e8f0e166212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 18/28] fix: don't set up the converters in several threads at
 once

If a thread waits for an import in another thread and that import fails or
is interrupted, Python lets the waiting thread go on with the incomplete
module. It then marked the converters as initialized although, e.g., the
one for Calendar was missing, so no calendar could be loaded or saved any
more.
---
 src/ics/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ics/__init__.py b/src/ics/__init__.py
index 79456b4..af3bc1e 100644
--- a/src/ics/__init__.py
+++ b/src/ics/__init__.py
@@ -1,6 +1,8 @@
 """
    isort:skip_file
 """
+from threading import RLock
+
 from .alarm import *
 from .alarm import __all__ as all_alarms
 from .attendee import Attendee, Organizer
@@ -15,7 +17,17 @@ from .timezone import Timezone
 from .todo import Todo
 
 
+_initialize_lock = RLock()
+
+
 def initialize_converters():
+    # Python lets a thread that waited for an import in another thread go on
+    # with the incomplete module if that import fails or is interrupted
+    with _initialize_lock:
+        _initialize_converters()
+
+
+def _initialize_converters():
     # order is very important here:
     # 1) all simple value type converters
     import ics.valuetype.base
-- 
2.43.0


From 69da893c38bda3f1c3c2e7424121e4e3a01367fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 19/28] fix: convert instants near changes of the standard
 offset and of inverted DST correctly

The generic fromutc() implementations of datetime and dateutil don't work with negative DST offsets (e.g. Europe/Dublin) and
zones that change their standard offset, so that converting an instant to the zone and back yielded a different instant.
---
 src/ics/timezone/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 2ce8e1c..4bd2973 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -214,6 +214,18 @@ class Timezone(Component, _tzinfo):
 
             return self.observances[0]
 
+    def fromutc(self, dt):
+        # The generic algorithms of datetime and dateutil look up the standard offset at the UTC time as if it was a wall
+        # time, which yields the wrong result near changes of the standard offset. In contrast, an instant has the UTC offset
+        # that is also used by its own wall time. As the skipped wall times of a gap use the (larger) offset after the gap,
+        # the smaller offset needs to be tried first.
+        for offset in sorted({comp.tzoffsetto for comp in self.observances}):
+            for fold in (0, 1):
+                wall = (dt + offset).replace(fold=fold)
+                if self.utcoffset(wall) == offset:
+                    return wall
+        return super().fromutc(dt)
+
     def utcoffset(self, dt):
         if dt is None:
             return None
-- 
2.43.0


From 99afac0240b1f71cc6d87219c2b9aa660e61e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 20/28] fix: don't drop the due time of a Todo without begin in
 convert_end("duration")

---
 src/ics/timespan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index e6eb197..ef655e3 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -375,7 +375,9 @@ class Timespan:
         target_is_end = target == "end" or target == self._end_name()
         if current == target or (current_is_end and target_is_end):
             return self
-        elif current_is_end and target == "duration":
+        elif (
+            current_is_end and target == "duration" and self.begin_time is not None
+        ):
             return self.replace(end_time=None, duration=self.get_effective_duration())
         elif current == "duration" and target_is_end:
             return self.replace(end_time=self.get_effective_end(), duration=None)
-- 
2.43.0


From 25a705acc0b25d2a5f6ea4f4401359b239c12697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 21/28] fix: don't guess a well-known timezone from its name
 when its stored definition can't be read

---
 src/ics/valuetype/datetime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 608de27..4f45ac9 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -4,7 +4,7 @@ from datetime import date, datetime, time, timedelta
 from typing import List, Optional, Type, cast
 
 from dateutil.tz import UTC as dateutil_tzutc
-from dateutil.tz import gettz
+from dateutil.tz import gettz, tzlocal, tzstr
 
 from ics.timespan import Timespan
 from ics.timezone import Timezone, is_utc
@@ -107,6 +107,13 @@ class DatetimeConverterMixin:
                     import platform
                     import sys
 
+                    if isinstance(found_tz, (tzlocal, tzstr)):
+                        import ics_vtimezones  # type: ignore
+
+                        # the stored definition of this well-known timezone couldn't be read,
+                        # so don't let dateutil guess one from the letters of its name
+                        if param_tz in ics_vtimezones.ZONEINFO_LIST:
+                            found_tz = None
                     if not found_tz:
                         raise ValueError(
                             "timezone %s is unknown on this system (%s on %s)"
-- 
2.43.0


From 817399408bb503478cd66ebb8b39653d0db983d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:06 +0000
Subject: [PATCH 22/28] fix: clone nested Containers deeply in
 Container.clone(deep=True)

---
 src/ics/contentline/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 5b98756..6a5b8e4 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -286,7 +286,10 @@ class Container(MutableSequence[ContainerItem]):
         if items is None:
             items = self.data
         if deep:
-            items = (item.clone() for item in items)
+            items = (
+                item.clone(deep=True) if isinstance(item, Container) else item.clone()
+                for item in items
+            )
         return attr.evolve(self, data=items)
 
     @staticmethod
-- 
2.43.0


From e3019dcb8ae140447f2128e170cf2a7571713c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:22 +0000
Subject: [PATCH 23/28] fix: don't share the lists of an EmailAlarm with its
 clones

The attendees attributes of Event and EmailAlarm would now compare equal,
so identify the converters by identity in the context used while loading.
---
 src/ics/alarm.py           | 6 ++++--
 src/ics/converter/base.py  | 2 +-
 src/ics/converter/value.py | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index 234f103..3cbaefe 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -92,9 +92,11 @@ class EmailAlarm(BaseAlarm):
     summary: str = attr.ib(default=None)  # message subject
     description: str = attr.ib(default=None)  # message body
     attendees: List[Attendee] = attr.ib(
-        factory=list, metadata={"ics_name": "ATTENDEE"}
+        factory=list, converter=list, metadata={"ics_name": "ATTENDEE"}
     )  # message recipients
-    attach: List[Union[URL, bytes, None]] = attr.ib(factory=list)  # e-mail attachments
+    attach: List[Union[URL, bytes, None]] = attr.ib(
+        factory=list, converter=list
+    )  # e-mail attachments
 
     def add_attendee(self, attendee: Attendee):
         """Add an attendee to the attendee list"""
diff --git a/src/ics/converter/base.py b/src/ics/converter/base.py
index 8f78e37..36b06d9 100644
--- a/src/ics/converter/base.py
+++ b/src/ics/converter/base.py
@@ -89,7 +89,7 @@ class GenericConverter(abc.ABC):
         pass
 
 
-@attr.s(frozen=True)
+@attr.s(frozen=True, eq=False)
 class AttributeConverter(GenericConverter, abc.ABC):
     """
     A Converter that can serialize and populate a single of attribute of some Component.
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index dee71f5..ba2a14c 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -10,7 +10,7 @@ from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.valuetype.base import ValueConverter
 
 
-@attr.s(frozen=True)
+@attr.s(frozen=True, eq=False)
 class AttributeValueConverter(AttributeConverter):
     """
     An `AttributeConverter` that simply use one or more `ValueConverter`s to handle their (single) attribute.
-- 
2.43.0


From f96c7cd3e493432a37f42b0ca6db816a7e1730a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 24/28] fix: don't share custom lines with the Container they
 were loaded from

---
 src/ics/converter/component.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 4a2af7b..6e05706 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -155,6 +155,11 @@ class ComponentMeta:
                 if conv.populate(instance, line, context):
                     consumed = True
             if not consumed:
+                # don't share the line with container, from which more instances might be loaded
+                if isinstance(line, Container):
+                    line = line.clone(deep=True)
+                else:
+                    line = line.clone()
                 instance.extra.append(line)
 
         for hook in self.post_populate_hooks:
-- 
2.43.0


From 56ae46c9e36d72a880811be07876070613c9f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:10 +0000
Subject: [PATCH 25/28] fix: allow reading the quoted parameters of a loaded
 attendee or organizer

---
 src/ics/attendee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index 0af90d6..e0755b2 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -23,7 +23,7 @@ class PersonProperty(Generic[T]):
         if len(value) == 0:
             return self.default
         elif len(value) == 1:
-            return self.converter.parse(value[0])
+            return self.converter.parse(str(value[0]))  # convert QuotedParamValues
         else:
             raise ValueError(
                 f"Expected at most one value for property {self.name!r}, got {value!r}!"
@@ -45,7 +45,10 @@ class PersonMultiProperty(Generic[T]):
     def __get__(self, instance: "Person", owner) -> List[T]:
         if self.name not in instance.extra:
             return self.default
-        return [self.converter.parse(v) for v in instance.extra[self.name]]
+        return [
+            self.converter.parse(str(v))  # convert QuotedParamValues
+            for v in instance.extra[self.name]
+        ]
 
     def __set__(self, instance: "Person", value: Iterable[T]):
         instance.extra[self.name] = [self.converter.serialize(v) for v in value]
-- 
2.43.0


From 42f0afc486a0871afe59ac2bd34e5e4087aeefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:10 +0000
Subject: [PATCH 26/28] fix: don't share custom lines and parameters with the
 Container made from a component

---
 src/ics/converter/component.py     |  8 +++++++-
 src/ics/converter/types/various.py |  4 +++-
 src/ics/valuetype/special.py       | 11 +++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 6e05706..4851027 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -182,7 +182,13 @@ class ComponentMeta:
     ):
         for conv in self.converters:
             conv.serialize(component, container, context)
-        container.extend(component.extra)
+        for line in component.extra:
+            # don't share custom lines with the new Container
+            if isinstance(line, Container):
+                line = line.clone(deep=True)
+            else:
+                line = line.clone()
+            container.append(line)
         for hook in self.post_serialize_hooks:
             hook(component, container, context)
 
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index db60a6b..b1d6d03 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -126,7 +126,9 @@ class AlarmActionConverter(GenericConverter):
         output.append(
             ContentLine(
                 name="ACTION",
-                params=cast(ExtraParams, component.extra_params.get("ACTION", {})),
+                params=copy_extra_params(
+                    cast(ExtraParams, component.extra_params.get("ACTION"))
+                ),
                 value=component.action,
             )
         )
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 05745d7..3e43ca6 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -5,7 +5,14 @@ from urllib.parse import urlparse
 from ics import Attendee, Organizer
 from ics.attendee import Person
 from ics.geo import Geo
-from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
+from ics.types import (
+    URL,
+    ContextDict,
+    EmptyContext,
+    EmptyParams,
+    ExtraParams,
+    copy_extra_params,
+)
 from ics.valuetype.base import ValueConverter
 
 __all__ = ["GeoConverter"]
@@ -67,7 +74,7 @@ class PersonConverter(Generic[P], ValueConverter[P], abc.ABC):
         context: ContextDict = EmptyContext,
     ) -> str:
         if isinstance(value, Person):
-            params.update(value.extra)
+            params.update(copy_extra_params(cast(ExtraParams, value.extra)))
             value = value.email
         if isinstance(value, str):
             return value
-- 
2.43.0


From bd7cb4c776cd3e56139ce04f714f6fc41256ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:38 +0000
Subject: [PATCH 27/28] fix: pad years to four digits when serializing dates

---
 src/ics/valuetype/datetime.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 4f45ac9..e27c6a5 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -29,6 +29,13 @@ __all__ = [
 ]
 
 
+def _strftime(value, fmt: str) -> str:
+    if "%Y" in fmt:
+        # strftime doesn't pad years to four digits on all platforms
+        fmt = fmt.replace("%Y", "%04d" % value.year)
+    return value.strftime(fmt)
+
+
 class DatetimeConverterMixin:
     FORMATS = {6: "%Y%m", 8: "%Y%m%d"}
     CONTEXT_KEY_AVAILABLE_TZ = "DatetimeAvailableTimezones"
@@ -42,7 +49,7 @@ class DatetimeConverterMixin:
         nonutc_fmt="%Y%m%dT%H%M%S",
     ) -> str:
         if is_utc(value):
-            return value.strftime(utc_fmt)
+            return _strftime(value, utc_fmt)
 
         if value.tzinfo is not None:
             tz = Timezone.from_tzinfo(value.tzinfo, context)
@@ -50,7 +57,7 @@ class DatetimeConverterMixin:
                 params["TZID"] = [tz.tzid]
                 available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})
                 available_tz.setdefault(tz.tzid, tz)
-        return value.strftime(nonutc_fmt)
+        return _strftime(value, nonutc_fmt)
 
     def _parse_dt(
         self,
@@ -187,7 +194,7 @@ class DateConverterClass(DatetimeConverterMixin, ValueConverter[date]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ):
-        return value.strftime("%Y%m%d")
+        return _strftime(value, "%Y%m%d")
 
     def parse(
         self,
-- 
2.43.0


From 9a76095aea52e8d77f137a6c884305223eb07d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:58 +0000
Subject: [PATCH 28/28] fix: don't round geo positions when serializing

---
 src/ics/valuetype/special.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 3e43ca6..0b572fb 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,4 +1,5 @@
 import abc
+from decimal import Decimal
 from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
@@ -44,7 +45,15 @@ class GeoConverterClass(ValueConverter[Geo]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> str:
-        return "%f;%f" % value
+        return ";".join(self.format_float(v) for v in value)
+
+    @staticmethod
+    def format_float(value: float) -> str:
+        res = "%f" % value
+        if float(res) == value:
+            return res
+        # six decimal places aren't precise enough
+        return format(Decimal(repr(float(value))), "f")
 
 
 GeoConverter = GeoConverterClass()
-- 
2.43.0

