From 3ac081f815cc259eae913d9fec56dac38adc3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 01/24] fix: include fold in the cache key of Timezone
 observance lookups

---
 src/ics/timezone/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index fe8b500..c138ded 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -186,14 +186,15 @@ class Timezone(Component, _tzinfo):
         if len(self.observances) < 2:
             return self.observances[0]
 
-        return self._find_observance_cachable(dt.replace(tzinfo=None))
+        # fold is ignored when datetimes are compared and hashed, so it needs to be a separate part of the cache key
+        return self._find_observance_cachable(dt.replace(tzinfo=None), dt.fold)
 
-    def _find_observance_cachable(self, dt):
+    def _find_observance_cachable(self, dt, fold=0):
         # adapted from dateutil.tz.tz._tzicalvtz._find_comp
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and getattr(dt, "fold", 0):
+            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From b18b05c8848afa5c0a99390a7ab0946bc10ef4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 02/24] fix: unset_all_day sets the known precision "second"

---
 src/ics/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d3a8d3c..71c58a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -172,7 +172,7 @@ class CalendarEntryAttrs(Component):
         self.timespan = self.timespan.make_all_day()
 
     def unset_all_day(self):
-        self.timespan = self.timespan.replace(precision="seconds")
+        self.timespan = self.timespan.replace(precision="second")
 
     @property
     def floating(self) -> bool:
-- 
2.43.0


From 091a298a507f2393115ba1c8727952ba23448f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 03/24] fix: serialize the extra params of DTEND stored while
 parsing

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f74ef71..7c1395e 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -125,7 +125,7 @@ class TimespanConverter(AttributeConverter):
         if value.get_end_representation() == "end":
             end_name = {"end": "DTEND", "due": "DUE"}[value._end_name()]
             params = copy_extra_params(
-                cast(ExtraParams, self.get_extra_params(component, end_name))
+                cast(ExtraParams, self.get_extra_params(component, value._end_name()))
             )
             params.update(value_type)
             dt_value = dt_conv.serialize(value.get_effective_end(), params, context)
-- 
2.43.0


From da0952e628c39ea0f160bfc7103cc25628e0dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 04/24] fix: use the default precision when parsing components
 without any timestamps

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 7c1395e..017c415 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -84,7 +84,7 @@ class TimespanConverter(AttributeConverter):
             ensure_datetime(context[CONTEXT_BEGIN_TIME]),
             ensure_datetime(context[CONTEXT_END_TIME]),
             context[CONTEXT_DURATION],
-            context[CONTEXT_PRECISION],
+            context[CONTEXT_PRECISION] or "second",
         )
         # missing values will be reported by the Timespan validator
         if (
-- 
2.43.0


From c40ce5092f092a4a53c8968885dff5262d91ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 05/24] fix: keep begin and end accessible by name in timespan
 tuples of Todos

---
 src/ics/timespan.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index fee1f42..f3661b9 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -602,10 +602,6 @@ class TodoTimespan(Timespan):
     def _end_name(self):
         return "due"
 
-    def timespan_tuple(self, default=None, normalization=None):
+    def cmp_tuple(self):
         # Todos compare by (due, begin) instead of (begin, end)
-        return tuple(
-            reversed(
-                super().timespan_tuple(default=default, normalization=normalization)
-            )
-        )
+        return tuple(reversed(super().cmp_tuple()))
-- 
2.43.0


From b0b7fd76ec8f106086320c910ee22dfd7f1a915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 06/24] fix: timespans that merely touch at their exclusive end
 do not intersect

---
 src/ics/timespan.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index f3661b9..b9cb866 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -511,9 +511,7 @@ class Timespan:
         # the timespan doesn't include its end instant / day
         return (
             second.begin <= first.begin < second.end
-            or second.begin <= first.end < second.end
             or first.begin <= second.begin < first.end
-            or first.begin <= second.end < first.end
         )
 
     def includes(self, other: Union["Timespan", datetime]) -> bool:
-- 
2.43.0


From 897870f78a6d09f06b69d1b3a0a0bcc81df8340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 07/24] fix: keep extra lines and extra params when cloning
 Components

---
 src/ics/component.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index e102983..9ce92d9 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -96,4 +96,9 @@ class Component(RuntimeAttrValidation):
     def clone(self):
         """Returns an exact (shallow) copy of self"""
         # TODO deep copies?
-        return attr.evolve(self)
+        new = attr.evolve(self)
+        # these are no init parameters and thus not handled by evolve
+        # (setting them directly is also needed for frozen subclasses)
+        object.__setattr__(new, "extra", self.extra.clone())
+        object.__setattr__(new, "extra_params", dict(self.extra_params))
+        return new
-- 
2.43.0


From 2027888803fb11893897ce5f0e245b802ff40944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 08/24] fix: zero-pad years before 1000 when serializing dates
 and datetimes

---
 src/ics/valuetype/datetime.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 608de27..e13ba4a 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -29,6 +29,13 @@ __all__ = [
 ]
 
 
+def _strftime(value, fmt: str) -> str:
+    if isinstance(value, date):
+        # %Y isn't zero-padded to 4 digits on all platforms
+        fmt = fmt.replace("%Y", "%04d" % value.year)
+    return value.strftime(fmt)
+
+
 class DatetimeConverterMixin:
     FORMATS = {6: "%Y%m", 8: "%Y%m%d"}
     CONTEXT_KEY_AVAILABLE_TZ = "DatetimeAvailableTimezones"
@@ -42,7 +49,7 @@ class DatetimeConverterMixin:
         nonutc_fmt="%Y%m%dT%H%M%S",
     ) -> str:
         if is_utc(value):
-            return value.strftime(utc_fmt)
+            return _strftime(value, utc_fmt)
 
         if value.tzinfo is not None:
             tz = Timezone.from_tzinfo(value.tzinfo, context)
@@ -50,7 +57,7 @@ class DatetimeConverterMixin:
                 params["TZID"] = [tz.tzid]
                 available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})
                 available_tz.setdefault(tz.tzid, tz)
-        return value.strftime(nonutc_fmt)
+        return _strftime(value, nonutc_fmt)
 
     def _parse_dt(
         self,
@@ -180,7 +187,7 @@ class DateConverterClass(DatetimeConverterMixin, ValueConverter[date]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ):
-        return value.strftime("%Y%m%d")
+        return _strftime(value, "%Y%m%d")
 
     def parse(
         self,
-- 
2.43.0


From fb97e6fb84d4a9bd48c5ddd2042fe50638ef07a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 09/24] fix: serialize the ACTION of CustomAlarms only once

---
 src/ics/converter/types/various.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90f4466..1ff2d04 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -137,7 +137,9 @@ class AlarmMeta(ComponentMeta):
             )
             if c is not None
         ]
-        convs.append(AlarmActionConverter())
+        # CustomAlarm stores its action in an attribute, which already is handled by an own converter
+        if not any("ACTION" in c.filter_ics_names for c in convs):
+            convs.append(AlarmActionConverter())
         return sort_converters(convs)
 
     def load_instance(
-- 
2.43.0


From deac394ba5cd26ed3b5dbf75954c706d8d0c57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 10/24] fix: check items before adding them to a Container

---
 src/ics/contentline/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3e64b04..f71cccb 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -284,8 +284,9 @@ class Container(MutableSequence[ContainerItem]):
         self.data.append(value)
 
     def extend(self, values):
+        values = list(values)
+        self.check_items(*values)
         self.data.extend(values)
-        attr.validate(self)
 
     def __getitem__(self, i):
         if isinstance(i, str):
@@ -304,8 +305,12 @@ class Container(MutableSequence[ContainerItem]):
     def __setitem__(
         self, index, value
     ):  # index might be slice and value might be iterable
+        if isinstance(index, slice):
+            value = list(value)
+            self.check_items(*value)
+        else:
+            self.check_items(value)
         self.data.__setitem__(index, value)
-        attr.validate(self)
 
     __contains__ = _wrap_list_func(list.__contains__)
     __iter__ = _wrap_list_func(list.__iter__)
-- 
2.43.0


From a3bb039da2d6cd04829bb430d2bc6c1335a454b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 11/24] fix: Timeline.on doesn't include the next day for
 instants within the last second of a day

---
 src/ics/timeline.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index f6d8bcb..4210cc6 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -7,11 +7,7 @@ import attr
 from ics.event import Event
 from ics.timespan import Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
-from ics.utils import (
-    ceil_datetime_to_midnight,
-    ensure_datetime,
-    floor_datetime_to_midnight,
-)
+from ics.utils import ensure_datetime, floor_datetime_to_midnight
 
 if TYPE_CHECKING:
     from ics.icalendar import Calendar
@@ -133,7 +129,7 @@ class Timeline:
         :param strict: if True events will be returned only if they are strictly *included* in `day`
         """
         begin = floor_datetime_to_midnight(ensure_datetime(instant))
-        end = ceil_datetime_to_midnight(ensure_datetime(instant) + timedelta(seconds=1))
+        end = begin + timedelta(days=1)
         query = self.__normalize_timespan(begin, end)
         if strict:
             return self.included(query)
-- 
2.43.0


From a0625aa34f8d2cafa785162f59722c11e90f4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:17 +0000
Subject: [PATCH 12/24] fix: don't drop the end of a timespan without begin
 when converting it to a duration

---
 src/ics/timespan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index b9cb866..1642e18 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -376,6 +376,8 @@ class Timespan:
         if current == target or (current_is_end and target_is_end):
             return self
         elif current_is_end and target == "duration":
+            if self.begin_time is None:
+                raise ValueError("can't convert end to duration without begin time")
             return self.replace(end_time=None, duration=self.get_effective_duration())
         elif current == "duration" and target_is_end:
             return self.replace(end_time=self.get_effective_end(), duration=None)
-- 
2.43.0


From 23aa31c1dd928ec5528a1d043d123c7a64cc20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:40 +0000
Subject: [PATCH 13/24] fix: serialize UTC times as UTC

is_utc() ignored the tzinfo of datetime.time values, so they were written with TZID=UTC instead of a trailing Z
---
 src/ics/timezone/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index c138ded..616d95c 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -60,7 +60,7 @@ def is_utc(value: datetime.tzinfo) -> bool:
 
 
 def is_utc(value):
-    if isinstance(value, datetime.datetime):
+    if isinstance(value, (datetime.datetime, datetime.time)):
         tz = value.tzinfo
     else:
         tz = value
-- 
2.43.0


From aecc85b2a5a7fbe58d93ee81e9ee62662b67aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 14/24] fix: don't treat fixed offsets that are named UTC as
 UTC

datetime.timezone(timedelta(hours=1), 'UTC') was converted to UTC and times were serialized with a wrong instant
---
 src/ics/timezone/__init__.py   | 2 ++
 src/ics/timezone/converters.py | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 616d95c..640cc2c 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -69,6 +69,8 @@ def is_utc(value):
         return False
     if tz in [datetime.timezone.utc, dateutil.tz.UTC, UTC]:
         return True
+    if isinstance(tz, datetime.timezone):
+        return False  # has another offset, whatever it is named
     if isinstance(tz, dateutil.tz.tzutc) or type(tz).__qualname__ == "pytz.UTC":
         return True
     if isinstance(tz, Timezone) and tz.tzid.upper() in ["UTC", "ETC/UTC"]:
diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 03933fb..1142f3b 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -111,8 +111,11 @@ def Timezone_from_builtin(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneRe
         utcoffset = tzinfo.utcoffset(None)
         if tzname is None or utcoffset is None:
             return TimezoneResult.UNSERIALIZABLE
-        else:
-            return Timezone_from_offset(tzname, utcoffset)
+        tz = Timezone_from_offset(tzname, utcoffset)
+        if is_utc(tz):  # the name of UTC can't be used for any other offset
+            tzname = datetime.timezone(utcoffset).tzname(None)
+            tz = Timezone_from_offset(tzname, utcoffset)
+        return tz
     elif type(tzinfo).__qualname__ == "ZoneInfo":
         from zoneinfo import ZoneInfo
 
-- 
2.43.0


From 798916d86029dd7919b824df7c7f51b8c4ba92e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:29 +0000
Subject: [PATCH 15/24] fix: don't share attribute lists and extra params
 between clones

adding attendees or attachments to the clone of an EmailAlarm, an observance to the clone of a Timezone, or a parameter to the extra_params of any cloned component also changed the original
---
 src/ics/alarm.py             |  4 ++--
 src/ics/component.py         | 18 ++++++++++++++++--
 src/ics/timezone/__init__.py |  2 +-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index 234f103..fdb8bd2 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -92,9 +92,9 @@ class EmailAlarm(BaseAlarm):
     summary: str = attr.ib(default=None)  # message subject
     description: str = attr.ib(default=None)  # message body
     attendees: List[Attendee] = attr.ib(
-        factory=list, metadata={"ics_name": "ATTENDEE"}
+        factory=list, converter=list, metadata={"ics_name": "ATTENDEE"}
     )  # message recipients
-    attach: List[Union[URL, bytes, None]] = attr.ib(factory=list)  # e-mail attachments
+    attach: List[Union[URL, bytes, None]] = attr.ib(factory=list, converter=list)  # e-mail attachments
 
     def add_attendee(self, attendee: Attendee):
         """Add an attendee to the attendee list"""
diff --git a/src/ics/component.py b/src/ics/component.py
index 9ce92d9..beaec27 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -4,7 +4,12 @@ import attr
 from attr.validators import instance_of
 
 from ics.contentline import Container
-from ics.types import ContextDict, ExtraParams, RuntimeAttrValidation
+from ics.types import (
+    ContextDict,
+    ExtraParams,
+    RuntimeAttrValidation,
+    copy_extra_params,
+)
 
 ComponentType = TypeVar("ComponentType", bound="Component")
 ComponentExtraParams = Dict[str, Union[ExtraParams, List[ExtraParams]]]
@@ -100,5 +105,14 @@ class Component(RuntimeAttrValidation):
         # these are no init parameters and thus not handled by evolve
         # (setting them directly is also needed for frozen subclasses)
         object.__setattr__(new, "extra", self.extra.clone())
-        object.__setattr__(new, "extra_params", dict(self.extra_params))
+        object.__setattr__(
+            new,
+            "extra_params",
+            {
+                key: [copy_extra_params(p) for p in params]
+                if isinstance(params, list)
+                else copy_extra_params(params)
+                for key, params in self.extra_params.items()
+            },
+        )
         return new
diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 640cc2c..33344cb 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -131,7 +131,7 @@ class Timezone(Component, _tzinfo):
     NAME = "VTIMEZONE"
 
     tzid: str = attr.ib()
-    observances: List[TimezoneObservance] = attr.ib(factory=list)
+    observances: List[TimezoneObservance] = attr.ib(factory=list, converter=list)
     tzurl: Optional[URL] = attr.ib(default=None)
     last_modified: Optional[datetime.datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
 
-- 
2.43.0


From 0c1990d8688119e2b992cd1ac3d7dd39a0f0b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 16/24] fix: parse the date-times of PERIOD values

PeriodConverter only knew the date formats, so no period could be parsed
---
 src/ics/valuetype/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index e13ba4a..6217d4b 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -381,6 +381,8 @@ DurationConverter = DurationConverterClass()
 
 
 class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
+    FORMATS = DatetimeConverterClass.FORMATS
+
     @property
     def ics_type(self) -> str:
         return "PERIOD"
-- 
2.43.0


From 1d7fce06efcc8ab2957a8823c5cdcf4f1d01c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 17/24] fix: reject unrepresentable timezones with ValueError

dateutil.tz has no attribute _tzicalvtz, so any timezone that isn't a tzfile, tzlocal or tzstr failed with AttributeError
---
 src/ics/timezone/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 1142f3b..879a5fd 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -145,7 +145,7 @@ def Timezone_from_dateutil(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneR
         return TimezoneResult.LOCAL  # tzinfo._tznames
     elif isinstance(tzinfo, dateutil.tz.tzstr):
         return TimezoneResult.NOT_IMPLEMENTED
-    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz._tzicalvtz)):  # type: ignore[attr-defined]
+    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz.tz._tzicalvtz)):  # type: ignore[attr-defined]
         return TimezoneResult.NOT_IMPLEMENTED
     elif isinstance(tzinfo, dateutil.tz.tzrange):
         return TimezoneResult.NOT_IMPLEMENTED
-- 
2.43.0


From 657dc3d0a1af0009276488b823b1635f2bb50886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:44 +0000
Subject: [PATCH 18/24] fix: reject DURATION with an unsupported value type

---
 src/ics/converter/types/timespan.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 017c415..740e55d 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -71,6 +71,11 @@ class TimespanConverter(AttributeConverter):
 
         else:
             assert item.name == "DURATION"
+            value_type = params.pop("VALUE", ["DURATION"])
+            if value_type != ["DURATION"]:
+                raise ValueError(
+                    f"can't handle {item.name} with value type {value_type}"
+                )
             self.set_or_append_extra_params(component, params, name="duration")
             context[CONTEXT_DURATION] = DurationConverter.parse(
                 item.value, params, context
-- 
2.43.0


From 53304c671412a45ac00481f5e1b4c131001ce830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:44 +0000
Subject: [PATCH 19/24] fix: reject timezone observances without any recurrence
 with ValueError

context.pop failed with KeyError
---
 src/ics/converter/types/various.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 1ff2d04..e6d9397 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -45,9 +45,15 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
-        lines_str = "".join(
-            line.serialize(newline=True) for line in context.pop((self, "lines"))
-        )
+        lines = context.pop((self, "lines"), None)
+        if not lines:
+            if self.is_required:
+                raise ValueError(
+                    "at least one of %s is required but got no value"
+                    % self.filter_ics_names
+                )
+            return
+        lines_str = "".join(line.serialize(newline=True) for line in lines)
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
-- 
2.43.0


From 888bee466d0c42c1356614b2d4307f32c5d53efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:08 +0000
Subject: [PATCH 20/24] fix: validate assignments with the fields of the class
 itself

The cached fields of a superclass that was used before were also found
on its subclasses, whose own fields then weren't converted and validated.
---
 src/ics/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/types.py b/src/ics/types.py
index 6575f00..2cf7d45 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -126,7 +126,8 @@ class RuntimeAttrValidation:
     def __setattr__(self, key, value):
         if getattr(self, "__post_init__", None):
             cls = self.__class__  # type: Any
-            if not getattr(cls, "__attr_fields__", None):
+            # don't use the fields of a superclass
+            if "__attr_fields__" not in cls.__dict__:
                 cls.__attr_fields__ = attr.fields_dict(cls)
             try:
                 field = cls.__attr_fields__[key]
-- 
2.43.0


From 68f69e98aac09d1dc4b898bf5da84a8ff185164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:10 +0000
Subject: [PATCH 21/24] fix: compare floating and non-floating times in
 Timeline.start_after

as all other queries already do, instead of raising TypeError
---
 src/ics/timeline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 4210cc6..826a176 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 import attr
 
 from ics.event import Event
-from ics.timespan import Normalization, Timespan
+from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import ensure_datetime, floor_datetime_to_midnight
 
@@ -108,9 +108,10 @@ class Timeline:
         Iterates (in chronological order) on every event from the :class:`ics.icalendar.Calendar` in chronological order.
         The first event of the iteration has a starting date greater (later) than `instant`.
         """
-        instant = self.__normalize_datetime(instant)
+        instant = CMP_NORMALIZATION.normalize(self.__normalize_datetime(instant))
         for timespan, event in self.iterator():
-            if timespan.begin_time is not None and timespan.begin_time > instant:
+            begin = CMP_NORMALIZATION.normalize(timespan.begin_time)
+            if begin is not None and begin > instant:
                 yield event
 
     def at(self, instant: DatetimeLike) -> Iterator[Event]:
-- 
2.43.0


From 5a18f579d4e8813a16b87df1cc5a410ee9d895ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 22/24] fix: deep clones of Containers don't share the lines of
 nested Containers

---
 src/ics/contentline/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index f71cccb..c007fc3 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -262,7 +262,10 @@ class Container(MutableSequence[ContainerItem]):
         if items is None:
             items = self.data
         if deep:
-            items = (item.clone() for item in items)
+            items = (
+                item.clone(deep=True) if isinstance(item, Container) else item.clone()
+                for item in items
+            )
         return attr.evolve(self, data=items)
 
     @staticmethod
-- 
2.43.0


From 6a1c7f400304ca531a566a978d4fb60135b8ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:13 +0000
Subject: [PATCH 23/24] fix: read the properties of parsed attendees and
 organizers

Quoted parameter values are stored as QuotedParamValue, which urlparse
doesn't accept.
---
 src/ics/attendee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index 0af90d6..3089760 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -23,7 +23,8 @@ class PersonProperty(Generic[T]):
         if len(value) == 0:
             return self.default
         elif len(value) == 1:
-            return self.converter.parse(value[0])
+            # parsed values might be QuotedParamValues
+            return self.converter.parse(str(value[0]))
         else:
             raise ValueError(
                 f"Expected at most one value for property {self.name!r}, got {value!r}!"
@@ -45,7 +46,7 @@ class PersonMultiProperty(Generic[T]):
     def __get__(self, instance: "Person", owner) -> List[T]:
         if self.name not in instance.extra:
             return self.default
-        return [self.converter.parse(v) for v in instance.extra[self.name]]
+        return [self.converter.parse(str(v)) for v in instance.extra[self.name]]
 
     def __set__(self, instance: "Person", value: Iterable[T]):
         instance.extra[self.name] = [self.converter.serialize(v) for v in value]
-- 
2.43.0


From f04c79111ba0714b3270b6a09a753a5ea506b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:10 +0000
Subject: [PATCH 24/24] fix: quote empty parameter values when serializing

An empty parameter value was written as 'NAME=', which the parser rejects, so that e.g. an attendee with an empty common name made the whole calendar unreadable.
---
 src/ics/contentline/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index c007fc3..cff5f20 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -177,7 +177,11 @@ class ContentLine(RuntimeAttrValidation):
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
-                if isinstance(pval, QuotedParamValue) or re.search("[:;,]", pval):
+                if (
+                    not pval  # an empty value could not be parsed otherwise
+                    or isinstance(pval, QuotedParamValue)
+                    or re.search("[:;,]", pval)
+                ):
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
                     # MUST be specified as quoted-string text values.
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
-- 
2.43.0

