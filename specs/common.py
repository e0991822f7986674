"""Vocabulary shared by the specifications."""
import datetime as _dt
from pyvc.spec import *
from pyvc.sorts import *
from ics.timespan import Timespan, EventTimespan, TodoTimespan, Normalization, NormalizationAction
from ics.event import Event
from ics.todo import Todo

DAYTD = _dt.timedelta(days=1)
SEC = _dt.timedelta(seconds=1)
ZERO = _dt.timedelta(0)
DAYUS = 86400 * 10**6
KINDS = [Timespan, EventTimespan, TodoTimespan]


def is_midnight(d):
    return wall(d) % DAYUS == 0


def is_multiple(td, precision):
    """whole multiple of the precision, up to half a second"""
    return td % (DAYTD if precision == "day" else SEC) <= SEC / 2


def effective_end(cls, begin, end, duration, precision):
    """when a timespan ends: specification"""
    if end is not None:
        return end
    if begin is None:
        return None
    if duration is not None:
        return begin + duration
    if issubclass(cls, EventTimespan):
        return begin + (DAYTD if precision == "day" else ZERO)
    return None


def valid_timespan(cls, begin, end, duration, precision):
    """the conditions of C10 (may raise TypeError where times are not comparable, which counts as invalid)"""
    if end is not None and duration is not None:
        return False
    if duration is not None:
        if begin is None or duration < ZERO:
            return False
        if precision == "day" and duration < DAYTD:
            return False
        if not is_multiple(duration, precision):
            return False
    if end is not None and begin is not None:
        if naive(begin) != naive(end):
            return False
        if end < begin:
            return False
        if precision == "day" and end - begin < DAYTD:
            return False
        if end - begin != ZERO and not is_multiple(end - begin, precision):
            return False
    if end is not None and begin is None and issubclass(cls, EventTimespan):
        return False
    if precision == "day":
        for x in (begin, end):
            if x is not None and not both(naive(x), is_midnight(x)):
                return False
    return True


def make_timespan(cls, begin, end, duration, precision):
    """an arbitrary existing timespan"""
    try:
        return cls(begin, end, duration, precision)
    except (ValueError, TypeError, OverflowError):
        assume(False)


PRECISION = Choice("second", "day")
