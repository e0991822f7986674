"""Writes /verif/properties.jsonl (kept as a script so that statements stay readable and reviewable)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",)):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["src/ics/" + f for f in files], mechanism=[dict(name=n, where="src/ics/" + w) for n, w in mech])))

p("C01", "TEXT escaping is lossless and ill-formed TEXT is rejected",
  "Un-escaping the escaped form of any string gives back exactly that string, and the escaped form contains no newline, no carriage return and no unescaped semicolon or comma. Un-escaping an arbitrary string raises ValueError exactly if it contains a bare ';', ',', LF or CR, or a backslash that is not followed by one of the characters \\ ; , n N r R; otherwise it decodes every escape pair and keeps every other character.",
  "every string of any length over all code points", "Tests and the hypothesis samples try a few short strings; the claim is about all strings, including every placement of backslashes.",
  ["valuetype/text.py", "utils.py"], [("escape_text / unescape_text(_iter)", "valuetype/text.py"), ("next_after_str_escape", "utils.py")])
p("C02", "TEXT value lists survive joining and splitting",
  "Splitting the comma-joined, individually escaped forms of any non-empty list of strings gives back the same escaped strings in the same order. Splitting an arbitrary TEXT list value never splits at an escaped comma and always splits at an unescaped one, so re-joining the pieces with commas yields the original value; it raises ValueError exactly if the value ends with an unpaired backslash.",
  "every non-empty list of strings and every list value string", "Only a handful of lists is tested; backslash runs before commas of every parity and position matter.",
  ["valuetype/text.py", "valuetype/base.py"], [("TextConverter.split_value_list / join_value_list", "valuetype/text.py")])
p("C03", "Parameter value ^-encoding is lossless and injection-free",
  "For every string without carriage returns, decoding its encoded parameter value form yields the same string; the encoded form never contains a double quote, line feed or carriage return. Decoding rejects with ParseError any value in which a caret is not followed by one of n, ^ or the apostrophe, and otherwise replaces exactly those pairs.",
  "every string", "Tests cover a few fixed escapes; the guarantee is over all strings and all caret placements.",
  ["contentline/container.py"], [("escape_param / unescape_param", "contentline/container.py")])
p("C04", "A content line survives serialization and parsing",
  "Serializing any property line with an identifier name, identifier parameter names, non-empty lists of parameter values free of control characters other than line feed, and a value without line breaks, and parsing the result again yields an equal line: same upper-cased name, same parameters with the same values in the same order, and the same value. A parsed line without a ':' outside of quotes, with a parameter lacking '=', with an empty unquoted last parameter value, or with an unterminated quote is rejected with ParseError.",
  "every line: any number of parameters and values, any text including quotes, carets, colons, semicolons and commas", "Tests enumerate single examples; combinations of quoting, encoding and delimiters are unbounded.",
  ["contentline/container.py", "contentline/parser.py"], [("ContentLine._serialize_iter_unwrapped", "contentline/container.py"), ("ContentLineParser.parse*", "contentline/parser.py")])
p("C05", "Folded output respects the width and unfolds to the original lines",
  "For every wrap width of at least 2 (75 by default), every physical line written for a property line has at most that many characters, and continuation lines start with a single space. Unfolding the written physical lines yields exactly the original logical lines in order, ignoring empty lines; a continuation line without a preceding line, and an input line with an embedded line break, are rejected with ParseError.",
  "all property lines, all widths, all sequences of physical lines", "Tests use a couple of long lines at width 75; break positions depend on the whole text.",
  ["contentline/container.py", "contentline/parser.py"], [("ContentLine.serialize(_iter), DEFAULT_LINE_WRAP", "contentline/container.py"), ("unfold_lines, string_to_lines", "contentline/parser.py")], ("inputs", "configurations"))
p("C06", "Component nesting survives and mismatched nesting is rejected",
  "For every tree of containers and property lines (none of them named BEGIN or END), parsing its serialization yields an equal tree with the same order and nesting at every depth. Input in which an END names a different component than the innermost open BEGIN, or in which an open component is never ended, is rejected with ParseError; names match case-insensitively.",
  "all trees of any depth and width and all sequences of lines", "Tests use trees of depth at most three; nesting depth and order are unbounded.",
  ["contentline/container.py", "contentline/parser.py"], [("Container.serialize_iter", "contentline/container.py"), ("contentlines_to_container(s)", "contentline/parser.py")])
p("C07", "Durations survive serialization and parsing",
  "For every timedelta of whole seconds, parsing its serialization yields the same timedelta, and the serialization consists of an optional '-', 'P', an optional day part and an optional 'T' part with each unit at most once, in order and in range (hours below 24, minutes and seconds below 60). Parsing any well-formed duration value with weeks, days, hours, minutes and seconds yields the signed sum of its parts, and a value that repeats a unit, lacks the leading P or uses an unknown unit is rejected with an exception.",
  "all representable timedeltas of whole seconds (both signs) and all well-formed duration strings", "Tests check about twenty durations.",
  ["valuetype/datetime.py"], [("DurationConverter.serialize / parse", "valuetype/datetime.py")])
p("C08", "UTC offsets survive serialization and parsing",
  "For every whole-second offset of less than 100 hours in either direction, parsing its serialization yields the same offset; the serialization is a sign followed by two-digit hours and minutes and, only if non-zero, two-digit seconds. Parsing accepts exactly an optional sign followed by four or six digits, yields the signed sum, and raises ValueError otherwise.",
  "all offsets and all strings", "Tests check a dozen offsets.",
  ["valuetype/datetime.py"], [("UTCOffsetConverter.serialize / parse", "valuetype/datetime.py")])
p("C09", "Date, date-time, time and period values survive serialization",
  "For every date, and every datetime or time of whole seconds that is naive, UTC or in a timezone that can be serialized, parsing the serialized value together with the parameters and context produced by serializing it yields the same wall clock reading, naive for naive values, in UTC for UTC values (written with a trailing Z and no TZID) and in the same timezone otherwise (written with its TZID). Periods keep their begin, and either their end or their duration; combining a trailing Z with a TZID is rejected.",
  "all dates and times of years 1 to 9999 and all timezones", "Tests sample a few dates after 1970.",
  ["valuetype/datetime.py"], [("DatetimeConverterMixin._serialize_dt/_parse_dt", "valuetype/datetime.py"), ("PeriodConverter", "valuetype/datetime.py")])
p("C10", "Every timespan that exists is valid",
  "A timespan (plain, of an event or of a todo) can be created exactly if: end and duration are not both set; a duration needs a begin and is not negative; an end is not before the begin and both have a timezone or neither has; an event has no end without a begin; all-day timespans start and end at naive midnights and last at least one day; and set or resulting durations are whole multiples (up to half a second) of the precision. Everything else is rejected with ValueError or TypeError, and every operation that changes a timespan, an event or a todo either yields a valid timespan or raises and leaves the previous one in place.",
  "all combinations of begin, end, duration and precision and all sequences of modifications", "Tests enumerate a few invalid combinations; sequences of setters and conversions are unbounded.",
  ["timespan.py", "event.py", "todo.py"], [("Timespan.validate, __init__, replace", "timespan.py"), ("begin/end/duration setters", "event.py")], ("inputs", "histories"))
p("C11", "Changing how an end is represented never changes when an entry happens",
  "Converting between an explicit end and a duration keeps begin and effective end (both in the same zone); removing the end keeps begin. Making a timespan all-day yields whole days that cover the previous begin and effective end (both in the same zone), starting on the day of the begin and ending at most one day after the effective end, with at least one day, and keeps whether the end was given as duration; it is the identity on all-day timespans. Setting begin keeps a set end or duration, setting end (or due) replaces a duration, and setting a duration replaces an explicit end.",
  "all valid timespans, events and todos", "Tests sample a handful of timespans.",
  ["timespan.py", "event.py", "todo.py"], [("convert_end, make_all_day", "timespan.py"), ("setters", "event.py")])
p("C12", "Timezone replacement keeps wall clocks, conversion keeps instants",
  "Replacing the timezone of a timespan keeps the wall clock readings of begin and explicit end and puts them in the new zone; converting the timezone keeps the instants of begin and explicit end (naive times being local times) and expresses them in the new zone; a duration stays unchanged and all-day timespans are refused with ValueError. Normalization applies replacement, conversion or nothing to datetimes, timespans, events and todos exactly as configured separately for naive and for aware values, calling a callable replacement for the zone; normalizing a calendar does this to every entry that is not all-day and keeps the all-day ones as they are.",
  "all timespans, timezones, and configurations", "Tests use few fixed zones.",
  ["timespan.py", "event.py", "icalendar.py"], [("replace_timezone, convert_timezone, Normalization.normalize", "timespan.py"), ("Calendar.normalize", "icalendar.py")], ("inputs", "configurations"))
p("C13", "Ordering of events, todos and timespans is one consistent total preorder",
  "Events are ordered by begin, effective end, then summary; todos by effective due, begin, then summary; timespans likewise without summary, where naive times are compared as local times, a missing time counts as 1900-01-01 local time and a missing summary as empty. The four comparison operators always agree with this single order (so sorting is deterministic up to ties, independent of whether an end or a duration is set), and comparing with unrelated types is refused.",
  "all pairs and triples of entries whose times are not ambiguous or skipped local times", "Tests compare a few dozen pairs; transitivity and operator agreement are claims about all pairs and triples.",
  ["timespan.py", "event.py", "todo.py"], [("cmp_tuple, timespan_tuple, __lt__ ...", "timespan.py"), ("CalendarEntryAttrs.cmp_tuple", "event.py")])
p("C14", "Interval predicates implement half-open interval semantics",
  "With naive times read as local times: a starts within b iff b.begin <= a.begin < b.end; a ends within b iff b.begin <= a.end < b.end; a and b intersect iff one starts within the other (so it is symmetric and merely touching spans do not intersect); a includes an instant t iff a.begin <= t < a.end; a includes b, equivalently b is included in a, iff a.begin <= b.begin and b.end < a.end. The predicates raise ValueError if a begin or end they need is missing, give the same answers on events and todos as on their timespans, and never modify anything.",
  "all pairs of timespans, events and todos", "Tests enumerate a small grid of whole-day values.",
  ["timespan.py", "event.py"], [("starts_within, ends_within, intersects, includes, is_included_in", "timespan.py")])
p("C15", "Timeline queries are complete, exact and chronological",
  "Iterating a calendar's timeline yields every event that has a begin exactly once in chronological order and omits events without any time. The queries included, overlapping, start_after, at and on (strict or not) yield exactly those events, in the same order, whose (normalized) timespan is included in, intersects, begins after, includes, or intersects (strict: is included in) the queried timespan, instant or calendar day; the calendar is not modified.",
  "all calendars with any number of events, all queries, all normalizations", "Tests use one calendar of four events.",
  ["timeline.py"], [("Timeline.iterator and queries", "timeline.py")])
p("C16", "Nothing in a parsed component is lost and unknown parts round-trip",
  "When a component is loaded, every contained line or sub-component is either consumed by exactly the properties of its name or kept, unchanged and in the original relative order, in the extras of the loaded component; none is dropped or kept twice. Serializing a component writes its name, then its known properties and sub-components, then all of its extras unchanged and in order.",
  "all component contents of any length, mixing known and unknown names", "Tests contain few unknown properties.",
  ["converter/component.py", "component.py"], [("ComponentMeta._populate_attrs / _serialize_attrs", "converter/component.py")])
p("C17", "Property values keep their parameters and grouping through a round trip",
  "For every component, loading the serialized form of its properties yields equal attribute values together with the same extra parameters, including those of begin, end, due and duration, and keeps which values of a multi-valued property shared a line. A single-valued property occurring twice, a missing required property, a VALUE type the property does not support, a duplicate DTSTART/DTEND/DUE/DURATION, mixed date and date-time for begin and end, DUE in an event and DTEND in a todo are rejected with ValueError.",
  "all attribute values, parameters and value groupings", "Tests cover single examples of parameters and merged lists.",
  ["converter/value.py", "converter/base.py", "converter/types/timespan.py"], [("AttributeValueConverter.populate/serialize", "converter/value.py"), ("TimespanConverter", "converter/types/timespan.py")])
p("C18", "VTIMEZONE offsets come from the latest onset, independent of history",
  "The UTC offset, DST offset and name a timezone reports for a local time are those of the observance with the most recent onset at or before that time (the first such observance on ties); a repeated local time with fold set already counts as after a transition that moves the clock back. Before all onsets the first standard observance (or else the first) applies; the answers never depend on which times were asked before.",
  "all sets of observances, all local times and folds, all query histories", "Tests query a few times in fixed order; caching makes the history matter.",
  ["timezone/__init__.py"], [("Timezone._find_observance(_cachable), utcoffset, dst, tzname", "timezone/__init__.py")], ("inputs", "histories"))
p("C19", "Every timezone a calendar refers to is defined in it exactly once",
  "In every serialized calendar, each TZID written for a time of an event or todo is defined by exactly one VTIMEZONE placed before the first event, and no VTIMEZONE is written for UTC or local times. When parsing, a time whose TZID is defined by a VTIMEZONE of the calendar, wherever it is placed, is interpreted with that definition, in preference to a built-in one.",
  "all calendars and mixtures of timezones", "Tests use one or two zones.",
  ["converter/types/calendar.py", "valuetype/datetime.py"], [("CalendarMeta", "converter/types/calendar.py"), ("_serialize_dt/_parse_dt", "valuetype/datetime.py")])
p("C20", "Attribute assignment validates like construction and is all-or-nothing",
  "Assigning a value to any attribute of a component or property line applies the same conversion and validation as passing it to the constructor: the stored value is the converted one, and invalid values are rejected with an exception and leave the object unchanged. In particular status, percent, priority, classification, organizer, geo, timestamps (converted to UTC) and timespans of the right kind are enforced after any history of assignments.",
  "all attributes, values and assignment histories", "Tests assign a few values.",
  ["types.py", "event.py", "todo.py", "utils.py"], [("RuntimeAttrValidation.__setattr__", "types.py")], ("inputs", "histories"))
p("C21", "Cloning copies everything; parsing and serializing do not modify their input",
  "A clone of a component, container or property line is equal to the original, including extras and extra parameters, and adding or removing items or parameters on the clone leaves the original unchanged; deep clones of containers share no lines. Loading a component does not modify the container it is loaded from, serializing does not modify the component, and serializing twice gives the same text.",
  "all components, containers and lines", "Tests clone one event and one line.",
  ["component.py", "contentline/container.py", "types.py"], [("Component.clone", "component.py"), ("ContentLine.clone, Container.clone", "contentline/container.py"), ("copy_extra_params", "types.py")])
p("C22", "Importing a calendar requires exactly one calendar",
  "Creating a calendar from a string or an iterable of lines succeeds only if the data holds exactly one top-level calendar component and nothing after it; no data, a bare property line first, a component of another name, and several top-level items are rejected with ValueError. Parsing multiple calendars returns one calendar per top-level component, in order, each equal to importing it alone.",
  "all sequences of top-level items", "Tests use zero, one and two calendars.",
  ["icalendar.py", "utils.py"], [("Calendar.__init__, parse_multiple", "icalendar.py"), ("one", "utils.py")])
p("C23", "Attendee and organizer properties behave like stored values",
  "Setting a property of an attendee or organizer (common name, role, status, user type, RSVP, sent-by, directory, members, delegations) and reading it gives back an equal value, changes no other property, and deleting it restores the default. Serializing a person writes its address and all of its parameters, and parsing that yields an equal person; reading a single-valued property with several stored values raises ValueError.",
  "all properties, values and parameter dictionaries", "Tests set two or three properties.",
  ["attendee.py", "valuetype/special.py"], [("PersonProperty, PersonMultiProperty", "attendee.py"), ("PersonConverter", "valuetype/special.py")], ("inputs", "histories"))
p("C24", "Scoped settings are restored however the scope is left",
  "Inside the scope of a custom wrap width, lines are folded at that width (no folding at all if it is zero, negative or none); inside the scope of deterministic event data, new entries get exactly the given UID and timestamp. When the scope is left, normally or by any exception, with any nesting, the previous settings are in force again and the exception is not swallowed.",
  "all bodies, exceptions and nestings", "Tests enter each scope once and leave it normally.",
  ["contentline/container.py", "event.py"], [("contentline_set_wrap", "contentline/container.py"), ("deterministic_event_data", "event.py")], ("inputs", "histories"))
p("C25", "Alarms keep their kind and content through a round trip",
  "Every alarm serializes to exactly one ACTION line naming its kind, and loading it yields an alarm of the same kind with equal trigger, repeat, duration and content. Loading an alarm selects the kind by its ACTION (AUDIO, DISPLAY, EMAIL, NONE, anything else a custom alarm keeping that action) and rejects with ValueError an alarm with no or several ACTION lines.",
  "all alarms of all kinds", "Tests check one alarm per kind, and none for custom alarms.",
  ["alarm.py", "converter/types/various.py"], [("AlarmActionConverter, AlarmMeta", "converter/types/various.py"), ("get_type_from_action", "alarm.py")])
p("C26", "Simple values survive serialization and parsing",
  "Booleans, integers, binary data and coordinates with up to six decimals survive serialization followed by parsing unchanged, and booleans are written as TRUE or FALSE. Boolean parsing accepts exactly TRUE, T, Y, YES, ON, 1 and FALSE, F, N, NO, OFF, 0 in any letter case and raises ValueError otherwise; coordinates without two parts are rejected with ValueError.",
  "all values and strings", "Tests sample a few values.",
  ["valuetype/generic.py", "valuetype/special.py"], [("BooleanConverter, IntegerConverter, BinaryConverter", "valuetype/generic.py"), ("GeoConverter", "valuetype/special.py")])
p("C27", "Containers only ever hold lines and containers",
  "Appending, inserting, extending, assigning an index or slice, or constructing a container with anything that is not a property line or container raises TypeError and leaves the container unchanged; otherwise the list operation takes effect exactly as on a plain list. Looking items up by name returns exactly the items with that name in order, deleting by name removes exactly those and keeps the others in order, and slicing returns a container of the same name with exactly those items.",
  "all containers, items, indexes and operation histories", "Tests exercise a few operations on short containers.",
  ["contentline/container.py"], [("Container.append/insert/extend/__setitem__/__getitem__/__delitem__", "contentline/container.py")], ("inputs", "histories"))
p("C28", "Converting timezones for output never changes their offset",
  "Converting a fixed-offset timezone into a calendar timezone yields one that reports the same UTC offset and no DST for every time, and calendar timezones and every spelling of UTC are passed through as themselves and as UTC. Timezones that mean local time yield no calendar timezone, those that cannot be represented raise ValueError, and the result does not depend on earlier conversions with the same context.",
  "all fixed offsets, times and conversion histories", "Tests sample a few timezones.",
  ["timezone/converters.py", "timezone/__init__.py"], [("Timezone_from_tzinfo, Timezone_from_offset, Timezone_from_builtin", "timezone/converters.py"), ("is_utc", "timezone/__init__.py")], ("inputs", "histories"))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
