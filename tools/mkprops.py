#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long JSON lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=qtext), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
S="src/ics/"
prop("C01","Streamed reading gives the same items as reading the whole text",
"""Reading calendar data line by line from any iterable yields exactly the items (or the same error at the same place), in the same order,
as reading the same data as one text, whether the lines carry their terminators or not, are folded or interspersed with blank lines, and however several
readers in one program take turns. An item is handed over no later than when the first non-blank line after it has arrived.
If the source itself fails part-way, that same error reaches the caller after every item completed before it, and nothing incomplete is ever handed over.""",
["schedules","inputs","fault_sequences"],"every delivery of the lines, every interleaving of several readers, every point at which the source fails",
"The tests parse whole strings or complete lists; no test interleaves two readers, observes how far a reader reads ahead, or has the line source fail.",
[S+"contentline/parser.py",S+"contentline/__init__.py",S+"icalendar.py"],
[("generator pipeline unfold_lines -> lines_to_contentlines -> contentlines_to_containers",S+"contentline/parser.py"),("Calendar(imports=iterable)",S+"icalendar.py")],
[("ContentLineParser instance","per-stream parsing state",S+"contentline/parser.py")],["string_to_containers","lines_to_containers","Calendar(imports=...)"])
prop("C02","A truncated or half-overwritten calendar file is never accepted",
"""If a saved calendar file is cut short at any byte before the end of its final line, or a shorter calendar was written over a longer one whose tail stayed behind,
loading it as a calendar raises an error instead of silently giving a calendar with content missing or mixed. When a file holds several calendars, the ones stored
completely before the damage are still delivered intact, in order, and only then the error is raised.""",
["crash_points","inputs","fault_sequences"],"every byte at which a crash cuts the file, every pair of old and new contents",
"Tests load a handful of intact files and a few hand-written broken ones; the crash offsets of a real save (in the middle of a fold, an escape, a UTF-8 sequence, a nested END) are not sampled.",
[S+"contentline/parser.py",S+"icalendar.py"],
[("Missing END / mismatched END detection",S+"contentline/parser.py"),("single-calendar check",S+"icalendar.py")],(),["Calendar(text)","Calendar(open file)","string_to_containers"])
prop("C03","A saved calendar comes back complete and saves again identically",
"""A calendar written to storage and loaded again - by another process, under another clock, local time zone and hash seed, through storage that reads and writes in
arbitrary partial chunks - has the same content: all events, todos, alarms, people, zones, every attribute, custom property and custom parameter, in the same order.
Nothing is invented or re-stamped by loading or saving, writing the calendar line by line produces exactly the lines of its text, and saving the loaded calendar again produces byte-identical text.""",
["inputs","fault_sequences","histories","configurations"],"every calendar buildable through the public API and any number of save/restart/load cycles",
"Round-trip tests use fixed sample files in one process with one clock, zone and hash seed and an ideal in-memory 'disk'.",
[S+"icalendar.py",S+"component.py",S+"converter/component.py",S+"converter/value.py",S+"converter/types/timespan.py",S+"converter/types/various.py",S+"converter/types/calendar.py",S+"contentline/container.py",S+"valuetype/datetime.py",S+"valuetype/text.py",S+"valuetype/special.py"],
[("ComponentMeta converters",S+"converter/component.py"),("extra / extra_params round trip",S+"converter/value.py"),("VTIMEZONE collection in the context",S+"converter/types/calendar.py")],
[("Component.extra, Component.extra_params","content the library has no attribute for",S+"component.py")],["Calendar.serialize","Calendar.__iter__","Calendar(imports=...)"])
prop("C04","Threads working on separate calendars get the results they would get alone",
"""Threads that each build, load, edit, query and save their own calendars get exactly the results, texts and errors each of them would get when running alone,
whatever the interleaving of the threads.""",
["schedules"],"every interleaving of the threads' steps","All tests are single-threaded.",
[S+"contentline/parser.py",S+"contentline/container.py",S+"converter/base.py",S+"converter/component.py",S+"converter/value.py",S+"types.py",S+"event.py",S+"timezone/__init__.py"],
[("per-conversion context dict instead of converter state",S+"converter/component.py"),("per-stream ContentLineParser",S+"contentline/parser.py"),("ContextVar defaults",S+"event.py")],
[("ComponentMeta.BY_TYPE / ValueConverter registries","process-wide converter tables",S+"converter/component.py"),("DEFAULT_LINE_WRAP","process-wide text wrapper",S+"contentline/container.py")],["all public results per thread"])
prop("C05","Concurrent readers of one calendar see what a single reader sees",
"""While nobody edits a calendar, any number of threads may save it, iterate or query its timeline, compare, print and copy its entries and look up zone offsets at the same time; each gets exactly the
result it would get alone, and the calendar is left unchanged.""",
["schedules"],"every interleaving of read-only operations of several threads on shared objects","All tests are single-threaded, and no test checks that reading leaves the objects unchanged.",
[S+"icalendar.py",S+"timeline.py",S+"converter/component.py",S+"converter/types/calendar.py",S+"timezone/__init__.py",S+"timespan.py"],
[("serialisation into fresh containers and contexts",S+"converter/component.py"),("lru_cache per Timezone",S+"timezone/__init__.py")],
[("Timezone observance cache","shared mutable state behind an immutable value",S+"timezone/__init__.py")],["serialize, timeline, comparison, str, utcoffset"])
prop("C06","First use is safe however it is raced or interrupted",
"""The first load or save in a process sets up the library on demand. However many threads do so at once, and even if one attempt is interrupted at any point
and retried, every completed operation gives the same result as in a process set up in peace, and later operations keep working.""",
["schedules","crash_points"],"every interleaving of first operations and every point at which the first one is interrupted",
"The test session initialises the library once, in one thread, without interruption, before almost all tests.",
[S+"__init__.py",S+"component.py",S+"converter/component.py",S+"valuetype/base.py",S+"converter/base.py"],
[("initialize_converters and its self-replacement",S+"__init__.py"),("lazy imports inside methods",S+"component.py")],
[("initialize_converters global","whether converters are registered",S+"__init__.py"),("BY_TYPE / BY_NAME tables","registered converters",S+"valuetype/base.py")],["from_container, serialize in a fresh process"])
prop("C07","A scoped fixed uid and timestamp stays inside its scope",
"""Entries created inside a scope that fixes the generated uid and timestamp get exactly the fixed values of the innermost scope of their own task or thread, and entries created
anywhere else at the same time get fresh ones. However the scope is left - normally, by an exception, by cancellation, in nested or overlapping tasks - what was in force before is in force again.""",
["schedules","fault_sequences"],"every interleaving of tasks and threads using nested scopes, every exit path",
"One test enters the scope once in one thread.",
[S+"event.py"],[("ContextVar factories with token reset",S+"event.py")],[("default_uid_factory, default_dtstamp_factory","current factories",S+"event.py")],["Event().uid, Event().dtstamp"])
prop("C08","A scoped line-wrap width affects only its own scope",
"""Text produced inside a scope that sets the line-wrap width is wrapped at exactly that width, and text produced by other threads or tasks at the same time, and by anyone after the scope has ended in whatever way,
is wrapped at the width in force for them before.""",
["schedules","fault_sequences"],"every interleaving of threads and tasks that set widths and serialise, every exit path",
"Tests set the width in a single thread and leave the scope normally.",
[S+"contentline/container.py"],[("contentline_set_wrap",S+"contentline/container.py")],[("DEFAULT_LINE_WRAP.width","width in force",S+"contentline/container.py")],["ContentLine.serialize, Container.serialize, Calendar.serialize"])
prop("C09","Timeline iteration is a chronological, exactly-once snapshot",
"""An iteration or query over a timeline, from the moment its first item is requested, delivers every matching entry the calendar had at that moment exactly once and in chronological order, no matter how the calendar and its entries are
edited between the steps and how many iterations are in progress at once. Which entries match is decided by half-open time intervals as documented: an entry does not include its end instant.""",
["schedules","histories"],"every interleaving of iteration steps of several iterators with edits",
"Timeline tests exhaust one iterator over an unmodified calendar of a few well separated entries.",
[S+"timeline.py",S+"timespan.py"],[("heap built on first next()",S+"timeline.py"),("interval predicates",S+"timespan.py")],[("heap","snapshot of the iteration",S+"timeline.py")],["Timeline.__iter__, included, overlapping, start_after, at, on"])
prop("C10","Everything taken from the clock is the clock at the moment of use",
"""The entries reported as happening now or today, and the timestamp given to a new entry, are determined by the system clock and local time zone at the moment of the call, for every instant of the day and every zone,
even when the clock stands still, jumps forwards or backwards or the zone changes between calls; a timestamp once given never changes by itself.""",
["histories","fault_sequences","configurations"],"every history of clock jumps and zone changes between operations",
"One test freezes the clock at a single instant with the machine in UTC.",
[S+"timeline.py",S+"event.py",S+"timezone/__init__.py",S+"utils.py"],[("Timeline.now/today/on",S+"timeline.py"),("now_in_utc",S+"timezone/__init__.py")],(),["Timeline.now, Timeline.today, Timeline.on, Event().dtstamp"])
prop("C11","Floating times follow the current local zone, stored values do not",
"""Comparisons, ordering, and timeline queries interpret times without a zone in the local zone in force at that moment, also right after that zone has changed in a running program, and consistently with entries that carry a zone.
The stored times, the saved text and equality of entries never depend on the local zone.""",
["histories","configurations"],"every history of local zone changes between comparisons, queries and saves",
"Tests run in one local zone that never changes.",
[S+"timespan.py",S+"event.py",S+"timeline.py"],[("CMP_NORMALIZATION with tzlocal factory",S+"timespan.py")],[("CMP_NORMALIZATION","how floating times compare",S+"timespan.py")],["comparison operators, Timeline queries, serialize"])
prop("C12","Zone lookups depend on the zone and wall time, not on earlier lookups",
"""The UTC offset, DST amount and abbreviation a zone reports for a wall time (including which of two repeated hours is meant) depend only on the zone's definition and that wall time: not on earlier lookups, on lookups of other threads, or on
whether the zone was loaded again. They agree with the zone's transition rules, and an instant converted to the zone and back is the same instant.""",
["histories","schedules"],"every history and interleaving of lookups on one zone object",
"Tests look single wall times up once, in order, in one thread; the per-zone cache of recent lookups is never put under a history.",
[S+"timezone/__init__.py"],[("_find_observance and its lru_cache",S+"timezone/__init__.py")],[("lru_cache of observances","recent lookups",S+"timezone/__init__.py")],["utcoffset, dst, tzname, astimezone"])
prop("C13","A rejected or interrupted time edit changes nothing",
"""Every edit of an entry's begin, end or due, duration, all-day state or zone either takes full effect as documented or raises and leaves the entry exactly as it was, also when it is interrupted at any point or the supplied zone object fails.
At every moment, also as seen by other threads, the entry's times are a valid combination that some edit had established.""",
["histories","crash_points","schedules"],"every sequence of valid and invalid edits, every interruption point, every interleaving with a reader",
"Tests apply single edits and check either the result or the exception, not the state after a failure, an interruption or a long sequence.",
[S+"event.py",S+"todo.py",S+"timespan.py",S+"types.py"],[("immutable Timespan replaced in one assignment",S+"timespan.py"),("validators on assignment",S+"types.py")],[("entry.timespan","the entry's times",S+"event.py")],["Event/Todo begin, end, due, duration, all_day, make_all_day, unset_all_day, convert_end, replace_timezone, convert_timezone"])
prop("C14","A failed or interrupted load or save leaves no trace",
"""Saving never modifies the objects it saves. When a load or save fails or is interrupted at any point - bad data, a value that cannot be written, a failing source or zone file, an interrupt - the objects involved in saving are unchanged,
and repeating it once the cause is gone, and any unrelated load or save, gives exactly the result it would have given had the failure never happened.""",
["crash_points","fault_sequences","histories"],"every point of failure in every load or save, every following operation",
"Failure tests stop at the exception; none checks what a later operation does, and none interrupts a conversion midway.",
[S+"converter/component.py",S+"converter/value.py",S+"converter/types/timespan.py",S+"converter/types/calendar.py",S+"contentline/parser.py",S+"component.py"],
[("fresh context per conversion",S+"converter/component.py")],[("context dict","in-flight conversion state",S+"converter/component.py")],["serialize, to_container, Calendar(text) after a failed attempt"])
prop("C15","An interrupted calendar-wide zone conversion can be resumed",
"""While a calendar's entries are being converted to one zone, an interruption or failure at any point loses and duplicates no entry, and leaves each entry either as before or completely converted;
repeating the conversion then gives exactly the result of an uninterrupted one. All-day entries are never touched.""",
["crash_points","histories"],"every interruption point of the conversion and every number of retries",
"normalize is tested once on undisturbed calendars.",
[S+"icalendar.py",S+"timespan.py",S+"event.py"],[("Calendar.normalize rebuilding its lists",S+"icalendar.py"),("Normalization.normalize",S+"timespan.py")],[("calendar.events / todos","entries being converted",S+"icalendar.py")],["Calendar.normalize"])
prop("C16","Edits of a content container are all-or-nothing",
"""Adding, inserting or replacing items of a content container either applies completely or, when an item is of the wrong kind or the supplied sequence fails part-way, raises and leaves the container exactly as it was,
so a container never holds anything but content lines and containers and can always be written out.""",
["histories","fault_sequences"],"every sequence of edits, every failing item position and source",
"Tests check that wrong items raise, not what the container holds afterwards, and no source of items fails midway.",
[S+"contentline/container.py"],[("Container.check_items",S+"contentline/container.py")],[("Container.data","the items",S+"contentline/container.py")],["Container.append, insert, extend, +=, item and slice assignment, serialize"])
prop("C17","Failing zone storage gives an error or the right zone, never a wrong one",
"""When the stored zone definitions cannot be read properly - I/O errors, missing, truncated, empty or garbled files, at any of the reads involved - asking for a zone or loading a calendar that names one either fails or gives a zone with the correct offsets.
Once the storage works again, so does every later request, without restart.""",
["fault_sequences","histories"],"every fault at every file access, every sequence of faulty and healthy requests",
"Tests read an intact data directory.",
[S+"timezone/converters.py",S+"timezone/__init__.py",S+"valuetype/datetime.py"],[("Timezone_from_tzid",S+"timezone/converters.py"),("lenient lookup of undefined TZIDs",S+"valuetype/datetime.py")],(),["Timezone.from_tzid, Calendar(text naming zones), serialize of zoned times"])
prop("C18","Assignments are validated whatever classes were used before",
"""Assigning an attribute runs the same conversion and validation that construction runs for the object's own class, including attributes and rules added by a subclass, regardless of which other classes were used or assigned to before and in
which order or threads; a rejected assignment leaves the value as it was.""",
["histories","schedules"],"every order in which classes and subclasses are first used and assigned to",
"Tests assign to library classes only, and the order of first use is fixed by the test files.",
[S+"types.py"],[("RuntimeAttrValidation.__setattr__ with a per-class field cache",S+"types.py")],[("__attr_fields__","cached field table of a class",S+"types.py")],["attribute assignment on components and user subclasses"])
prop("C19","Editing one object never changes another",
"""Objects created, loaded or copied separately are independent: adding, removing or replacing entries, alarms, people, categories, custom lines or parameters of one never shows in another,
however the edits of several objects interleave, and a copy starts out with all the content of its original including custom lines and parameters.""",
["histories","schedules"],"every interleaving of creations, loads, copies and edits",
"Tests look at one object at a time.",
[S+"component.py",S+"icalendar.py",S+"event.py",S+"attendee.py",S+"contentline/container.py",S+"types.py"],[("list converters and factories",S+"event.py"),("Component.clone, Container.clone, ContentLine.clone",S+"component.py")],(),["clone, constructors, Calendar(text)"])
prop("C20","Generated identifiers are always fresh",
"""Every entry created without an explicit uid gets an identifier different from that of every other entry, also when the clock stands still or goes back, when the program seeds its own random generators identically,
when threads create entries at once, and across processes started at the same instant; an identifier never changes by loading, saving, editing or copying.""",
["histories","schedules","configurations"],"every history of clock states, seeding, forks, restarts and thread interleavings",
"Tests fix the uid or look at a single entry.",
[S+"utils.py",S+"event.py"],[("uid_gen from operating-system randomness",S+"utils.py")],(),["Event().uid, Todo().uid"])
# --- pure functions of their input: not simulation targets -------------------------------------
prop("C30","Text and parameter escaping are exact inverses",
"""Any text put into a text value or a parameter is escaped such that reading it back gives the same text.""",
["inputs"],"all strings","Tests sample strings (with hypothesis).",[S+"valuetype/text.py",S+"contentline/container.py"],[("escape_text/unescape_text, escape_param/unescape_param",S+"valuetype/text.py")])
prop("C31","Line folding is transparent at every width",
"""Folding a content line at any width and unfolding it again gives the same line.""",["inputs"],"all lines and widths","Tests sample.",[S+"contentline/container.py",S+"contentline/parser.py"],[("TextWrapper folding",S+"contentline/container.py")])
prop("C32","Every value type reads back what it wrote",
"""Dates, times, durations, offsets, periods, numbers, booleans, binary and geo values converted to text and back are equal.""",["inputs"],"all values of each type","Tests sample.",[S+"valuetype/datetime.py",S+"valuetype/generic.py",S+"valuetype/special.py"],[("ValueConverter.parse/serialize",S+"valuetype/base.py")])
prop("C33","Timespans are totally ordered",
"""For any timespans the comparison operators form a total preorder on (begin, end), (due, begin) for todos, consistent with each other.""",["inputs"],"all triples of timespans","Tests sample.",[S+"timespan.py"],[("cmp_tuple",S+"timespan.py")])
prop("C34","All-day rounding follows the documented rules",
"""Making a timespan all-day rounds its begin down and its end up to whole days as documented.""",["inputs"],"all timespans","Tests sample.",[S+"timespan.py",S+"utils.py"],[("make_all_day",S+"timespan.py")])
prop("C35","Recurrence rules keep their occurrences",
"""A recurrence set written and read back generates the same occurrences.""",["inputs"],"all recurrence sets","Tests sample.",[S+"rrule.py",S+"converter/types/various.py"],[("RecurrenceConverter",S+"converter/types/various.py")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
