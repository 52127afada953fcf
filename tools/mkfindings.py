"""Writes known_findings.json (a committed file; checks only read it)."""
import json, os
F = [
 ("C12","57b8290","utcoffset/dst/tzname of a wall time in the repeated hour depended on which fold had been looked up first (cache keyed by the naive time only)"),
 ("C10","d7ef4b0","Timeline.now() used the UTC wall clock as if it were local time, so it reported the wrong entries wherever the local zone is not UTC"),
 ("C18","9d4d0e6","a subclass shared the attribute table cached on its base class, so its own attributes were not converted or validated once the base class had been used"),
 ("C03","5c2da77","iterating a calendar (writelines) split its text inside values at \\x85, \\u2028 and similar characters"),
 ("C16","f1aa84d","Container.extend / slice assignment with a failing or one-shot iterable left part of the items behind or stored unchecked items"),
 ("C19","2d7c455","Component.clone() lost extra lines and extra parameters"),
 ("C13","495b5ee","unset_all_day set precision to 'seconds', an unknown precision that later edits failed on"),
 ("C09","179fac1","entries that merely touch the queried interval were reported as overlapping it"),
 ("C10","c2c0971","Timeline.on() queried until 23:59:59.999999 of the day, so entries in the last microsecond were missed and strict containment was wrong"),
 ("C11","1f15343","Timeline.start_after compared floating and zoned times directly (TypeError) and ignored the local zone"),
 ("C03","2fcd798","custom parameters of an event's DTEND were written from the DTSTART/duration slot, so they were lost"),
 ("C08","a4d87a8","contentline_set_wrap changed the process-wide wrapper, so other threads and tasks were wrapped at the scoped width and an overlapping exit left it behind"),
 ("C03","e324f67","empty parameter values and parameters without values were written in a form the parser rejects"),
 ("C03","f431169","an event with RDATE/RRULE gained an extra RDATE equal to its DTSTART on every load"),
 ("C03","bff2aed","a custom alarm's ACTION was written twice"),
 ("C03","d74d169","an entry without times was loaded with precision None instead of 'second'"),
 ("C03","75acc0c","URLs and people's addresses containing a comma were split into several values on load"),
 ("C06","81b6a93","a thread waiting for an import that failed or was interrupted in another thread went on with the incomplete module and marked the converters as set up, so no calendar could be loaded or saved any more"),
 ("C12","69da893","Timezone used the generic fromutc(), so instants near the transitions of zones with negative DST (Europe/Dublin) or a changing standard offset became a wall time of another instant"),
 ("C13","99afac0","convert_end('duration') on a todo that has a due but no begin time silently removed the due time"),
 ("C17","25a705a","with the stored definitions of a well-known zone unreadable, dateutil's guess from the zone's name was used instead: TZID=EST became the machine's local zone, EST5EDT got made-up transition rules"),
 ("C19","8173994","Container.clone(deep=True) and so Component.clone() shared the items of nested containers, so editing a nested custom line of a copy changed its original"),
 ("C19","e3019dc","EmailAlarm kept the very list it was given, so a cloned e-mail alarm, or two alarms created from one list, shared their recipients and attachments"),
 ("C19","f96c7cd","entries loaded from the same Container shared its custom lines, so editing those of one changed the others and the source"),
 ("C03","56ae46c","the sent_by, directory, member and delegation URLs of a person could be read before saving, but raised AttributeError on the loaded calendar, where they come from quoted parameters"),
 ("C19","42f0afc","the Container made by to_container() shared custom lines, ACTION parameters and people's parameter lists with the component, so editing it changed the component"),
]
out = {"findings": [dict(property=p, status="fixed", commit=c, what=w, line=f"fixed: property={p} {c} {w}") for p, c, w in F]}
EXTRA = os.path.join(os.path.dirname(__file__), "open_findings.json")
if os.path.exists(EXTRA):
    out["findings"] += json.load(open(EXTRA))
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)
