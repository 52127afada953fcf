"""Random calendar content as JSON specs, builders turning specs into ics objects, and
canonical views ("content" for comparing across a save/load, "fp" for exact identity)."""
import datetime as D
from urllib.parse import urlparse

# ---------------------------------------------------------------- text
WORDS = ["meeting", "Budget", "über", "naïve", "日本語テキスト", "x", "review", "ends,with,commas", "semi;colon", "back\\slash",
         "new\nline", "tab\tbed", "quote\"d", "caret^hat", "^n", "\\n", "\\", "a:b", "emoji 🎉🎊", "e\u0301", "\u2028sep", "nel\x85x",
         "vt\x0bx", "ff\x0cx", "\x1c", "trail ", " lead", "  ", "-dash-dash-dash", "zero\u200bwidth", "BEGIN:VEVENT", "END:VEVENT",
         "\nEND:VCALENDAR", "Ω", "ﬁ", "\u00a0nbsp", "cr\rx", "crlf\r\nx", "TRUE", "FALSE", "\ufeffbom", "𝔘𝔫𝔦", "\\,", "\\;", ";,:\"", "%20"]
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Tokyo", "Australia/Sydney", "Asia/Kolkata", "America/Halifax", "Pacific/Auckland", "Europe/London",
         "America/Los_Angeles", "Asia/Kathmandu"]


def text(r, maxwords=12, long_p=0.1):
    n = r.choice([1, 1, 2, 3, r.randint(1, maxwords)])
    if r.random() < long_p:
        n = r.randint(12, 60)
    return r.choice([" ", " ", "", "-", "  "]).join(r.choice(WORDS) for _ in range(n))


def token(r, n=8):
    return "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-") for _ in range(r.randint(1, n)))


PCHARS = list("abcXYZ089 _-./") + ["ü", "日", "\"", "^", "\n", ",", ";", ":", "'", "=", "🎉", "^^", "^n", "\\", "\\n"]


def pvalue(r):
    n = r.choice([0, 1, 2, 5, 12, 30])
    return "".join(r.choice(PCHARS) for _ in range(n))


def params(r, p=0.3):
    if r.random() > p:
        return {}
    return {"X-" + token(r, 6): [pvalue(r) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.randint(1, 3))}


def raw_value(r):
    """Any value a property line may carry: no line breaks."""
    return text(r).replace("\n", " ").replace("\r", " ")


def xline(r):
    return {"name": "X-" + token(r), "params": params(r), "value": raw_value(r)}


def xitems(r, depth=0, p=0.4, n=4):
    if r.random() > p:
        return []
    out = []
    for _ in range(r.randint(1, n)):
        if depth < 2 and r.random() < 0.2:
            out.append({"box": r.choice(["VJOURNAL", "VFREEBUSY", "X-BOX", "X-" + token(r, 5)]), "items": xitems(r, depth + 1, 0.8, 3)})
        else:
            out.append(xline(r))
    return out


# ---------------------------------------------------------------- times
def tzname(r, kinds=("none", "utc", "off", "tz", "zi", "du", "syn")):
    k = r.choice(kinds)
    if k == "none":
        return None
    if k == "utc":
        return r.choice(["utc:ics", "utc:std", "utc:du"])
    if k == "off":
        return "off:%d" % (r.choice([-12, -5, -3.5, 0.5, 1, 5.75, 14]) * 3600)
    if k == "syn":
        return "syn:%d" % r.randint(0, 6)
    return k + ":" + r.choice(ZONES)


def dt(r, tz, base=None, lo=2008, hi=2034):
    """[Y,M,D,h,m,s,tz,fold]; hours that no transition of ZONES touches twice are not needed here: fold stays 0,
    and 00:00-03:59 is avoided so that the wall time exists in every zone used."""
    if base is None:
        return [r.randint(lo, hi), r.randint(1, 12), r.randint(1, 28), r.randint(5, 22), r.choice([0, 15, 30, r.randint(0, 59)]),
                r.choice([0, 0, r.randint(0, 59)]), tz, 0]
    y, m, d = base[:3]
    b = D.datetime(y, m, d, base[3], base[4], base[5]) + D.timedelta(days=r.choice([0, 0, 1, r.randint(0, 40)]))
    h = b.hour if b.hour >= 22 else r.randint(b.hour, 22)
    e = b.replace(hour=h)
    if e == b:
        e += D.timedelta(minutes=r.randint(0, 59) if b.hour < 22 else 0)
    return [e.year, e.month, e.day, e.hour, e.minute, e.second, tz, 0]


def times(r, kind, tzkinds=("none", "utc", "off", "tz", "zi", "du", "syn"), allow_none=True):
    c = r.random()
    if allow_none and c < 0.07:
        return {"begin": None, "end": None, "dur": None, "allday": False}
    if c < 0.3:
        y, m, d = r.randint(2008, 2034), r.randint(1, 12), r.randint(1, 28)
        b = [y, m, d, 0, 0, 0, None, 0]
        w = r.choice(["end", "dur", "no"])
        n = r.choice([1, 1, 2, r.randint(1, 60)])
        e = D.datetime(y, m, d) + D.timedelta(days=n)
        t = {"begin": b, "end": None, "dur": None, "allday": True}
        if w == "end":
            t["end"] = [e.year, e.month, e.day, 0, 0, 0, None, 0]
        elif w == "dur":
            t["dur"] = n * 86400
        if kind == "todo" and r.random() < 0.2:
            t = {"begin": None, "end": b, "dur": None, "allday": True}
        return t
    tz = tzname(r, tzkinds)
    b = dt(r, tz)
    w = r.choice(["end", "end", "dur", "no"])
    t = {"begin": b, "end": None, "dur": None, "allday": False}
    if w == "end":
        # an end in another zone is legal too, when both are aware
        tz2 = tz
        if tz is not None and r.random() < 0.15:
            tz2 = tzname(r, tuple(k for k in tzkinds if k != "none") or ("utc",))
            e = dt(r, tz2, base=b)
            e2 = D.datetime(*e[:6]) + D.timedelta(days=2)
            e = [e2.year, e2.month, e2.day, e2.hour, e2.minute, e2.second, tz2, 0]
            t["end"] = e
        else:
            t["end"] = dt(r, tz2, base=b)
    elif w == "dur":
        t["dur"] = r.choice([0, 1, 60, 3600, 5400, 86400, 90061, 604800, r.randint(0, 10**6)])
    if kind == "todo" and r.random() < 0.25:
        t = {"begin": None, "end": b, "dur": None, "allday": False}
    return t


def utcdt(r):
    return [r.randint(1990, 2037), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), "utc:" + r.choice(["ics", "std", "du"]), 0]


# ---------------------------------------------------------------- people, alarms
URLCH = "abcdefghijklmnopqrstuvwxyz0123456789/-_.~%20=&?,"


def url(r):
    u = r.choice(["http://example.org/", "https://例え.jp/", "mailto:a@b.c?x=", "file:///", "cid:"]) + "".join(r.choice(URLCH) for _ in range(r.choice([3, 20, 90])))
    return urlparse(u).geturl()  # urlparse normalises some spellings (an empty query): those are no other URLs


def person(r, kind):
    p = {"email": "mailto:" + r.choice(["a", "bob", "jörg", "x.y+z"]) + "@example.org" if r.random() < 0.8 else r.choice(["plain@example.org", url(r)]),
         "extra": {}}
    x = p["extra"]
    if r.random() < 0.6:
        x["CN"] = [pvalue(r)]
    if r.random() < 0.2:
        x["SENT-BY"] = [url(r)]
    if r.random() < 0.2:
        x["DIR"] = [url(r)]
    if kind == "attendee":
        for k, vs in (("CUTYPE", ["INDIVIDUAL", "GROUP", "ROOM"]), ("ROLE", ["CHAIR", "OPT-PARTICIPANT"]), ("PARTSTAT", ["ACCEPTED", "DECLINED"]), ("RSVP", ["TRUE", "FALSE"])):
            if r.random() < 0.3:
                x[k] = [r.choice(vs)]
        for k in ("MEMBER", "DELEGATED-TO", "DELEGATED-FROM"):
            if r.random() < 0.2:
                x[k] = [url(r) for _ in range(r.randint(1, 3))]
    for k, v in params(r, 0.2).items():
        x[k] = v
    p["typed"] = r.choice([None, None, "init", "set"])
    return p


def alarm(r):
    k = r.choice(["display", "audio", "email", "custom", "none"])
    a = {"kind": k, "extra": xitems(r, 1, 0.2, 2), "trigger": r.choice([None, -900, 0, 3600, -86400 * 7, r.randint(-10**5, 10**5), {"dt": utcdt(r)}]),
         "repeat": r.choice([None, None, r.randint(0, 9)]), "duration": r.choice([None, None, r.randint(0, 10**5)])}
    if k == "display":
        a["description"] = r.choice([None, text(r)])
    if k == "audio":
        a["attach"] = r.choice([None, {"url": url(r)}, {"bin": token(r, 40)}])
    if k == "email":
        a.update(summary=r.choice([None, text(r)]), description=r.choice([None, text(r)]),
                 attendees=[person(r, "attendee") for _ in range(r.choice([0, 0, 1, 2]))],
                 attach=[r.choice([{"url": url(r)}, {"bin": token(r, 40)}]) for _ in range(r.choice([0, 0, 1, 2]))])
    if k == "custom":
        a["action"] = "X-" + token(r, 6)
    return a


def opt(r, p, f):
    return f() if r.random() < p else None


def entry(r, kind, rich=1.0, tzkinds=("none", "utc", "off", "tz", "zi", "du", "syn"), uid=None, allow_none=True):
    q = rich
    e = {"kind": kind, "times": times(r, kind, tzkinds, allow_none), "summary": opt(r, 0.8, lambda: text(r)), "uid": uid or ("u-%x" % r.getrandbits(48)) + r.choice(["", "@x.org", "@" + token(r, 30)]),
         "dtstamp": utcdt(r), "description": opt(r, 0.4 * q, lambda: text(r)), "location": opt(r, 0.3 * q, lambda: text(r)),
         "url": opt(r, 0.2 * q, lambda: url(r)), "status": r.choice([None, None, "TENTATIVE", "CONFIRMED", "CANCELLED", "confirmed"]),
         "created": opt(r, 0.2 * q, lambda: utcdt(r)), "last_modified": opt(r, 0.2 * q, lambda: utcdt(r)),
         "alarms": [alarm(r) for _ in range(r.choice([0, 0, 1, 2]) if r.random() < q else 0)],
         "attach": [r.choice([{"url": url(r)}, {"bin": token(r, 40)}]) for _ in range(r.choice([0, 0, 0, 1, 2]) if r.random() < q else 0)],
         "extra": xitems(r, 0, 0.35 * q), "xp": {}}
    if r.random() < 0.3 * q:
        for name in ("SUMMARY", "DESCRIPTION", "LOCATION", "BEGIN", "END" if kind == "event" else "DUE", "DURATION", "UID", "DTSTAMP", "STATUS", "URL"):
            if r.random() < 0.4:
                pp = params(r, 1)
                if name not in ("BEGIN", "END", "DUE", "DURATION", "DTSTAMP", "URL", "STATUS", "UID") and r.random() < 0.4:
                    pp = {"LANGUAGE": ["de"], **pp}
                e["xp"][name] = pp
    if kind == "event":
        e.update({"class": r.choice([None, None, "PUBLIC", "PRIVATE", text(r, 2, 0)]), "transp": r.choice([None, None, True, False]),
                  "organizer": opt(r, 0.25 * q, lambda: person(r, "organizer")),
                  "geo": r.choice([None, None, [r.randint(-90 * 10**4, 90 * 10**4) / 10**4, r.randint(-180 * 10**4, 180 * 10**4) / 10**4]]),
                  "attendees": [person(r, "attendee") for _ in range(r.choice([0, 0, 1, 2, 4]) if r.random() < q else 0)],
                  "categories": [text(r, 2, 0.02) for _ in range(r.choice([0, 0, 1, 3]))]})
    else:
        e.update({"percent": r.choice([None, 0, 100, r.randint(0, 100)]), "priority": r.choice([None, 0, 9, r.randint(0, 9)]),
                  "completed": opt(r, 0.3, lambda: utcdt(r))})
    return e


def calendar(r, n_events=None, n_todos=None, rich=None, tzkinds=None):
    q = r.choice([0.0, 0.5, 1.0]) if rich is None else rich
    if tzkinds is None:
        allk = ["none", "utc", "off", "tz", "zi", "du", "syn"]
        tzkinds = tuple(k for k in allk if r.random() < 0.6) or ("utc",)
    ne = r.choice([0, 1, 1, 2, 3, 5]) if n_events is None else n_events
    nt = r.choice([0, 0, 1, 2]) if n_todos is None else n_todos
    return {"prodid": opt(r, 0.3, lambda: "-//" + text(r, 3, 0) + "//EN"), "scale": r.choice([None, None, "GREGORIAN"]), "method": r.choice([None, None, "PUBLISH", "X-" + token(r, 3)]),
            "entries": [entry(r, "event", q, tzkinds) for _ in range(ne)] + [entry(r, "todo", q, tzkinds) for _ in range(nt)],
            "extra": xitems(r, 0, 0.35 * q), "xp": {"PRODID": params(r, 1)} if r.random() < 0.1 * q else {}}


def widen(r, cal):
    """Makes some of a calendar's values less ordinary: far years, odd offsets, long numbers, parameters anywhere."""
    for e in cal["entries"]:
        t = e["times"]
        ds = [d for d in (t["begin"], t["end"]) if d]
        if ds and r.random() < 0.4 and all(d[6] is None or d[6].split(":")[0] in ("utc", "off", "tz") for d in ds):
            y = r.choice([1, 2, 9, 99, 100, 199, 999, 1000, 1582, 1752, 1900, 1969, 1970, 2038, 2100, 9000, 9990, r.randint(1, 9990)])
            y0 = ds[0][0]
            for d in ds:
                d[0] += y - y0
                d[2] = min(d[2], 28)
            if t["allday"] and len(ds) == 2 and ds[1][:3] <= ds[0][:3]:
                ds[1][1:3] = [12, 31]
                ds[1][0] += 1
        if ds and r.random() < 0.3:
            o = {}
            for d in ds:
                if d[6] is not None and d[6].startswith("off"):
                    d[6] = o.setdefault(d[6], "off:%d" % ((n := r.choice([1, 60, 900, 3600])) * r.randint(-(86399 // n), 86399 // n)))
            if len({d[6] for d in ds}) > 1 and len(ds) == 2:  # still in order, whatever the offsets
                ds[1][0] += 1
                ds[1][2] = min(ds[1][2], 28)
        if ds and r.random() < 0.3 and not t["allday"] and all(d[6] is None or d[6].split(":")[0] in ("utc", "off") for d in ds):
            if t["end"] is None or t["begin"] is None:
                ds[0][3:6] = [r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)])]
        if e.get("geo") and r.random() < 0.6:
            e["geo"] = [r.choice([r.uniform(-90, 90), round(r.uniform(-90, 90), r.randint(0, 9)), 0.0, r.uniform(-1, 1) * 10 ** -r.randint(1, 9)]), round(r.uniform(-180, 180), r.randint(0, 14))]
        for k in ("CATEGORIES", "ATTACH"):
            if e.get(k.lower()) and r.random() < 0.4:
                q = r.random()
                e["xp"][k] = [{} if q < 0.3 and r.random() < 0.5 else params(r, 1) for _ in e[k.lower()]]
        for a in e["alarms"]:
            if r.random() < 0.5:
                a["xp"] = {k: params(r, 1) for k in ("TRIGGER", "REPEAT", "DURATION", "DESCRIPTION", "SUMMARY", "ACTION") if r.random() < 0.4}
        for k in ("dtstamp", "created", "last_modified", "completed"):
            if e.get(k) and r.random() < 0.2:
                e[k][0] = r.choice([1, 99, 999, 1900, 9998, r.randint(1, 9998)])
    return cal


# ---------------------------------------------------------------- builders
def syn_zone(i):
    """Small hand-made zones (a new object every time; builders keep one per calendar)."""
    import dateutil.rrule as R
    from ics.timezone import Timezone, TimezoneDaylightObservance as DO, TimezoneStandardObservance as SO

    H = lambda h: D.timedelta(hours=h)
    yearly = lambda y, m, wd, h: R.rrule(R.YEARLY, dtstart=next(iter(R.rrule(R.YEARLY, dtstart=D.datetime(y, m, 1, h), bymonth=m, byweekday=wd, count=1))), bymonth=m, byweekday=wd)

    def dates(*ds):
        s = R.rruleset()
        for d in ds:
            s.rdate(D.datetime(*d, 3))
        return s

    if i == 0:
        z = Timezone("X/Fixed", [SO(H(3.5), H(3.5), R.rrule(R.YEARLY, dtstart=D.datetime(1970, 1, 1), count=1), "XFT")])
    elif i == 1:
        z = Timezone("X/North", [SO(H(2), H(1), yearly(1990, 10, R.SU(-1), 3), "XST"), DO(H(1), H(2), yearly(1990, 3, R.SU(-1), 2), "XDT")])
    elif i == 2:
        z = Timezone("X/South Zone, odd;name:q", [SO(H(-3), H(-3.5), yearly(1990, 4, R.SU(1), 3), "YST"), DO(H(-3.5), H(-3), yearly(1990, 10, R.SU(1), 2), "YDT")])
    elif i == 3:
        z = Timezone("/x.org/2020_1/X/NoName/", [SO(H(-11), H(-11), R.rrule(R.YEARLY, dtstart=D.datetime(1970, 1, 1), count=1))])
    elif i == 4:  # dates in no particular order
        ex = R.rruleset()
        ex.rrule(yearly(2006, 10, R.SU(-1), 3))
        for y in (2019, 2009):
            ex.exdate(yearly(y, 10, R.SU(-1), 3)[0])
        for d in ((2019, 11, 3), (2009, 10, 20)):
            ex.rdate(D.datetime(*d, 3))
        z = Timezone("X/Dates", [SO(H(2), H(1), dates((1995, 10, 29), (1980, 1, 1), (2001, 10, 5)), "EST", comment="odd, dates;\nhere"), DO(H(1), H(2), dates((2001, 4, 1), (1995, 3, 26)), "EDT"),
                                 DO(H(1), H(2), yearly(2006, 3, R.SU(-1), 2), "EDT"), SO(H(2), H(1), ex, "EST")])
    elif i == 5:  # everything that can be said about a zone
        from ics import ContentLine

        z = Timezone("X/Info", [SO(H(5), H(5.75), R.rrule(R.YEARLY, dtstart=D.datetime(1986, 1, 1), count=1), "+0545", comment="c")], tzurl=mk_url("http://x.org/tz?a=b,c;d"), last_modified=D.datetime(2020, 2, 3, 4, 5, 6, tzinfo=D.timezone.utc))
        z.extra.append(ContentLine("X-LIC-LOCATION", {"X-P": ["a", "b;c"]}, "v"))
        z.extra_params["TZID"] = {"X-A": ["b"]}
        z.observances[0].extra.append(ContentLine("X-O", {}, "w"))
        z.observances[0].extra_params["TZNAME"] = {"LANGUAGE": ["en"]}
    else:  # an era that ended, with seconds
        old = R.rrule(R.YEARLY, dtstart=D.datetime(1985, 4, 6, 0), until=D.datetime(2012, 4, 6, 0), bymonth=4, bymonthday=6, interval=1)
        z = Timezone("X/Eras", [SO(D.timedelta(seconds=4772), H(1), dates((1937, 7, 1),), "LST"), DO(H(1), H(2), old, "LDT"), SO(H(2), H(1), R.rrule(R.YEARLY, dtstart=D.datetime(1985, 9, 20, 3), bymonth=9, bymonthday=20, count=28), "LST"), SO(H(1), H(-0.5), dates((2020, 6, 1),), "NEW")])
    return z


def tz_of(name):
    if name is None:
        return None
    k, _, v = name.partition(":")
    if k == "utc":
        if v == "ics":
            from ics.timezone import UTC

            return UTC
        if v == "std":
            return D.timezone.utc
        import dateutil.tz

        return dateutil.tz.UTC
    if k == "off":
        return D.timezone(D.timedelta(seconds=float(v)))
    if k == "tz":
        from ics import Timezone

        return Timezone.from_tzid(v)
    if k == "zi":
        import zoneinfo

        return zoneinfo.ZoneInfo(v)
    if k == "du":
        import dateutil.tz

        return dateutil.tz.gettz(v)
    if k == "syn":
        return syn_zone(int(v))
    if k == "loc":  # the local zone in force now, for callers that keep it for one run only
        import dateutil.tz

        return dateutil.tz.tzlocal()
    raise ValueError(name)


def mk_dt(s, cache=None):
    if s is None:
        return None
    name = s[6]
    if cache is not None:
        if name not in cache:
            cache[name] = tz_of(name)
        tz = cache[name]
    else:
        tz = tz_of(name)
    return D.datetime(*s[:6], tzinfo=tz, fold=s[7])


def mk_items(items):
    from ics import Container, ContentLine

    out = []
    for x in items:
        if "box" in x:
            out.append(Container(x["box"], mk_items(x["items"])))
        else:
            out.append(ContentLine(x["name"], {k: list(v) for k, v in x["params"].items()}, x["value"]))
    return out


def mk_person(p, kind):
    from ics import Attendee, Organizer

    cls = Attendee if kind == "attendee" else Organizer
    if not p.get("typed"):
        return cls(p["email"], extra={k: list(v) for k, v in p["extra"].items()})
    val = {a: v for a, n in TYPED.items() if has_typed(cls, a) and (v := p["extra"].get(n))}
    for a, v in val.items():
        val[a] = [mk_url(u) for u in v] if a in ("member", "delegated_to", "delegated_from") else mk_url(v[0]) if a in ("sent_by", "directory") else v[0] == "TRUE" if a == "rsvp" else v[0]
    rest = {k: list(v) for k, v in p["extra"].items() if k not in TYPED.values()}
    if p["typed"] == "init":
        return cls(p["email"], rest, **val)
    o = cls(p["email"], rest)
    for a, v in val.items():
        setattr(o, a, v)
    return o


def has_typed(cls, a):
    return any(a in vars(c) for c in cls.__mro__)


TYPED = {"common_name": "CN", "sent_by": "SENT-BY", "directory": "DIR", "user_type": "CUTYPE", "member": "MEMBER", "role": "ROLE", "status": "PARTSTAT", "rsvp": "RSVP", "delegated_to": "DELEGATED-TO", "delegated_from": "DELEGATED-FROM"}


def mk_url(u):
    from urllib.parse import urlparse

    return urlparse(u)


def mk_attach(a):
    return None if a is None else mk_url(a["url"]) if "url" in a else a["bin"].encode()


def mk_alarm(a):
    import ics

    t = a["trigger"]
    if isinstance(t, dict):
        t = mk_dt(t["dt"])
    elif t is not None:
        t = D.timedelta(seconds=t)
    kw = dict(trigger=t, repeat=a["repeat"], duration=None if a["duration"] is None else D.timedelta(seconds=a["duration"]))
    k = a["kind"]
    if k == "display":
        o = ics.DisplayAlarm(description=a["description"], **kw)
    elif k == "audio":
        o = ics.AudioAlarm(attach=mk_attach(a["attach"]), **kw)
    elif k == "email":
        o = ics.EmailAlarm(summary=a["summary"], description=a["description"], attendees=[mk_person(p, "attendee") for p in a["attendees"]],
                           attach=[mk_attach(x) for x in a["attach"]], **kw)
    elif k == "custom":
        o = ics.CustomAlarm(action=a["action"], **kw)
    else:
        from ics.alarm import NoneAlarm

        o = NoneAlarm(**kw)
    o.extra.extend(mk_items(a["extra"]))
    for n, v in a.get("xp", {}).items():
        x = n.lower()
        if n == "ACTION" or hasattr(o, x) and getattr(o, x) is not None:
            o.extra_params["_ACTION" if n == "ACTION" and k == "custom" else n] = {p: list(q) for p, q in v.items()}
    return o


def mk_timespan(t, kind, cache=None):
    from ics import EventTimespan, TodoTimespan

    return (EventTimespan if kind == "event" else TodoTimespan)(
        mk_dt(t["begin"], cache), mk_dt(t["end"], cache), None if t["dur"] is None else D.timedelta(seconds=t["dur"]), "day" if t["allday"] else "second")


def mk_entry(e, cache=None):
    from ics import Event, Todo

    kw = dict(timespan=mk_timespan(e["times"], e["kind"], cache), summary=e["summary"], uid=e["uid"], dtstamp=mk_dt(e["dtstamp"]), description=e["description"],
              location=e["location"], url=e["url"] and mk_url(e["url"]), status=e["status"], created=mk_dt(e["created"]),
              last_modified=mk_dt(e["last_modified"]), alarms=[mk_alarm(a) for a in e["alarms"]], attach=[mk_attach(a) for a in e["attach"]])
    if e["kind"] == "event":
        kw.update(classification=e["class"], transparent=e["transp"], organizer=e["organizer"] and mk_person(e["organizer"], "organizer"),
                  geo=e["geo"] and tuple(e["geo"]), attendees=[mk_person(p, "attendee") for p in e["attendees"]], categories=list(e["categories"]))
        o = Event(**kw)
    else:
        kw.update(percent=e["percent"], priority=e["priority"], completed=mk_dt(e["completed"]))
        o = Todo(**kw)
    o.extra.extend(mk_items(e["extra"]))
    xp_ok = {"BEGIN": e["times"]["begin"], "END": e["times"]["end"], "DUE": e["times"]["end"], "DURATION": e["times"]["dur"], "SUMMARY": e["summary"],
             "DESCRIPTION": e["description"], "LOCATION": e["location"], "UID": 1, "DTSTAMP": 1, "STATUS": e["status"], "URL": e["url"]}
    for k, v in e["xp"].items():
        if isinstance(v, list):
            n = len(getattr(o, k.lower()))
            if n:
                o.extra_params[k] = [{a: list(b) for a, b in (v[i] if i < len(v) else {}).items()} for i in range(n)]
            continue
        if xp_ok[k] is not None:
            o.extra_params[k] = {a: list(b) for a, b in v.items()}
    return o


def mk_calendar(c, cache=None):
    from ics import Calendar

    cache = {} if cache is None else cache
    kw = {}
    if c["prodid"] is not None:
        kw["creator"] = c["prodid"]
    es = [mk_entry(e, cache) for e in c["entries"]]
    cal = Calendar(events=[o for o, e in zip(es, c["entries"]) if e["kind"] == "event"], todos=[o for o, e in zip(es, c["entries"]) if e["kind"] == "todo"],
                   scale=c["scale"], method=c["method"], **kw)
    cal.extra.extend(mk_items(c["extra"]))
    for k, v in c["xp"].items():
        cal.extra_params[k] = {a: list(b) for a, b in v.items()}
    return cal


# ---------------------------------------------------------------- canonical views
def c_dt(d):
    """Content of a point in time: wall clock, offset."""
    if d is None:
        return None
    if not isinstance(d, D.datetime):
        return ("date", d.isoformat())
    o = d.utcoffset()
    return (d.replace(tzinfo=None, fold=0).isoformat(), None if o is None else o.total_seconds())


def c_url(u):
    return None if u is None else u if isinstance(u, str) else u.geturl()


def c_item(i):
    if hasattr(i, "data"):
        return ("box", i.name, [c_item(x) for x in i.data])
    return (i.name, [(k, [str(v) for v in vs]) for k, vs in i.params.items()], i.value)


def c_person(p):
    if p is None:
        return None
    typed = {}
    for a in TYPED:
        if has_typed(type(p), a):
            try:
                v = getattr(p, a)
            except ValueError as e:  # several values, or something that is none
                v = type(e).__name__
            typed[a] = [c_url(u) for u in v] if isinstance(v, list) else v if isinstance(v, bool) else None if v is None else str(v) if isinstance(v, str) else c_url(v)
    return (type(p).__name__, c_url(p.email), sorted((k, [str(v) for v in vs]) for k, vs in p.extra.items()), typed)


def c_attach(a):
    return None if a is None else ("bin", bytes(a).hex()) if isinstance(a, (bytes, bytearray)) else ("url", c_url(a))


def c_xp(xp):
    out = []
    for k, v in sorted(xp.items()):
        if isinstance(v, list):
            v = [{a: [str(x) for x in b] for a, b in d.items() if a != "__merge_next"} for d in v]
            if any(v):
                out.append((k, v))
        elif v:
            out.append((k, {a: [str(x) for x in b] for a, b in v.items()}))
    return out


def c_alarm(a):
    t = a.trigger
    d = dict(kind=type(a).__name__, action=a.action, trigger=c_dt(t) if isinstance(t, D.datetime) else None if t is None else t.total_seconds(),
             repeat=a.repeat, duration=None if a.duration is None else a.duration.total_seconds(), extra=[c_item(i) for i in a.extra], xp=c_xp(a.extra_params))
    for k in ("description", "summary"):
        if hasattr(a, k):
            d[k] = getattr(a, k)
    if hasattr(a, "attendees"):
        d["attendees"] = [c_person(p) for p in a.attendees]
        d["attach"] = [c_attach(x) for x in a.attach]
    elif hasattr(a, "attach"):
        d["attach"] = c_attach(a.attach)
    return d


def c_timespan(t):
    return dict(begin=c_dt(t.begin_time), end=c_dt(t.end_time), dur=None if t.duration is None else t.duration.total_seconds(),
                precision=t.precision, kind=type(t).__name__)


def c_entry(e):
    d = dict(kind=type(e).__name__, times=c_timespan(e.timespan), summary=e.summary, uid=e.uid, dtstamp=c_dt(e.dtstamp), description=e.description,
             location=e.location, url=c_url(e.url), status=e.status, created=c_dt(e.created), last_modified=c_dt(e.last_modified),
             alarms=[c_alarm(a) for a in e.alarms], attach=[c_attach(a) for a in e.attach], extra=[c_item(i) for i in e.extra],
             extra_name=e.extra.name, xp=c_xp(e.extra_params))
    if hasattr(e, "attendees"):
        d.update(classification=e.classification, transparent=e.transparent, organizer=c_person(e.organizer), geo=None if e.geo is None else tuple(e.geo),
                 attendees=[c_person(p) for p in e.attendees], categories=list(e.categories))
    else:
        d.update(percent=e.percent, priority=e.priority, completed=c_dt(e.completed))
    return d


def c_calendar(c):
    return dict(version=c.version, prodid=c.prodid, scale=c.scale, method=c.method, events=[c_entry(e) for e in c.events], todos=[c_entry(e) for e in c.todos],
                extra=[c_item(i) for i in c.extra], extra_name=c.extra.name, xp=c_xp(c.extra_params))


def c_zone(z):
    def rule(s):
        import itertools

        return [[d.isoformat() for d in itertools.islice(s, 60)], len(s._rrule), len(s._exrule), sorted(d.isoformat() for d in s._rdate), sorted(d.isoformat() for d in s._exdate)]

    return dict(tzid=z.tzid, url=c_url(z.tzurl), last_modified=c_dt(z.last_modified), extra=[c_item(i) for i in z.extra], xp=c_xp(z.extra_params),
                observances=[dict(kind=o.NAME, off=[o.tzoffsetfrom.total_seconds(), o.tzoffsetto.total_seconds()], name=o.tzname, comment=o.comment, rule=rule(o.rrule), extra=[c_item(i) for i in o.extra], xp=c_xp(o.extra_params)) for o in z.observances])


def c_zones(c):
    """The zones defined by the library's own zone objects in a calendar, by name."""
    from ics.timezone import Timezone, is_utc

    out = {}
    for e in [*c.events, *c.todos]:
        for d in (e.timespan.begin_time, e.timespan.end_time):
            if d is not None and isinstance(d.tzinfo, Timezone) and not is_utc(d.tzinfo):
                if d.tzinfo.tzid not in out:
                    out[d.tzinfo.tzid] = c_zone(d.tzinfo)
    return out


def fp(o, seen=None):
    """Exact deep picture of an object for before/after comparison (not across processes)."""
    import attr

    if o is None or isinstance(o, (str, int, float, bool, bytes)):
        return o
    if isinstance(o, D.datetime):
        return ("dt", o.replace(tzinfo=None).isoformat(), o.fold, None if o.tzinfo is None else fp_zone(o.tzinfo))
    if isinstance(o, (D.date, D.timedelta, D.time)):
        return repr(o)
    if isinstance(o, dict):
        return ("dict", [(str(k), fp(v)) for k, v in o.items()])
    if isinstance(o, tuple):
        return ("tuple", type(o).__name__, [fp(v) for v in o])
    if isinstance(o, list):
        return ("list", [fp(v) for v in o])
    if isinstance(o, D.tzinfo):
        return fp_zone(o)
    if attr.has(type(o)):
        d = [(f.name, fp(getattr(o, f.name))) for f in attr.fields(type(o)) if f.name not in ("_calendar",)]
        return (type(o).__name__, d)
    if hasattr(o, "email"):
        return (type(o).__name__, fp(o.email), fp(o.extra))
    return (type(o).__name__, str(o))


def fp_zone(z):
    """A zone: which object it is and, when it is one of the library's, all it says."""
    out = ("tz", type(z).__name__, id(z))
    if not hasattr(z, "observances"):
        return out

    def rule(s):
        return [[(str(x._dtstart), str(x)) for x in l] for l in (s._rrule, s._exrule)] + [sorted(str(d) for d in l) for l in (s._rdate, s._exdate)] if hasattr(s, "_rdate") else [str(s._dtstart), str(s)]

    info = lambda o: [fp(o.extra), fp(o.extra_params)]
    return out + (z.tzid, str(z.tzurl), str(z.last_modified), info(z), [(type(o).__name__, id(o), str(o.tzoffsetfrom), str(o.tzoffsetto), str(o.tzname), str(o.comment), rule(o.rrule), info(o)) for o in z.observances])


def diff(a, b, path=""):
    """First difference between two canonical views."""
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return f"{path}: {a!r} != {b!r}"[:600]
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: missing on the right"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}.{k}: missing on the left ({b[k]!r})"[:600]
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items != {len(b)} items: {a!r} != {b!r}"[:900]
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} != {b!r}"[:600]


def ics_calendar(text):
    from ics import Calendar

    return Calendar(text)
