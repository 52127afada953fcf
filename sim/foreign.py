"""Calendar texts as other programs write them: structure and properties the library's own output never has."""
from sim import gen as G

REAL = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Sydney"]


def fold(r, line):
    if r.random() > 0.2 or len(line) < 4:
        return line
    n = r.choice([1, 3, 20, 74])
    parts = [line[i:i + n] for i in range(0, len(line), n)]
    return ("\r\n" + r.choice([" ", "\t"])).join(parts)


def par(r, name):
    """Some parameters of those properties of this name usually have."""
    out = []
    pool = {"text": ["LANGUAGE=en", "LANGUAGE=de-AT", 'ALTREP="cid:part1@x.org"', "ALTREP=\"http://x.org/a;b\"", "X-P=1", 'X-Q="a,b","c"', "X-P=a,b", "x-low=Yes", "X-HTML=^^a^nb^'c^'"],
            "person": ["CN=Jo", 'CN="Doe, Jane"', "CN=^'q^'", "RSVP=TRUE", "RSVP=false", "ROLE=CHAIR", "ROLE=X-R", "PARTSTAT=ACCEPTED", "PARTSTAT=needs-action", "CUTYPE=ROOM", 'DELEGATED-TO="mailto:a@b","mailto:c@d"',
                       'SENT-BY="mailto:s@x.org"', 'MEMBER="mailto:g@x.org"', 'DIR="ldap://x:6666/o=A"', "X-NUM=1", "LANGUAGE=fr", "SCHEDULE-AGENT=SERVER", "SCHEDULE-STATUS=\"2.0\"", "EMAIL=a@b"],
            "time": ["X-P=1", "X-VOBJ-FLOATINGTIME-ALLOWED=TRUE", "X-Q=\"a:b\""],
            "num": ["X-P=1", "X-Q=a,b"]}[name]
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
        p = r.choice(pool)
        if all(o.split("=")[0].upper() != p.split("=")[0].upper() for o in out):
            out.append(p)
    return "".join(";" + o for o in out)


def esc(r):
    return r.choice(["a", "a b", "x\\, y", "one\\ntwo", "one\\Ntwo", "semi\\;colon", "b\\\\s", "", " ", "tr ", "ü日🎉", "a:b", "q\"q", "100%", "^n", "x" * 90])


def tm(r, zs, date_ok=True, utc=False):
    """(params, value) of a time."""
    d = "20%02d%02d%02d" % (r.randint(10, 33), r.randint(1, 12), r.randint(1, 28))
    if not utc and date_ok and r.random() < 0.2:
        return ";VALUE=DATE", d
    v = d + "T%02d%02d%02d" % (r.randint(0, 23), r.randint(0, 59), r.choice([0, 0, 30, 59]))
    c = r.random()
    if utc or c < 0.3:
        return r.choice(["", "", ";VALUE=DATE-TIME"]) if not utc else "", v + "Z"
    if c < 0.55:
        return r.choice(["", "", ";VALUE=DATE-TIME"]), v
    return r.choice(["", "", ";VALUE=DATE-TIME"]) + ";TZID=" + r.choice(zs or REAL), v


def name(r, n):
    c = r.random()
    return n.lower() if c < 0.03 else n.capitalize() if c < 0.05 else n


def dur(r):
    return r.choice(["PT1H", "PT30M", "P1D", "P1W", "P1DT2H3M4S", "+PT15M", "PT0S", "PT90M", "P7D", "PT3600S", "PT1H0M0S"])


def rrule(r):
    return r.choice(["FREQ=DAILY;COUNT=3", "FREQ=WEEKLY;BYDAY=MO,WE", "FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU", "FREQ=MONTHLY;BYMONTHDAY=-1;INTERVAL=2", "FREQ=DAILY;UNTIL=20301231T000000Z", "FREQ=WEEKLY;WKST=SU;COUNT=2",
                     "COUNT=4;FREQ=DAILY", "FREQ=MONTHLY;BYSETPOS=-1;BYDAY=MO,TU,WE,TH,FR", "FREQ=HOURLY;BYHOUR=9,17", "FREQ=DAILY;UNTIL=20301231"])


def prop(r, kind, zs):
    """One property line (without its fold)."""
    k = r.randint(0, 23)
    N = lambda n: name(r, n)
    if k < 4:
        return N(r.choice(["SUMMARY", "DESCRIPTION", "LOCATION", "COMMENT", "CONTACT"])) + par(r, "text") + ":" + esc(r)
    if k == 4:
        return N("CATEGORIES") + par(r, "text") + ":" + ",".join(esc(r) for _ in range(r.choice([1, 1, 2, 3])))
    if k == 5:
        return N("RESOURCES") + par(r, "text") + ":EASEL,PROJECTOR"
    if k == 6:
        return N("ATTENDEE") + par(r, "person") + ":" + r.choice(["mailto:a@b.c", "MAILTO:X@Y.z", "urn:uuid:abc", "http://x.org/p?q=1#f", "mailto:ü@b.c", "invalid:nomail"])
    if k == 7:
        return N("ORGANIZER") + par(r, "person") + ":" + r.choice(["mailto:o@b.c", "http://x.org/o"])
    if k == 8:
        return N("STATUS") + ":" + r.choice(["CONFIRMED", "TENTATIVE", "CANCELLED"])
    if k == 9:
        return N("CLASS") + par(r, "text") + ":" + r.choice(["PUBLIC", "PRIVATE", "X-OTHER", "confidential"])
    if k == 10:
        return r.choice(["TRANSP:OPAQUE", "TRANSP:TRANSPARENT", "transp:OPAQUE", "X-MICROSOFT-CDO-BUSYSTATUS:BUSY"])
    if k == 11:
        return N("GEO") + par(r, "num") + ":" + r.choice(["37.386013;-122.082932", "0;0", "-1.5;179.999999", "48.85299;2.36885"])
    if k == 12:
        return N("PRIORITY") + par(r, "num") + ":" + r.choice(["0", "1", "9", "05"])
    if k == 13:
        return N("SEQUENCE") + par(r, "num") + ":" + r.choice(["0", "2", "10"])
    if k == 14:
        return N("URL") + par(r, "text") + ":" + r.choice(["http://x.org/a?b=c&d#f", "https://ex.com/%C3%BC", "cid:x", "x"])
    if k == 15:
        return N("ATTACH") + r.choice([par(r, "text") + ":http://x.org/a", ";FMTTYPE=text/plain;ENCODING=BASE64;VALUE=BINARY:SGVsbG8=", ";VALUE=BINARY;ENCODING=BASE64:AA==", ":CID:jsmith.part3@x.org", ";FMTTYPE=application/pdf:ftp://x.org/a.pdf"])
    if k == 16:
        return N(r.choice(["RRULE", "RRULE", "EXRULE"])) + par(r, "num") + ":" + rrule(r)
    if k == 17:
        p, v = tm(r, zs)
        vs = [v] + ([v[:7] + "%d" % (int(v[7]) % 8 + 1) + v[8:]] if r.random() < 0.4 else [])
        return N(r.choice(["RDATE", "EXDATE", "EXDATE"])) + p + par(r, "time") + ":" + ",".join(vs)
    if k == 18:
        p, v = tm(r, zs)
        return N("RECURRENCE-ID") + r.choice(["", ";RANGE=THISANDFUTURE"]) + p + ":" + v
    if k == 19:
        return N("RELATED-TO") + r.choice(["", ";RELTYPE=PARENT"]) + ":x%d" % r.randint(0, 3)
    if k == 20:
        return N(r.choice(["CREATED", "LAST-MODIFIED"])) + par(r, "time") + ":" + tm(r, zs, utc=True)[1]
    if k == 21:
        return N("REQUEST-STATUS") + ":2.0;Success"
    if k == 22 and kind == "VTODO":
        return N("PERCENT-COMPLETE") + par(r, "num") + ":%d" % r.choice([0, 50, 100]) if r.random() < 0.5 else N("COMPLETED") + par(r, "time") + ":" + tm(r, zs, utc=True)[1]
    l = G.xline(r)
    return name(r, l["name"]) + par(r, "text") + ":" + esc(r)


def once(lines, multi=("COMMENT", "CONTACT", "CATEGORIES", "RESOURCES", "ATTENDEE", "ATTACH", "RDATE", "EXDATE", "RELATED-TO", "REQUEST-STATUS")):
    seen, out = set(), []
    for l in lines:
        n = l.split(":")[0].split(";")[0].upper()
        if n in seen and n not in multi and not n.startswith("X-"):
            continue
        seen.add(n)
        out.append(l)
    return out


def alarm(r, zs):
    a = r.choice(["DISPLAY", "DISPLAY", "AUDIO", "EMAIL", "NONE", "PROCEDURE", "X-ACT", "display"])
    out = ["ACTION" + r.choice(["", "", ";X-A=1"]) + ":" + a]
    out.append(r.choice(["TRIGGER:-PT15M", "TRIGGER;RELATED=END:PT5M", "TRIGGER;RELATED=START:-P1D", "TRIGGER;VALUE=DATE-TIME:20300101T000000Z", "TRIGGER;VALUE=DURATION:-PT1H", "TRIGGER;X-T=\"a;b\":PT0S"]))
    if r.random() < 0.3:
        out += ["REPEAT:%d" % r.choice([1, 4]), "DURATION:PT5M"]
    if a == "EMAIL":
        out += ["SUMMARY" + par(r, "text") + ":" + esc(r), "ATTENDEE" + par(r, "person") + ":mailto:a@b"]
    if a in ("EMAIL", "DISPLAY", "PROCEDURE", "display") or r.random() < 0.2:
        out.append("DESCRIPTION" + par(r, "text") + ":" + esc(r))
    if a in ("AUDIO", "PROCEDURE"):
        out += ["ATTACH;FMTTYPE=audio/basic:ftp://x.org/s.aud"]
    if r.random() < 0.3:
        out += r.choice([["UID:al-1", "ACKNOWLEDGED:20200101T000000Z"], ["X-WR-ALARMUID:B", "X-APPLE-DEFAULT-ALARM:TRUE"], ["BEGIN:X-SUB\r\nX-A:1\r\nEND:X-SUB"]])
    if r.random() < 0.3:
        r.shuffle(out)
    return ["BEGIN:VALARM", *(l if "\r" in l else fold(r, l) for l in out), "END:VALARM"]


def zone(r, tzid):
    off = r.choice([(-300, -240), (60, 120), (330, 330), (0, 60), (600, 660), (-210, -150)])

    def s(m):
        return "%s%02d%02d" % ("-" if m < 0 else "+", abs(m) // 60, abs(m) % 60)
    out = ["BEGIN:VTIMEZONE", "TZID" + r.choice(["", "", ";X-T=1"]) + ":" + tzid]
    if r.random() < 0.3:
        out.append(r.choice(["X-LIC-LOCATION:" + tzid, "TZURL:http://tz.org/x", "LAST-MODIFIED:20200101T000000Z"]))
    subs = []
    std = ["BEGIN:STANDARD", "DTSTART:" + r.choice(["19701025T030000", "20071104T020000"]), "TZOFFSETFROM:" + s(off[1]), "TZOFFSETTO:" + s(off[0])]
    if r.random() < 0.8:
        std.append("TZNAME" + r.choice(["", ";LANGUAGE=en"]) + ":STD")
    if off[0] != off[1]:
        std.append(r.choice(["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU", "RRULE:FREQ=YEARLY;BYDAY=1SU;BYMONTH=11", "RDATE:20101031T030000,20111030T030000"]))
        day = ["BEGIN:DAYLIGHT", "DTSTART:19700329T020000", "TZOFFSETFROM:" + s(off[0]), "TZOFFSETTO:" + s(off[1]), "TZNAME:DST", r.choice(["RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU", "RRULE:FREQ=YEARLY;UNTIL=20370301T000000;BYMONTH=3;BYDAY=2SU"])]
        if r.random() < 0.2:
            day.append("COMMENT:hm")
        subs.append(day + ["END:DAYLIGHT"])
    subs.append(std + ["END:STANDARD"])
    r.shuffle(subs)
    for b in subs:
        out += b
    return [*out, "END:VTIMEZONE"]


def component(r, kind, i, zs, full=False):
    body = []
    if full or r.random() < 0.95:
        body.append("UID%s:x%d@f" % (par(r, "text") if r.random() < 0.1 else "", i))
    if full or r.random() < 0.95:
        body.append("DTSTAMP%s:%s" % (par(r, "time") if r.random() < 0.1 else "", tm(r, zs, utc=True)[1]))
    c = r.random()
    if c < 0.85:
        p, v = tm(r, zs)
        body.append("DTSTART" + p + par(r, "time") + ":" + v)
        c = r.random()
        end = "DTEND" if kind == "VEVENT" else "DUE"
        if c < 0.4:
            body.append("DURATION" + par(r, "time") + ":" + (dur(r) if "DATE" != p[-4:] else r.choice(["P1D", "P2D", "P1W"])))
        elif c < 0.8:
            v2 = "2034" + v[4:]
            p2 = p
            if "DATE" != p[-4:] and r.random() < 0.3:
                p2, v2 = tm(r, zs, date_ok=False)
                v2 = "2034" + v2[4:]
                if ("TZID" in p2 or v2.endswith("Z")) != ("TZID" in p or v.endswith("Z")):
                    p2, v2 = p, "2034" + v[4:]
            body.append(end + p2 + par(r, "time") + ":" + v2)
    elif c < 0.9 and kind == "VTODO":
        p, v = tm(r, zs)
        body.append("DUE" + p + ":" + v)
    body += [prop(r, kind, zs) for _ in range(r.choice([0, 1, 3, 6, 12]))]
    if r.random() < 0.5:
        r.shuffle(body)
    body = [fold(r, l) for l in once(body)]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        k = r.randint(0, len(body)) if r.random() < 0.3 else len(body)
        body[k:k] = ["\r\n".join(alarm(r, zs))] if r.random() < 0.85 else ["BEGIN:X-SUB\r\nX-A:1\r\nSUMMARY:no\r\nEND:X-SUB"]
    return ["BEGIN:" + kind, *body, "END:" + kind]


def text(r, full=False):
    """full: nothing is left for the library to make up (UID, DTSTAMP)."""
    zs = r.sample(["Z1", "My Zone", "/x.org/Europe/Berlin", "Europe/Berlin", "America/New_York", "Etc/Odd"], r.choice([0, 0, 1, 2]))
    use = zs + (REAL if r.random() < 0.5 else [])
    head = ["VERSION:2.0", "PRODID%s:%s" % (r.choice(["", "", "", ";X-P=1"]), r.choice(["-//Other//Cal 1.0//EN", "x", "-//A\\, B//EN"]))]
    if r.random() < 0.3:
        head.append(r.choice(["CALSCALE:GREGORIAN", "CALSCALE;X-C=1:GREGORIAN"]))
    if r.random() < 0.3:
        head.append(r.choice(["METHOD:PUBLISH", "METHOD:REQUEST", "METHOD;X-M=1:REPLY"]))
    for _ in range(r.choice([0, 0, 1, 3])):
        head.append(r.choice(["X-WR-CALNAME:My\\, Cal", "X-WR-TIMEZONE:Europe/Berlin", "X-PUBLISHED-TTL:PT1H", "NAME:n", "REFRESH-INTERVAL;VALUE=DURATION:PT12H", "SOURCE;VALUE=URI:http://x.org/c.ics", "COLOR:red", "X-A;B=c:d", "X-WR-CALDESC;LANGUAGE=en:d"]))
    r.shuffle(head)
    parts = [zone(r, z) for z in zs]
    for i in range(r.choice([0, 1, 1, 2, 3, 6])):
        kind = r.choice(["VEVENT"] * 4 + ["VTODO"] * 3 + ["VJOURNAL", "VFREEBUSY", "X-COMP"])
        if kind in ("VEVENT", "VTODO"):
            parts.append(component(r, kind, i, use, full))
        else:
            parts.append(["BEGIN:" + kind, "UID:j%d" % i, *[prop(r, kind, use) for _ in range(r.choice([0, 1, 3]))], *(["FREEBUSY;FBTYPE=BUSY:20200101T000000Z/PT1H,20200102T000000Z/20200102T010000Z"] if kind == "VFREEBUSY" else []), "END:" + kind])
    if r.random() < 0.6:
        r.shuffle(parts)
    out = ["BEGIN:VCALENDAR"]
    if r.random() < 0.1 and parts:
        out += [l for p in parts for l in p] + head
    else:
        out += head + [l for p in parts for l in p]
    return "\r\n".join([*out, "END:VCALENDAR", ""])


# ---------------------------------------------------------------- an independent reader, to compare texts with
def _split(line):
    """name, {param: (values)}, value of an unfolded line."""
    pos, quoted, cuts = 0, False, []
    for pos, ch in enumerate(line):
        if ch == '"':
            quoted = not quoted
        elif ch in ";:" and not quoted:
            cuts.append(pos)
            if ch == ":":
                break
    name, ps = line[:cuts[0]].upper(), {}
    for a, b in zip(cuts, cuts[1:]):
        k, _, v = line[a + 1:b].partition("=")
        vals, cur, quoted = [], "", False
        for ch in v:
            if ch == '"':
                quoted = not quoted
            elif ch == "," and not quoted:
                vals.append(cur)
                cur = ""
            else:
                cur += ch
        ps[k.upper()] = tuple(x.replace("^^", "\0").replace("^n", "\n").replace("^'", '"').replace("\0", "^") for x in [*vals, cur])
    return name, ps, line[cuts[-1] + 1:]


def _secs(v):
    import re

    m = re.fullmatch(r"([+-]?)P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?", v)
    if not m:
        return v
    w, d, h, mi, s = (int(x or 0) for x in m.groups()[1:])
    return (-1 if m[1] == "-" else 1) * (((w * 7 + d) * 24 + h) * 3600 + mi * 60 + s)


RAWBOX = ("VJOURNAL", "VFREEBUSY")


def _line(line, path):
    name, ps, v = _split(line)
    raw = any(p in RAWBOX or p.startswith("X-") for p in path)
    if raw:
        return name, tuple(sorted(ps.items())), v
    if ps.get("VALUE") in (("DATE-TIME",), ("DURATION",)) and not (name in ("RDATE", "EXDATE", "RECURRENCE-ID", "REFRESH-INTERVAL") or name == "TRIGGER" and "T" in v and v[0] not in "+-P"):
        del ps["VALUE"]
    if name in ("DTSTART", "DTEND", "DUE"):
        if "TZID" in ps:
            ps["TZID"] = tuple(x.replace("/ics.py/2020.1/", "") for x in ps["TZID"])
    elif name in ("DURATION", "TRIGGER"):
        v = _secs(v)
    elif name == "GEO":
        v = tuple(float("%.6f" % float(x)) for x in v.split(";"))
    elif name in ("PRIORITY", "PERCENT-COMPLETE", "REPEAT", "SEQUENCE") and "VALARM" not in path and path:
        v = int(v)
    elif name in ("ATTACH", "ATTENDEE", "ORGANIZER", "URL", "TZURL") and ps.get("ENCODING") is None:
        s, c, rest = v.partition(":")
        v = s.lower() + c + rest
    elif name in ("SUMMARY", "DESCRIPTION", "LOCATION", "CATEGORIES", "COMMENT", "CONTACT"):
        v = v.replace("\\\\", "\0").replace("\\N", "\\n").replace("\0", "\\\\")
    return name, tuple(sorted(ps.items())), v


def tree(text):
    """[(kind, [line or subtree])] of a text."""
    lines = text.replace("\r\n ", "").replace("\r\n\t", "").split("\r\n")
    stack = [("", [])]
    for l in lines:
        if l.startswith("BEGIN:"):
            stack.append((l[6:], []))
        elif l.startswith("END:"):
            b = stack.pop()
            stack[-1][1].append(b)
        elif l.strip():
            stack[-1][1].append(_line(l, [b[0] for b in stack[1:]]))
    return stack[0][1]


def _boxes(items):
    return [i for i in items if len(i) == 2]


def _lines(items, zone=False):
    d = {}
    for i in items:
        if len(i) == 3 and not (zone and i[0] in ("DTSTART", "RRULE", "RDATE")):
            d.setdefault(i[0], []).append(i[1:])
    return d


def lost(text, saved):
    """What the saved text lacks of (or adds to) the text that was read, or None."""
    (_, a), = tree(text)
    (_, b), = tree(saved)
    used = {dict(i[1])["TZID"][0] for c in _boxes(b) if c[0] in ("VEVENT", "VTODO") for i in c[1] if len(i) == 3 and i[0] in ("DTSTART", "DTEND", "DUE") and "TZID" in dict(i[1])}
    zb = {dict((i[0], i[2]) for i in c[1] if len(i) == 3)["TZID"].replace("/ics.py/2020.1/", ""): c for c in _boxes(b) if c[0] == "VTIMEZONE"}
    if used - set(zb):
        return "zone %r is used but not defined" % sorted(used - set(zb))[0]
    za = {dict((i[0], i[2]) for i in c[1] if len(i) == 3)["TZID"]: c for c in _boxes(a) if c[0] == "VTIMEZONE"}
    pairs = [(za[z], zb[z]) for z in zb if z in za and z in used]
    la, lb = _lines(a), _lines(b)
    if la != lb:
        return "calendar: %s" % G.diff(la, lb)
    return _same([x for x in _boxes(a) if x[0] != "VTIMEZONE"], [x for x in _boxes(b) if x[0] != "VTIMEZONE"], "") or _pairs(pairs, True, "")


def _same(xs, ys, path, zone=False):
    """Boxes of one kind keep their order."""
    kinds = sorted({x[0] for x in xs} | {y[0] for y in ys})
    for k in kinds:
        p, q = [x for x in xs if x[0] == k], [y for y in ys if y[0] == k]
        if len(p) != len(q):
            return "%s%s: %d read, %d written" % (path, k, len(p), len(q))
        d = _pairs(zip(p, q), zone, path)
        if d:
            return d
    return None


def _pairs(pairs, zone, path):
    for x, y in pairs:
        la, lb = _lines(x[1], zone), _lines(y[1], zone)
        if x[0] in ("VEVENT", "VTODO"):
            for n in ("UID", "DTSTAMP"):
                if n not in la:
                    lb.pop(n, None)
        if la != lb:
            return "%s%s: %s" % (path, x[0], G.diff(la, lb))
        d = _same(_boxes(x[1]), _boxes(y[1]), path + x[0] + "/", zone)
        if d:
            return d
    return None
