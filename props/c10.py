"""C10: everything taken from the clock, under clocks that stand still, jump, and change their zone."""
import datetime as D
import time

from sim import core, gen as G
from sim.core import Violation

ID = "C10"
RUNS = {"quick": 24000, "thorough": 600000}
RULE = ("One run = one calendar and a history of clock movements (steps, jumps forwards and backwards, standing still, to the exact instants of event boundaries, midnights and zone transitions) and local-zone changes, "
        "interleaved with now/today queries, creation, loading, copying and saving of entries; judged by an interval model on libc's own localtime/mktime; non-trivial when clock or zone moved between two uses.")
COVER = "distinct hashes of (zone, delivered sequences)"
REAL = ["ics (all of it)", "dateutil.tz.tzlocal", "libc localtime/mktime"]
STUB = ["system clock", "local time zone (POSIX TZ)", "OS entropy"]
SHRINK = ["prog", "events"]
TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "JST-9", "XXX+3:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "LHST-10:30LHDT-11,M10.1.0/2,M4.1.0/2", "KKK-14", "LLL+12", "CET-2CEST,M4.1.0,M9.1.0/3", "JST-8", "EST6EDT,M4.1.0,M10.1.0"]  # some names mean several zones
# around transitions of some of the zones (UTC)
SPECIAL = [1583650800, 1604210400, 1585443600, 1603587600, 1585404000, 1601128800, 1609459200, 1582934400]


def instant(r, anchors):
    c = r.random()
    if anchors and c < 0.6:
        a = r.choice(anchors)
    elif c < 0.8:
        a = r.choice(SPECIAL)
    else:
        a = r.randint(1230768000, 2019686400)
    return a * 10**6 + r.choice([0, 0, 0, 1, -1, 499999, 500000, 500001, 10**6, -(10**6), 3600 * 10**6, -3600 * 10**6, 1800 * 10**6, 86400 * 10**6, -86400 * 10**6, r.randint(-10**12, 10**12)])


def g_event(r, anchors):
    c = r.random()
    sub = r.choice([0, 0, 0, 1, 500000, 999999])  # microseconds
    if c < 0.05:
        return {"k": "none"}
    a = r.choice(anchors)
    if c < 0.3:
        d = D.date(1970, 1, 1) + D.timedelta(days=a // 86400 + r.choice([-1, 0, 0, 1]))
        return {"k": "day", "b": [d.year, d.month, d.day], "n": r.choice([None, 1, 1, 2, 3])}
    if c < 0.6:
        # floating wall times away from the hours in which zones change
        b = D.datetime(1970, 1, 1) + D.timedelta(seconds=a + r.choice([0, 3600, -3600, 36000]))
        b = b.replace(hour=min(max(b.hour, 4), 22))
        e = b + D.timedelta(seconds=r.choice([0, 1, 60, 3600, 86400, 2 * 86400]))
        if not 4 <= e.hour <= 22:
            e = e.replace(hour=22, minute=max(e.minute, b.minute), second=59)
        return {"k": "float", "b": [*b.timetuple()[:6], sub], "e": [*e.timetuple()[:6], sub] if e >= b else None, "how": r.choice(["end", "dur", "none"])}
    b = a + r.choice([0, 0, 1, -1, -3600, 3600, 1800, -1800, -86400])
    return {"k": "aware", "b": b + sub / 10**6, "n": r.choice([0, 1, 3600, 3600, 1800, 86400, 90000]), "how": r.choice(["end", "dur", "none"]), "tz": r.choice(["utc:std", "utc:ics", "off:3600", "off:-34200"])}


def gen(r, tier, ctx):
    anchors = [r.choice([r.choice(SPECIAL), r.choice(SPECIAL) // 86400 * 86400, r.randint(1230768000, 2019686400)]) for _ in range(r.choice([1, 1, 2]))]
    prog = [["tz", r.choice(TZS)], ["clock", instant(r, anchors)]]
    for _ in range(r.randint(4, 25)):
        c = r.random()
        if c < 0.28:
            prog.append(["clock", instant(r, anchors)])
        elif c < 0.36:
            prog.append(["tz", r.choice(TZS)])
        elif c < 0.45:
            prog.append(["midnight", r.choice([0, 1, -1, 10**6, -10**6, 3600 * 10**6])])
        elif c < 0.6:
            prog.append(["now", r.choice([None, None, instant(r, anchors)])])
        elif c < 0.63:
            prog.append(["on", instant(r, anchors), r.choice(["utc:std", "utc:ics", "off:3600", "off:-34200"]), r.random() < 0.3])
        elif c < 0.75:
            prog.append(["today", r.choice([False, False, True]), r.choice([None, None, instant(r, anchors)])])
        else:
            prog.append(["new", r.choice(["event", "todo", "load", "loaddt", "clone", "explicit", "save", "edit"])])
    return {"events": [g_event(r, anchors) for _ in range(r.choice([1, 2, 4, 8]))], "prog": prog, "tick": r.choice([0, 0, 0, 1000, 10**6, 10**9 * r.choice([1, 3600, 86400, 40000, -1, -3600])])}  # the clock may go on between any two readings


EP = D.datetime(1970, 1, 1)


def us(dt):
    """Microseconds since the epoch of an aware datetime or, by libc, of a wall time."""
    if dt.tzinfo is not None:
        return round((dt.replace(tzinfo=None) - EP - dt.utcoffset()) / D.timedelta(microseconds=1))
    return int(time.mktime((dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, 0, 0, -1))) * 10**6 + dt.microsecond


class World:
    def __init__(self, spec, run):
        import ics

        self.spec, self.run = spec, run
        self.tz = "UTC0"
        self.cal = ics.Calendar()
        self.model = []
        for e in spec["events"]:
            self.add(e)
        self.stamps = []
        self.moved = 0

    def add(self, e):
        import ics
        from ics import EventTimespan

        k = e["k"]
        if k == "none":
            ev = ics.Event()
            m = None
        elif k == "day":
            b = D.datetime(*e["b"])
            ev = ics.Event(timespan=EventTimespan(b, None, None if e["n"] is None else D.timedelta(days=e["n"]), "day"))
            m = (b, b + D.timedelta(days=e["n"] or 1))
        else:
            if k == "float":
                b = D.datetime(*e["b"])
                z = D.datetime(*e["e"]) if e["e"] else b
            else:
                b = (EP + D.timedelta(seconds=e["b"])).replace(tzinfo=D.timezone.utc).astimezone(G.tz_of(e["tz"]))
                z = b + D.timedelta(seconds=e["n"])
            if e["how"] == "end":
                ev = ics.Event(begin=b, end=z)
            elif e["how"] == "dur":
                ev = ics.Event(begin=b, duration=z - b)
            else:
                ev = ics.Event(begin=b)
                z = b
            m = (b, z)
        self.cal.events.append(ev)
        self.model.append((ev, m))

    def clock(self, t):
        core.set_clock(t * 1000, self.spec["tick"])
        self.run.simtime += abs(t / 1e6 - getattr(self, "last", t / 1e6))
        self.last = t / 1e6
        self.moved += 1

    def expect_now(self, t):
        return [e for e, m in self.model if m and us(m[0]) <= t < us(m[1])]

    def expect_day(self, t, strict):
        lt = time.localtime(t // 10**6)
        d = D.datetime(lt.tm_year, lt.tm_mon, lt.tm_mday)
        return self.between(us(d), us(d + D.timedelta(days=1)), strict)

    def between(self, a, z, strict):
        if strict:
            return [e for e, m in self.model if m and a <= us(m[0]) and us(m[1]) < z]
        return [e for e, m in self.model if m and (a <= us(m[0]) < z or us(m[0]) <= a < us(m[1]))]

    def judge(self, what, t0, t1, exp, later):
        if later is not None:
            # what counts is the moment of the call, not that of the first step
            self.clock(later)
        got = list(self.it)
        a, b = exp(t0), exp(t1)
        if set(map(id, a)) != set(map(id, b)) or abs(self.spec["tick"]) >= 10**9:
            # read while the clock went on: any of the times it showed will do, but one time only
            n = abs(t1 - t0) * 1000 // (abs(self.spec["tick"]) or 1)
            for i in range(min(n, 40) + 1):
                x = exp(t0 + i * self.spec["tick"] // 1000)
                if sorted(map(id, x)) == sorted(map(id, got)):
                    a = x
                    self.run.count("moving_clock_queries")
                    break
        self.run.count("clock_queries")
        if sorted(map(id, got)) != sorted(map(id, a)):
            sh = lambda l: [str(e.timespan) for e in l]
            raise Violation("wrong-" + what, f"clock {EP + D.timedelta(microseconds=t0)} UTC, TZ={self.tz}: got {sh(got)}, expected {sh(a)}")
        self.run.cov(self.tz, what, [self.cal.events.index(e) for e in got], t0)
        self.run.log(what, t0, [self.cal.events.index(e) for e in got])

    def stamp(self, e, t0, t1, what):
        d = e.dtstamp
        t0, t1 = sorted((t0, t1))
        if d is None or d.tzinfo is None or d.utcoffset() != D.timedelta(0) or not t0 <= us(d) <= t1:
            raise Violation("wrong-timestamp", f"{what}: dtstamp {d!r}, clock was {EP + D.timedelta(microseconds=t0)}..{EP + D.timedelta(microseconds=t1)} UTC, TZ={self.tz}")
        if e.created is not None or e.last_modified is not None:
            raise Violation("wrong-timestamp", f"{what}: created {e.created} last_modified {e.last_modified}")
        self.stamps.append((e, d, d.replace(tzinfo=None)))
        self.run.count("entries_stamped")

    def check(self):
        for e, d, w in self.stamps:
            if e.dtstamp != d or e.dtstamp.replace(tzinfo=None) != w:
                raise Violation("timestamp-changed", f"{w} -> {e.dtstamp}")

    def do(self, op):
        import ics

        k = op[0]
        now = lambda: core.clock_now() // 1000
        if k == "tz":
            self.tz = op[1]
            core.set_tz(op[1])
            self.moved += 1
            self.run.count("fault:zone_change")
        elif k == "clock":
            old = now()
            self.clock(op[1])
            self.run.count("fault:clock_back" if op[1] < old else "fault:clock_jump")
        elif k == "midnight":
            lt = time.localtime(now() // 10**6)
            self.clock(us(D.datetime(lt.tm_year, lt.tm_mon, lt.tm_mday) + D.timedelta(days=1)) + op[1])
            self.run.count("fault:clock_jump")
        elif k == "now":
            t0 = now()
            self.it = self.cal.timeline.now()
            self.judge("now", t0, now(), self.expect_now, op[1])
        elif k == "on":
            # a day of another zone than the local one
            d = (EP + D.timedelta(microseconds=op[1])).replace(tzinfo=D.timezone.utc).astimezone(G.tz_of(op[2]))
            a = us(d.replace(hour=0, minute=0, second=0, microsecond=0))
            t0 = now()
            self.it = self.cal.timeline.on(d, op[3])
            self.judge("on", t0, now(), lambda t: self.between(a, a + 86400 * 10**6, op[3]), None)
        elif k == "today":
            t0 = now()
            self.it = self.cal.timeline.today(op[1]) if op[1] else self.cal.timeline.today()
            self.judge("today", t0, now(), lambda t: self.expect_day(t, op[1]), op[2])
        else:
            w = op[1]
            t0 = now()
            if w == "event":
                self.stamp(ics.Event("x"), t0, now(), w)
            elif w == "todo":
                self.stamp(ics.Todo(), t0, now(), w)
            elif w == "load":
                c = ics.Calendar("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VEVENT\r\nUID:a\r\nEND:VEVENT\r\nBEGIN:VTODO\r\nUID:b\r\nEND:VTODO\r\nEND:VCALENDAR")
                for e in [*c.events, *c.todos]:
                    self.stamp(e, t0, now(), w)
            elif w == "loaddt":
                d = D.datetime(2001, 2, 3, 4, 5, 6, tzinfo=D.timezone.utc)
                c = ics.Calendar("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VEVENT\r\nUID:a\r\nDTSTAMP:20010203T040506Z\r\nEND:VEVENT\r\nEND:VCALENDAR")
                self.stamp(c.events[0], us(d), us(d), w)
            elif w == "explicit":
                d = D.datetime(2001, 2, 3, 4, 5, 6, tzinfo=D.timezone.utc)
                self.stamp(ics.Event(dtstamp=d), us(d), us(d), w)
            elif self.stamps:
                e, d, _ = self.stamps[-1]
                if w == "clone":
                    self.stamp(e.clone(), us(d), us(d), w)
                elif w == "edit":
                    e.summary = "edited"
                    e.description = "too"
                else:
                    t = e.serialize()
                    if f"DTSTAMP:{d.replace(tzinfo=None):%Y%m%dT%H%M%S}Z" not in t:
                        raise Violation("timestamp-changed", f"{d} saved as {t}")
        self.check()


def run(spec, run):
    w = World(spec, run)
    for op in spec["prog"]:
        w.do(op)
    run.nontrivial = w.moved > 2
