"""C11: comparisons, sorting and queries while the local zone changes under the running program."""
import datetime as D
import operator
import time

from sim import core, gen as G
from sim.core import Violation

ID = "C11"
RUNS = {"quick": 14000, "thorough": 500000}
RULE = ("One run = one calendar of floating, zoned, all-day and half-specified events and todos around the same instants, and a history of local-zone changes interleaved with comparisons, sorting, relations, "
        "conversions and timeline queries; judged by a model in UTC that interprets floating times with libc's mktime; stored values, texts and equality are compared with those in the first zone after every change; "
        "non-trivial when the zone changed between two uses.")
COVER = "distinct hashes of (zone, operation, result)"
REAL = ["ics (all of it)", "dateutil.tz.tzlocal", "libc mktime"]
STUB = ["local time zone (POSIX TZ)", "system clock", "OS entropy"]
SHRINK = ["prog", "entries"]
TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "JST-9", "XXX+3:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "LHST-10:30LHDT-11,M10.1.0/2,M4.1.0/2", "LLL+11", "CET-2CEST,M4.1.0,M9.1.0/3", "JST-8", "UTC-1"]  # some names mean several zones
AWARE = ["utc:std", "utc:ics", "off:3600", "off:-18000", "off:43200", "zi:Asia/Tokyo", "tz:Europe/Berlin", "loc:"]
BASES = [[2020, 1, 15], [2020, 7, 15], [2031, 1, 16]]


def g_point(r, base, tz):
    return [*base[:2], base[2] + r.choice([0, 0, 0, 1]), r.randint(4, 22), r.choice([0, 0, 0, 30]), 0, tz, 0]


def g_entry(r, bases):
    kind = r.choice(["event", "event", "todo"])
    base = r.choice(bases)
    c = r.random()
    e = {"kind": kind, "sum": r.choice([None, "", "a", "b"]), "b": None, "e": None, "d": None, "day": False}
    if c < 0.06:
        return e
    if c < 0.2:
        e.update(day=True, b=[*base, 0, 0, 0, None, 0], d=r.choice([None, 86400, 2 * 86400]))
        return e
    tz = r.choice([None, None, r.choice(AWARE)])
    p = g_point(r, base, tz)
    if kind == "todo" and r.random() < 0.3:
        e["e"] = p
        return e
    e["b"] = p
    w = r.choice(["e", "d", "n"])
    if w == "e":
        q = g_point(r, base, tz if tz is None else r.choice([tz, r.choice(AWARE)]))
        q[2] = p[2] + r.choice([2, 2, 3]) if q[6] != tz else q[2] + r.choice([0, 1, 2])
        if q[:6] >= p[:6]:
            e["e"] = q
    elif w == "d":
        e["d"] = r.choice([0, 3600, 86400])
        if p[3] == 22:
            p[3] = 20
    return e


def gen(r, tier, ctx):
    bases = r.sample(BASES, r.choice([1, 1, 2]))
    es = [g_entry(r, bases) for _ in range(r.randint(2, 7))]
    prog = []
    for _ in range(r.randint(4, 25)):
        c = r.random()
        if c < 0.3:
            prog.append(["tz", r.choice(TZS)])
        elif c < 0.5:
            prog.append(["cmp", r.randint(0, 9), r.randint(0, 9)])
        elif c < 0.6:
            prog.append(["sort", r.choice(["events", "todos", "all", "max"])])
        elif c < 0.75:
            prog.append(["rel", r.randint(0, 9), r.randint(0, 9), r.choice(["starts_within", "ends_within", "intersects", "includes", "is_included_in"])])
        elif c < 0.8:
            prog.append(["has", r.randint(0, 9), g_point(r, r.choice(bases), r.choice([None, None, r.choice(AWARE)]))])
        elif c < 0.85:
            prog.append(["conv", r.randint(0, 9), r.choice(["utc:std", "off:3600"])])
        else:
            tz = r.choice([None, None, r.choice(AWARE)])
            prog.append(["query", r.choice(["all", "included", "overlapping", "start_after", "at", "on"]), g_point(r, r.choice(bases), tz), r.choice([3600, 86400, 3 * 86400])])
    return {"entries": es, "prog": prog, "tz0": r.choice(TZS)}


EP = D.datetime(1970, 1, 1)


def inst(dt):
    if dt is None:
        return float("-inf")
    if dt.tzinfo is not None:
        return (dt.replace(tzinfo=None) - EP - dt.utcoffset()).total_seconds()
    return time.mktime((dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, 0, 0, -1))


class World:
    def __init__(self, spec, run):
        import ics

        self.run = run
        self.tz = spec["tz0"]
        core.set_tz(self.tz)
        self.cal = ics.Calendar()
        self.all = []
        self.cache = {}
        for n, e in enumerate(spec["entries"]):
            t = G.mk_timespan({"begin": e["b"], "end": e["e"], "dur": e["d"], "allday": e["day"]}, e["kind"], self.cache)
            kw = dict(uid=f"e{n}", dtstamp=D.datetime(2020, 1, 1, tzinfo=D.timezone.utc))
            o = (ics.Event if e["kind"] == "event" else ics.Todo)(summary=e["sum"], timespan=t, **kw)
            (self.cal.events if e["kind"] == "event" else self.cal.todos).append(o)
            self.all.append(o)
        self.twins = [o.clone() for o in self.all]
        self.first = self.picture()
        self.changes = 0

    def picture(self):
        return [G.fp(self.cal), self.cal.serialize(), [[a == b for b in self.all + self.twins] for a in self.all], [str(e) for e in self.all if "tzlocal" not in repr(e.timespan)]]

    # ---- the model
    def raw(self, e):
        t = e.timespan
        b, z = t.begin_time, t.end_time
        if z is None and b is not None:
            d = t.duration
            if d is None and hasattr(e, "attendees"):
                d = D.timedelta(1 if t.precision == "day" else 0)
            z = None if d is None else b + d
        return b, z

    def iv(self, e):
        b, z = self.raw(e)
        return inst(b), inst(z)

    def key(self, e):
        b, z = self.iv(e)
        return (b, z, e.summary or "") if hasattr(e, "attendees") else (z, b, e.summary or "")

    def fail(self, what, got, want, *es):
        raise Violation("wrong-" + what, f"TZ={self.tz}: got {got!r}, expected {want!r} for {[str(e) for e in es]}")

    def do(self, op):
        from ics.timespan import Normalization

        k = op[0]
        if k == "tz":
            if op[1] != self.tz:
                self.changes += 1
                self.run.count("fault:zone_change")
            self.tz = op[1]
            core.set_tz(op[1])
            return
        es = self.all
        if k == "cmp":
            a, b = es[op[1] % len(es)], es[op[2] % len(es)]
            got = [f(a, b) for f in (operator.lt, operator.le, operator.gt, operator.ge)]
            want = [f(self.key(a), self.key(b)) for f in (operator.lt, operator.le, operator.gt, operator.ge)]
            if got != want:
                self.fail("comparison", got, want, a, b)
            if type(a) is type(b):
                got = [f(a.timespan, b.timespan) for f in (operator.lt, operator.le, operator.gt, operator.ge)]
                want = [f(self.key(a)[:2], self.key(b)[:2]) for f in (operator.lt, operator.le, operator.gt, operator.ge)]
                if got != want:
                    self.fail("timespan-comparison", got, want, a, b)
            res = got
        elif k == "sort":
            l = {"events": self.cal.events, "todos": self.cal.todos}.get(op[1], es)
            if op[1] == "max":
                if not l:
                    return
                got, want = [max(l), min(l)], [max(l, key=self.key), min(l, key=self.key)]
            else:
                got, want = sorted(l), sorted(l, key=self.key)
            if [id(e) for e in got] != [id(e) for e in want]:
                self.fail("order", [e.uid for e in got], [e.uid for e in want], *l)
            res = [e.uid for e in got]
        elif k in ("rel", "has"):
            evs = [e for e in self.cal.events if e.timespan.begin_time is not None]
            if not evs:
                return
            a = evs[op[1] % len(evs)]
            ab, ae = self.iv(a)
            if k == "has":
                p = G.mk_dt(op[2], self.cache)
                res, want = a.includes(p), ab <= inst(p) < ae
                if res != want:
                    self.fail("includes", res, want, a, p)
            else:
                b = evs[op[2] % len(evs)]
                bb, be = self.iv(b)
                want = {"starts_within": bb <= ab < be, "ends_within": bb <= ae < be, "intersects": bb <= ab < be or ab <= bb < ae,
                        "includes": ab <= bb and be < ae, "is_included_in": bb <= ab and ae < be}[op[3]]
                res = getattr(a, op[3])(b)
                if res != want:
                    self.fail(op[3], res, want, a, b)
        elif k == "conv":
            evs = [e for e in es if not e.all_day]
            if not evs:
                return
            e = evs[op[1] % len(evs)]
            c = e.clone()
            c.convert_timezone(G.tz_of(op[2]))
            if self.iv(c) != self.iv(e):
                self.fail("conversion", self.iv(c), self.iv(e), c, e)
            if any(x is not None and x.utcoffset() is None for x in self.raw(c)):
                self.fail("conversion", "floating", "zoned", c)
            res = self.iv(c)
        else:
            p = G.mk_dt(op[2], self.cache)
            tl = self.cal.timeline
            a = inst(p)
            q = op[1]
            iv = lambda l: [e for e in self.cal.events if e.timespan.begin_time is not None and l(*self.iv(e))]
            if q == "all":
                got, want = tl, iv(lambda b, e: True)
            elif q in ("included", "overlapping"):
                # the end of the query by the wall clock, which stays clear of transitions
                end = (p + D.timedelta(seconds=op[3])).replace(hour=p.hour)
                z = inst(end)
                got = getattr(tl, q)(p, end)
                want = iv((lambda b, e: a <= b and e < z) if q == "included" else (lambda b, e: a <= b < z or b <= a < e))
            elif q == "start_after":
                got, want = tl.start_after(p), iv(lambda b, e: b > a)
            elif q == "at":
                got, want = tl.at(p), iv(lambda b, e: b <= a < e)
            else:
                m = p.replace(hour=0, minute=0, second=0)
                a2, z2 = inst(m), inst(m + D.timedelta(days=1))
                got, want = tl.on(p), iv(lambda b, e: a2 <= b < z2 or b <= a2 < e)
            got = list(got)
            if sorted(map(id, got)) != sorted(map(id, want)) or any(self.iv(x) > self.iv(y) for x, y in zip(got, got[1:])):
                self.fail("query-" + q, [str(e) for e in got], [str(e) for e in want], p)
            res = [e.uid for e in got]
        self.run.count("operations")
        self.run.log(k, res)
        self.run.cov(self.tz, op, res)

    def check(self):
        now = self.picture()
        for name, a, b in zip(("stored-values", "text", "equality", "str"), self.first, now):
            if a != b:
                raise Violation(name + "-depend-on-zone", f"TZ={self.tz}: {G.diff(a, b)}")


def run(spec, run):
    w = World(spec, run)
    for op in spec["prog"]:
        w.do(op)
        if op[0] == "tz":
            w.check()
    w.check()
    run.nontrivial = w.changes > 0
