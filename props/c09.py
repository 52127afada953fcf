"""C09: timeline iterations stepped in any order while the calendar is edited between the steps."""
import datetime as D

from sim import core, plans
from sim.core import Violation
from sim.sched import Sched

ID = "C09"
RUNS = {"quick": 24000, "thorough": 600000}
RULE = ("One run = one calendar of events on a coarse grid (many ties and touching intervals), several timeline iterations and queries of all kinds in progress at once, stepped in random order, "
        "with random edits of events and lists between the steps; or iterations, whose first item was requested, drained by one thread while another edits, under a random line-level schedule. "
        "What must be delivered is computed by an interval model in UTC from the raw times at the moment of the first step; non-trivial when an edit happened while an iteration was in progress.")
COVER = "distinct hashes of (delivered sequences)"
REAL = ["ics (all of it)", "real interpreter threads"]
STUB = ["step scheduler", "thread scheduler", "local time zone (fixed offsets)", "system clock", "OS entropy"]
SHRINK = ["prog", "events", "plan.sw"]
TZS = [None, None, "utc:std", "utc:ics", "off:3600", "off:-12600", "zi:Europe/Berlin", "tz:America/New_York"]
LOCAL = [["UTC0", 0], ["AAA-5:30", 19800], ["BBB+8", -28800]]


def g_event(r, norm):
    c = r.random()
    if c > 0.93:  # an equal copy of another one
        return {"b": None, "e": None, "d": None, "day": False, "tz": None, "twin": r.randint(0, 9)}
    h = r.choice([0, 0, 1, 2, 3, 5, 8, 23, 24, 24, 25, 48, r.randint(0, 72)])
    m = r.choice([0, 0, 0, 30, r.randint(0, 59)])
    if c < 0.06:
        return {"b": None, "e": None, "d": None, "day": False, "tz": None}
    if c < 0.25 and norm is None:
        d = r.randint(0, 3)
        n = r.choice([1, 1, 2, 3])
        w = r.choice(["e", "d", "n"])
        return {"b": d * 86400, "e": (d + n) * 86400 if w == "e" else None, "d": n * 86400 if w == "d" else None, "day": True, "tz": None}
    b = h * 3600 + m * 60
    if r.random() < 0.05:
        b = r.choice([86399.999999, 86400.000001, 3599.5])
    n = r.choice([0, 0, 1, 1800, 3600, 3600, 7200, 86400, 86399, r.randint(0, 200000)])
    w = r.choice(["e", "e", "d", "n"])
    return {"b": b, "e": b + n if w == "e" else None, "d": n if w == "d" else None, "day": False, "tz": r.choice(TZS)}


def g_query(r):
    q = r.choice(["all", "all", "pairs", "included", "overlapping", "included", "overlapping", "included1", "overlapping1", "included2", "overlapping2", "included3", "overlapping3", "start_after", "at", "on", "ons"])
    b = r.choice([0, 0, 3600, 7200, 86400, 86400, 5 * 3600, r.randint(0, 260000)]) + r.choice([0, 0, 0, -1, 1])
    return [q, b, b + r.choice([0, 1, 3600, 7200, 86400, 86400, r.randint(0, 260000)]), r.choice(TZS)]


def g_edit(r, norm):
    k = r.choice(["times", "times", "begin", "end", "dur", "allday", "summary", "append", "insert", "del", "del", "remove", "replace", "clear", "reverse", "swap"])
    return ["edit", k, r.randint(0, 9), g_event(r, norm), r.choice(["", "a", "zz"])]


def gen(r, tier, ctx):
    norm = r.choice([None, None, None, ["conv", "utc:std"], ["conv", "off:7200"], ["repl", "off:7200"]])
    ev = [g_event(r, norm) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9]))]
    spec = {"norm": norm, "events": ev, "local": r.choice(LOCAL), "sum": [r.choice(["", "a", "b", "zz"]) for _ in range(12)]}
    if r.random() < 0.8:
        prog = [["new", g_query(r)]]
        for _ in range(r.randint(3, 30)):
            c = r.random()
            if c < 0.2:
                prog.append(["new", g_query(r)])
            elif c < 0.65:
                prog.append(["step", r.randint(0, 9), r.choice([1, 1, 1, 2, 5])])
            elif c < 0.68:
                prog.append(["close", r.randint(0, 9)])
            else:
                prog.append(g_edit(r, norm))
        spec.update(mode="steps", prog=prog)
    else:
        n = r.choice([2, 3])
        spec.update(mode="threads", n=n, prog=[["new", g_query(r)] for _ in range(r.randint(1, 4))] + [g_edit(r, norm) for _ in range(r.randint(1, 10))], plan=plans.gen_plan(r, ctx, n, hi=3000))
    return spec


def profile(run):
    def fn():
        for i in range(6):
            w = World(gen(core.rng_for(1, "C09-profile", i), "quick", {"sites": [("timeline.py:1", 1)]}), core.Run())
            for op in w.spec["prog"]:
                w.do(op)
            w.drain()
    return plans.profile_sites([fn])


BASE = D.datetime(2020, 1, 6)
EPOCH = D.datetime(1970, 1, 1)


class World:
    def __init__(self, spec, run):
        import ics
        from sim import gen as G
        from ics.timeline import Timeline
        from ics.timespan import Normalization, NormalizationAction as NA

        self.spec, self.run = spec, run
        core.set_tz(spec["local"][0])
        self.off = spec["local"][1]
        self.zones = {n: G.tz_of(n) for n in TZS}
        n = spec["norm"]
        self.rep = self.off
        if n is not None:
            z = self.zones.setdefault(n[1], G.tz_of(n[1]))
            if n[0] == "repl":
                norm = Normalization(z, NA.REPLACE, NA.IGNORE)
                self.rep = int(z.utcoffset(None).total_seconds())
            else:
                norm = Normalization(z, True, True)
        self.cal = ics.Calendar()
        self.k = 0
        for e in spec["events"]:
            self.cal.events.append(self.mk(e))
        self.timeline = self.cal.timeline if n is None else Timeline(self.cal, norm)
        self.its = []
        self.edits = 0

    def dt(self, s, tz):
        return None if s is None else (BASE + D.timedelta(seconds=s)).replace(tzinfo=self.zones[tz])

    def span(self, e):
        from ics import EventTimespan

        return EventTimespan(self.dt(e["b"], e["tz"]), self.dt(e["e"], e["tz"]), None if e["d"] is None else D.timedelta(seconds=e["d"]), "day" if e["day"] else "second")

    def mk(self, e):
        import ics

        if e.get("twin") is not None and self.cal.events:
            self.run.count("equal_events")
            return self.cal.events[e["twin"] % len(self.cal.events)].clone()
        self.k += 1
        return ics.Event(self.spec["sum"][self.k % 12], timespan=self.span(e), uid=f"e{self.k}")

    # ---- the model: instants in seconds UTC
    def inst(self, d):
        if d.tzinfo is None:
            return (d - EPOCH).total_seconds() - self.rep
        return (d.replace(tzinfo=None) - EPOCH).total_seconds() - d.utcoffset().total_seconds()

    def interval(self, ev):
        t = ev.timespan
        if t.begin_time is None:
            return None
        b = self.inst(t.begin_time)
        if t.end_time is not None:
            return b, self.inst(t.end_time)
        if t.duration is not None:
            return b, b + t.duration.total_seconds()
        return b, b + (86400 if t.precision == "day" else 0)

    def expected(self, q):
        kind, s, t, tz = q
        a, z = self.inst(self.dt(s, tz)), self.inst(self.dt(t, tz))
        if kind in ("on", "ons"):
            a = self.inst(self.dt(s, tz).replace(hour=0, minute=0, second=0))
            z = a + 86400
        if self.day_query(kind):
            a = self.inst(self.dt(s // 86400 * 86400, None))
            z = self.inst(self.dt(t // 86400 * 86400 + 86400, None))
        kind = kind.rstrip("123")
        out = {}
        for ev in self.cal.events:
            iv = self.interval(ev)
            if iv is None:
                continue
            b, e = iv
            if kind in ("all", "pairs"):
                ok = True
            elif kind in ("included", "ons"):
                ok = a <= b and e < z
            elif kind in ("overlapping", "on"):
                ok = a <= b < z or b <= a < e
            elif kind == "start_after":
                ok = b > a
            else:
                ok = b <= a < e
            if ok:
                out[id(ev)] = (iv, ev)
        return out

    def day_query(self, kind):
        return kind[-1] == "3" and self.spec["norm"] is None  # whole days can't be converted

    # ---- operations
    def do(self, op):
        if op[0] == "new":
            self.its.append({"q": op[1], "it": self.start(op[1]), "exp": None, "got": [], "done": False})
        elif op[0] == "step":
            live = [i for i in self.its if not i["done"]]
            if live:
                for _ in range(op[2]):
                    self.step(live[op[1] % len(live)])
        elif op[0] == "close":
            live = [i for i in self.its if not i["done"]]
            if live:
                it = live[op[1] % len(live)]
                it["it"].close()
                it["done"] = True
                self.run.count("fault:abandoned")
        else:
            self.edit(op)

    def start(self, q):
        kind, s, t, tz = q
        a, z = self.dt(s, tz), self.dt(t, tz)
        tl = self.timeline
        if kind == "all":
            return iter(tl)
        if kind == "pairs":
            return tl.iterator()
        if kind in ("included", "overlapping"):
            return getattr(tl, kind)(a, z)
        if kind in ("included1", "overlapping1"):
            from ics import Timespan

            return getattr(tl, kind[:-1])(Timespan(a, z))
        if kind[-1] in "23":
            from ics import EventTimespan, Timespan

            cls = EventTimespan if s % 2 else Timespan
            if self.day_query(kind):
                a = self.dt(s // 86400 * 86400, None)
                z = self.dt(t // 86400 * 86400 + 86400, None)
                x = cls(a, None, z - a, "day") if t % 2 else cls(a, z, None, "day")
            else:
                x = cls(a, duration=z - a)
            return getattr(tl, kind[:-1])(x)
        if kind in ("on", "ons") and a.tzinfo is None and s % 2 == 0:
            a = a.date()
        if kind == "on":
            return tl.on(a)
        if kind == "ons":
            return tl.on(a, strict=True)
        return getattr(tl, kind)(a)

    def step(self, it):
        if it["done"]:
            return
        if it["exp"] is None:
            it["exp"] = self.expected(it["q"])
            it["edits"] = self.edits
        try:
            x = next(it["it"])
        except StopIteration:
            it["done"] = True
            missing = [it["exp"][k] for k in it["exp"] if k not in {i for i, _ in it["got"]}]
            if missing:
                raise Violation("entry-missing", f"{it['q']}: {self.show(missing)} never delivered, {len(it['got'])} were")
            self.run.log("done", it["q"][0], [e.uid for _, e in it["got"]])
            self.run.cov(tuple(e.uid for _, e in it["got"]), it["q"][0])
            if it["edits"] != self.edits:
                self.run.nontrivial = True
            return
        self.run.count("items_delivered")
        if it["q"][0] == "pairs":
            x = x[1]
        if id(x) not in it["exp"]:
            raise Violation("entry-unexpected", f"{it['q']}: {x.uid} {x.timespan} delivered; expected {self.show(it['exp'].values())}")
        if any(i == id(x) for i, _ in it["got"]):
            raise Violation("entry-repeated", f"{it['q']}: {x.uid}")
        if it["got"]:
            prev = it["exp"][it["got"][-1][0]]
            if prev[0] > it["exp"][id(x)][0]:
                raise Violation("not-chronological", f"{it['q']}: {self.show([prev])} before {self.show([it['exp'][id(x)]])}")
        it["got"].append((id(x), x))

    def show(self, l):
        return [(e.uid, *(str(EPOCH + D.timedelta(seconds=t)) for t in iv)) for iv, e in list(l)[:6]]

    def edit(self, op):
        _, k, i, spec, txt = op
        c = self.cal
        self.edits += 1
        ev = c.events[i % len(c.events)] if c.events else None
        try:
            if k == "append":
                c.events.append(self.mk(spec))
            elif k == "insert":
                c.events.insert(0, self.mk(spec))
            elif k == "clear":
                c.events.clear()
            elif k == "reverse":
                c.events.reverse()
            elif k == "replace":
                c.events = [self.mk(spec)] + c.events[: i]
            elif ev is None:
                pass
            elif k == "del":
                del c.events[i % len(c.events)]
            elif k == "remove":
                c.events = [e for e in c.events if e is not ev]
            elif k == "swap":
                c.events[i % len(c.events)] = ev.clone()
            elif k == "times":
                ev.timespan = self.span(spec)
            elif k == "begin" and spec["b"] is not None:
                ev.begin = self.dt(spec["b"], spec["tz"])
            elif k == "end" and spec["b"] is not None:
                ev.end = self.dt(spec["b"], spec["tz"])
            elif k == "dur":
                ev.duration = D.timedelta(seconds=spec["d"] or 3600)
            elif k == "allday" and self.spec["norm"] is None:
                ev.make_all_day()
            elif k == "summary":
                ev.summary = txt
        except (ValueError, TypeError):
            self.run.count("rejected_edits")
        self.run.count("edits")

    def drain(self):
        for it in self.its:
            while not it["done"]:
                self.step(it)


def run(spec, run):
    w = World(spec, run)
    if spec["mode"] == "steps":
        for op in spec["prog"]:
            w.do(op)
        w.drain()
    else:
        for op in spec["prog"]:
            if op[0] == "new":
                w.do(op)
        for it in w.its:
            w.step(it)

        def reader(k):
            def f():
                for it in w.its[k::w.spec["n"] - 1]:
                    while not it["done"]:
                        w.step(it)
            return f

        def editor():
            for op in spec["prog"]:
                if op[0] == "edit":
                    w.edit(op)

        s = Sched(run, spec["plan"], max_steps=2_000_000)
        for o in s.run([reader(k) for k in range(spec["n"] - 1)] + [editor]):
            if not o.ok:
                raise o.exc
    run.log("events", [e.uid for e in w.cal.events])
