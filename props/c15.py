"""C15: calendar-wide zone conversion, interrupted and failing at any point, then resumed."""
import datetime as D

from props.c13 import BadTz
from sim import core, gen as G, plans
from sim.core import Interrupt, Violation
from sim.sched import Interrupter

ID = "C15"
RUNS = {"quick": 14000, "thorough": 500000}
RULE = ("One run = one calendar of entries with times of all kinds (floating, zoned, all-day, without times, begin and end in different zones, cloned, loaded) converted to a zone with every combination of actions, in up to 8 attempts: each interrupted or out of memory "
        "at a random step or source line, or failing because an entry's zone, the target zone or the function supplying it fails at its n-th use. After every attempt each entry must be exactly as before or exactly converted, none lost, duplicated or reordered, "
        "all-day entries untouched; the last, undisturbed attempt must give exactly the model's result. Non-trivial when an attempt was cut short after some but not all entries had been converted.")
COVER = "distinct hashes of (actions, kinds of entries, number converted at each interruption)"
REAL = ["ics (all of it)", "dateutil.tz", "zoneinfo"]
STUB = ["interrupts and failing zones", "system clock", "OS entropy", "local time zone"]
SHRINK = ["cal.entries", "tries", "cal.extra"]
TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3"]


def g_try(r, ctx, bad, target):
    c = r.random()
    if bad and c < 0.4:
        return {"entryzone": r.randint(0, 6), "n": r.choice([0, 1, 2, 3, 5, 9]), "err": r.choice(core.EXC_KINDS)}
    if target and c < 0.7:
        return {"target": r.choice([0, 1, 2, 3, 5, 8, 12, 20, 30]), "err": r.choice(core.EXC_KINDS)}
    c = r.random()
    if c < 0.45:
        return {"step": plans.gap(r, r.choice([60, 300, 3000])), "exc": r.choice(["int", "int", "mem"])}
    if c < 0.75 and ctx.get("sites"):
        s, o = plans.pick_site(r, ctx)
        return {"site": s, "occ": o, "exc": r.choice(["int", "int", "mem"])}
    return {"call": r.randint(0, 5), "err": r.choice(core.EXC_KINDS)}


def profile(run):
    def one(i):
        spec = gen(core.rng_for(1, "C15-profile", i), "quick", {})
        w = World(spec, core.Run())
        try:
            w.attempt({})
        except ValueError:
            pass
    return plans.profile_sites([lambda i=i: one(i) for i in range(12)])


def gen(r, tier, ctx):
    cal = G.calendar(r, n_events=r.choice([1, 2, 3, 5, 8]), n_todos=r.choice([0, 1, 2, 4]), rich=r.choice([0, 0.3]))
    if r.random() < 0.3:  # entries whose conversion cannot succeed
        for e in cal["entries"]:
            t = e["times"]
            if r.random() < 0.3 and t["begin"] and t["begin"][6] and not t["allday"]:
                b = t["begin"]
                t["end"], t["dur"] = [b[0], b[1], b[2], max(0, b[3] - 3), b[4], b[5], "off:-43200", 0], None
    bad = r.random() < 0.3
    zone = G.tzname(r, ("utc", "off", "tz", "zi", "du", "syn", "bad")) if r.random() < 0.8 else "bad"
    fl, aw = r.randint(0, 2), r.choice([0, 1, 1, 2, 2, 2])
    if fl < 2 and aw < 2 and r.random() < 0.15:
        zone = "none"  # the zone information is dropped
    if bad:
        for e in cal["entries"]:
            for k in ("begin", "end"):
                v = e["times"][k]
                if v and v[6] and not e["times"]["allday"] and r.random() < 0.7 and not (e["times"]["end"] or [0] * 7)[6] == "off:-43200":
                    v[6] = "xoff:%d" % (3600 * (1 if k == "begin" else r.choice([0, 1, 1])))
    return {"cal": cal, "zone": zone, "float": fl, "aware": aw, "form": r.choice(["args", "kw", "obj", "call", "bool"]),
            "tries": [g_try(r, ctx, bad, zone == "bad") for _ in range(r.choice([1, 1, 2, 3, 7]))], "tz": r.choice(TZS), "loaded": r.random() < 0.2, "bad": bad, "other": r.random() < 0.15}


class World:
    def __init__(self, spec, run):
        self.spec, self.run = spec, run
        self.cache = {}
        self.bads = []
        self.armed = None
        for e in spec["cal"]["entries"]:
            for k in ("begin", "end"):
                v = e["times"][k]
                if v and v[6] and v[6].startswith("xoff:") and v[6] not in self.cache:  # a zone that can be made to fail
                    self.cache[v[6]] = BadTz(float(v[6][5:]), 0, "value", run)
        z = spec["zone"]
        self.target = BadTz(7200, 0, "value", run) if z.startswith("bad") else None if z == "none" else self.cache.setdefault(z, G.tz_of(z))
        for e in spec["cal"]["entries"]:
            try:
                G.mk_timespan(e["times"], e["kind"], self.cache)
            except ValueError:  # what gen() made of it is no interval
                e["times"]["end"] = None
        self.cal = G.mk_calendar(spec["cal"], self.cache)
        if spec["loaded"] and not any(isinstance(z, BadTz) for z in self.cache.values()):
            import ics

            self.cal = ics.Calendar(self.cal.serialize())
        self.before = [self.pic(e) for e in self.entries()]
        self.want = [self.convert(e, p) for e, p in zip(self.entries(), self.before)]
        self.rest = self.other_content()
        self.calls = 0

    def entries(self):
        return list(self.cal.events) + list(self.cal.todos)

    def pic(self, e):
        return G.c_entry(e)

    def other_content(self):
        c = G.c_calendar(self.cal)
        return {k: v for k, v in c.items() if k not in ("events", "todos")}

    def convert(self, e, before):
        """The model: what the entry has to become, or None when its conversion must fail."""
        t = e.timespan
        if t.precision == "day":
            return before
        b, z = t.begin_time, t.end_time
        first = b if b is not None else z
        floating = first is None or first.tzinfo is None
        act = self.spec["float"] if floating else self.spec["aware"]
        if act == 0:
            return before
        f = (lambda d: None if d is None else d.replace(tzinfo=self.target)) if act == 1 else (lambda d: None if d is None else d.astimezone(self.target))
        nb, nz = f(b), f(z)
        if nb is not None and nz is not None and nb > nz:
            return None
        return {**before, "times": {**before["times"], "begin": G.c_dt(nb), "end": G.c_dt(nz)}}

    def attempt(self, t):
        from ics.timespan import Normalization, NormalizationAction as A

        fl, aw = A(self.spec["float"]), A(self.spec["aware"])
        if self.spec["form"] == "bool" and fl != 1 and aw != 1:  # True stands for CONVERT
            fl, aw = bool(fl), bool(aw)
        zone = self.target
        if "call" in t or self.spec["form"] == "call":
            left = [t.get("call", 10**9)]

            def supply():
                left[0] -= 1
                if left[0] < 0:
                    self.run.count("fault:supplier_" + t["err"])
                    raise core.EXC[t["err"]]("zone")
                return self.target

            return self.cal.normalize(Normalization(supply, fl, aw))
        form = self.spec["form"]
        if form == "args":
            self.cal.normalize(zone, fl, aw)
        elif form == "obj":
            self.cal.normalize(Normalization(zone, normalize_with_tz=aw, normalize_floating=fl))
        else:
            self.cal.normalize(zone, normalize_floating=fl, normalize_with_tz=aw)

    def check(self, what):
        """Nothing lost, duplicated, reordered or half converted; returns how many were converted."""
        uids = [p["uid"] for p in self.before]
        got = self.entries()
        if [e.uid for e in got] != uids or len(self.cal.events) != sum(1 for p in self.before if p["kind"] == "Event"):
            raise Violation("entries-lost", f"{what}: entries {uids} became {[e.uid for e in got]} ({len(self.cal.events)} events)")
        n = 0
        for e, b, w in zip(got, self.before, self.want):
            p = self.pic(e)
            if p == w and w != b:
                n += 1
            elif p != b:
                raise Violation("half-converted", f"{what}: {b['kind']} {b['uid']} with times {b['times']} became {p['times']}, expected that or {w and w['times']}; first difference to what it was: {G.diff(b, p)}"[:2500])
        if self.other_content() != self.rest:
            raise Violation("calendar-changed", f"{what}: {G.diff(self.rest, self.other_content())}")
        return n

    def go(self):
        run, spec = self.run, self.spec
        doomed = any(w is None for w in self.want)
        allday = [(e, e.timespan) for e in self.entries() if e.all_day]
        todo = sum(1 for b, w in zip(self.before, self.want) if w is not None and w != b)
        for i, t in enumerate(spec["tries"]):
            what = f"attempt {i} {t}"
            for z in list(self.cache.values()) + [self.target]:
                if isinstance(z, BadTz):
                    z.armed = False
            if "entryzone" in t:
                bad = [z for z in self.cache.values() if isinstance(z, BadTz)]
                if bad:
                    z = bad[t["entryzone"] % len(bad)]
                    z.n, z.exc, z.armed = t["n"], t["err"], True
            if "target" in t and isinstance(self.target, BadTz):
                self.target.n, self.target.exc, self.target.armed = t["target"], t["err"], True
            at = {k: t[k] for k in ("step", "site", "occ") if k in t}
            o = Interrupter(run, at, exc=MemoryError if t.get("exc") == "mem" else Interrupt)(lambda: self.attempt(t))
            for z in list(self.cache.values()) + [self.target]:
                if isinstance(z, BadTz):
                    z.armed = False
            n = self.check(what + (f" at {o.interrupted}" if not o.ok else ""))
            run.cov(spec["float"], spec["aware"], n, len(self.before), type(o.exc).__name__, sorted({str(p["times"]["begin"] and p["times"]["begin"][1]) for p in self.before}))
            run.log(what, o.ok, n, type(o.exc).__name__)
            if o.ok:
                if doomed:
                    raise Violation("no-error", f"{what}: an entry cannot be converted, but no error was raised")
                if n != todo:
                    raise Violation("incomplete", f"{what} finished, but only {n} of {todo} entries were converted")
            elif 0 < n < todo:
                run.nontrivial = True
                run.count("cut_midway")
            if not o.ok and not isinstance(o.exc, (Interrupt, MemoryError)):
                mine = isinstance(o.exc, core.CATCH) and "zone" in str(o.exc)
                if not mine and not (doomed and isinstance(o.exc, ValueError)):
                    raise Violation("other-error", f"{what}: {core.tb(o.exc)}"[:2500])
        for j in range(2):  # undisturbed, and once more
            try:
                self.attempt({})
                ok = True
            except ValueError as e:
                ok = False
                if not doomed:
                    raise Violation("cannot-resume", f"undisturbed attempt after {len(spec['tries'])} cut short: {core.tb(e)}"[:2500])
            if ok and doomed:
                raise Violation("no-error", "an entry cannot be converted, but no error was raised")
            n = self.check("final attempt")
            if ok and n != todo:
                raise Violation("incomplete", f"final attempt: {n} of {todo} entries were converted")
        for e, ts in allday:
            if e.timespan != ts:
                raise Violation("allday-touched", f"{e!r}: {ts!r} -> {e.timespan!r}")
        if spec["other"] and not doomed and spec["float"] == 2 and spec["aware"] == 2 and spec["zone"] != "none":
            # on to another zone: the same instants
            self.target = D.timezone(D.timedelta(hours=5))
            before = self.before
            o = Interrupter(run, {"step": 40 * (1 + spec["rand"] % 20)})(lambda: self.attempt({}))
            self.attempt({})
            got = [self.pic(e) for e in self.entries()]
            for e, p, b, w in zip(self.entries(), got, before, self.want):
                if w == b and b["times"]["precision"] == "day":
                    if p != b:
                        raise Violation("allday-touched", f"{b} -> {p}")
                    continue
                for k in ("begin", "end"):
                    x = w["times"][k]
                    if x is not None:
                        y = (D.datetime.fromisoformat(x[0]) - D.timedelta(seconds=x[1])) + D.timedelta(hours=5)
                        if p["times"][k] != (y.isoformat(), 18000.0):
                            raise Violation("instant-lost", f"{k} {b['times'][k]} converted to {x} and on to {p['times'][k]}")
            run.count("second_zone")


def run(spec, run):
    core.set_tz(spec["tz"])
    World(spec, run).go()
