"""C12: zone lookups under histories, threads, interrupts and reloads, against a model of transition rules."""
import datetime as D
import json
import os
import re

from sim import core, gen as G, plans
from sim.core import Violation
from sim.sched import Interrupter, Sched

ID = "C12"
RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("One run = 1-4 zones (shipped, user-defined with several eras, one-off changes, half-hour and inverted DST, same name with other rules) and a history of offset/DST/abbreviation lookups and conversions of instants, "
        "clustered around transitions with both folds, in threads under a random line-level schedule or with interrupts, bursts that overflow caches, and zones dropped and loaded again; "
        "every single answer is compared with a model that expands the transition rules by itself (for shipped zones since 2008 also with zoneinfo); non-trivial when both folds of a repeated hour were asked for or threads switched.")
COVER = "distinct hashes of (zone, instants) histories"
REAL = ["ics (all of it)", "dateutil.rrule, dateutil.tz", "ics_vtimezones", "zoneinfo (as second oracle)", "real interpreter threads"]
STUB = ["thread scheduler", "system clock", "OS entropy"]
SHRINK = ["ops", "zones", "plan.sw"]
H = D.timedelta(hours=1)
UTC = D.timezone.utc


# ------------------------------------------------------------------ definitions
def nth(y, m, n, wd):
    """The n-th weekday wd (MO=0) of a month; n may be negative."""
    if n > 0:
        d = D.date(y, m, 1)
        return d + D.timedelta(days=(wd - d.weekday()) % 7 + 7 * (n - 1))
    d = D.date(y + m // 12, m % 12 + 1, 1) - D.timedelta(days=1)
    return d - D.timedelta(days=(d.weekday() - wd) % 7 - 7 * (n + 1))


WD = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]


def g_zone(r, own=False):
    if not own and r.random() < 0.45:
        return {"k": "builtin", "name": r.choice(G.ZONES + ["Europe/Dublin", "Africa/Casablanca", "Australia/Lord_Howe", "America/Sao_Paulo", "Asia/Tehran", "Pacific/Chatham", "America/St_Johns", "Asia/Jerusalem", "Africa/Cairo",
                                                           "America/Santiago", "Antarctica/Troll", "UTC", "Etc/GMT+5", "Asia/Gaza", "Pacific/Apia", "Atlantic/Azores"])}
    # user defined: eras of a base offset with or without DST
    std = r.choice([-11, -5, -3.5, 0, 1, 2, 5.75, 9, 12]) * 3600
    y = r.randint(1985, 2005)
    obs = []
    north = r.random() < 0.6
    eras = r.choice([1, 1, 1, 2, 3])
    if eras > 1:
        north = True
    init = std
    for era in range(eras):
        end = y + r.randint(2, 9) if era < eras - 1 else None
        if era or r.random() < 0.3:
            # a change of the base offset, in January, far from DST
            new = init if era == 0 else std + r.choice([-2, -1, -0.5, 0.5, 1, 2]) * 3600
            obs.append({"dst": False, "from": std, "to": new, "name": r.choice(["BAS%d" % era, None]), "start": [y, 1, r.randint(5, 20), r.choice([0, 2, 5]), 0], "rule": None, "until": None, "rdates": []})
            std = new
        if r.random() < 0.8:
            sv = r.choice([3600, 3600, 3600, 1800, 7200, -3600])
            a, b = (r.choice([3, 4]), r.choice([9, 10, 11])) if north else (r.choice([9, 10]), r.choice([3, 4]))
            h1, h2 = r.choice([1, 2, 2, 3]), r.choice([2, 3, 3])
            on = [a, r.choice([1, 2, -1]), r.choice([6, 6, 5, 3])]
            off = [b, r.choice([1, -1]), r.choice([6, 6, 4])]
            fin = end and end - 1
            y0 = y
            nm = r.choice([["STD", "DST"], ["STD", "DST"], ["SAME", "SAME"], ["STD", None]])
            if end is None or r.random() < 0.7 or not north:
                for w, dst, frm, to, h, name in ((on, True, std, std + sv, h1, nm[1]), (off, False, std + sv, std, h2, nm[0])):
                    d = nth(y0 if north or dst else y0 + 1, w[0], w[1], w[2])
                    obs.append({"dst": dst, "from": frm, "to": to, "name": name, "start": [d.year, d.month, d.day, h, 0], "rule": w, "until": fin, "rdates": []})
            else:
                # single dates instead of a rule
                for w, dst, frm, to, h, name in ((on, True, std, std + sv, h1, nm[1]), (off, False, std + sv, std, h2, nm[0])):
                    ds = [nth(yy, w[0], w[1], w[2]) for yy in range(y0, fin + 1)]  # (only north)
                    obs.append({"dst": dst, "from": frm, "to": to, "name": name, "start": [ds[0].year, ds[0].month, ds[0].day, h, 0], "rule": None, "until": None,
                                "rdates": [[d.year, d.month, d.day, h, 0] for d in ds[1:]]})
        elif not obs:
            obs.append({"dst": False, "from": std, "to": std, "name": "ONE", "start": [1970, 1, 1, 0, 0], "rule": None, "until": None, "rdates": []})
        if end is not None:
            y = end
    order = r.random()
    if order < 0.3:
        obs.reverse()
    elif order < 0.5:
        r.shuffle(obs)
    return {"k": "own", "name": r.choice(["X/One", "X/Two", "Europe/Berlin", "Custom Zone"]), "obs": obs, "how": r.choice(["text", "text", "event", "obj"])}


def off(s):
    s = int(s)
    return "%s%02d%02d" % ("-" if s < 0 else "+", abs(s) // 3600, abs(s) // 60 % 60)


def fmt(a):
    return "%04d%02d%02dT%02d%02d00" % tuple(a)


def vtz(z):
    out = ["BEGIN:VTIMEZONE", "TZID:" + z["name"]]
    for o in z["obs"]:
        k = "DAYLIGHT" if o["dst"] else "STANDARD"
        out += ["BEGIN:" + k, "TZOFFSETFROM:" + off(o["from"]), "TZOFFSETTO:" + off(o["to"]), "DTSTART:" + fmt(o["start"])]
        if o["name"]:
            out.append("TZNAME:" + o["name"])
        if o["rule"]:
            u = ""
            if o["until"]:
                d = nth(o["until"], *o["rule"])
                u = ";UNTIL=" + fmt([d.year, d.month, d.day, *o["start"][3:]])
            out.append("RRULE:FREQ=YEARLY;BYMONTH=%d;BYDAY=%d%s%s" % (o["rule"][0], o["rule"][1], WD[o["rule"][2]], u))
        if o["rdates"]:
            out.append("RDATE:" + ",".join(fmt(a) for a in o["rdates"]))
        out.append("END:" + k)
    return out + ["END:VTIMEZONE"]


def read_builtin(name):
    """The rules in a shipped file, read with a few regular expressions of our own."""
    import importlib.util

    p = os.path.join(importlib.util.find_spec("ics_vtimezones").submodule_search_locations[0], "data/zoneinfo", name + ".ics")
    obs, cur = [], None
    for l in open(p, encoding="utf-8").read().splitlines():
        if l in ("BEGIN:STANDARD", "BEGIN:DAYLIGHT"):
            cur = {"dst": l.endswith("T") and "DAY" in l, "name": None, "rule": None, "until": None, "rdates": []}
        elif l in ("END:STANDARD", "END:DAYLIGHT"):
            obs.append(cur)
            cur = None
        elif cur is not None:
            k, _, v = l.partition(":")
            if k in ("TZOFFSETFROM", "TZOFFSETTO"):
                cur[k[8:].lower()] = (1 if v[0] == "+" else -1) * (int(v[1:3]) * 3600 + int(v[3:5]) * 60 + int(v[5:7] or 0))
            elif k == "TZNAME":
                cur["name"] = v
            elif k == "DTSTART":
                cur["start"] = [int(v[:4]), int(v[4:6]), int(v[6:8]), int(v[9:11]), int(v[11:13])]
            elif k == "RRULE":
                m = re.fullmatch(r"FREQ=YEARLY;BYMONTH=(\d+);BYDAY=(-?\d+)(..)", v)
                cur["rule"] = [int(m[1]), int(m[2]), WD.index(m[3])]
    return obs


class Model:
    """Transitions as (instant, observance), and what they make of wall times and instants (UTC as naive datetimes)."""

    def __init__(self, obs):
        self.obs = obs
        tr = []
        for n, o in enumerate(obs):
            s = D.datetime(*o["start"])
            ws = [s] + [D.datetime(*a) for a in o["rdates"]]
            if o["rule"]:
                for y in range(s.year, min(o["until"] or 9999, 2045) + 1):
                    d = nth(y, *o["rule"])
                    w = D.datetime(d.year, d.month, d.day, s.hour, s.minute)
                    if w > s:
                        ws.append(w)
            tr += [(w - D.timedelta(seconds=o["from"]), n) for w in ws]
        self.tr = sorted(tr)
        std = [o for o in obs if not o["dst"]]
        self.first = std[0] if std else obs[0]

    def at(self, u):
        r = self.first
        for t, n in self.tr:
            if t > u:
                break
            r = self.obs[n]
        return r

    def wall(self, w, fold):
        """(observance or None if there is no such time, whether the time occurs twice)"""
        ok = []
        for o in sorted({o["to"] for o in self.obs} , reverse=True):
            u = w - D.timedelta(seconds=o)
            x = self.at(u)
            if x["to"] == o:
                ok.append((u, x))
        if not ok:
            return None, False
        ok.sort(key=lambda p: p[0])
        return ok[-1 if fold else 0][1], len(ok) > 1


# ------------------------------------------------------------------ runs
def g_when(r):
    """[transition index (fraction), shift in seconds] or an absolute time."""
    if r.random() < 0.75:
        return ["tr", r.random(), r.choice([0, 0, -1, 1, -60, 1800, -1800, 3599, 3600, 3601, -3600, -3601, -3599, 5400, -5400, 7200, -7200, r.randint(-20000, 20000), r.randint(-10**7, 10**7)]), r.choice([0, 0, 0, 1, 999999])]
    return ["abs", r.randint(1960, 2040), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)]


def g_op(r, nz):
    c = r.random()
    z = r.randrange(nz)
    if c < 0.55:
        return ["wall", z, g_when(r), r.choice(["f", "b", "b", "0", "1"]), r.sample(["o", "d", "n"], 3)]
    if c < 0.75:
        return ["utc", z, g_when(r), r.choice(["as", "as", "from", "ts"])]
    if c < 0.85:
        return ["burst", z, [g_when(r) for _ in range(r.choice([4, 9, 10, 11, 14]))], r.choice([0, 1])]
    if c < 0.9:
        return ["event", z, g_when(r)]
    if c < 0.94:
        return ["cross", z, g_when(r), r.choice([0, 1]), r.sample(range(nz), nz), r.sample(["o", "d", "n"], 3)]
    return ["reload", z]


def gen(r, tier, ctx):
    zones = [g_zone(r) for _ in range(r.choice([1, 1, 2, 3, 4]))]
    if len(zones) > 1 and r.random() < 0.4:
        for z in zones:
            if z["k"] == "own":
                z["name"] = zones[0]["name"]  # same name, other rules
    if len(zones) < 4 and r.random() < 0.25:
        # the same rules at another base offset, or saving another amount, with or without the same name
        z = json.loads(json.dumps(r.choice([z for z in zones if z["k"] == "own"] or [g_zone(r, True)])))
        if z["name"] not in {y["name"] for y in zones}:
            zones.append(json.loads(json.dumps(z)))
        dd = r.choice([3600, -3600, 1800])
        for o in z["obs"]:
            o["from"] += dd
            o["to"] += dd
            if r.random() < 0.2 and o["name"]:
                o["name"] += "X"
        z["how"] = r.choice(["text", "event", "obj"])
        z["name"] = r.choice([z["name"], z["name"], "X/Three"])
        zones.append(z)
    ops = [g_op(r, len(zones)) for _ in range(r.choice([3, 6, 14]))]
    for o in list(ops):  # come back to times asked for before
        if r.random() < 0.4:
            ops.insert(r.randint(0, len(ops)), ["wall", o[1], o[2], r.choice(["b", "f", "0", "1"]), r.sample(["o", "d", "n"], 3)] if o[0] in ("wall", "utc", "event") else o)
    spec = {"zones": zones, "ops": ops}
    c = r.random()
    if c < 0.35:
        n = r.choice([2, 2, 3])
        spec.update(mode="threads", n=n, plan=plans.gen_plan(r, ctx, n, hi=3000), warm=r.random() < 0.7)
    elif c < 0.55:
        spec.update(mode="ints", ints=[[r.randrange(len(ops)), plans.gap(r, 400)] for _ in range(r.choice([1, 2, 4]))])
    else:
        spec["mode"] = "alone"
    return spec


def profile(run):
    def fn():
        for i in range(4):
            w = World({"zones": [{"k": "builtin", "name": "Europe/Berlin"}, g_zone(core.rng_for(1, "C12-p", i))]}, core.Run())
            for z in range(2):
                for op in (["wall", z, ["tr", 0.5, 60, 0], "b", ["o", "d", "n"]], ["utc", z, ["tr", 0.5, 60, 0], "as"]):
                    w.do(op)
    return plans.profile_sites([fn])


class World:
    def __init__(self, spec, run):
        self.spec, self.run = spec, run
        self.models = [Model(z["obs"] if z["k"] == "own" else read_builtin(z["name"])) for z in spec["zones"]]
        self.objs = [self.load(z) for z in spec["zones"]]
        self.both = False

    def load(self, z):
        import ics
        from ics.contentline import string_to_container

        if z["k"] == "builtin":
            return ics.Timezone.from_tzid(z["name"])
        t = "\r\n".join(vtz(z))
        if z["how"] == "text":
            return ics.Timezone.from_container(string_to_container(t))
        if z["how"] == "event":
            c = ics.Calendar("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n%s\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTART;TZID=%s:20100601T000000\r\nEND:VEVENT\r\nEND:VCALENDAR" % (t, z["name"]))
            return c.events[0].begin.tzinfo
        from dateutil import rrule as R
        from ics.timezone import TimezoneDaylightObservance as DO, TimezoneStandardObservance as SO

        obs = []
        for o in z["obs"]:
            s = D.datetime(*o["start"])
            rs = R.rruleset()
            if o["rule"]:
                u = None
                if o["until"]:
                    d = nth(o["until"], *o["rule"])
                    u = D.datetime(d.year, d.month, d.day, *o["start"][3:])
                rs.rrule(R.rrule(R.YEARLY, dtstart=s, bymonth=o["rule"][0], byweekday=R.weekday(o["rule"][2], o["rule"][1]), until=u))
            else:
                rs.rdate(s)
            for a in o["rdates"]:
                rs.rdate(D.datetime(*a))
            obs.append((DO if o["dst"] else SO)(D.timedelta(seconds=o["from"]), D.timedelta(seconds=o["to"]), rs, o["name"]))
        return ics.Timezone(z["name"], obs)

    def when(self, z, w):
        """An instant (naive UTC)."""
        if w[0] == "abs":
            return D.datetime(*w[1:])
        tr = [t for t, n in self.models[z].tr if 1960 < t.year < 2040] or [D.datetime(2010, 1, 1)]
        return tr[int(w[1] * len(tr))] + D.timedelta(seconds=w[2], microseconds=w[3])

    def wall(self, z, w, fold, what="odn", dt=None):
        m, obj = self.models[z], self.objs[z]
        o, twice = m.wall(w, fold)
        if w < m.tr[0][0] + 48 * H:
            o, twice = None, False  # nothing is defined about times before the first onset
        if o is None:
            self.run.count("gap_times")
        d = (w.replace(tzinfo=obj, fold=fold)) if dt is None else dt
        got = {}
        for k in what:
            got[k] = d.utcoffset() if k == "o" else d.dst() if k == "d" else d.tzname()
        self.run.count("lookups")
        if o is None:
            # a time that does not exist: any answer of the zone's, but always the same
            fresh = self.load(self.spec["zones"][z])
            f = w.replace(tzinfo=fresh, fold=fold)
            want = {"o": f.utcoffset(), "d": f.dst(), "n": f.tzname()}
        else:
            want = {"o": D.timedelta(seconds=o["to"]), "d": D.timedelta(seconds=o["to"] - o["from"] if o["dst"] else 0), "n": o["name"]}
        for k in what:
            if got[k] != want[k]:
                raise Violation({"o": "wrong-offset", "d": "wrong-dst", "n": "wrong-name"}[k] + ("-gap" if o is None else ""),
                                f"{w} fold={fold} in {self.spec['zones'][z].get('name')}: {got[k]!r}, expected {want[k]!r}" + (" (repeated hour)" if twice else ""))
        if o is not None and self.spec["zones"][z]["k"] == "builtin" and self.spec["zones"][z]["name"] in G.ZONES and 2008 <= w.year <= 2036:
            import zoneinfo

            x = w.replace(tzinfo=zoneinfo.ZoneInfo(self.spec["zones"][z]["name"]), fold=fold)
            if x.utcoffset() != got.get("o", x.utcoffset()) or x.dst() != got.get("d", x.dst()):
                raise Violation("not-zoneinfo", f"{x}: {got} instead of {x.utcoffset()}, {x.dst()}")
        return twice

    def utc(self, z, u, how):
        obj = self.objs[z]
        if u < self.models[z].tr[0][0] + 48 * H:
            return
        x = u.replace(tzinfo=UTC)
        if how == "as":
            y = x.astimezone(obj)
        elif how == "from":
            y = obj.fromutc(u.replace(tzinfo=obj))
        else:
            u = u.replace(microsecond=0)
            x = u.replace(tzinfo=UTC)
            y = D.datetime.fromtimestamp(x.timestamp(), obj)
        o = self.models[z].at(u)
        self.run.count("conversions")
        w = u + D.timedelta(seconds=o["to"])
        if y.replace(tzinfo=None) != w:
            raise Violation("wrong-conversion", f"{x} is {w} in {self.spec['zones'][z].get('name')}, got {y}")
        back = y.astimezone(UTC)
        if back != x:
            raise Violation("no-round-trip", f"{x} became {y} fold={y.fold} in {self.spec['zones'][z].get('name')}, and that is {back}")
        if y.utcoffset() != D.timedelta(seconds=o["to"]) or y.tzname() != o["name"]:
            raise Violation("wrong-offset", f"{y!r}: {y.utcoffset()} {y.tzname()}, expected {o}")

    def do(self, op):
        k, z = op[0], op[1] % len(self.objs)
        if k == "wall":
            u = self.when(z, op[2])
            m = self.models[z]
            # the wall time on a clock of either side of the transition
            for w in sorted({u + D.timedelta(seconds=m.at(u)["to"]), u + D.timedelta(seconds=m.at(u - H)["to"])}):
                fs = {"f": [0, 1], "b": [1, 0], "0": [0], "1": [1]}[op[3]]
                for f in fs:
                    if self.wall(z, w, f, op[4]) and len(fs) > 1:
                        self.both = True
        elif k == "cross":
            # the same wall time in several zones
            u = self.when(z, op[2])
            w = u + D.timedelta(seconds=self.models[z].at(u)["to"])
            for y in [*op[4], z]:
                self.wall(y, w, op[3], op[5])
        elif k == "utc":
            self.utc(z, self.when(z, op[2]), op[3])
        elif k == "burst":
            for x in op[2]:
                u = self.when(z, x)
                self.wall(z, u + D.timedelta(seconds=self.models[z].at(u)["to"]), op[3], "o")
        elif k == "event":
            import ics

            u = self.when(z, op[2])
            if u < self.models[z].tr[0][0] + 48 * H:
                return
            w = u.replace(tzinfo=UTC).astimezone(self.objs[z])
            e = ics.Event(begin=w, duration=D.timedelta(hours=1))
            if e.begin.utcoffset() != D.timedelta(seconds=self.models[z].at(u)["to"]):
                raise Violation("wrong-offset", f"of an event's begin: {e.begin!r} for {u}")
        elif k == "reload":
            if self.spec["mode"] != "threads":
                self.objs[z] = None  # the new zone may take the old one's address
            self.objs[z] = self.load(self.spec["zones"][z])
            self.run.count("fault:reloaded")


def run(spec, run):
    w = World(spec, run)
    if spec["mode"] == "threads":
        if spec["warm"]:
            for op in spec["ops"][:3]:
                w.do(op)
        progs = [[op for j, op in enumerate(spec["ops"]) if j % spec["n"] == i] for i in range(spec["n"])]

        def body(p):
            def fn():
                for op in p:
                    w.do(op)
            return fn

        s = Sched(run, spec["plan"], max_steps=2_000_000)
        for o in s.run([body(p) for p in progs]):
            if not o.ok:
                raise o.exc
        run.nontrivial = s.switches > 0
    else:
        at = {}
        for i, n in spec.get("ints", ()):
            at[i % len(spec["ops"])] = n
        for i, op in enumerate(spec["ops"]):
            if i in at:
                o = Interrupter(run, {"step": at[i]})(lambda: w.do(op))
                if o.ok:
                    continue
                if not isinstance(o.exc, core.Interrupt):
                    raise o.exc
                run.nontrivial = True
                if any(x is None for x in w.objs):
                    w.do(["reload", w.objs.index(None)])
            w.do(op)
    for op in spec["ops"][-5:]:
        if op[0] == "wall":
            w.do([op[0], op[1], op[2], "f", ["o", "d", "n"]])
    run.nontrivial |= w.both
    run.cov([z["name"] for z in spec["zones"]], spec["ops"])
    run.log(len(spec["ops"]))
