"""C17: zone requests, loads and saves while the stored zone definitions fail in every way."""
import datetime as D
import errno
import os
import random
import sys

from sim import core, gen as G, plans
from sim.core import FS, Violation
from sim.sched import Interrupter, Sched

ID = "C17"
RUNS = {"quick": 3000, "thorough": 250000}
RULE = ("One run = a history of requests (a zone by name, Windows name, zoneinfo or dateutil zone; loads naming zones without defining them; saves of such times), each with healthy storage or with faults under the C library: "
        "error codes from the n-th open, stat or read, missing, unreadable, truncated, empty or garbled zone files, damaged indexes at first use, short reads, interrupts, in one or several threads; "
        "every result is checked against offsets taken from healthy storage, and every request is repeated once the storage works again; non-trivial when a fault fired.")
COVER = "distinct hashes of (request, fault, outcome)"
REAL = ["ics (all of it)", "ics_vtimezones and its data files", "dateutil.tz", "zoneinfo", "pathlib, io"]
STUB = ["open/stat/read of zone files below the C library", "thread scheduler", "system clock", "OS entropy"]
SHRINK = ["prog", "plan.sw", "plan.int", "times"]
ZONES = G.ZONES + ["America/Argentina/Buenos_Aires", "Asia/Ho_Chi_Minh", "Etc/UTC", "Africa/Abidjan", "America/Phoenix", "Europe/Dublin", "EST", "EST5EDT", "Etc/GMT+5", "CET"]
WIN = {"W. Europe Standard Time": "Europe/Berlin", "Eastern Standard Time": "America/New_York", "Tokyo Standard Time": "Asia/Tokyo", "AUS Eastern Standard Time": "Australia/Sydney"}
ERR = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ENOMEM, errno.ESTALE]


def g_req(r, zs):
    k = r.choice(["tzid", "tzid", "tzid", "load", "load", "load", "save", "save", "from", "builtin", "full"])
    if k == "tzid":
        return [k, r.choice(zs + list(WIN)[:2] if r.random() < 0.3 else zs)]
    if k == "load":
        return [k, [r.choice(zs) if r.random() < 0.9 else r.choice(list(WIN)) for _ in range(r.randint(1, 3))]]
    if k == "save":
        return [k, [[r.choice(["zi", "du", "tz"]), r.choice(zs)] for _ in range(r.randint(1, 3))]]
    if k == "full":
        return [k, [r.choice(zs) for _ in range(r.randint(1, 2))]]
    return [k, r.choice(["zi", "du"]), r.choice(zs)]


def g_fault(r, zs):
    f = {"files": [], "sys": [], "fails": [], "short": r.choice([0, 0, 0, 1, 7, 100])}
    c = r.random()
    if c < 0.55:
        for z in ([r.choice(zs)] if r.random() < 0.4 else zs):
            w = r.choice(["trunc", "trunc", "trunc", "empty", "garbage", "tail", "nultail", "err", "err", "binary", "page", "byte", "byte"])
            f["files"].append([z, w, r.random(), r.choice(ERR), r.getrandbits(30)])
    if c > 0.45 and c < 0.9:
        for _ in range(r.choice([1, 1, 2])):
            f["fails"].append([r.choice(["any", "open", "stat", "read"]), r.choice([1, 1, 2, 3, 4, r.randint(1, 20)]), r.choice(ERR)])
    if c > 0.9:
        f["index"] = [r.choice(["zoneinfo_index.json", "windows_zone_mapping.json"]), r.choice(["trunc", "empty", "err", "garbage"]), r.random(), r.choice(ERR), r.getrandbits(30)]
    if f["files"] and r.random() < 0.5 or r.random() < 0.1:
        for z in zs:
            f["sys"].append([z, r.choice(ERR[:4])])
    if r.random() < 0.06:
        f["int"] = int(10 ** r.uniform(0, 4))
    return f


def gen(r, tier, ctx):
    zs = r.sample(ZONES, r.choice([1, 2, 3]))
    if r.random() < 0.2:
        zs[0] = r.choice(["EST", "EST5EDT"])
    prog = []
    for _ in range(r.randint(2, 9)):
        prog.append([g_req(r, zs), g_fault(r, zs) if r.random() < 0.7 else None])
    spec = {"zones": zs, "prog": prog, "times": [G.dt(r, None, lo=1991, hi=2016)[:6] for _ in range(r.choice([2, 3, 5]))], "cold": r.random() < 0.2, "tz": r.choice(["UTC0", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3"]), "threads": 0}
    if r.random() < 0.08:
        # every source of one zone is gone at once
        z = r.choice(["EST", "EST5EDT", "CET", r.choice(ZONES)])
        f = {"files": [[z, r.choice(["trunc", "empty", "garbage", "page", "tail"]), r.random(), r.choice(ERR), r.getrandbits(30)]], "sys": [[z, r.choice(ERR[:4])]], "fails": [], "short": 0}
        spec["zones"] = list(dict.fromkeys([*zs, z]))
        prog.insert(r.randint(0, len(prog)), [["load", [z]], f])
        spec["times"] += [G.dt(r, None, lo=1991, hi=2016)[:6] for _ in range(3)]
        spec["tz"] = r.choice(["EST5EDT,M3.2.0,M11.1.0", spec["tz"]])
    elif r.random() < 0.12:
        n = spec["threads"] = r.choice([2, 3])
        spec["fault"] = g_fault(r, zs)
        spec["fault"].pop("int", None)
        spec["plan"] = plans.gen_plan(r, ctx, n, hi=3000)
    return spec


def profile(run):
    def one(i):
        spec = gen(core.rng_for(1, "C17-profile", i), "quick", {})
        w = World(spec, core.Run())
        for req, _ in spec["prog"]:
            w.prepare(req)
        return [lambda req=req: w.do(req) for req, _ in spec["prog"]]

    return plans.profile_sites([f for i in range(6) for f in one(i)])


def damage(data, w, frac, seed):
    r = random.Random(seed)
    n = int(frac * len(data))
    if w == "trunc":
        return data[:min(n, len(data.rstrip()) - 1)]
    if w == "empty":
        return b"" if seed & 1 else b"\r\n" * (seed % 3)
    if w == "garbage":
        return b"\n".join(bytes(r.choice(b"abcdefghij:;=,BEGIN ENDZ0123456789\"") for _ in range(40)) for _ in range(20))
    if w == "binary":
        return bytes(r.getrandbits(8) for _ in range(len(data)))
    if w == "byte":  # a figure that is no longer readable
        at = [i for i, c in enumerate(data) if 48 <= c < 58]
        rule = [i for i in at if data.rfind(b"RRULE", 0, i) > data.rfind(b"\n", 0, i)]
        n = r.choice(rule if rule and seed & 1 else at or [0])
        return data[:n] + bytes([r.getrandbits(8) | 0x80]) + data[n + 1:]
    if w == "page":
        return b"<!DOCTYPE html>\n<html><head><title>503 Service Unavailable</title></head>\n<body>try later: soon</body></html>\n"
    if w == "tail":
        n = min(n, len(data) - 60)
        return data[:n] + bytes(r.getrandbits(8) | 0x80 for _ in range(len(data) - n))
    n = min(n, len(data) - 60)
    return data[:n] + b"\0" * (len(data) - n)


class World:
    def __init__(self, spec, run):
        import dateutil.tz
        import zoneinfo

        import ics_vtimezones as V
        from ics import Timezone

        self.spec, self.run = spec, run
        self.dir = str(V.PACKAGE_DIR)
        self.paths = {z: str(V.find_vtimezone_ics_file(z)) for z in dict.fromkeys([*spec["zones"], *(WIN[x] for x in WIN if repr(x) in repr(spec["prog"]))])}
        self.prefixes = [self.dir + "/data", *(p + "/" for p in zoneinfo.TZPATH), os.path.dirname(os.path.dirname(self.dir + "/x")) + "/tzdata/zoneinfo"]
        self.times = [D.datetime(*t) for t in spec["times"]]
        self.off, self.say = {}, {}
        for z in self.paths:
            a, b, c = Timezone.from_tzid(z), dateutil.tz.gettz(z), zoneinfo.ZoneInfo(z)
            # where the sources of zone data agree
            self.off[z] = [(t, a.utcoffset(t)) for t in self.times if len({x.utcoffset(t.replace(tzinfo=x)) for x in (a, b, c)}) == 1]
            self.say[z] = [(a.utcoffset(t), a.dst(t), a.tzname(t)) for t in self.times]
        dateutil.tz.gettz.cache_clear()
        self.zones = {}
        self.texts = {}
        if spec["cold"]:
            for m in [m for m in sys.modules if m.split(".")[0] == "ics_vtimezones"]:
                del sys.modules[m]
        self.held = []

    def fs(self, f):
        files = []
        for z, w, frac, err, seed in f["files"]:
            p = self.paths[z]
            if w == "err":
                files.append((p, err))
            else:
                files.append((p, damage(open(p, "rb").read(), w, frac, seed)))
            self.run.count("fault:zone_file_" + w)
        for z, err in f["sys"]:
            for d in self.prefixes[1:]:
                files.append((os.path.join(d, z), err))
        if f.get("index") and self.spec["cold"]:
            n, w, frac, err, seed = f["index"]
            p = self.dir + "/data/" + n
            files.append((p, err if w == "err" else damage(open(p, "rb").read(), w, frac, seed)))
            self.run.count("fault:zone_index_" + w)
        for k, n, e in f["fails"]:
            self.run.count(f"fault:{k}_{errno.errorcode[e]}")
        if f["short"]:
            self.run.count("fault:short_reads")
        return FS(self.prefixes, files, f["fails"], f["short"])

    def zone(self, k, z):
        """The zone objects entries to be saved use; made while the storage works."""
        if (k, z) not in self.zones:
            import dateutil.tz

            dateutil.tz.gettz.cache_clear()  # may hold what dateutil made up while the storage failed
            self.zones[k, z] = G.tz_of(f"{k}:{z}")
        return self.zones[k, z]

    def text(self, zs, full):
        key = (tuple(zs), full)
        if key not in self.texts:
            lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"]
            if full:
                import ics

                for z in dict.fromkeys(zs):
                    lines += ics.Timezone.from_tzid(z).to_container().serialize().replace("TZID:/ics.py/2020.1/", "TZID:").split("\r\n")
            for n, z in enumerate(zs):
                for m, t in enumerate(self.times):
                    lines += ["BEGIN:VEVENT", f"UID:e{n}-{m}", "DTSTAMP:20200101T000000Z", f"DTSTART;TZID={z}:{t:%Y%m%dT%H%M%S}", "END:VEVENT"]
            self.texts[key] = "\r\n".join(lines + ["END:VCALENDAR", ""])
        return self.texts[key]

    def prepare(self, req):
        k = req[0]
        if k in ("load", "full"):
            self.text(req[1], k == "full")
        elif k == "save":
            for kind, z in req[1]:
                self.zone(kind, z)
        elif k in ("from", "builtin"):
            self.zone(req[1], req[2])

    # ---- one request; returns [(zone name, zone object or list of (wall, offset))]
    def do(self, req):
        import ics

        k = req[0]
        if k == "tzid":
            return [(WIN.get(req[1], req[1]), ics.Timezone.from_tzid(req[1]))]
        if k in ("load", "full"):
            c = ics.Calendar(self.text(req[1], k == "full"))
            return [(WIN.get(z, z), [(e.begin.replace(tzinfo=None), e.begin.utcoffset()) for e in c.events if e.uid.startswith(f"e{n}-")], [e.begin.tzinfo for e in c.events if e.uid.startswith(f"e{n}-")][:1])
                    for n, z in enumerate(req[1])]
        if k == "save":
            cal = ics.Calendar()
            for n, (kind, z) in enumerate(req[1]):
                for m, t in enumerate(self.times):
                    cal.events.append(ics.Event(begin=t.replace(tzinfo=self.zones[kind, z]), uid=f"e{n}-{m}", dtstamp=D.datetime(2020, 1, 1, tzinfo=D.timezone.utc)))
            return cal.serialize()
        z = self.zones[req[1], req[2]]
        if k == "from":
            return [(req[2], ics.Timezone.from_tzinfo(z))]
        return [(req[2], ics.Timezone(req[2], ics.Timezone.from_tzinfo(z).observances).to_builtin())]

    def judge(self, req, res, cls):
        """Are the offsets right?  (Storage works again.)"""
        import ics

        if req[0] == "save":
            c = ics.Calendar(res)
            res = [(z, [(e.begin.replace(tzinfo=None), e.begin.utcoffset()) for e in c.events if e.uid.startswith(f"e{n}-")]) for n, (k, z) in enumerate(req[1])]
        for name, z, *more in res:
            want = self.off[name]
            if isinstance(z, list):
                if [t for t, o in z] != self.times:
                    raise Violation(cls + "-times", f"{req}: {z}")
                got = dict(z)
            else:
                if z is None:
                    raise Violation(cls, f"{req} gave no zone")
                self.held.append((name, z))
                got = {t: z.utcoffset(t.replace(tzinfo=z)) for t in self.times}
            for t, o in want:
                if got[t] != o:
                    raise Violation(cls, f"{req}: offset of {t} in {name} is {got[t]}, should be {o}")
            for x in more:
                self.held += [(name, y) for y in x]
        del self.held[:-8]

    def recheck(self):
        for name, z in self.held[-4:]:
            for t, o in self.off[name][:2]:
                if z.utcoffset(t.replace(tzinfo=z)) != o:
                    raise Violation("zone-went-bad", f"{z!r} got at an earlier request: offset of {t} is {z.utcoffset(t.replace(tzinfo=z))}, should be {o}")

    def healthy(self, req, why):
        try:
            res = self.do(req)
        except Exception as e:
            raise Violation("still-failing", f"{req} {why}: {core.tb(e)}")
        self.judge(req, res, "wrong-after-faults" if why != "before any fault" else "wrong-zone")

    def step(self, req, fault):
        self.prepare(req)
        if fault is None:
            self.healthy(req, "with working storage")
            self.run.log("ok", req)
            return
        it = Interrupter(self.run, {"step": fault["int"]}) if "int" in fault else None
        with self.fs(fault) as fs:
            if it:
                o = it(lambda: self.do(req))
                exc, res = o.exc, o.value
            else:
                try:
                    exc, res = None, self.do(req)
                except Exception as e:
                    exc, res = e, None
        if fs.fired:
            self.run.nontrivial = True
        self.run.count("faulty_requests")
        self.run.count("outcome:" + ("right" if exc is None else "error"))
        self.run.log("faulty", req, fs.fired, fs.ops, type(exc).__name__)
        self.run.cov(req, fault, type(exc).__name__)
        if exc is not None:
            if not fs.fired and not (it and it.fired):
                raise Violation("failed-without-fault", f"{req}: {core.tb(exc)}")
        else:
            self.judge(req, res, "wrong-zone")
        self.recheck()


def run(spec, run):
    core.set_tz(spec["tz"])
    w = World(spec, run)
    if spec["threads"]:
        n = spec["threads"]
        for req, _ in spec["prog"]:
            w.prepare(req)
        got = []

        def body(k):
            def f():
                for j, (req, _) in enumerate(spec["prog"]):
                    if j % n == k:
                        try:
                            got.append((req, w.do(req)))
                        except Exception as e:
                            got.append((req, e))
            return f

        s = Sched(run, spec["plan"], max_steps=5_000_000)
        with w.fs(spec["fault"]) as fs:
            outs = s.run([body(k) for k in range(n)])
        for o in outs:
            if not o.ok:
                raise o.exc
        run.nontrivial = bool(fs.fired)
        for req, res in got:
            if isinstance(res, Exception):
                if not fs.fired:
                    raise Violation("failed-without-fault", f"{req}: {core.tb(res)}")
            else:
                w.judge(req, res, "wrong-zone")
            run.log(req, type(res).__name__)
            run.cov(req, spec["fault"], type(res).__name__)
    else:
        for req, fault in spec["prog"]:
            w.step(req, fault)
    for req in {repr(q): q for q, _ in spec["prog"]}.values():
        w.healthy(req, "after the storage works again")
    for z in spec["zones"]:
        w.healthy(["tzid", z], "after the storage works again")
        import ics

        x = ics.Timezone.from_tzid(z)
        say = [(x.utcoffset(t), x.dst(t), x.tzname(t)) for t in w.times]
        if say != w.say[z]:
            raise Violation("wrong-after-faults", f"{z}: {G.diff(w.say[z], say)}")
    w.recheck()
