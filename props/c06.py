"""C06: the very first operations of a process, raced and interrupted."""
import errno

from sim import core, gen as G, ops as O, plans
from sim.core import Interrupt, Violation
from sim.sched import Sched

ID = "C06"
ZYGOTE = "cold"
RUNS = {"quick": 1800, "thorough": 40000}
RULE = ("One run = a fresh process in which 1-4 threads make their first use of the library at once under a random line-level schedule (import locks simulated), with attempts interrupted at random "
        "lines or failing because module files cannot be opened (EMFILE/ENOMEM) and retried; results compared with a process that was set up in peace; "
        "non-trivial when at least one switch, interruption or file fault happened.")
COVER = "distinct switch trails (thread, source line)"
REAL = ["ics (all of it)", "dateutil", "ics_vtimezones", "importlib", "real interpreter threads"]
STUB = ["thread scheduler", "locks (also those of importlib)", "opening of module files", "system clock", "OS entropy"]
SHRINK = ["plan.sw", "plan.int", "files", "progs.0", "progs.1", "progs.2", "progs.3", "after"]
KINDS = ["load", "load", "build", "save", "alarm", "zone", "new1", "entry", "person", "multi", "norm"]


def gop(r):
    k = r.choice(KINDS)
    if k == "new1":
        return ["new1", r.choice(["event", "todo"]), O.gen_dt(r), G.text(r, 2)]
    if k == "entry":
        return ["entry", r.choice(["VEVENT", "VTODO", "VALARM", "VTIMEZONE", "VCALENDAR"])]
    return O.gen_op(r, [k])


def profile(run):
    def fn():
        for i in range(6):
            r = core.rng_for(1, "C06-profile", i)
            for o in [gop(r) for _ in range(5)]:
                do(o, O.Env())
    return plans.profile_sites([fn])


def gen(r, tier, ctx):
    n = r.choice([1, 2, 2, 2, 3, 4])
    progs = [[gop(r) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(n)]
    if r.random() < 0.3:
        progs = [progs[0] for _ in range(n)]
    # the first ~4000 lines are the set-up itself
    plan = plans.gen_plan(r, ctx, n, hi=6000)
    ints = []
    if n == 1 or r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            if r.random() < 0.5:
                s, o = plans.pick_site(r, ctx)
                ints.append({"t": r.randint(0, n - 1), "site": s, "occ": r.choice([1, 1, 1, 2, 3])})
            else:
                ints.append({"t": r.randint(0, n - 1), "gap": r.choice([plans.gap(r, 6000), r.randint(1, 3500)])})
    if n > 1 and r.random() < 0.25:
        # one thread waits for a module which another one is loading when that is interrupted
        late = [x[0] for x in ctx.get("sites", []) if x[0].startswith(("converter/", "valuetype/", "timezone/conv"))]
        if late:
            s = r.choice(late)
            near = [x for x in late if x.split(":")[0] == s.split(":")[0]]
            plan = {"first": 0, "sw": [{"site": s, "occ": 1, "to": 0}, {"site": r.choice([x[0] for x in ctx["sites"] if x[0].startswith(("component.py", "contentline/parser"))]), "occ": r.randint(2, 5), "to": 0}]}
            ints = [{"t": 0, "site": r.choice(near), "occ": 1}]
    if n > 1 and r.random() < 0.15:
        # everything happens while one thread is in the middle of loading one module
        late = [x[0] for x in ctx.get("sites", []) if x[0].startswith("converter/types")]
        if late:
            f = r.choice(sorted({x.split(":")[0] for x in late}))
            plan = {"first": 0, "sw": [{"site": r.choice([x for x in late if x.startswith(f)]), "occ": 1, "to": 0}]}
            ints = []
    plan["int"] = ints
    files = []
    if r.random() < 0.3:
        files = [[r.randint(0, 40), r.choice([1, 2, 2, 4, 8]), r.choice([errno.EMFILE, errno.ENOMEM, errno.EIO])] for _ in range(r.choice([1, 1, 2]))]
    return {"progs": progs, "plan": plan, "files": files, "after": [gop(r) for _ in range(4)]}


TXT = ("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VTIMEZONE\r\nTZID:/x/Z\r\nBEGIN:STANDARD\r\nDTSTART:19700101T000000\r\nTZOFFSETFROM:+0300\r\nTZOFFSETTO:+0300\r\nTZNAME:Z\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"
       "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID=/x/Z:20200102T030405\r\nDURATION:PT1H\r\nSUMMARY;X-P=1:hello\r\nGEO:1.5;2.5\r\nORGANIZER;CN=o:mailto:o@x\r\nATTENDEE;RSVP=TRUE:mailto:a@x\r\n"
       "ATTACH:http://x.y/z\r\nCATEGORIES:A,B\r\nURL:http://u\r\nTRANSP:OPAQUE\r\nX-FOO;A=\"b;c\":bar\r\nBEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER:-PT15M\r\nDESCRIPTION:d\r\nEND:VALARM\r\n"
       "BEGIN:VALARM\r\nACTION:EMAIL\r\nTRIGGER;VALUE=DATE-TIME:20200101T000000Z\r\nSUMMARY:s\r\nATTENDEE:mailto:z@x\r\nEND:VALARM\r\nEND:VEVENT\r\n"
       "BEGIN:VTODO\r\nUID:t\r\nDTSTAMP:20200101T000000Z\r\nDUE;VALUE=DATE:20200105\r\nPRIORITY:3\r\nEND:VTODO\r\nEND:VCALENDAR\r\n")


def do(op, env):
    """Like ops.do, without touching anything shared but the library."""
    import ics

    env.texts[:1] = [TXT]
    try:
        if op[0] == "new1":
            import datetime as D

            b = D.datetime(*op[2])
            kw = dict(uid="u", dtstamp=D.datetime(2020, 1, 1, tzinfo=D.timezone.utc))
            e = ics.Event(op[3], begin=b, **kw) if op[1] == "event" else ics.Todo(begin=b, summary=op[3], **kw)
            return O.jv([G.c_entry(e), e.serialize()])
        if op[0] == "entry":
            from ics.contentline import string_to_container

            c = string_to_container(TXT)
            e = c["VEVENT"][0]
            if op[1] == "VEVENT":
                o = ics.Event.from_container(e)
                return O.jv([G.c_entry(o), o.serialize()])
            if op[1] == "VTODO":
                o = ics.Todo.from_container(c["VTODO"][0])
                return O.jv([G.c_entry(o), o.serialize()])
            if op[1] == "VALARM":
                return O.jv([G.c_alarm(a) for a in [ics.alarm.BaseAlarm.from_container(x) for x in e["VALARM"]]])
            if op[1] == "VCALENDAR":
                return O.jv(G.c_calendar(ics.Calendar.from_container(c)))
            z = ics.Timezone.from_container(c["VTIMEZONE"][0])
            return O.jv([str(z), z.serialize()])
        return O.jv(O._do(op, env))
    except Exception as e:
        return O.clean(e)


def peace(k):
    def ph(spec, run, carry):
        import ics

        carry = carry or {"solo": []}
        ics.initialize_converters()
        core.set_rand(spec["rand"] + k)
        env = O.Env()
        carry["solo"].append([do(o, env) for o in spec["progs"][k]])
        if k + 1 >= len(spec["progs"]):
            carry["_goto"] = 4
        return carry

    return ph


def peace_after(spec, run, carry):
    import ics

    ics.initialize_converters()
    core.set_rand(spec["rand"] + 99)
    env = O.Env()
    carry["after"] = [do(o, env) for o in spec["after"]]
    return carry


class FaultyIo:
    """Stands in for the _io module inside importlib: some openings of the library's files fail."""

    def __init__(self, real, run, faults):
        self._r, self.run, self.faults = real, run, faults
        self.n = 0
        self.fired = 0

    def __getattr__(self, n):
        return getattr(self._r, n)

    def open_code(self, path):
        if "/ics" in path:
            self.n += 1
            for start, count, code in self.faults:
                if start < self.n <= start + count:
                    self.fired += 1
                    self.run.count("fault:open_" + errno.errorcode[code])
                    self.run.log("open-failed", path.rsplit("/", 1)[-1].split(".")[0], code)
                    raise OSError(code, "injected", path)
        return self._r.open_code(path)


def race(spec, run, carry):
    import importlib._bootstrap_external as ibe

    fio = FaultyIo(ibe._io, run, spec["files"])
    ibe._io = fio
    progs = spec["progs"]
    res = [[] for _ in progs]
    s = Sched(run, spec["plan"], max_steps=3_000_000, rand_seeds=[spec["rand"] + k for k in range(len(progs))])

    def body(k):
        def f():
            env = O.Env()
            for op in progs[k]:
                for _ in range(60):
                    before, rs, keep = fio.fired + run.counts.get("fault:interrupt", 0), core.rand_state(), (list(env.cals), list(env.texts), dict(env.zones))
                    try:
                        v = do(op, env)
                    except Interrupt:
                        run.count("attempts_interrupted")
                        core.set_rand(rs)
                        env.cals[:], env.texts[:], env.zones = keep[0], keep[1], keep[2]
                        continue
                    # an attempt may also fail because another thread's import, for which it waited, failed
                    if fio.fired + run.counts.get("fault:interrupt", 0) != before and isinstance(v, list) and v[:1] == ["exc"] and v != carry["solo"][k][len(res[k])]:
                        run.count("attempts_failed")
                        core.set_rand(rs)
                        continue
                    break
                res[k].append(v)
        return f

    outs = s.run([body(k) for k in range(len(progs))])
    ibe._io = fio._r
    run.count("ops", sum(map(len, res)))
    run.nontrivial = s.switches > 0 or fio.fired > 0 or any(o.interrupted for o in outs)
    for k, o in enumerate(outs):
        if not o.ok:
            raise Violation("thread-died", f"thread {k}: {core.describe_exc(o.exc)}\n{core.tb(o.exc)}")
        run.log("res", k, core.h(res[k]))
        d = O.first_diff(carry["solo"][k], res[k])
        if d:
            raise Violation("first-use-differs:" + progs[k][d[0]][0], f"thread {k}, op {d[0]} {str(progs[k][d[0]])[:300]}: set up in peace != now: {d[1]}\nswitches: {s.trail[:30]}")
    core.set_rand(spec["rand"] + 99)
    env = O.Env()
    after = [do(o, env) for o in spec["after"]]
    d = O.first_diff(carry["after"], after)
    if d:
        raise Violation("later-use-differs:" + spec["after"][d[0]][0], f"op {str(spec['after'][d[0]])[:300]}: set up in peace != now: {d[1]}\nswitches: {s.trail[:30]}")


PHASES = [("A", peace(0)), ("A", peace(1)), ("A", peace(2)), ("A", peace(3)), ("A", peace_after), ("A", race)]
