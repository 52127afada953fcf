"""C05: several threads only read the same calendars and zones; compared with each reader alone."""
from sim import core, foreign as F, gen as G, ops as O, plans
from sim.core import Violation
from sim.sched import Sched

ID = "C05"
RUNS = {"quick": 1400, "thorough": 60000}
RULE = ("One run = 1-2 shared calendars (built through the API, saved and loaded, or read from foreign texts) and 2-4 threads with random programs of read-only operations on them, each program first run alone in its own process, "
        "then all as real threads under a random line-level schedule; non-trivial when at least one switch happened inside library code.")
COVER = "distinct switch trails (thread, source line)"
REAL = ["ics (all of it)", "dateutil", "ics_vtimezones", "real interpreter threads"]
STUB = ["thread scheduler (one thread runs at a time, switches at source lines)", "locks", "system clock", "OS entropy", "local time zone"]
SHRINK = ["plan.sw", "progs.0", "progs.1", "progs.2", "progs.3", "cals"]


def mkcal(r):
    c = G.calendar(r, n_events=r.choice([1, 2, 3, 4]), n_todos=r.choice([0, 0, 1]), rich=r.choice([0, 0.4, 1.0]), tzkinds=r.choice([None, ("tz", "syn"), ("tz", "syn", "none"), ("tz",)]))
    if r.random() < 0.3:
        time_params(r, c)
    return c


def time_params(r, c):
    for e in c["entries"]:
        for n in ("BEGIN", "END" if e["kind"] == "event" else "DUE", "DURATION"):
            if r.random() < 0.7:
                e["xp"].setdefault(n, {"X-P": ["q"]})
    return c


def profile(run):
    fns = []
    for i in range(14):
        r = core.rng_for(1, "C05-profile", i)
        c = mkcal(r)
        p = [O.gen_op(r, O.READ) for _ in range(8)]

        def fn(c=c, p=p):
            O.run_prog(p, O.Env(build({"cals": [c], "loaded": [0], "tz": "UTC0"})))
        fns.append(fn)
    for i in range(20):  # small ones, watched closely
        r = core.rng_for(1, "C05-watch", i)
        cals = build({"cals": [time_params(r, G.calendar(r, n_events=r.choice([1, 2]), n_todos=r.choice([0, 1]), rich=1.0, tzkinds=r.choice([None, ("tz", "syn"), ("syn",)])))], "loaded": [i % 2], "tz": "UTC0"})
        p = [O.gen_op(r, [k]) for k in dict.fromkeys(O.READ)]

        def fn(cals=cals, p=p):
            O.run_prog(p, O.Env(cals))
        fn.shared = cals
        fns.append(fn)
    return plans.profile_sites(fns)


def gen(r, tier, ctx):
    n = r.choice([2, 2, 3, 4])
    kinds = O.READ if r.random() < 0.6 else r.sample(O.READ, r.choice([1, 2, 3]))
    progs = [[O.gen_op(r, kinds) for _ in range(r.choice([1, 2, 4, 6]))] for _ in range(n)]
    if r.random() < 0.3:
        progs = [progs[0] for _ in range(n)]  # everyone reads the same thing
    cals = [mkcal(r) if r.random() < 0.8 else F.text(r, True) for _ in range(r.choice([1, 1, 2]))]
    return {"progs": progs, "plan": plans.gen_plan(r, ctx, n), "tz": r.choice(["UTC0", "EST5EDT,M3.2.0,M11.1.0"]), "cals": cals,
            "loaded": [r.randint(0, 1) for _ in cals]}


def build(spec):
    from ics import Calendar

    core.set_tz(spec["tz"])
    out = []
    for c, l in zip(spec["cals"], spec["loaded"]):
        if isinstance(c, str):
            out.append(Calendar(c))
            continue
        c = G.mk_calendar(c, {})
        if l:
            c = Calendar(c.serialize())
        out.append(c)
    return out


def zones():
    import ics

    return {"Europe/Berlin": ics.Timezone.from_tzid("Europe/Berlin"), "America/New_York": ics.Timezone.from_tzid("America/New_York"), "syn:1": G.syn_zone(1), "syn:2": G.syn_zone(2)}


def env(cals, z):
    e = O.Env(cals)
    e.zones = dict(z)
    return e


def solo(k):
    def ph(spec, run, carry):
        carry = carry or {"solo": []}
        if k < len(spec["progs"]):
            cals = build(spec)
            carry["solo"].append(O.run_prog(spec["progs"][k], env(cals, zones())))
        if k + 1 >= len(spec["progs"]):
            carry["_goto"] = len(PHASES) - 1
        return carry

    return ph


def conc(spec, run, carry):
    cals = build(spec)
    z = zones()
    before = [G.fp(c) for c in cals]
    progs = spec["progs"]
    res = [[] for _ in progs]

    def body(k):
        def f():
            e = env(cals, z)
            for op in progs[k]:
                res[k].append(O.do(op, e))
        return f

    s = Sched(run, spec["plan"], max_steps=3_000_000, rand_seeds=[spec["rand"] + k for k in range(len(progs))])
    outs = s.run([body(k) for k in range(len(progs))])
    run.count("ops", sum(map(len, res)))
    run.nontrivial = s.switches > 0
    for k, o in enumerate(outs):
        if not o.ok:
            raise Violation("thread-died", f"thread {k}: {core.describe_exc(o.exc)}\n{core.tb(o.exc)}")
        run.log("res", k, core.h(res[k]))
        d = O.first_diff(carry["solo"][k], res[k])
        if d:
            raise Violation("differs-from-solo:" + progs[k][d[0]][0], f"thread {k}, op {d[0]} {str(progs[k][d[0]])[:300]}: alone != concurrent: {d[1]}\nswitches: {s.trail[:30]}")
    for b, c in zip(before, cals):
        a = G.fp(c)
        if a != b:
            raise Violation("reading-changed-the-calendar", G.diff(b, a) or "")


PHASES = [("A", solo(0)), ("A", solo(1)), ("A", solo(2)), ("A", solo(3)), ("A", conc)]
