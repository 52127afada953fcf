"""C04: threads with private calendars, every interleaving, compared with each program run alone."""
from sim import core, gen as G, ops as O
from sim.core import Violation
from sim.sched import Sched
from sim import plans

ID = "C04"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("One run = 2-3 random programs (build, load, corrupt-load, edit, query, save, zone lookups, scoped widths/uids) first run alone, each in its own process, then as real threads "
        "under a random schedule of line-level switches; non-trivial when at least one switch happened inside library code. Distinct = different event log (results and switch trail).")
COVER = "distinct switch trails (thread, source line)"
REAL = ["ics (all of it)", "dateutil", "ics_vtimezones", "real interpreter threads"]
STUB = ["thread scheduler (one thread runs at a time, switches at source lines)", "locks", "system clock", "OS entropy", "local time zone"]
SHRINK = ["plan.sw", "progs.0", "progs.1", "progs.2"]
MAXT = 3


def profile(run):
    r = core.rng_for(1, "C04-profile", 0)
    return plans.profile_sites([lambda i=i: O.run_prog(O.gen_prog(core.rng_for(1, "C04-profile", i), 8), O.Env()) for i in range(14)])


def gen(r, tier, ctx):
    n = r.choice([2, 2, 2, 3])
    if r.random() < 0.35:
        # every thread does the same kinds of things
        kinds = r.sample(O.ALL, r.choice([1, 2, 3]))
    else:
        kinds = O.ALL
    progs = [O.gen_prog(r, r.choice([2, 4, 6]), kinds) for _ in range(n)]
    return {"progs": progs, "plan": plans.gen_plan(r, ctx, n), "tz": r.choice(["UTC0", "EST5EDT,M3.2.0,M11.1.0"])}


def solo(k):
    def ph(spec, run, carry):
        carry = carry or {"solo": []}
        core.set_tz(spec["tz"])
        core.set_rand(spec["rand"] + k)
        carry["solo"].append(O.run_prog(spec["progs"][k], O.Env()))
        if k + 1 >= len(spec["progs"]):
            carry["_goto"] = len(PHASES) - 1
        return carry

    return ph


def conc(spec, run, carry):
    core.set_tz(spec["tz"])
    progs = spec["progs"]
    res = [[] for _ in progs]

    def body(k):
        def f():
            env = O.Env()
            for op in progs[k]:
                res[k].append(O.do(op, env))
        return f

    s = Sched(run, spec["plan"], max_steps=3_000_000, rand_seeds=[spec["rand"] + k for k in range(len(progs))])
    outs = s.run([body(k) for k in range(len(progs))])
    run.count("ops", sum(map(len, res)))
    run.nontrivial = s.switches > 0
    for k, o in enumerate(outs):
        if not o.ok:
            raise Violation("thread-died", f"thread {k}: {core.describe_exc(o.exc)}\n{core.tb(o.exc)}")
        run.log("res", k, core.h(res[k]))
        d = O.first_diff(carry["solo"][k], res[k])
        if d:
            raise Violation("differs-from-solo:" + progs[k][d[0]][0], f"thread {k}, op {d[0]} {str(progs[k][d[0]])[:300]}: alone != concurrent: {d[1]}\nswitches: {s.trail[:30]}")


PHASES = [("A", solo(0)), ("A", solo(1)), ("A", solo(2)), ("A", conc)]
