"""C07: scopes fixing uid and timestamp, in overlapping tasks and threads, left in every way."""
import datetime as D

from sim import core, gen as G, plans
from sim.core import Interrupt, Violation
from sim.sched import Sched
from sim.tasks import Cancelled, Loop, pause

ID = "C07"
RUNS = {"quick": 10000, "thorough": 250000}
RULE = ("One run = a random tree of tasks (each in a copy of its parent's context, stepped in random order, randomly cancelled or closed) or 2-4 threads under a random line-level schedule; "
        "each runs nested scopes, creates and loads entries, raises, is interrupted; non-trivial when at least two tasks/threads alternated.")
COVER = "distinct task or switch trails"
REAL = ["ics (all of it)", "contextvars", "contextlib", "real interpreter threads"]
STUB = ["task scheduler", "thread scheduler", "system clock (moving)", "OS entropy"]
SHRINK = ["plan.sw", "plan.int", "picks", "progs.0", "progs.1", "progs.2", "progs.3"]


class Boom(Exception):
    pass


EXITS = ["stop", "genexit", "exit", "kbd", "lookup", "stopasync", "closed"]
EXC = {"raise": Boom, "stop": StopIteration, "genexit": GeneratorExit, "exit": SystemExit, "kbd": KeyboardInterrupt, "lookup": LookupError, "stopasync": StopAsyncIteration}


def closed(cm):
    """A scope held by a generator that is closed."""
    with cm:
        yield


def gen_prog(r, depth, n, spawn):
    out = []
    for _ in range(n):
        c = r.random()
        if c < 0.35 or depth >= 4:
            out.append(["new", r.choice(["event", "event", "todo", "load", "loadcal", "evolve", "fail"])])
        elif c < 0.5:
            out.append(["pause"])
        elif c < 0.85:
            out.append(["scope", r.choice(["u%d" % r.randint(0, 5), None]), r.choice([None, G.utcdt(r)]), gen_prog(r, depth + 1, r.randint(1, 4), spawn),
                        r.choice(["normal", "normal", "raise", "return", "normal", "raise", "return", *EXITS])])
        elif spawn:
            out.append(["spawn", gen_prog(r, depth + 1, r.randint(1, 4), spawn), r.choice(["inherit", "inherit", "empty"])])
        else:
            out.append(["pause"])
    if spawn and r.random() < 0.25:
        out.insert(r.randint(0, len(out)), ["cancel", r.randint(0, 9), r.choice(["throw", "throw", "close"])])
    return out


def profile(run):
    def fn():
        for i in range(5):
            r = core.rng_for(1, "C07-profile", i)
            w = World(core.Run())
            w.thread(gen_prog(r, 0, 6, False), None)
    return plans.profile_sites([fn])


def gen(r, tier, ctx):
    if r.random() < 0.5:
        return {"mode": "tasks", "progs": [gen_prog(r, 0, r.randint(1, 5), True) for _ in range(r.choice([1, 2, 2, 3]))], "picks": [r.randint(0, 50) for _ in range(r.choice([5, 20, 60]))],
                "tick": r.choice([0, 1000, 10**9])}
    n = r.choice([2, 2, 3, 4])
    plan = plans.gen_plan(r, ctx, n, hi=1500)
    plan["int"] = [{"t": r.randint(0, n - 1), "gap": plans.gap(r, 600)} for _ in range(r.choice([0, 0, 1, 2]))]
    return {"mode": "threads", "progs": [gen_prog(r, 0, r.randint(1, 5), False) for _ in range(n)], "plan": plan, "tick": r.choice([0, 1000, 10**9])}


FIX = D.datetime(2000, 1, 1, 12, 0, 0)


class World:
    def __init__(self, run):
        self.run = run
        self.fresh = set()
        self.made = []

    # ---- judging
    def check(self, e, scope, t0, t1, what):
        from ics.timezone import is_utc

        if scope is None:
            uid = e.uid
            if uid.startswith("u") and len(uid) < 4 or uid == "deterministic_uid@example.org":
                raise Violation("fixed-uid-outside-scope", f"{what}: uid {uid!r} outside of any scope")
            if uid in self.fresh:
                raise Violation("uid-repeated", f"{what}: uid {uid!r} given twice")
            self.fresh.add(uid)
            if e.dtstamp is None or not t0 <= e.dtstamp.timestamp() <= t1:
                raise Violation("timestamp-outside-scope", f"{what}: dtstamp {e.dtstamp}, clock was {t0}..{t1}")
        else:
            if e.uid != scope[0]:
                raise Violation("wrong-uid-in-scope", f"{what}: uid {e.uid!r}, scope fixes {scope[0]!r}")
            if e.dtstamp != scope[1] or e.dtstamp.utcoffset() != D.timedelta(0):
                raise Violation("wrong-timestamp-in-scope", f"{what}: dtstamp {e.dtstamp}, scope fixes {scope[1]}")
        self.run.count("entries_created")

    def new(self, kind, scope):
        import ics

        t0 = core.clock_now() / 1e9 - 1e-5
        if kind == "event":
            es = [ics.Event("x", begin=FIX)]
        elif kind == "todo":
            es = [ics.Todo(due=FIX)]
        elif kind == "load":
            from ics.contentline import string_to_container

            es = [ics.Event.from_container(string_to_container("BEGIN:VEVENT\r\nSUMMARY:x\r\nEND:VEVENT"))]
        elif kind == "loadcal":
            c = ics.Calendar("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VTODO\r\nSUMMARY:x\r\nEND:VTODO\r\nBEGIN:VEVENT\r\nSUMMARY:x\r\nEND:VEVENT\r\nEND:VCALENDAR")
            es = [*c.events, *c.todos]
        elif kind == "evolve":
            e = ics.Event("x", begin=FIX)
            f = e.clone()
            if f.uid != e.uid or f.dtstamp != e.dtstamp:
                raise Violation("clone-restamped", f"{e.uid} {f.uid}")
            es = [e]
        else:
            try:
                ics.Event("x", begin=FIX, status="NO-SUCH")
            except ValueError:
                pass
            es = []
        t1 = core.clock_now() / 1e9 + 1e-5
        for e in es:
            self.check(e, scope, t0, t1, kind)
            self.made.append((e, e.uid, e.dtstamp))

    def scope(self, op, enter):
        from ics.event import deterministic_event_data
        from ics.timezone import UTC

        kw, val = {}, ["deterministic_uid@example.org", D.datetime(2000, 1, 1, 12, 0, 0, tzinfo=UTC)]
        if op[1] is not None:
            kw["uid"] = val[0] = op[1]
        if op[2] is not None:
            kw["dtstamp"] = val[1] = G.mk_dt(op[2])
        return deterministic_event_data(**kw), val

    # ---- tasks
    async def body(self, prog, scope):
        for op in prog:
            k = op[0]
            if k == "new":
                self.new(op[1], scope)
            elif k == "pause":
                await pause()
            elif k == "spawn":
                import contextvars

                inherit = op[2] == "inherit"
                self.loop.spawn(f"t{len(self.loop.tasks)}", self.body(op[1], scope if inherit else None), None if inherit else contextvars.Context())
                self.run.count("tasks_spawned")
            elif k == "cancel":
                ts = [t for t in self.loop.tasks if not t.done]
                t = ts[op[1] % len(ts)]
                if t is not self.me():
                    t.cancel = op[2]
            elif k == "scope":
                cm, val = self.scope(op, None)
                left = None
                try:
                    if op[4] == "closed":
                        g = closed(cm)
                        next(g)
                        try:
                            await pause()
                            await self.body(op[3], val)
                        finally:
                            g.close()
                            self.run.count("left_by_close")
                    else:
                        with cm:
                            await pause()
                            await self.body(op[3], val)
                            if op[4] in EXC:
                                left = EXC[op[4]]()
                                raise left
                            if op[4] == "return":
                                await self.ret(op, val)
                except Boom:
                    self.run.count("left_by_exception")
                except (Cancelled, GeneratorExit) as e:
                    if e is left:
                        self.new("event", scope)
                        continue
                    # what was in force before is in force again, also while the cancellation travels
                    self.new("event", scope)
                    self.run.count("left_by_cancellation")
                    raise
                except BaseException as e:
                    if e is not left:
                        raise
                    self.run.count("left_by_exception")
                self.new("event", scope)
                await pause()

    async def ret(self, op, val):
        self.new("event", val)
        return None

    def me(self):
        return self.current

    # ---- threads
    def thread(self, prog, scope):
        for op in prog:
            k = op[0]
            if k == "new":
                self.safe(op[1], scope)
            elif k == "scope":
                cm, val = self.scope(op, None)
                left = None
                try:
                    if op[4] == "closed":
                        g = closed(cm)
                        next(g)
                        self.thread(op[3], val)
                        g.close()
                        self.run.count("left_by_close")
                    else:
                        with cm:
                            self.thread(op[3], val)
                            if op[4] in EXC:
                                left = EXC[op[4]]()
                                raise left
                            if op[4] == "return":
                                # the interruption arrives while entries are created in the scope
                                self.creating("event", val)
                except Boom:
                    self.run.count("left_by_exception")
                except Interrupt:
                    self.run.count("left_by_interrupt")
                except BaseException as e:
                    if e is not left:
                        raise
                    self.run.count("left_by_exception")
                self.safe("event", scope)

    def creating(self, kind, scope):
        import _thread

        s = core.CURRENT
        k = s.idents[_thread.get_ident()] if s is not None else 0
        if s is not None:
            s.armed.add(k)
        try:
            self.new(kind, scope)
        finally:
            if s is not None:
                s.armed.discard(k)

    def safe(self, kind, scope):
        try:
            self.creating(kind, scope)
        except Interrupt:
            self.run.count("creation_interrupted")


def run(spec, run):
    core.set_clock(1_600_000_000 * 10**9, spec["tick"])
    w = World(run)
    if spec["mode"] == "tasks":
        loop = w.loop = Loop(run, spec["picks"])
        import contextvars

        for i, p in enumerate(spec["progs"]):
            loop.spawn(f"t{i}", w.body(p, None), contextvars.Context())
        w.current = None
        loop.between = lambda: w.new("event", None)
        loop.go()
        for t in loop.tasks:
            if t.exc is not None and not isinstance(t.exc, Cancelled):
                raise t.exc
        run.nontrivial = len(loop.tasks) > 1
        run.log("trail", loop.trail)
    else:
        s = Sched(run, spec["plan"], max_steps=2_000_000)
        s.armed = set()
        outs = s.run([lambda p=p: w.thread(p, None) for p in spec["progs"]])
        run.nontrivial = s.switches > 0
        for o in outs:
            if not o.ok:
                raise o.exc
        w.new("event", None)
    for e, uid, dt in w.made:
        if e.uid != uid or e.dtstamp != dt:
            raise Violation("given-values-changed", f"{uid} -> {e.uid}")
    run.log("made", [(u if u.startswith("u") else "fresh", str(d)) for _, u, d in w.made])
    run.simtime += core.clock_now() / 1e9 - 1_600_000_000
