"""C08: scopes setting the line-wrap width, in overlapping tasks and threads, left in every way."""
from sim import core, gen as G, plans
from sim.core import Interrupt, Violation
from sim.sched import Sched
from sim.tasks import Cancelled, Loop, pause

ID = "C08"
RUNS = {"quick": 9000, "thorough": 250000}
RULE = ("One run = a random tree of tasks (each in a copy of its parent's context, stepped in random order, randomly cancelled or closed) or 2-4 threads under a random line-level schedule; "
        "each runs nested width scopes, writes lines, containers and calendars, raises, is interrupted while writing; every text is compared with the one a quiet process writes at that width "
        "and its physical lines are measured; non-trivial when at least two tasks/threads alternated.")
COVER = "distinct task or switch trails"
REAL = ["ics (all of it)", "contextvars", "contextlib", "textwrap", "real interpreter threads"]
STUB = ["task scheduler", "thread scheduler", "system clock", "OS entropy"]
SHRINK = ["plan.sw", "plan.int", "picks", "progs.0", "progs.1", "progs.2", "progs.3", "items"]
WIDTHS = [0, -1, None, 12, 20, 25, 33, 50, 74, 75, 76, 100, 400]


class Boom(Exception):
    pass


EXC = {"stop": StopIteration, "genexit": GeneratorExit, "exit": SystemExit, "kbd": KeyboardInterrupt, "lookup": LookupError, "stopasync": StopAsyncIteration}
EXITS = [*EXC, "closed"]


def closed(cm):
    """A scope held by a generator that is closed."""
    with cm:
        yield


def gen_prog(r, depth, n, spawn):
    out = []
    for _ in range(n):
        c = r.random()
        if c < 0.35 or depth >= 4:
            out.append(["ser", r.randint(0, 5), r.choice(["text", "text", "iter", "iter", "bare", "own"])])
        elif c < 0.5:
            out.append(["pause"])
        elif c < 0.85:
            out.append(["scope", r.choice(WIDTHS), gen_prog(r, depth + 1, r.randint(1, 4), spawn), r.choice(["normal", "normal", "raise", "bad", "normal", "raise", "bad", *EXITS])])
        elif spawn:
            out.append(["spawn", gen_prog(r, depth + 1, r.randint(1, 4), spawn), r.choice(["inherit", "inherit", "empty"])])
        else:
            out.append(["pause"])
    if spawn and r.random() < 0.25:
        out.insert(r.randint(0, len(out)), ["cancel", r.randint(0, 9), r.choice(["throw", "throw", "close"])])
    return out


def gen_item(r):
    c = r.random()
    if c < 0.3:
        return ["alnum", r.randint(5, 300)]
    if c < 0.6:
        return ["line", G.xline(r)]
    if c < 0.8:
        return ["box", [G.xline(r) for _ in range(r.randint(1, 3))]]
    if c < 0.9:
        return ["entry", G.entry(r, "event", 0.3, ("none", "utc"))]
    return ["cal", G.calendar(r, 1, 0, 0.3, ("none", "utc", "off"))]


def profile(run):
    def fn():
        for i in range(5):
            r = core.rng_for(1, "C08-profile", i)
            w = World(core.Run(), [gen_item(r) for _ in range(4)], None)
            w.thread(gen_prog(r, 0, 6, False), 75)
    return plans.profile_sites([fn])


def gen(r, tier, ctx):
    items = [gen_item(r) for _ in range(r.randint(1, 4))]
    if r.random() < 0.5:
        return {"mode": "tasks", "items": items, "progs": [gen_prog(r, 0, r.randint(1, 5), True) for _ in range(r.choice([1, 2, 2, 3]))],
                "picks": [r.randint(0, 50) for _ in range(r.choice([5, 20, 60]))]}
    n = r.choice([2, 2, 3, 4])
    plan = plans.gen_plan(r, ctx, n, hi=1500)
    plan["int"] = [{"t": r.randint(0, n - 1), "gap": plans.gap(r, 600)} for _ in range(r.choice([0, 0, 1, 2]))]
    return {"mode": "threads", "items": items, "progs": [gen_prog(r, 0, r.randint(1, 5), False) for _ in range(n)], "plan": plan}


def widths(prog, out):
    for op in prog:
        if op[0] == "scope":
            out.add(norm(op[1]))
            widths(op[2], out)
        elif op[0] == "spawn":
            widths(op[1], out)
    return out


def norm(w):
    return 0 if not w or w <= 0 else w


def mk(item):
    from ics import Container, ContentLine

    k = item[0]
    if k == "alnum":
        return ContentLine("X-LONG", {}, ("abcdefghij0123456789" * 20)[: item[1]])
    if k == "line":
        return G.mk_items([item[1]])[0]
    if k == "box":
        return Container("X-BOX", G.mk_items(item[1]))
    if k == "entry":
        return G.mk_entry(item[1])
    return G.mk_calendar(item[1])


def write(o, how):
    if how == "bare":
        return o.serialize(wrap=None)
    if how == "own":
        import textwrap

        return o.serialize(wrap=textwrap.TextWrapper(OWN, **OPTS))
    if how == "iter":
        if hasattr(o, "serialize_iter"):
            return "".join(o.serialize_iter())
        if hasattr(o, "events"):
            return "".join(o)
    return o.serialize()


OWN = 33
OPTS = dict(subsequent_indent=" ", expand_tabs=False, replace_whitespace=False, drop_whitespace=False)  # as the default wrapper


def unfold(t):
    return t.replace("\r\n ", "")


class World:
    def __init__(self, run, items, quiet):
        self.run = run
        self.items = items
        self.objs = [mk(i) for i in items]
        self.quiet = quiet
        self.seen = []

    def ser(self, op, w):
        i = op[1] % len(self.objs)
        how = op[2]
        if how in ("bare", "own"):  # a width given explicitly is what counts
            if self.items[i][0] in ("entry", "cal"):
                how = "text"
            else:
                w = 0 if how == "bare" else OWN
        t = write(self.objs[i], how)
        self.run.count("texts_written")
        if self.quiet is None:
            return
        q = self.quiet[str(w)][i]
        if t != q:
            a, b = t.split("\r\n"), q.split("\r\n")
            at = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation("wrong-width", f"width in force is {w or 'none'}; line {at} is {a[at:at + 1]!r}, should be {b[at:at + 1]!r}")

    # ---- tasks
    async def body(self, prog, w):
        from ics.contentline.container import contentline_set_wrap

        for op in prog:
            k = op[0]
            if k == "ser":
                self.ser(op, w)
            elif k == "pause":
                await pause()
            elif k == "spawn":
                import contextvars

                inherit = op[2] == "inherit"
                self.loop.spawn(f"t{len(self.loop.tasks)}", self.body(op[1], w if inherit else 75), None if inherit else contextvars.Context())
                self.run.count("tasks_spawned")
            elif k == "cancel":
                ts = [t for t in self.loop.tasks if not t.done]
                ts[op[1] % len(ts)].cancel = op[2]
            elif k == "scope":
                v = norm(op[1])
                left = EXC.get(op[3], Boom)()
                try:
                    if op[3] == "closed":
                        g = closed(contentline_set_wrap(op[1]))
                        next(g)
                        try:
                            await pause()
                            await self.body(op[2], v)
                        finally:
                            g.close()
                            self.run.count("left_by_close")
                    else:
                        with contentline_set_wrap(op[1]):
                            await pause()
                            await self.body(op[2], v)
                            self.leave(op, v, left)
                except Boom:
                    self.run.count("left_by_exception")
                except (Cancelled, GeneratorExit) as e:
                    if e is left:
                        self.ser(["ser", 0, "text"], w)
                        continue
                    self.ser(["ser", 0, "text"], w)
                    self.run.count("left_by_cancellation")
                    raise
                except BaseException as e:
                    if e is not left:
                        raise
                    self.run.count("left_by_exception")
                self.ser(["ser", 1, "text"], w)
                await pause()

    def leave(self, op, v, left):
        if op[3] == "raise" or op[3] in EXC:
            raise left
        if op[3] == "bad":
            # an object that cannot be written
            from ics import Container, ContentLine

            c = Container("X-B", [ContentLine("A", {}, "x" * 90)])
            c.data.append(3)
            try:
                c.serialize()
            except AttributeError:
                self.run.count("failed_writes")
                raise Boom()

    # ---- threads
    def thread(self, prog, w):
        from ics.contentline.container import contentline_set_wrap

        for op in prog:
            k = op[0]
            if k == "ser":
                try:
                    self.armed(op, w)
                except Interrupt:
                    self.run.count("writing_interrupted")
            elif k == "scope":
                v = norm(op[1])
                left = EXC.get(op[3], Boom)()
                try:
                    if op[3] == "closed":
                        g = closed(contentline_set_wrap(op[1]))
                        next(g)
                        try:
                            self.thread(op[2], v)
                            self.armed(["ser", 0, "text"], v)
                        finally:
                            g.close()
                            self.run.count("left_by_close")
                    else:
                        with contentline_set_wrap(op[1]):
                            self.thread(op[2], v)
                            self.armed(["ser", 0, "text"], v)
                            self.leave(op, v, left)
                except Boom:
                    self.run.count("left_by_exception")
                except Interrupt:
                    self.run.count("left_by_interrupt")
                except BaseException as e:
                    if e is not left:
                        raise
                    self.run.count("left_by_exception")
                self.ser(["ser", 1, "text"], w)

    def armed(self, op, w):
        import _thread

        s = core.CURRENT
        if s is None:
            return self.ser(op, w)
        k = s.idents[_thread.get_ident()]
        s.armed.add(k)
        try:
            self.ser(op, w)
        finally:
            s.armed.discard(k)


def quiet(spec, run, carry):
    """What a process that does nothing else writes at each width; also measured on its own."""
    from ics.contentline.container import contentline_set_wrap

    ws = {75, 0, OWN}
    for p in spec["progs"]:
        widths(p, ws)
    objs = [mk(i) for i in spec["items"]]
    out = {}
    base = None
    for w in [75, *sorted(ws - {75})]:
        if w == 75:
            out["75"] = [o.serialize() for o in objs]
        else:
            with contentline_set_wrap(w):
                out[str(w)] = [o.serialize() for o in objs]
        for i, t in enumerate(out[str(w)]):
            lines = t.split("\r\n")
            if w and max(len(l) for l in [x for x in lines if not x.startswith(("BEGIN:", "END:"))] or [""]) > w:
                raise Violation("line-too-long", f"width {w}: {max(lines, key=len)!r}")
            if not w and any(l.startswith(" ") for l in lines):
                raise Violation("wrapped-without-width", repr(t[:300]))
            if unfold(t) != unfold(out["75"][i]):
                raise Violation("wrapping-changes-text", f"width {w}: {unfold(t)[:300]!r} {unfold(out['75'][i])[:300]!r}")
            if w and spec["items"][i][0] == "alnum":
                whole = unfold(t)
                want = min(len(whole), w)
                # "X-LONG:abc..." has no place to break but the hyphen
                if len(whole) > w and len(lines[0]) != want and lines[0] != "X-" or len(whole) <= w and len(lines) != 1:
                    raise Violation("wrong-width", f"width {w}: lines of {[len(l) for l in lines]} characters")
    return {"quiet": out}


def race(spec, run, carry):
    w = World(run, spec["items"], carry["quiet"])
    if spec["mode"] == "tasks":
        import contextvars

        loop = w.loop = Loop(run, spec["picks"])
        for i, p in enumerate(spec["progs"]):
            loop.spawn(f"t{i}", w.body(p, 75), contextvars.Context())
        loop.between = lambda: w.ser(["ser", 0, "text"], 75)
        loop.go()
        for t in loop.tasks:
            if t.exc is not None and not isinstance(t.exc, Cancelled):
                raise t.exc
        run.nontrivial = len(loop.tasks) > 1
        run.log("trail", loop.trail)
    else:
        s = Sched(run, spec["plan"], max_steps=3_000_000)
        s.armed = set()
        outs = s.run([lambda p=p: w.thread(p, 75) for p in spec["progs"]])
        run.nontrivial = s.switches > 0
        for o in outs:
            if not o.ok:
                raise o.exc
    w.ser(["ser", 0, "text"], 75)


PHASES = [("A", quiet), ("A", race)]
