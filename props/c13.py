"""C13: time edits that are rejected, interrupted or fed failing zones, against a model of an entry's times."""
import datetime as D
import json

from sim import core, gen as G, plans
from sim.core import Interrupt, Violation
from sim.sched import Interrupter, Sched

ID = "C13"
RUNS = {"quick": 16000, "thorough": 600000}
RULE = ("One run = one event or todo and a sequence of valid and invalid edits of its begin, end/due, duration, all-day state and zone, with zone objects that fail after some calls and interrupts at random lines; "
        "or the sequence applied in one thread while others read the entry's times under a random line-level schedule. A model of the documented rules says for every edit whether it must take effect and how; "
        "after every edit the entry must be exactly in that state or, if the edit raised, exactly in the one before; non-trivial when an edit was rejected, failed or was interrupted, or threads switched.")
COVER = "distinct hashes of (state, edit, outcome)"
REAL = ["ics (all of it)", "dateutil.tz", "zoneinfo", "real interpreter threads"]
STUB = ["failing zone objects", "thread scheduler", "system clock", "OS entropy", "local time zone"]
SHRINK = ["ops", "plan.sw"]
TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3"]
DAY, ZERO = D.timedelta(days=1), D.timedelta(0)


# ------------------------------------------------------------------ generation
def g_tz(r):
    if r.random() < 0.2:
        return "bad:%d:%d:%s" % (r.choice([-7200, 0, 3600, 34200]), r.randint(0, 5), r.choice(core.EXC_KINDS))
    return G.tzname(r)


def g_dt(r, tz=0, near=None):
    if tz == 0:
        tz = g_tz(r)
    if r.random() < 0.3:
        y, m, d = near[:3] if near and r.random() < 0.7 else (r.randint(2008, 2033), r.randint(1, 12), r.randint(1, 28))
        return [y, m, min(max(1, d + r.choice([0, 0, 1, 2, -1])), 28), 0, 0, 0, tz if r.random() < 0.4 else None, 0]
    x = G.dt(r, tz, near if near and r.random() < 0.6 else None)
    if r.random() < 0.1:
        x[7] = 1
    return x


def g_val(r, near):
    """A value for begin/end."""
    c = r.random()
    if c < 0.08:
        return ["none"]
    if c < 0.12:
        return ["junk", r.choice(["text", "int", "list", "float"])]
    if c < 0.2:
        return ["date", r.randint(2008, 2033), r.randint(1, 12), r.randint(1, 28)]
    if c < 0.28:
        return [r.choice(["tuple", "dict"]), r.randint(2008, 2033), r.choice([1, 12, 12, 13]), r.randint(1, 28), r.choice([0, 10])]
    return ["dt", g_dt(r, near=near), r.choice([0, 0, 0, 1, 600000])]


def g_dur(r):
    c = r.random()
    if c < 0.1:
        return ["none"]
    if c < 0.15:
        return ["junk", r.choice(["text", "int", "float"])]
    if c < 0.25:
        return [r.choice(["tuple", "dict"]), r.choice([0, 1, 2, -1])]
    return ["td", r.choice([0, 1, 60, 3600, 5400, 86400, 86400, 2 * 86400, 90000, -1, -86400, 10**6, 10**9]), r.choice([0, 0, 0, 1, 700000])]


OPS = ["begin", "begin", "end", "end", "dur", "dur", "conv_end", "allday", "allday", "unset", "repl_tz", "repl_tz", "conv_tz", "conv_tz", "timespan", "norm"]


def g_op(r, near):
    k = r.choice(OPS)
    if k in ("begin", "end"):
        return [k, g_val(r, near)]
    if k == "dur":
        return [k, g_dur(r)]
    if k == "conv_end":
        return [k, r.choice(["end", "end", "duration", "duration", "due", None, "nonsense"])]
    if k in ("repl_tz", "conv_tz"):
        return [k, g_tz(r)]
    if k == "timespan":
        return [k, r.choice(["event", "todo", "none", "str", "base"]), G.times(r, r.choice(["event", "todo"]))]
    if k == "norm":
        return [k, g_tz(r), r.randint(0, 2), r.randint(0, 2)]
    return [k]


def gen(r, tier, ctx):
    kind = r.choice(["event", "event", "todo"])
    t = G.times(r, kind)
    near = t["begin"] or t["end"]
    ops = [g_op(r, near) for _ in range(r.choice([2, 4, 8, 15]))]
    spec = {"kind": kind, "times": t, "ops": ops, "tz": r.choice(TZS), "twin": r.random() < 0.3}
    c = r.random()
    if c < 0.3:
        n = r.choice([1, 1, 2])
        spec.update(mode="threads", readers=[[r.choice(READS) for _ in range(r.choice([5, 20, 50]))] for _ in range(n)], writers=r.choice([1, 1, 1, 2]),
                    plan=plans.gen_plan(r, ctx, n + 1, hi=1500))
        if spec["writers"] == 2:
            spec["plan"] = plans.gen_plan(r, ctx, n + 2, hi=1500)
    else:
        spec["mode"] = "alone"
        if r.random() < 0.6:
            spec["ints"] = [[r.randrange(len(ops)), plans.gap(r, 150)] for _ in range(r.choice([1, 2, 5]))]
    return spec


READS = ["span", "begin", "end", "dur", "allday", "str", "cmp", "rep", "float"]


def profile(run):
    def fn():
        for i in range(30):
            w = World(gen(core.rng_for(1, "C13-profile", i), "quick", {"sites": [("timespan.py:1", 1)]}), core.Run())
            for op in w.spec["ops"]:
                try:
                    w.perform(w.e, op)
                except core.CATCH:
                    pass
    return plans.profile_sites([fn])


# ------------------------------------------------------------------ zones that fail
class BadTz(D.tzinfo):
    """Fails with the n-th call made by the code under test."""

    def __init__(self, off, n, exc, run):
        self.o, self.n, self.exc, self.run, self.armed = D.timedelta(seconds=off), n, exc, run, False

    def _use(self):
        if self.armed:
            if self.n == 0:
                self.run.count("fault:zone_" + self.exc)
                if self.exc == "none":
                    return None
                raise core.EXC[self.exc]("zone")
            self.n -= 1
        return self.o

    def utcoffset(self, dt):
        return self._use()

    def dst(self, dt):
        return ZERO

    def tzname(self, dt):
        return "BAD"

    def fromutc(self, dt):
        o = self._use()
        if o is None:
            raise ValueError("no offset")
        return dt + o

    def __deepcopy__(self, memo):
        return self


class Reject(Exception):
    pass


# ------------------------------------------------------------------ the model
class St:
    """begin, end, duration, all-day."""

    def __init__(self, b, e, d, p):
        self.b, self.e, self.d, self.p = b, e, d, p

    def key(self):
        return (kd(self.b), kd(self.e), self.d, self.p)

    def end(self, todo):
        if self.e is not None:
            return self.e
        if self.b is None:
            return None
        d = self.dur(todo)
        return None if d is None else self.b + d

    def dur(self, todo):
        if self.d is not None:
            return self.d
        if self.e is not None and self.b is not None:
            return self.e - self.b
        if todo:
            return None
        return DAY if self.p == "day" else ZERO

    def rep(self):
        return "duration" if self.d is not None else "end" if self.e is not None else None


def kd(x):
    return None if x is None else (x.replace(tzinfo=None, fold=0), x.fold, str(x.tzinfo) if type(x.tzinfo) is D.timezone else id(x.tzinfo), isinstance(x, D.datetime))


def valid(s, todo):
    """The documented rules; raises Reject."""
    b, e, d, day = s.b, s.e, s.d, s.p == "day"
    for x in (b, e):
        if x is not None and not isinstance(x, D.datetime):
            raise Reject("type")
        if day and x is not None and (x.time() != D.time() or x.tzinfo is not None):
            raise Reject("all-day with time or zone")
    if d is not None and (e is not None or b is None):
        raise Reject("duration and end")
    if b is None:
        if e is not None and not todo:
            raise Reject("end without begin")
        return s
    if e is not None:
        if (b.tzinfo is None) != (e.tzinfo is None):
            raise Reject("mixed")
        if b > e:
            raise Reject("order")
        n = e - b
        if day and n < DAY:
            raise Reject("less than a day")
        if (n % D.timedelta(seconds=1)) > D.timedelta(seconds=0.5):
            raise Reject("precision")
    if d is not None:
        if d < ZERO or day and (d < DAY or d % DAY > D.timedelta(seconds=0.5)) or d % D.timedelta(seconds=1) > D.timedelta(seconds=0.5):
            raise Reject("duration")
    return s


def midnight(x):
    return D.datetime(x.year, x.month, x.day)


def model(s, op, todo, mk):
    """States this edit may lead to; an empty list: it has to be rejected.  None among them: may be rejected."""
    k = op[0]
    out = []

    def ok(f):
        try:
            out.append(valid(f(), todo))
        except (Reject, ValueError, TypeError, OverflowError, OSError):
            pass

    day = s.p == "day"
    if k in ("begin", "end"):
        v = mk(op[1])
        if v is Reject:
            return out
        if v is not None and day and v.tzinfo is None and v != midnight(v):
            # documented to round; rejecting is as good
            out.append(None)
            v2 = midnight(v) + (DAY if k == "end" else ZERO)
        else:
            v2 = v
        if k == "begin":
            ok(lambda: St(v2, s.e, s.d, s.p))
        else:
            ok(lambda: St(s.b, v2, None, s.p))
    elif k == "dur":
        v = mk(op[1])
        if v is Reject:
            return out
        if v is not None and day and v % DAY > D.timedelta(seconds=0.5) and v > ZERO:
            out.append(None)
            ok(lambda: St(s.b, None, v - v % DAY + DAY, s.p))
        else:
            ok(lambda: St(s.b, None, v, s.p))
    elif k == "conv_end":
        t = op[1]
        if t == "due" and todo:
            t = "end"
        cur = s.rep()
        if t not in ("end", "duration", None):
            return out
        if t == cur:
            out.append(s)
        elif t is None:
            ok(lambda: St(s.b, None, None, s.p))
        elif cur is None or s.b is None:
            return out
        elif t == "duration":
            ok(lambda: St(s.b, None, s.e - s.b, s.p))
        else:
            ok(lambda: St(s.b, s.b + s.d, None, s.p))
    elif k == "allday":
        if day:
            return [s]
        end = s.end(todo)
        b = None if s.b is None else midnight(s.b)
        e = None
        if end is not None:
            e = midnight(end)
            if e != end.replace(tzinfo=None):
                e += DAY
            if e == b:
                e += DAY
        if s.d is not None:
            ok(lambda: St(b, None, e - b, "day"))
        else:
            ok(lambda: St(b, e, None, "day"))
            if s.e is None and not todo and b is not None:
                ok(lambda: St(b, None, None, "day"))  # one day is implied
    elif k == "unset":
        ok(lambda: St(s.b, s.e, s.d, "second"))
    elif k in ("repl_tz", "conv_tz"):
        if day:
            return out
        z = mk(["tz", op[1]])
        f = (lambda x: None if x is None else x.replace(tzinfo=z)) if k == "repl_tz" else (lambda x: None if x is None else x.astimezone(z))
        ok(lambda: St(f(s.b), f(s.e), s.d, s.p))
    elif k == "norm":
        z = mk(["tz", op[1]])
        fl = (s.b or s.e) is None or (s.b or s.e).tzinfo is None
        act = op[2] if fl else op[3]
        if not act:
            return [s]
        return model(s, ["repl_tz" if act == 1 else "conv_tz", op[1]], todo, mk)
    elif k == "timespan":
        v = mk(["span", op[1], op[2]])
        if v is not Reject:
            out.append(v)
    return out


# ------------------------------------------------------------------ the world
class World:
    def __init__(self, spec, run):
        import ics

        self.spec, self.run = spec, run
        core.set_tz(spec["tz"])
        self.todo = spec["kind"] == "todo"
        self.cache = {}
        self.bads = {}
        span = G.mk_timespan(spec["times"], spec["kind"], self.cache)
        mk = lambda n: (ics.Todo if self.todo else ics.Event)(timespan=span, summary=n, uid=n, dtstamp=D.datetime(2020, 1, 1, tzinfo=D.timezone.utc))
        self.e = mk("e")
        self.twin = mk("twin")
        for x in (self.e, self.twin):  # what an edit of the times is not about
            for k in ("BEGIN", "END", "DUE", "DURATION", "SUMMARY"):
                x.extra_params[k] = {"X-A": ["b", k]}
            x.extra.append(ics.ContentLine("X-B", {"X-C": ["d"]}, "e"))
            x.alarms.append(ics.DisplayAlarm(trigger=D.timedelta(hours=-1), description="f"))
            x.description, x.url = "g", "h"
        self.cal = ics.Calendar(**{"todos" if self.todo else "events": [self.e]})
        self.state = self.of(self.e)
        self.first = self.state.key()
        self.states = [self.state]
        self.rest = self.others()
        self.vals = {}
        self.spans = []

    def others(self):
        import attr

        return [(f.name, G.fp(getattr(self.e, f.name))) for f in attr.fields(type(self.e)) if f.name != "timespan"]

    def of(self, e):
        t = e.timespan
        return St(t.begin_time, t.end_time, t.duration, t.precision)

    def tz(self, name):
        if name is not None and name.startswith("bad:"):
            if name not in self.bads:
                _, o, n, x = name.split(":")
                self.bads[name] = BadTz(int(o), int(n), x, self.run)
            return self.bads[name]
        if name not in self.cache:
            self.cache[name] = G.tz_of(name)
        return self.cache[name]

    def mk(self, v):
        """Values as the model sees them: converted, or Reject."""
        k = v[0]
        if k == "none":
            return None
        if k == "tz":
            return self.tz(v[1])
        if k == "junk":
            return Reject
        if k == "dt":
            x = v[1]
            return D.datetime(*x[:6], v[2], tzinfo=self.tz(x[6]), fold=x[7])
        if k == "date":
            return D.datetime(*v[1:])
        if k in ("tuple", "dict") and len(v) == 5:
            try:
                return D.datetime(*v[1:])
            except ValueError:
                return Reject
        if k in ("tuple", "dict"):
            return D.timedelta(days=v[1])
        if k == "td":
            return D.timedelta(seconds=v[1], microseconds=v[2])
        if k == "span":
            if v[1] != ("todo" if self.todo else "event"):
                return Reject
            t = v[2]
            s = St(self.mkdt(t["begin"]), self.mkdt(t["end"]), None if t["dur"] is None else D.timedelta(seconds=t["dur"]), "day" if t["allday"] else "second")
            try:
                return valid(s, self.todo)
            except Reject:
                return Reject
        raise KeyError(k)

    def mkdt(self, x):
        return None if x is None else D.datetime(*x[:6], tzinfo=self.tz(x[6]), fold=x[7])

    def raw(self, v):
        """Values as handed to the library."""
        k = v[0]
        if k == "junk":
            return {"text": "2020-01-01", "int": 5, "list": [2020, 1, 1], "float": 1.5}[v[1]]
        if k == "date":
            return D.date(*v[1:])
        if k in ("tuple", "dict"):
            if k == "tuple":
                return tuple(v[1:])
            return dict(zip(("year", "month", "day", "hour"), v[1:])) if len(v) == 5 else {"days": v[1]}
        return self.mk(v)

    def perform(self, e, op):
        import ics
        from ics import timespan as T

        k = op[0]
        if k == "begin":
            e.begin = self.raw(op[1])
        elif k == "end":
            if self.todo:
                e.due = self.raw(op[1])
            else:
                e.end = self.raw(op[1])
        elif k == "dur":
            e.duration = self.raw(op[1])
        elif k == "conv_end":
            (e.convert_due if self.todo and op[1] == "due" else e.convert_end)(op[1])
        elif k == "allday":
            e.make_all_day()
        elif k == "unset":
            e.unset_all_day()
        elif k == "repl_tz":
            e.replace_timezone(self.tz(op[1]))
        elif k == "conv_tz":
            e.convert_timezone(self.tz(op[1]))
        elif k == "norm":
            r = T.Normalization(self.tz(op[1]), T.NormalizationAction(op[2]), T.NormalizationAction(op[3])).normalize(e)
            if r is not e:
                raise Violation("wrong-state", f"normalize returned {r!r}")
        else:
            t = op[2]
            cls = {"event": T.EventTimespan, "todo": T.TodoTimespan, "base": T.Timespan}.get(op[1])
            if cls is None:
                e.timespan = None if op[1] == "none" else "now"
            else:
                e.timespan = cls(self.mkdt(t["begin"]), self.mkdt(t["end"]), None if t["dur"] is None else D.timedelta(seconds=t["dur"]), "day" if t["allday"] else "second")

    def arm(self, on):
        for b in self.bads.values():
            b.armed = on

    def expect(self, op):
        self.arm(False)
        return model(self.state, op, self.todo, self.mk)

    def show(self, s):
        return None if s is None else f"({s.b!s}, {s.e!s}, {s.d!s}, {s.p})"

    def edit(self, op, interrupt=None):
        exp = self.expect(op)
        nb = sum(b.n for b in self.bads.values())
        for s in exp:
            if s is not None:
                self.states.append(s)
        before = self.state
        self.arm(True)
        exc = None
        if interrupt is None:
            try:
                self.perform(self.e, op)
            except Violation:
                raise
            except core.CATCH as x:
                exc = x
        else:
            o = Interrupter(self.run, {"step": interrupt})(lambda: self.perform(self.e, op))
            exc = o.exc
            if exc is not None and not isinstance(exc, core.CATCH) or isinstance(exc, Violation):
                raise exc
        self.arm(False)
        faulty = isinstance(exc, Interrupt) or any(b.exc != "" and b.n == 0 for b in self.bads.values())
        now = self.of(self.e)
        what = f"{op}: before {self.show(before)}, now {self.show(now)}, raised {exc!r}, TZ={self.spec['tz']}"
        if exc is not None:
            if isinstance(exc, Interrupt) and now.key() != before.key():
                # may have come after the edit took effect
                if interrupt is None or now.key() not in [s.key() for s in exp if s is not None]:
                    raise Violation("half-edited", what)
            elif now.key() != before.key():
                raise Violation("rejected-edit-changed", what)
            elif not faulty and exp and None not in exp:
                raise Violation("valid-edit-rejected", what + f", expected {[self.show(s) for s in exp]}")
            if not isinstance(exc, core.CATCH):
                raise exc
            self.run.count("edits_raised")
            self.run.nontrivial = True
        else:
            if now.key() not in [s.key() for s in exp if s is not None]:
                raise Violation("wrong-state" if exp else "invalid-edit-accepted", what + f", expected {[self.show(s) for s in exp]}")
            self.run.count("edits_done")
        self.state = now
        if self.spec["mode"] == "alone":
            self.check(what)
        self.run.cov(before.key()[2:], [op[0]], now.key()[2:], type(exc).__name__, core.h(str(op)))
        self.run.log(op[0], self.show(now), type(exc).__name__)

    def check(self, what):
        s, e = self.state, self.e
        valid(s, self.todo)
        if self.others() != self.rest:
            raise Violation("other-attribute-changed", f"{G.diff(self.rest, self.others())} by {what}")
        if self.of(self.twin).key() != self.first:
            raise Violation("other-entry-changed", what)
        got = (kd(e.begin), kd(e.end), e.duration, e.all_day, e.end_representation, e.has_explicit_end)
        want = (kd(s.b), kd(s.end(self.todo)), s.dur(self.todo), s.p == "day", s.rep(), s.rep() is not None)
        if got != want:
            raise Violation("wrong-view", f"{got} instead of {want}: {what}")
        lst = self.cal.todos if self.todo else self.cal.events
        if len(lst) != 1 or lst[0] is not e:
            raise Violation("other-attribute-changed", "calendar")

    # ---- readers
    def read(self, k):
        e = self.e
        if k == "span":
            t = e.timespan
            s = St(t.begin_time, t.end_time, t.duration, t.precision)
            self.spans.append(s)
            return s.key()
        if k == "begin":
            return kd(e.begin)
        if k == "end":
            return kd(e.end)
        if k == "dur":
            return e.duration
        if k == "allday":
            return e.all_day
        if k == "str":
            return str(e)
        if k == "cmp":
            return e.cmp_tuple()[:2]
        if k == "rep":
            return e.end_representation
        return e.floating

    def alike(self, k, s):
        """What a reader sees in state s; cmp and str through an entry of its own."""
        if k == "span":
            return s.key()
        if k == "begin":
            return kd(s.b)
        if k == "end":
            return kd(s.end(self.todo))
        if k == "dur":
            return s.dur(self.todo)
        if k == "allday":
            return s.p == "day"
        if k == "rep":
            return s.rep()
        if k == "float":
            return (s.b if s.b is not None else s.e) is None or (s.b if s.b is not None else s.e).tzinfo is None
        key = (k, s.key())
        if key not in self.vals:
            import ics

            t = type(self.twin.timespan)(s.b, s.e, s.d, s.p)
            c = (ics.Todo if self.todo else ics.Event)(timespan=t, summary="e", uid="e")
            self.vals[key] = str(c) if k == "str" else c.cmp_tuple()[:2]
        return self.vals[key]


def run(spec, run):
    w = World(spec, run)
    if spec["mode"] == "alone":
        at = {}
        for i, n in spec.get("ints", ()):
            at[i % len(spec["ops"])] = n
        w.check("creation")
        for i, op in enumerate(spec["ops"]):
            w.edit(op, at.get(i))
        return
    # no failing zones here: what readers make of them would be failures of their own
    ops = [op for op in json.loads(json.dumps(spec["ops"])) if "bad:" not in json.dumps(op)]
    seen = []

    def writer():
        for op in ops:
            w.edit(op)

    def free_writer():
        for op in reversed(ops):
            try:
                w.perform(w.e, op)
            except (ValueError, TypeError, OverflowError):
                pass

    def free_writer1():
        for op in ops:
            try:
                w.perform(w.e, op)
            except (ValueError, TypeError, OverflowError):
                pass

    def reader(ks):
        def fn():
            for k in ks:
                try:
                    v = w.read(k)
                except Exception as e:
                    raise Violation("reader-failed", f"{k}: {core.describe_exc(e)}")
                seen.append((k, v, len(w.states)))
        return fn

    two = spec["writers"] == 2
    s = Sched(run, spec["plan"], max_steps=500_000)
    for o in s.run(([free_writer1, free_writer] if two else [writer]) + [reader(ks) for ks in spec["readers"]]):
        if not o.ok:
            raise o.exc
    run.nontrivial = s.switches > 0
    run.count("reads", len(seen))
    if two:
        for x in w.spans:
            try:
                valid(x, w.todo)
            except Reject as e:
                raise Violation("invalid-times-seen", f"{w.show(x)}: {e}")
        try:
            valid(w.of(w.e), w.todo)
        except Reject as e:
            raise Violation("invalid-times-seen", f"{w.show(w.of(w.e))}: {e}")
        return
    for k, v, n in seen:
        if v not in [w.alike(k, x) for x in w.states[:n]]:
            raise Violation("torn-times-seen", f"{k}: {v!r} while the states were {[w.show(x) for x in w.states[:n]]}")
    w.check("threads")
