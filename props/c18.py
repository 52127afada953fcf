"""C18: histories of classes, subclasses and assignments, in one or several threads."""
import copy
import gc
import re
import datetime as D

from sim import core, gen as G, plans
from sim.core import Interrupt, Violation
from sim.sched import Interrupter, Sched

ID = "C18"
RUNS = {"quick": 14000, "thorough": 700000}
RULE = ("One run = a history of defining subclasses (decorated, plain, overriding rules, several bases, deep chains) of library classes, creating, loading and copying objects and assigning values of all kinds - also ones whose conversion fails midway - "
        "also interrupted at a random step and tried again - in one thread or several under a random line-level schedule; every assignment is compared with building an equal object with that value: same stored value, or the same kind of error and nothing changed; "
        "non-trivial when at least one subclass was used after one of its bases, or threads alternated.")
COVER = "distinct hashes of (class, attribute, value, outcome)"
REAL = ["ics (all of it)", "attrs", "real interpreter threads"]
STUB = ["thread scheduler", "system clock", "OS entropy"]
SHRINK = ["plan.sw", "progs.0", "progs.1", "progs.2", "defs"]
LIB = ["Event", "Todo", "Calendar", "DisplayAlarm", "AudioAlarm", "EmailAlarm", "CustomAlarm", "NoneAlarm", "Standard", "Daylight", "Component", "Validation"]
RULES = ["int", "str", "optstr", "list", "lt5", "choice", "plain", "upper", "chain", "date", "dict", "both", "some", "strs"]
NAMES = ["x_one", "x_two", "x_three"]
OVER = ["summary", "description", "status", "method", "scale", "repeat", "location", "categories", "events", "tzname"]
VALUES = {
    "none": lambda w: None, "zero": lambda w: 0, "int": lambda w: 7, "neg": lambda w: -3, "bool": lambda w: True, "float": lambda w: 2.5, "str": lambda w: "text", "num": lambda w: "42", "empty": lambda w: "",
    "status": lambda w: "confirmed", "status2": lambda w: "COMPLETED", "bytes": lambda w: b"\x00x", "list": lambda w: ["a", "b"], "ints": lambda w: [3, 1], "tuple": lambda w: (1.5, -2), "dict": lambda w: {"hours": 1},
    "gen": lambda w: (c for c in "xyz"), "badgen": lambda w: failing(RuntimeError), "badgen2": lambda w: failing(core.EXC["key"]), "badgen3": lambda w: failing(core.EXC["attr"]), "badgen4": lambda w: failing(core.EXC["base"]), "intgen": lambda w: failing(Interrupt), "naive": lambda w: D.datetime(2020, 5, 6, 7, 8), "aware": lambda w: D.datetime(2020, 5, 6, 7, 8, tzinfo=D.timezone.utc),
    "other": lambda w: D.datetime(2020, 5, 6, 7, 8, tzinfo=D.timezone(D.timedelta(hours=3))), "date": lambda w: D.date(2021, 2, 3), "td": lambda w: D.timedelta(minutes=9), "dtdict": lambda w: {"year": 2020, "month": 2, "day": 30},
    "url": lambda w: G.mk_url("http://x.org/a"), "espan": lambda w: w.ics.EventTimespan(D.datetime(2020, 1, 2), None, D.timedelta(hours=2)), "tspan": lambda w: w.ics.TodoTimespan(None, D.datetime(2020, 1, 2)),
    "alarm": lambda w: [w.ics.DisplayAlarm(description="d")], "people": lambda w: [w.ics.Attendee("a@b.c")], "organizer": lambda w: w.ics.Organizer("o@b.c"), "box": lambda w: w.ics.Container("X", []), "geo": lambda w: {"latitude": 1, "longitude": 2},
    "events": lambda w: [w.ics.Event(uid="u1", dtstamp=D.datetime(2020, 1, 1, tzinfo=D.timezone.utc))], "class": lambda w: int, "set": lambda w: {5}, "bad": lambda w: Bad(), "upd": lambda w: {"summary": {"X-A": ["b"]}},
}


class Bad:
    """A value every conversion of which fails."""

    def __fail(self, *a):
        raise RuntimeError("value")

    __int__ = __str__ = __iter__ = __lt__ = __len__ = __index__ = __float__ = __fail
    __repr__ = lambda self: "Bad()"


def failing(exc):
    yield "a"
    raise exc("source")


EDITS = ["none", "str", "int", "clear", "alarm", "twice"]


def g_def(r, n):
    return {"base": r.choice(["lib", "lib", "prev"]), "i": r.choice(LIB) if n == 0 or r.random() < 0.5 else r.randint(0, 9), "kind": r.choice(["attr", "attr", "attr", "attr", "plain", "multi", "frozenfields"]),
            "own": [[r.choice(NAMES), r.choice(RULES)] for _ in range(r.choice([0, 1, 1, 2, 3]))], "over": [[r.choice(OVER), r.choice(RULES)] for _ in range(r.choice([0, 0, 1, 2]))], "other": r.randint(0, 9), "name": r.choice([None, None, "Sub", "Sub", "Sub", "Event", "Todo", "DisplayAlarm"]), "mod": r.choice([None, None, "ics.event", "__main__"])}


def g_prog(r, n, ndefs):
    out = []
    for _ in range(n):
        c = r.random()
        cls = ["lib", r.choice(LIB)] if r.random() < 0.4 or not ndefs else ["def", r.randint(0, ndefs - 1)]
        if c < 0.2:
            out.append(["new", cls])
        elif c < 0.26:
            out.append(["copy", r.randint(0, 9), r.choice(["clone", "copy", "evolve"])])
        elif c < 0.3:
            out.append(["load", r.randint(0, 2)])
        elif c < 0.36 and ndefs:
            out.append(["redef", g_def(r, 1)])
        elif c < 0.46:
            out.append(["same", r.randint(0, 9), r.randint(0, 40), r.choice(EDITS)])
        else:
            out.append(["set", r.randint(0, 9), r.choice(NAMES + OVER + ["any"] * 6), r.randint(0, 40), r.choice(list(VALUES))])
            if r.random() < 0.2:  # interrupted at a step, then tried again
                out[-1].append(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20]))
    return out


def profile(run):
    return plans.profile_sites([lambda: World({"defs": []}, core.Run()).thread(g_prog(core.rng_for(1, "C18-profile", i), 20, 0)) for i in range(3)])


def gen(r, tier, ctx):
    defs = [g_def(r, n) for n in range(r.choice([0, 1, 2, 3, 5]))]
    k = r.choice([1, 1, 1, 2, 3])
    spec = {"defs": defs, "progs": [g_prog(r, r.choice([4, 8, 20]) if k == 1 else r.randint(2, 6), len(defs)) for _ in range(k)]}
    if k > 1:
        if r.random() < 0.6:  # the same objects of the same classes first used by all at once
            spec["progs"] = [list(spec["progs"][0]) for _ in range(k)]
        spec["plan"] = plans.gen_plan(r, ctx, k, hi=400)
    return spec


def rule(k):
    import attr
    from attr import validators as V

    return {"int": lambda: attr.ib(default=1, converter=int), "str": lambda: attr.ib(default="d", validator=V.instance_of(str)), "optstr": lambda: attr.ib(default=None, validator=V.optional(V.instance_of(str))),
            "list": lambda: attr.ib(factory=list, converter=list), "lt5": lambda: attr.ib(default=2, validator=lt5), "choice": lambda: attr.ib(default="a", validator=V.in_(["a", "b", "text"])), "plain": lambda: attr.ib(default=None),
            "upper": lambda: attr.ib(default="U", converter=str.upper), "chain": lambda: attr.ib(default="1", converter=[str, int], validator=V.instance_of(int)), "date": lambda: attr.ib(default=None, converter=attr.converters.optional(todate)),
            "dict": lambda: attr.ib(factory=dict, validator=V.instance_of(dict)), "both": lambda: attr.ib(default="0", converter=float, validator=[V.instance_of(float), lt5]),
            # a default that its own rule would refuse: every object is given a value
            "some": lambda: attr.ib(default=None, validator=V.instance_of((str, int))), "strs": lambda: attr.ib(factory=list, validator=V.deep_iterable(V.instance_of(str)))}[k]()


def lt5(inst, attribute, value):
    if not value < 5:
        raise ValueError(f"{attribute.name} must be below 5")


def todate(v):
    return D.datetime(v.year, v.month, v.day)


class World:
    def __init__(self, spec, run):
        import attr
        import ics
        import ics.alarm
        from ics.component import Component
        from ics.timezone import TimezoneDaylightObservance, TimezoneStandardObservance
        from ics.types import RuntimeAttrValidation

        self.ics, self.run, self.attr = ics, run, attr
        self.threads = len(spec.get("progs", [])) > 1
        V = attr.s(type("Validation", (RuntimeAttrValidation,), {"x_base": rule("int")}))
        C = attr.s(type("MyComponent", (Component,), {"NAME": "X-COMP", "x_base": rule("str")}))
        self.lib = {"Event": ics.Event, "Todo": ics.Todo, "Calendar": ics.Calendar, "DisplayAlarm": ics.DisplayAlarm, "AudioAlarm": ics.AudioAlarm, "EmailAlarm": ics.EmailAlarm, "CustomAlarm": ics.CustomAlarm,
                    "NoneAlarm": ics.alarm.NoneAlarm, "Standard": TimezoneStandardObservance, "Daylight": TimezoneDaylightObservance, "Component": C, "Validation": V}
        self.roots = {"Event": ics.Event, "Todo": ics.Todo, "Calendar": ics.Calendar, "BaseAlarm": ics.alarm.BaseAlarm, "Observance": TimezoneStandardObservance.__bases__[0], "MyComponent": C}
        self.frozen = TimezoneStandardObservance.__setattr__
        self.custom = (ics.Event.__init__, ics.Todo.__init__, ics.Calendar.__init__)
        self.classes = []
        for n, d in enumerate(spec["defs"]):
            self.classes.append(self.define(n, d))
        self.used = set()

    def define(self, n, d):
        if d["base"] == "prev" and self.classes or isinstance(d["i"], int):
            base = self.classes[d["i"] % len(self.classes)] if self.classes and isinstance(d["i"], int) else self.classes[-1] if self.classes else self.ics.Event
        else:
            base = self.lib[d["i"]]
        body = {}
        if d["kind"] != "plain":
            have = {f.name for f in self.attr.fields(base)}
            for name, k in d["own"]:
                body[name] = rule(k)
            for name, k in d["over"]:
                if name in have:
                    body[name] = rule(k)
        # names say nothing about a class, e.g. in a plugin that is loaded again
        qn = d.get("name") or f"Sub{n}"
        mod = {"__module__": d["mod"]} if d.get("mod") else {}
        body.update(mod)
        bases = (base,)
        if d["kind"] == "multi" and self.classes:
            o = self.classes[d["other"] % len(self.classes)]
            if self.family(o) in (None, self.family(base)):  # no events that are also alarms
                bases = (base, o)
        try:
            cls = type(qn, bases, dict(body))
        except TypeError:  # no consistent order of bases
            cls = type(qn, (base,), {**mod, **{k: rule(r) for k, r in d["own"]}})
        if d["kind"] == "plain":
            return cls
        try:
            return self.attr.s(order=False)(cls)
        except ValueError:  # mandatory fields after optional ones
            return type(qn, (base,), dict(mod))

    def family(self, c):
        return next((n for n in ("Event", "Todo", "Calendar", "BaseAlarm", "Observance", "MyComponent") if issubclass(c, self.roots[n])), None)

    def cls(self, c):
        return self.lib[c[1]] if c[0] == "lib" else self.classes[c[1] % len(self.classes)] if self.classes else self.ics.Event

    def make(self, cls):
        import dateutil.rrule

        ics = self.ics
        kw = {}
        fields = {f.name: f for f in self.attr.fields(cls)}
        if cls not in (ics.Event, ics.Todo, ics.Calendar) and cls.__init__ not in self.custom:
            for name, f in fields.items():
                if f.init and f.default is self.attr.NOTHING:
                    kw[name.lstrip("_")] = {"timespan": ics.EventTimespan() if issubclass(cls, ics.Event) else ics.TodoTimespan(), "version": "2.0", "prodid": "p", "tzoffsetfrom": D.timedelta(0), "tzoffsetto": D.timedelta(0),
                                            "rrule": dateutil.rrule.rrule(0, dtstart=D.datetime(1970, 1, 1), count=1), "action": "X-A"}.get(name.lstrip("_"), "v")
            for name, f in fields.items():
                if f.init and f.default is None and isinstance(getattr(f.validator, "type", None), tuple) and str in f.validator.type and int in f.validator.type:
                    kw[name.lstrip("_")] = "given"
        if cls is ics.CustomAlarm or issubclass(cls, ics.CustomAlarm):
            kw["action"] = "X-ACT"
        if "uid" in fields:
            kw["uid"] = "u0"
            kw["dtstamp"] = D.datetime(2020, 1, 1, tzinfo=D.timezone.utc)
        return cls(**kw)

    def make_or_event(self, cls):
        try:
            return self.make(cls)
        except Exception:
            return self.make(self.ics.Event)

    def thread(self, prog):
        objs = [self.make(self.ics.Event)]
        for n, op in enumerate(prog):
            self.do(objs, op, n)

    def do(self, objs, op, n):
        k = op[0]
        if k == "new":
            c = self.cls(op[1])
            try:
                objs.append(self.make(c))
            except Exception as e:
                # a subclass whose rules its inherited defaults do not meet
                self.run.count("unbuildable_class")
                self.run.log("unbuildable", type(e).__name__)
            return
        if k == "copy":
            o = objs[-1 - op[1] % len(objs)]
            try:
                objs.append(o.clone() if op[2] == "clone" and hasattr(o, "clone") else copy.copy(o) if op[2] != "evolve" else self.attr.evolve(o))
            except Exception as e:
                self.run.log("uncopyable", type(e).__name__)
            return
        if k == "load":
            t = ["BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nSUMMARY:s\r\nEND:VEVENT", "BEGIN:VTODO\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nSTATUS:CANCELLED\r\nEND:VTODO",
                 "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT5M\r\nEND:VALARM"][op[1]]
            from ics.contentline import string_to_container

            objs.append((self.ics.Event, self.ics.Todo, self.ics.AudioAlarm)[op[1]].from_container(string_to_container(t)))
            return
        if k == "redef":
            if self.threads:
                return
            i = len(self.classes) - 1
            if any(issubclass(c, self.classes[i]) for c in self.classes[:i]):
                return
            # the latest class makes way for another one, which may get its memory, too
            old = self.classes.pop()
            objs[:] = [o for o in objs if not isinstance(o, old)] or [self.make(self.ics.Event)]
            self.used = {c for c in self.used if c is not old}
            del old
            gc.collect()
            self.classes.append(self.define(i, op[1]))
            objs.append(self.make_or_event(self.classes[-1]))
            return
        o = objs[-1 - op[1] % len(objs)]
        if k == "same":
            self.same(o, op)
            return
        cls = type(o)
        fields = {f.name: f for f in self.attr.fields(cls)}
        name = op[2]
        if name not in fields:
            name = list(fields)[op[3] % len(fields)]
        f = fields[name]
        mk = VALUES[op[4]]
        # what construction makes of it
        want_exc = want = None
        try:
            # (the hand-written constructors of entries and calendars interpret some arguments, so there the rules are applied directly)
            if f.init and "__init__" in cls.__dict__ and cls.__init__ not in self.custom:
                want = getattr(self.attr.evolve(o, **{name.lstrip("_"): mk(self)}), name)
            else:
                want = mk(self)
                if f.converter is not None:
                    want = f.converter(want)
                if f.validator is not None:
                    f.validator(o, f, want)
        except core.CATCH as e:
            want_exc = e
        want = self.view(want)
        before = self.view(o)
        old = getattr(o, name)
        exc = None
        if len(op) > 5 and not self.threads:
            o1 = Interrupter(self.run, {"step": op[5]})(lambda: setattr(o, name, mk(self)))
            if isinstance(o1.exc, Interrupt) and "source" not in str(o1.exc):
                now = getattr(o, name)
                if now is not old and (want_exc is not None or self.view(now) != want):
                    raise Violation("torn", f"{cls.__name__}.{name} = {op[4]} value, interrupted: {now!r}; was {old!r}, to become {want}"[:2000])
                old, before = now, self.view(o)
        try:
            setattr(o, name, mk(self))
        except core.CATCH as e:
            exc = e
        got = getattr(o, name)
        what = f"{cls.__name__}{[c.__name__ for c in cls.__mro__[1:5]]}.{name} = {op[4]} value"
        self.run.count("assignments")
        if cls.__setattr__ is self.frozen:
            # an immutable class: every assignment is refused
            if exc is None or got is not old or self.view(o) != before:
                raise Violation("frozen-changed", f"{what}: {exc!r}")
            self.used.add(cls)
            return
        self.run.cov(cls.__name__, name, op[4], type(exc).__name__)
        self.run.log(what, type(exc).__name__)
        if (exc is None) != (want_exc is None):
            raise Violation("not-validated" if exc is None else "valid-rejected", f"{what}: construction {'fails with ' + repr(want_exc) if want_exc else 'gives ' + str(want)}, assignment {'fails with ' + core.tb(exc) if exc else 'stores ' + repr(got)}"[:2500])
        if exc is not None:
            if type(exc) is not type(want_exc):
                raise Violation("other-error", f"{what}: construction fails with {want_exc!r}, assignment with {exc!r}")
            self.run.count("rejected")
            if op[4] in ("badgen", "intgen", "bad"):
                self.run.count("fault:value_fails_midway")
            if got is not old or self.view(o) != before:
                raise Violation("rejected-but-changed", f"{what}: {exc!r}; {G.diff(before, self.view(o))}")
        elif self.view(got) != want:
            raise Violation("not-converted", f"{what}: construction stores {want}, assignment {self.view(got)}"[:2500])
        if cls in self.used or any(c in self.used for c in cls.__mro__[1:-1]):
            self.run.nontrivial = True
        self.used.add(cls)

    def same(self, o, op):
        """A stored list or dict is edited where it is and assigned once more: the rules apply to what it is now."""
        cls = type(o)
        fs = [f for f in self.attr.fields(cls) if isinstance(getattr(o, f.name, None), (list, dict))]
        if not fs or cls.__setattr__ is self.frozen:
            return
        f = fs[op[2] % len(fs)]
        old = getattr(o, f.name)
        keep = copy.copy(old)
        if isinstance(old, dict):
            edit = {"clear": old.clear, "twice": lambda: None}.get(op[3], lambda: old.__setitem__("k", op[3]))
        else:
            edit = {"none": lambda: list.append(old, None), "str": lambda: list.append(old, "s"), "int": lambda: list.insert(old, 0, 5), "clear": lambda: list.clear(old),
                    "alarm": lambda: list.append(old, self.ics.NoneAlarm() if hasattr(self.ics, "NoneAlarm") else self.lib["NoneAlarm"]()), "twice": lambda: list.extend(old, list(old))}[op[3]]
        try:
            edit()
            want_exc = None
            try:
                v = old
                if f.converter is not None:
                    v = f.converter(v)
                if f.validator is not None:
                    f.validator(o, f, v)
                want = self.view(v)
            except core.CATCH as e:
                want_exc = e
            exc = None
            try:
                setattr(o, f.name, old)
            except core.CATCH as e:
                exc = e
            what = f"{cls.__name__}.{f.name}, edited ({op[3]}) and assigned again"
            self.run.count("assigned_again")
            self.run.log(what, type(exc).__name__)
            if (exc is None) != (want_exc is None) or type(exc) is not type(want_exc):
                raise Violation("not-validated" if exc is None else "valid-rejected", f"{what}: construction {want_exc!r}, assignment {exc!r}")
            if exc is not None and getattr(o, f.name) is not old:
                raise Violation("rejected-but-changed", what)
            if exc is None and self.view(getattr(o, f.name)) != want:
                raise Violation("not-converted", f"{what}: {getattr(o, f.name)!r}, not {want}"[:2000])
            if exc is not None:
                self.run.count("rejected")
        finally:
            if isinstance(old, dict):
                old.clear()
                old.update(keep)
            else:
                list.__setitem__(old, slice(None), keep)
            if getattr(o, f.name) is not old:
                setattr(o, f.name, old)

    def view(self, v):
        import types

        if isinstance(v, types.GeneratorType):
            return "generator"  # nothing converts it: stored as it is
        if isinstance(v, type):
            return v.__name__
        if self.attr.has(type(v)):
            return (type(v).__name__, [(f.name, self.view(getattr(v, f.name, "unset"))) for f in self.attr.fields(type(v))])
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [self.view(x) for x in v])
        if isinstance(v, dict):
            return ("dict", [(str(k), self.view(x)) for k, x in v.items()])
        if isinstance(v, D.datetime):
            return ("dt", v.replace(tzinfo=None).isoformat(), None if v.tzinfo is None else (type(v.tzinfo).__name__, str(v.utcoffset())))
        r = re.sub(r"0x[0-9a-f]+", "0x", repr(v))
        return (type(v).__name__, r)


def run(spec, run):
    w = World(spec, run)
    if len(spec["progs"]) == 1:
        w.thread(spec["progs"][0])
        return
    s = Sched(run, spec["plan"], max_steps=3_000_000)
    outs = s.run([lambda p=p: w.thread(p) for p in spec["progs"]])
    for o in outs:
        if not o.ok:
            raise o.exc
    run.nontrivial = s.switches > 0
