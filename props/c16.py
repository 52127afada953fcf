"""C16: edits of content containers with wrong items and failing sources, against a list."""
from sim import core, gen as G
from sim.core import Violation

ID = "C16"
RUNS = {"quick": 36000, "thorough": 3000000}
RULE = ("One run = a history of edits (append, insert, extend, +=, item, slice and extended-slice assignment, deletions, construction, cloning) of free containers, nested ones and the custom lines of entries and calendars, "
        "fed from lists, generators, other containers and from sources that fail, are interrupted or yield something that is no content line at a chosen position or only when read a second time; "
        "after every edit the items are compared one by one with a plain list, and the container is written out; non-trivial when at least one edit was rejected.")
COVER = "distinct hashes of (edit, source fault, number of items)"
REAL = ["ics.contentline.container, ics.component, ics converters"]
STUB = ["sources of items (failing iterators)", "system clock", "OS entropy"]
SHRINK = ["prog"]
BAD = ["str", "none", "int", "class", "duck", "event", "list", "dict", "bytes", "empty"]
EXCS = {**core.EXC, "stop": StopIteration, "genexit": GeneratorExit}
EXC = sorted(EXCS)


def g_items(r, n=None):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 6]) if n is None else n):
        c = r.random()
        out.append(["line", r.randint(0, 5)] if c < 0.7 else ["box", r.randint(0, 3)] if c < 0.85 else ["old", r.randint(0, 9)])
    return out


def g_source(r):
    s = {"items": g_items(r), "as": r.choice(["list", "tuple", "gen", "iter", "shifty", "box", "self", "hint", "getitem", "map", "set"])}
    c = r.random()
    if c < 0.3:
        s["bad"] = [r.randint(0, 6), r.choice(BAD)]
    elif c < 0.55:
        s["fail"] = [r.randint(0, 6), r.choice(EXC)]
        s["as"] = r.choice(["gen", "iter", "getitem", "map"])
    if r.random() < 0.05:
        s["as"] = r.choice(["int", "str", "none"])
    return s


def g_op(r):
    k = r.choice(["append", "append", "insert", "insert", "extend", "extend", "extend", "iadd", "iadd", "set", "set", "slice", "slice", "slice", "slice", "del", "delslice", "delname", "pop", "remove", "reverse", "clear", "new", "evolve", "clone", "cloneof", "get", "data"])
    one = lambda: {"bad": r.choice(BAD)} if r.random() < 0.4 else {"item": g_items(r, 1)[0]}
    if k == "append":
        return [k, one()]
    if k == "insert":
        return [k, r.choice([0, 1, -1, 5, 99, -99, "x", None, 1.5]) if r.random() < 0.3 else r.randint(-3, 6), one()]
    if k in ("extend", "iadd", "new", "data", "cloneof"):
        return [k, g_source(r)]
    if k == "set":
        return [k, r.randint(-8, 8) if r.random() < 0.9 else r.choice(["x", None]), one()]
    if k == "slice":
        sl = [r.choice([None, r.randint(-6, 6)]), r.choice([None, r.randint(-6, 6)]), r.choice([None, None, None, 1, 2, -1, -2, 0])]
        return [k, sl, g_source(r)]
    if k == "delslice":
        return [k, [r.choice([None, r.randint(-6, 6)]), r.choice([None, r.randint(-6, 6)]), r.choice([None, None, 2, -1])]]
    return [k, r.randint(-6, 6)]


def gen(r, tier, ctx):
    return {"where": r.choice(["free", "free", "nested", "event", "todo", "calendar", "alarm"]), "start": g_items(r), "prog": [g_op(r) for _ in range(r.randint(3, 25))]}


class Duck:
    name, params, value, line_nr = "X", {}, "v", 0

    def serialize_iter(self, newline=False, wrap=None):
        yield "X:v\r\n"

    def serialize(self):
        return "X:v"

    clone = serialize


class World:
    def __init__(self, spec, run):
        import ics
        from ics import Container

        self.run = run
        self.n = 0
        self.top = None
        w = spec["where"]
        if w == "free":
            self.c = Container("X-BOX")
        elif w == "nested":
            self.c = Container("X-IN")
            self.top = Container("X-OUT", [self.line(), self.c])
        elif w == "calendar":
            self.top = ics.Calendar()
            self.c = self.top.extra
        elif w == "alarm":
            self.top = ics.DisplayAlarm(description="x")
            self.c = self.top.extra
        else:
            self.top = ics.Event(uid="u") if w == "event" else ics.Todo(uid="u")
            self.c = self.top.extra
        self.model = []
        for i in spec["start"]:
            x = self.item(i)
            self.c.append(x)
            self.model.append(x)

    def line(self, k=0):
        from ics import ContentLine

        self.n += 1
        return ContentLine("X-%d" % k, {"P": ["a;b"]} if k % 2 else {}, "v%d" % self.n)

    def item(self, i):
        from ics import Container

        if i[0] == "line":
            return self.line(i[1])
        if i[0] == "old" and self.model:
            return self.model[i[1] % len(self.model)]
        return Container("X-%d" % i[1], [self.line() for _ in range(i[1] % 3)])

    def bad(self, k):
        import ics
        from ics import ContentLine

        return {"str": "X-A:1", "none": None, "int": 5, "class": ContentLine, "duck": Duck(), "event": ics.Event(uid="x"), "list": [self.line()], "dict": {"name": "X"}, "bytes": b"X:1", "empty": ""}[k]

    def source(self, s):
        """(iterable, what a list of it would be) - the second is None when reading it must fail."""
        items = [self.item(i) for i in s["items"]]
        ok = True
        if "bad" in s:
            items.insert(s["bad"][0], self.bad(s["bad"][1]))
            ok = False
            self.run.count("fault:wrong_item")
        kind = s["as"]
        if kind in ("int", "none", "str"):
            return {"int": 7, "none": None, "str": "abc"}[kind], None
        exc = None
        at = len(items)
        if "fail" in s:
            at = min(s["fail"][0], len(items))
            exc = EXCS[s["fail"][1]]
            ok = False
            self.run.count("fault:source_" + s["fail"][1])

        def g():
            for n, x in enumerate(items):
                if exc and n == at:
                    raise exc("source")
                yield x
            if exc and at == len(items):
                raise exc("source")

        class It:
            def __init__(self):
                self.n = 0

            def __iter__(self):
                return self

            def __next__(self):
                n = self.n
                self.n += 1
                if exc and n == at and exc is not StopIteration:
                    raise exc("source")
                if n >= len(items):
                    raise StopIteration
                return items[n]

        class Shifty:
            """What it yields the second time is not what it yielded the first time."""

            used = False

            def __iter__(self):
                u, self.used = self.used, True
                return iter([*items[:1], "junk", None] if u else items)

        class Hint(list):
            def __len__(self):
                raise RuntimeError("no length")

        class Getitem:
            def __getitem__(self, n):
                if exc and n == at and exc not in (IndexError, StopIteration):
                    raise exc("source")
                return items[n]

        want = items if ok else None
        if exc is StopIteration and kind in ("iter", "map") or exc in (IndexError, StopIteration) and kind == "getitem":
            want = None if "bad" in s else items  # these only end there
            if kind == "map":
                kind = "iter"
        if kind == "tuple":
            return tuple(items), want
        if kind == "gen":
            return g(), want
        if kind == "iter":
            return It(), want
        if kind == "shifty":
            return Shifty(), want
        if kind == "box" and ok:
            from ics import Container

            return Container("X-SRC", items), want
        if kind == "self":
            return self.c, list(self.model)
        if kind == "getitem":
            return Getitem(), want
        if kind == "map":
            return map(lambda x: x, It()), want
        if kind == "hint" and ok and not exc:
            class Hinted:
                def __iter__(self):
                    return iter(items)

                def __length_hint__(self):
                    return 10**6
            return Hinted(), want
        if kind == "set" and ok:
            return dict.fromkeys(map(id, items)) and {n: x for n, x in enumerate(items)}.values(), want
        return items, want

    def do(self, op):
        """Returns whether the edit must be rejected; self.model is what must be there afterwards."""
        from ics import Container

        c, m = self.c, self.model
        k = op[0]
        arg = list_arg = None
        if k in ("append", "insert", "set"):
            o = op[-1]
            good = "item" in o
            arg = self.item(o["item"]) if good else self.bad(o["bad"])
            if not good:
                self.run.count("fault:wrong_item")
        elif k in ("extend", "iadd", "new", "slice", "data", "cloneof"):
            arg, list_arg = self.source(op[-1])
            good = list_arg is not None
        new = list(m)
        fine = True
        if k in ("append", "insert", "set"):
            fine = good
            try:
                if k == "append":
                    new.append(arg)
                elif k == "insert":
                    new.insert(op[1], arg)
                else:
                    new[op[1]] = arg
            except (TypeError, IndexError):
                fine = False
        elif k in ("extend", "iadd"):
            fine = good
            new += list_arg or []
        elif k == "slice":
            fine = good
            try:
                new[slice(*op[1])] = list_arg or []
            except ValueError:
                fine = False
        try:
            if k == "append":
                c.append(arg)
            elif k == "insert":
                c.insert(op[1], arg)
            elif k == "set":
                c[op[1]] = arg
            elif k == "extend":
                c.extend(arg)
            elif k == "iadd":
                d = c
                d += arg
                if d is not c:
                    raise Violation("other-object", f"+= gave {d!r}")
            elif k == "slice":
                c[slice(*op[1])] = arg
            elif k == "del":
                fine = -len(m) <= op[1] < len(m)
                if fine:
                    del new[op[1]]
                del c[op[1]]
            elif k == "delslice":
                del new[slice(*op[1])]
                del c[slice(*op[1])]
            elif k == "delname":
                n = "X-%d" % (op[1] % 6)
                new = [x for x in m if x.name != n]
                del c[n]
            elif k == "pop":
                fine = -len(m) <= op[1] < len(m)
                want = new.pop(op[1]) if fine else None
                got = c.pop(op[1])
                if got is not want:
                    raise Violation("wrong-item", f"pop({op[1]}) gave {got!r}, not {want!r}")
            elif k == "remove":
                x = m[op[1] % len(m)] if m and op[1] else self.line()
                fine = x in m
                if fine:
                    new.remove(x)
                c.remove(x)
            elif k == "reverse":
                new.reverse()
                c.reverse()
            elif k == "clear":
                new.clear()
                c.clear()
            elif k in ("new", "data"):
                fine = good
                d = Container("X-NEW", arg) if k == "new" else Container(name="X-NEW", data=arg)
                self.same("construction", d, list_arg)
            elif k == "cloneof":
                fine = good or arg is None  # (without items: a copy of these)
                d = c.clone(items=arg)
                self.same("a copy with other items", d, m if arg is None else list_arg)
                d.clear()
                if good:  # and one that shares nothing
                    d = c.clone(items=list(list_arg), deep=True)
                    if [x.serialize() for x in d] != [x.serialize() for x in list_arg] or {id(x) for x in d} & {id(x) for x in list_arg}:
                        raise Violation("wrong-items", f"a deep copy of {list_arg!r} is {d!r}"[:2000])
                    for x in d:
                        x.clear() if isinstance(x, Container) else x.params.clear()
            elif k == "evolve":
                d = c[op[1]:]
                self.same("a slice", d, m[op[1]:])
                d.append(self.line())
                d.clear()
            elif k == "clone":
                d = c.clone()
                self.same("a copy", d, m)
                d.append(self.line())
                d[0:2] = []
                d = c.clone(items=m[:2])
                self.same("a copy", d, m[:2])
            elif k == "get":
                n = "X-%d" % (op[1] % 6)
                got = c[n]
                if [id(x) for x in got] != [id(x) for x in m if x.name == n]:
                    raise Violation("wrong-item", f"[{n!r}] gave {got!r}")
        except Violation:
            raise
        except BaseException as e:
            if isinstance(e, (core.StepLimit, core.SimStop)):
                raise
            if fine:
                raise Violation("valid-edit-rejected", f"{op}: {core.tb(e)}")
            self.run.count("rejected")
            self.run.nontrivial = True
            self.run.log(op[0], type(e).__name__)
            self.check(op, "rejected")
            return
        if not fine:
            raise Violation("invalid-edit-accepted", f"{op}: now {self.c!r}"[:1500])
        self.model = new
        self.run.log(op[0], len(new))
        self.check(op, "done")

    def same(self, what, d, want):
        if want is None:
            raise Violation("invalid-edit-accepted", f"{what} accepted a bad source: {d!r}"[:1500])
        if [id(x) for x in d] != [id(x) for x in want]:
            raise Violation("wrong-items", f"{what} holds {list(d)!r}, expected {want!r}"[:2000])

    def check(self, op, how):
        from ics import Container, ContentLine

        got = list(self.c)
        if [id(x) for x in got] != [id(x) for x in self.model] or len(self.c) != len(self.model):
            raise Violation("half-done" if how == "rejected" else "wrong-items", f"after {op} ({how}) the container holds {got!r}, expected {self.model!r}"[:2500])
        for x in got:
            if not isinstance(x, (ContentLine, Container)):
                raise Violation("junk", f"{x!r} after {op}")
        t = self.c.serialize()
        want = "\r\n".join(["BEGIN:" + self.c.name, *(x.serialize() for x in self.model), "END:" + self.c.name])
        if t != want:
            raise Violation("wrong-text", f"after {op}: {t!r} != {want!r}"[:2500])
        if self.top is not None:
            self.top.serialize()
        self.run.cov(op[0], how, str(op[-1])[:200], len(got))


def run(spec, run):
    from ics import Container

    w = World(spec, run)
    for op in spec["prog"]:
        w.do(op)
    if list(Container("X-FRESH")):
        raise Violation("junk", "a new container is not empty")
