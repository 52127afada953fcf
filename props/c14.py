"""C14: loads and saves that fail or are interrupted anywhere, then the same and other operations again."""
import datetime as D
import errno

from props.c13 import BadTz
from sim import core, foreign as F, gen as G, ops as O
from sim.core import FS, Interrupt, Violation
from sim.sched import Interrupter

ID = "C14"
RUNS = {"quick": 2000, "thorough": 200000}
RULE = ("One run = a history of saves (as text, lines, containers, single entries) and loads (text, lines, failing iterators, containers, entries, several calendars in one text) of several calendars and texts sharing zone names, first executed undisturbed in one process, "
        "then in another process with failed attempts in front: interrupts and memory errors at any source line or step, damaged text, sources failing at any line, failing zone files, values that cannot be written (wrong items, parameters, types, zones, raising strings), output abandoned half-way. "
        "After every attempt all objects must be as before; every clean operation must give exactly what the undisturbed process got. Non-trivial when at least one attempt failed.")
COVER = "distinct hashes of (operation, fault, place where it struck)"
REAL = ["ics (all of it)", "ics_vtimezones", "dateutil.tz", "zoneinfo"]
STUB = ["interrupts, memory errors", "sources of lines", "open/stat/read of zone files below the C library", "system clock", "OS entropy"]
SHRINK = ["prog", "cals.0.entries", "cals.1.entries", "xt"]
ERR = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ENOMEM]
POISON = ["params_len", "params_type", "params_nl", "params_val", "tz", "tz", "tzweird", "attendee", "alarm", "event", "todo", "cat", "extra", "line", "evil", "evil", "type", "type", "trig", "prodid", "attach", "organizer", "deepbox", "ctl"]
SRCPOISON = ["badtime", "badparam", "dup", "alien", "twice_tz", "novalue", "child"]


NAMES = ["Z1", "Europe/Berlin", "America/New_York"]  # defined in some texts, only used in others


# ------------------------------------------------------------------ generation
def zone_text(r, name, off, rule=False):
    s = "%s%02d%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
    out = ["BEGIN:VTIMEZONE", "TZID:" + name, "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:" + s, "TZOFFSETTO:" + s, "TZNAME:N%d" % off]
    if rule:
        out += ["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU"]
    return out + ["END:STANDARD", "END:VTIMEZONE"]


def text(r, k=None):
    """A calendar that differs from its likes in what is easily confused: zones of one name, entries without times."""
    zs = r.sample(NAMES, r.choice([0, 0, 1, 2, 2, 3]) if k is None else [3, 0, 2][k])
    out = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"]
    if r.random() < 0.3:
        out.append(G_line(r))
    body = []
    for z in zs:
        body.append(zone_text(r, z, r.choice([-300, 0, 60, 90, 345, 720]), r.random() < 0.2))
    for i in range(r.choice([0, 1, 2, 4])):
        k = r.choice(["VEVENT", "VEVENT", "VTODO"])
        e = ["BEGIN:" + k, "UID:x%d" % i, "DTSTAMP:20200101T000000Z"]
        c = r.random()
        z = r.choice(zs) if zs and r.random() < 0.5 else r.choice(["", "", "UTC", *NAMES, *NAMES[1:]])
        p = ";TZID=" + z if z and z != "UTC" else ""
        q = "Z" if z == "UTC" else ""
        if c < 0.75:
            if c < 0.15:
                e.append("DTSTART;VALUE=DATE:20210304")
                e += r.choice([[], ["DURATION:P1D"], ["%s;VALUE=DATE:20210305" % ("DTEND" if k == "VEVENT" else "DUE")]])
            else:
                e.append("DTSTART%s%s:20210304T050607%s" % (r.choice(["", "", ";X-P=1"]), p, q))
                e += r.choice([[], ["DURATION:PT1H"], ["%s%s:20210304T060607%s" % ("DTEND" if k == "VEVENT" else "DUE", p, q)], ["DTEND:oops"] if r.random() < 0.3 else []])
        for _ in range(r.choice([0, 1, 3])):
            e.append(r.choice(["SUMMARY:s%d" % i, "DESCRIPTION;LANGUAGE=en:d\\, d", "CATEGORIES;X-C=1:a,b", "CATEGORIES:x,y,z", "X-FOO:bar", "LOCATION:l", "STATUS:CONFIRMED", "ATTENDEE;CN=\"a;b\":mailto:a@b", "ATTENDEE:mailto:c@d", "ATTACH:http://x.org/a", "RRULE:FREQ=DAILY;COUNT=3",
                               "RDATE%s:20210305T050607%s" % (p, q), "EXDATE:20210306T050607", "GEO:1.5;2.5" if k == "VEVENT" else "PRIORITY:3", "URL:http://x.org"]))
        for _ in range(r.choice([0, 0, 1, 2])):
            e += ["BEGIN:VALARM", "ACTION:" + r.choice(["DISPLAY", "AUDIO", "X-A"]), r.choice(["TRIGGER:-PT5M", "TRIGGER;VALUE=DATE-TIME:20210304T040000Z", "TRIGGER;X-T=1:PT0S"]), "END:VALARM"]
        body.append(e + ["END:" + k])
    r.shuffle(body)
    for b in body:
        out += b
    return "\r\n".join(out + ["END:VCALENDAR", ""])


def G_line(r):
    return r.choice(["X-WR-CALNAME:n", "METHOD:PUBLISH", "X-A;B=c:d", "CALSCALE:GREGORIAN"])


def g_op(r, nt):
    k = r.choice(["save"] * 5 + ["load"] * 6 + ["multi", "raw", "zone"])
    if k == "save":
        return [k, r.randint(0, 4), r.choice(["text", "text", "iter", "container", "entries", "entries", "wrapped", "str", "alarms", "tz"])]
    if k == "load":
        return [k, r.randint(0, nt - 1), r.choice(["text", "text", "lines", "gen", "gen", "container", "container", "entries", "entries", "resave"])]
    if k == "multi":
        return [k, [r.randint(0, nt - 1) for _ in range(r.randint(1, 3))], r.choice(["text", "gen"])]
    if k == "raw":
        return [k, O.raw_lines(r)]
    return [k, r.choice(G.ZONES + ["Nowhere/Land", "Etc/UTC"])]


def g_try(r, op, ctx):
    c = r.random()
    if c < 0.12:
        return {"frac": r.random(), "exc": r.choice(["int", "int", "mem", "val"])}
    if c < 0.45:  # one of the source lines this operation executes, at one of its executions
        return {"line": r.random(), "nth": r.choice([0, 0, r.random()]), "exc": r.choice(["int", "int", "mem", "val"])}
    if op[0] == "save":
        if op[2] in ("text", "iter", "wrapped") and r.random() < 0.2:
            return {"abandon": r.random(), "how": r.choice(["close", "throw", "drop"])}
        return {"poison": [[r.choice(POISON), r.randint(0, 5), r.randint(0, 9)] for _ in range(r.choice([1, 1, 2]))]}
    if op[0] == "zone":
        return {"fs": [[r.choice(["any", "open", "stat", "read"]), r.choice([1, 1, 2, 3, r.randint(1, 20)]), r.choice(ERR)]]}
    if op[0] == "raw":
        return {"src": r.random(), "err": r.choice(core.EXC_KINDS + ["num"] * 5)}
    if op[0] == "load" and op[2] in ("container", "entries") and r.random() < 0.7:
        return {"srcpoison": [r.choice(SRCPOISON), r.randint(0, 9), r.randint(0, 9)]}
    if c < 0.62:
        return {"fs": [[r.choice(["any", "open", "stat", "read"]), r.choice([1, 1, 2, 3, r.randint(1, 20)]), r.choice(ERR)]]}
    if r.random() < 0.6:
        return {"mut": r.choice([*O.MUT, "badline", "badline", "badline"]), "f": r.random()}
    return {"src": r.random(), "err": r.choice(core.EXC_KINDS + ["num", "end"] * 5)}


def gen(r, tier, ctx):
    cals = [G.calendar(r, n_events=r.choice([1, 1, 2, 3]), n_todos=r.choice([0, 0, 1, 2]), rich=r.choice([0, 0.3, 1.0])) for _ in range(2)]
    for c in cals:
        for e in c["entries"]:
            if r.random() < 0.4:
                for k in ("BEGIN", "END" if e["kind"] == "event" else "DUE", "DURATION", "SUMMARY", "UID", "STATUS"):
                    if r.random() < 0.6:
                        e["xp"][k] = G.params(r, 1)
    xt = [text(r, k if r.random() < 0.6 else None) for k in range(3)] if r.random() < 0.6 else [text(r) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < 0.4:
        xt[r.randrange(len(xt))] = F.text(r, True)
    nt = len(xt) + 2
    prog = []
    if len(xt) == 3 and r.random() < 0.6:  # only loads of texts that use each other's zone names
        for _ in range(r.randint(6, 16)):
            op = ["load", r.choice([2, 3, 3, 4]), r.choice(["text", "gen", "container", "resave"])]
            o = ["load", r.choice([2, 2, 3, 4]), r.choice(["text", "gen", "text"])]
            prog.append([op, [[o, g_try(r, o, ctx)]]])
    elif r.random() < 0.4:  # only saves
        for _ in range(r.randint(4, 10)):
            op = ["save", r.randint(0, 4), r.choice(["text", "text", "iter", "container", "entries", "wrapped"])]
            o = ["save", r.randint(0, 4), r.choice(["text", "text", "iter", "container", "entries", "wrapped", "alarms"])]
            prog.append([op, [[o, g_try(r, o, ctx)]]])
    for _ in range(r.randint(2, 12) if not prog else 1):
        op = g_op(r, nt)
        tries = [op if r.random() < 0.5 else g_op(r, nt) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        prog.append([op, [[o, g_try(r, o, ctx)] for o in tries]])
    return {"cals": cals, "xt": xt, "prog": prog, "loaded": r.choice([0, 0, 1, 2, 3]), "tz": r.choice(["UTC0", "EST5EDT,M3.2.0,M11.1.0"])}


# ------------------------------------------------------------------ the world
class Evil(str):
    """A text that cannot be written: its n-th use fails."""

    def __new__(cls, s, n):
        o = str.__new__(cls, s)
        o.n = n
        return o

    def _use(self):
        self.n -= 1
        if self.n < 0:
            raise ValueError("evil string")

    def replace(self, *a):
        self._use()
        return str(self).replace(*a)

    def translate(self, *a):
        self._use()
        return str.translate(self, *a)

    def encode(self, *a):
        self._use()
        return str.encode(self, *a)

    def __str__(self):
        self._use()
        return str.__str__(self)

    def __format__(self, f):
        self._use()
        return str.__format__(self, f)

    def __iter__(self):
        self._use()
        return str.__iter__(self)


class Weird(D.tzinfo):
    def utcoffset(self, d):
        return D.timedelta(hours=1)

    def dst(self, d):
        return D.timedelta(0)

    def tzname(self, d):
        return "weird"

    def __repr__(self):
        return "Weird"


def exc_of(k):
    return core.EXC[k]("source")


class World:
    def __init__(self, spec, run):
        import zoneinfo

        import ics_vtimezones as V
        from ics.contentline import string_to_container

        self.spec, self.run = spec, run
        self.cals = [G.mk_calendar(c, {}) for c in spec["cals"]]
        for i, t in enumerate(spec["xt"][: spec["loaded"]]):
            try:
                self.cals.append(G.ics_calendar(t))
            except Exception as e:  # a text that cannot be loaded
                run.log("not loadable", type(e).__name__)
        new = G.fp(self.cals)
        for c in self.cals[2:]:  # e.g. dates in a zone the text names but does not define may load and not be savable
            try:
                c.serialize()
            except Exception as e:
                run.log("not savable", type(e).__name__)
                if G.fp(self.cals) != new:
                    raise Violation("save-changes-objects", f"the first, failed save: {G.diff(new, G.fp(self.cals))}")
                self.cals = [x for x in self.cals if x is not c]
                new = G.fp(self.cals)
        self.texts = [c.serialize() for c in self.cals[:2]] + list(spec["xt"])
        if G.fp(self.cals) != new:
            raise Violation("save-changes-objects", f"the first save: {G.diff(new, G.fp(self.cals))}")
        self.boxes = [string_to_container(t) for t in self.texts]
        d = str(V.PACKAGE_DIR)
        self.prefixes = [d + "/data", *(p + "/" for p in zoneinfo.TZPATH)]
        self.extra_src = None  # what stands in for the text of a load during an attempt
        self.hook = None
        self.fp0 = self.fp()

    def fp(self):
        return [G.fp(self.cals), G.fp(self.boxes)]

    # ---- operations
    def text(self, i):
        return self.texts[i] if self.extra_src is None else self.extra_src

    def lines(self, i):
        ls = self.text(i).split("\r\n")
        h = self.hook
        if h is None:
            return iter(ls)

        def g():
            n = int(h["src"] * (len(ls) + 1))
            for k, l in enumerate(ls + [None]):
                if k == n:
                    self.run.count("fault:source_" + h["err"])
                    if h["err"] == "num":
                        yield 7
                    elif h["err"] == "end":
                        return
                    else:
                        raise exc_of(h["err"])
                if l is not None:
                    yield l
        return g()

    def do(self, op):
        try:
            return O.jv(self._do(op))
        except Exception as e:
            return O.clean(e)

    def _do(self, op):
        import ics
        from ics.contentline import lines_to_containers

        k = op[0]
        if k == "save":
            c, how = self.cals[op[1] % len(self.cals)], op[2]
            if how == "text":
                return c.serialize()
            if how == "iter":
                return list(c)
            if how == "container":
                x = c.to_container()
                return [G.c_item(x), str(x)[:3000]]
            if how == "entries":
                return [[e.serialize(), G.c_item(e.to_container())] for e in [*c.events, *c.todos]]
            if how == "alarms":
                return [a.serialize() for e in [*c.events, *c.todos] for a in e.alarms]
            if how == "str":
                return [str(c), [str(e) for e in c.events], c.extra.serialize()]
            if how == "tz":
                from ics.timezone import Timezone

                out = []
                for e in c.events:
                    if e.begin is not None and e.begin.tzinfo is not None:
                        try:
                            out.append(Timezone.from_tzinfo(e.begin.tzinfo).serialize())
                        except ValueError as x:
                            out.append(O.clean(x))
                return out
            from ics.contentline.container import contentline_set_wrap

            with contentline_set_wrap(30):
                return c.serialize()
        if k == "load":
            how = op[2]
            if self.hook is not None and how == "text":
                how = "gen"
            if how == "text":
                return G.c_calendar(ics.Calendar(self.text(op[1])))
            if how == "lines":
                return G.c_calendar(ics.Calendar(self.text(op[1]).splitlines(True) if self.hook is None else self.lines(op[1])))
            if how == "gen":
                return G.c_calendar(ics.Calendar(self.lines(op[1])))
            if how == "resave":
                c = ics.Calendar(self.text(op[1]))
                return [c.serialize(), c.serialize()]
            box = self.boxes[op[1]]
            if how == "container":
                return G.c_calendar(ics.Calendar(box))
            out = []
            for x in box:
                cls = {"VEVENT": ics.Event, "VTODO": ics.Todo}.get(x.name)
                if cls:
                    try:
                        out.append(G.c_entry(cls.from_container(x)))
                    except Exception as e:
                        out.append(O.clean(e))
            return out
        if k == "multi":
            if op[2] == "text" and self.hook is None:
                return [G.c_calendar(c) for c in ics.Calendar.parse_multiple("".join(self.text(i) for i in op[1]))]
            out = []
            for i in op[1]:
                for x in lines_to_containers(self.lines(i)):
                    out.append(G.c_item(x))
                    out.append(G.c_calendar(ics.Calendar(x)))
            return out
        if k == "raw":
            from ics.contentline import string_to_containers

            ls = op[1]
            if self.hook is not None:
                n = int(self.hook["src"] * (len(ls) + 1))
                h = self.hook

                def g():
                    for j, l in enumerate(ls + [""]):
                        if j == n:
                            if h["err"] == "num":
                                yield 7
                            else:
                                raise exc_of(h["err"])
                        yield l
                return [G.c_item(x) for x in lines_to_containers(g())]
            out = []
            try:
                for x in string_to_containers("\r\n".join(ls)):
                    out.append([G.c_item(x), x.serialize()])
            except Exception as e:
                out.append(O.clean(e))
            return out
        z = ics.Timezone.from_tzid(op[1])
        return [str(z), z.serialize(), O.lookups(z, [[2021, 1, 5, 6, 7, 8, None, 0], [2021, 7, 5, 6, 7, 8, None, 0]])]

    # ---- values that cannot be written; each returns how to undo it
    def poison(self, cal, kind, n, m):
        import ics
        from ics import Container, ContentLine

        es = [e for e in [*cal.events, *cal.todos] if hasattr(e, "extra_params")]
        if kind == "prodid":
            return self.put(cal, r_pick(["prodid", "method", "scale", "version"], m), r_pick([object, 5, ["x"], b"x"], n)) if m else self.put(cal, "prodid", 7)
        if kind == "event":
            x = r_pick([None, "x", 5, object(), es[n % len(es)] if es and m > 5 else D.date], m)
            cal.events.insert(n % (len(cal.events) + 1), x)
            return lambda: cal.events.pop(n % len(cal.events))
        if kind == "todo":
            cal.todos.append(r_pick([None, 5, object()], m))
            return cal.todos.pop
        if not es:
            return None
        e = es[n % len(es)]
        if kind.startswith("params"):
            key = r_pick(["SUMMARY", "BEGIN", "END", "DUE", "DURATION", "DTSTAMP", "UID", "DESCRIPTION", "ATTENDEE", "CATEGORIES"], m)
            old = dict(e.extra_params)
            for k in (key, "UID"):
                e.extra_params[k] = {"params_len": [{"A": ["1"]}, {"B": ["2"]}, {"C": ["3"]}], "params_type": r_pick(["x", 5, None, {"A": 5}, [1]], n), "params_nl": {"A\n": ["1"]}, "params_val": {"A": r_pick([["x\ny"], [5], [None], "str"], m)}}[kind]

            def undo():
                e.extra_params.clear()
                e.extra_params.update(old)
            return undo
        if kind in ("tz", "tzweird"):
            z = Weird() if kind == "tzweird" else BadTz(3600, m, r_pick(core.EXC_KINDS, n), self.run)
            kw = dict(begin_time=D.datetime(2021, 2, 3, 4, 5, 6, tzinfo=z))
            if m % 3 == 1:
                kw["end_time"] = D.datetime(2021, 2, 3, 5, 5, 6, tzinfo=z)
            u = self.put(e, "timespan", type(e.timespan)(**kw))
            if kind == "tz":
                z.armed = True
            return u
        if kind == "attendee":
            if not hasattr(e, "attendees"):
                return None
            e.attendees.insert(n % (len(e.attendees) + 1), r_pick([object(), None, 5, "x@y", D.date], m))
            return lambda: e.attendees.pop(n % len(e.attendees))
        if kind == "alarm":
            e.alarms.insert(n % (len(e.alarms) + 1), r_pick(["x", None, type(e), object(), D.timedelta(1)], m))
            return lambda: e.alarms.pop(n % len(e.alarms))
        if kind == "cat":
            if not hasattr(e, "categories"):
                return None
            return self.put(e, "categories", r_pick([[1], [None], object(), ["a", Evil("b,c", n)], 5, ["a\x01", ["b"]]], m))
        if kind == "attach":
            return self.put(e, "attach", r_pick([["x"], [None], [object()], 5], m))
        if kind == "organizer":
            return self.put(e, "organizer", r_pick(["x", object(), 5], m)) if hasattr(e, "organizer") else None
        if kind == "extra":
            e.extra.data.insert(n % (len(e.extra) + 1), r_pick(["X:y", None, 5, D.date], m))
            return lambda: e.extra.data.pop(n % len(e.extra.data))
        if kind == "deepbox":
            b = x = Container("X-B0")
            for i in range(m):
                y = Container("X-B%d" % i)
                x.append(y)
                x = y
            x.data.append(ContentLine("A", {"B": ["x\ny"]} if n % 2 else {}, "v" if n % 2 else 5))
            e.extra.append(b)
            return e.extra.pop
        if kind == "line":
            l = ContentLine("X-L", {"P": ["v"]}, "w")
            e.extra.append(l)
            object.__setattr__(l, r_pick(["name", "value", "params"], m), r_pick([5, None, "x\ny", ["z"], {"A": 7}, {"A": ["\n"]}], n))
            return e.extra.pop
        if kind == "evil":
            return self.put(e, r_pick(["summary", "description", "location", "uid"], m), Evil("text,\nwith;things", n % 4))
        if kind == "ctl":
            return self.put(e, r_pick(["summary", "description", "location", "uid"], m), r_pick(["a\x00b", "\ud800", "x\ry", "\x1b[1m"], n))
        if kind == "type":
            a = r_pick(["url", "created", "dtstamp", "last_modified", "status", "geo", "priority", "completed", "classification", "rrule", "summary", "timespan"], m)
            if not hasattr(e, a):
                return None
            return self.put(e, a, r_pick([5, "x", object(), [1], D.date(2020, 1, 1), b"x"], n))
        if kind == "trig":
            if not e.alarms:
                return None
            return self.put(e.alarms[0], "trigger", r_pick(["zzz", 5, object(), D.datetime(2020, 1, 1, tzinfo=Weird())], m))
        raise ValueError(kind)

    def put(self, o, a, v):
        old = getattr(o, a)
        object.__setattr__(o, a, v)
        return lambda: object.__setattr__(o, a, old)

    def srcpoison(self, box, kind, n, m):
        from ics import Container, ContentLine

        kids = [x for x in box if isinstance(x, Container)]
        if not kids:
            return None
        x = kids[n % len(kids)]
        old = list(x.data)
        at = m % (len(x) + 1)
        new = {"badtime": ContentLine("DTSTART", {}, "nope"), "badparam": ContentLine("DTSTART", {"TZID": ["A", "B"], "VALUE": ["X"]}, "20210101T000000"), "dup": ContentLine("UID", {}, "again"),
               "alien": 5, "twice_tz": ContentLine("DTEND", {"TZID": ["Nope"]}, "20210101T000000"), "novalue": ContentLine("DTSTAMP", {}, ""), "child": Container("VALARM", [ContentLine("TRIGGER", {}, "x")])}[kind]
        x.data.insert(at, new)

        def undo():
            x.data[:] = old
        return undo

    # ---- an attempt with a fault
    def attempt(self, op, t, steps, quiet):
        run = self.run
        undo, fs, at, exc = [], None, None, Interrupt
        what = f"{op} with {t}"
        for p in t.get("poison", []):
            try:
                u = self.poison(self.cals[op[1] % len(self.cals)], *p)
            except (AttributeError, TypeError):  # something an earlier one put there
                continue
            if u:
                undo.append(u)
                run.count("fault:poison_" + p[0])
        if "srcpoison" in t:
            u = self.srcpoison(self.boxes[op[1]], *t["srcpoison"])
            if u:
                undo.append(u)
                run.count("fault:bad_source_" + t["srcpoison"][0])
        if "mut" in t:
            i = op[1] if op[0] == "load" else op[1][0]
            self.extra_src = badline(self.texts[i], t["f"]) if t["mut"] == "badline" else O.mutate(self.texts[i], t["mut"], t["f"])
            if op[0] == "load" and op[2] in ("container", "entries"):
                op = ["load", op[1], "text"]
            run.count("fault:damaged_text")
        if "src" in t:
            self.hook = t
            if op[0] == "load" and op[2] in ("container", "entries", "resave"):
                op = ["load", op[1], "gen"]
        if "frac" in t:
            at = {"step": 1 + int(t["frac"] * max(1, steps))}
        if "line" in t:
            s, c = steps[int(t["line"] * len(steps))] if steps else ("", 1)
            at = {"site": s, "occ": 1 + int(t["nth"] * c)}
        if at:
            exc = {"int": Interrupt, "mem": MemoryError, "val": ValueError}[t["exc"]]
        before = self.fp()
        res = None
        try:
            if at:
                it = Interrupter(run, at, exc=exc)
                o = it(lambda: O.jv(self._do(op)))
                err, res = o.exc, o.value
                if it.fired:
                    run.cov(op[0], op[-1] if op[0] != "raw" else "", it.fired, t["exc"])
            elif "abandon" in t:
                err = self.abandon(op, t, quiet)
                run.cov(op, "abandon", int(t["abandon"] * 10), t["how"])
            else:
                if "fs" in t:
                    fs = FS(self.prefixes, (), t["fs"])
                    fs.__enter__()
                try:
                    res, err = self._do(op), None
                except BaseException as e:
                    if not isinstance(e, core.CATCH):
                        raise
                    err = e
                finally:
                    if fs:
                        fs.__exit__()
                        if fs.fired:
                            run.count("fault:zone_storage", fs.fired)
                run.cov(op[0], op[-1] if op[0] != "raw" else "", str(t), type(err).__name__, str(err)[:60])
        finally:
            self.extra_src = self.hook = None
        if err is not None:
            run.nontrivial = True
        run.count("attempts_failed" if err is not None else "attempts_completed")
        run.log("attempt", what, type(err).__name__)
        after = self.fp()
        if after != before:
            raise Violation("objects-changed", f"{what} ({core.describe_exc(err) if err else 'completed'}) changed what it worked on: {G.diff(before, after)}"[:2500])
        for u in reversed(undo):
            u()
        if self.fp() != self.fp0:
            raise RuntimeError(f"harness: {t} not undone: {G.diff(self.fp0, self.fp())}")
        if at and err is None and exc is Interrupt and res != quiet:
            raise Violation("wrong-result-interrupted", f"{what}: completed, but not like the undisturbed one: {G.diff(quiet, res)}"[:2500])
        del err

    def abandon(self, op, t, quiet):
        """The consumer of a calendar's lines stops."""
        c = self.cals[op[1] % len(self.cals)]
        its = [iter(c), c.to_container().serialize_iter()]
        for it in its:
            n = int(t["abandon"] * len(str(quiet)) / 30)
            try:
                for _ in range(n % 40):
                    next(it)
                if hasattr(it, t["how"]):
                    if t["how"] == "throw":
                        it.throw(OSError(28, "disk full"))
                    else:
                        it.close()
            except (StopIteration, OSError, ValueError):
                pass
        self.run.count("fault:output_abandoned")
        return None


def badline(t, f):
    """One line whose value can be wrong gets a wrong one."""
    ls = t.split("\r\n")
    at = [i for i, l in enumerate(ls) if l.startswith(("TZOFFSET", "DTSTART", "DTEND", "DUE", "DURATION", "DTSTAMP", "TRIGGER", "GEO", "RRULE", "RDATE", "EXDATE", "TZID:"))]
    if at:
        i = at[int(f * len(at))]
        ls[i] = ls[i].split(":")[0] + ":bad" if not ls[i].startswith("TZID:") else "X-NOTHING:"
    return "\r\n".join(ls)


def r_pick(l, n):
    return l[n % len(l)]


def world(run, spec):
    core.set_tz(spec["tz"])
    core.set_clock(1_600_000_000 * 10**9, 0)
    core.set_rand(17)
    return World(spec, run)


def quiet(spec, run, carry):
    w = world(run, spec)
    out = []
    for op, tries in spec["prog"]:
        res = w.do(op)
        steps = []
        for o, t in tries:
            n = 0
            q = None
            if "frac" in t or "line" in t or "abandon" in t:
                it = Interrupter(run, None, max_steps=10**7)
                it.profile = {}
                it(lambda: w.do(o))
                n = sorted(it.profile.items()) if "line" in t else it.steps
                q = w.do(o)
            steps.append([n, q])
        if w.fp() != w.fp0:
            raise Violation("save-changes-objects", f"{op}: {G.diff(w.fp0, w.fp())}")
        out.append([res, steps])
    return {"out": out}


def faulted(spec, run, carry):
    w = world(run, spec)
    after = []

    def clean(op, want, when):
        got = w.do(op)
        if got != want:
            raise Violation("differs-after-failure", f"{op} {when}: {G.diff(want, got) or (want, got)}; attempts before: {after[-6:]}"[:3000])
        if w.fp() != w.fp0:
            raise Violation("save-changes-objects", f"{op}: {G.diff(w.fp0, w.fp())}")

    for (op, tries), (want, steps) in zip(spec["prog"], carry["out"]):
        for (o, t), (n, q) in zip(tries, steps):
            w.attempt(o, t, n, q)
            after.append([o if o[0] != "raw" else "raw", t])
        clean(op, want, "after failed attempts")
    for (op, _), (want, _) in zip(spec["prog"], carry["out"]):
        clean(op, want, "at the end")
    run.log("done", core.h(str(carry["out"])))


PHASES = [("A", quiet), ("A", faulted)]
