"""C19: interleaved edits of objects created, loaded and copied separately."""
import datetime as D
import io

from sim import core, foreign as F, gen as G, plans
from sim.core import Violation
from sim.sched import Sched

ID = "C19"
RUNS = {"quick": 1700, "thorough": 120000}
RULE = ("One run = a random interleaving of creating, loading (from text, lines, or a shared parsed container), copying and editing calendars, entries, alarms, people, content lines and containers; after every single edit the own content "
        "of every other object is compared with what it was before, copies are compared with their originals, and new or newly loaded objects with what such objects looked like at first. "
        "A third of the runs does the same in 2-3 threads that start from copies of one shared calendar, under a random line-level schedule, each compared with running alone. "
        "Non-trivial when an object related by copying or common origin to another one was edited, or threads alternated.")
COVER = "distinct hashes of (kind of edited object, attribute, kind of edit, relation to other objects)"
REAL = ["ics (all of it)", "attrs", "dateutil", "real interpreter threads"]
STUB = ["thread scheduler", "system clock", "OS entropy", "local time zone"]
SHRINK = ["plan.sw", "progs.0", "progs.1", "progs.2"]

LISTS = {"Event": ["alarms", "attendees", "categories", "attach"], "Todo": ["alarms", "attach"], "Calendar": ["events", "todos"], "EmailAlarm": ["attendees", "attach"]}
SCALARS = {
    "Event": ["summary", "description", "location", "status", "begin", "duration", "organizer", "geo", "url", "classification", "transparent", "uid", "dtstamp", "created", "all_day"],
    "Todo": ["summary", "description", "location", "status", "begin", "percent", "priority", "uid", "dtstamp"], "Calendar": ["prodid", "version", "scale", "method"],
    "DisplayAlarm": ["description", "repeat", "trigger", "duration"], "AudioAlarm": ["repeat", "trigger", "attach"], "EmailAlarm": ["summary", "description", "repeat", "trigger"], "CustomAlarm": ["repeat", "trigger"], "NoneAlarm": ["repeat", "trigger"],
}
BLANK = ["Event", "Todo", "Calendar", "DisplayAlarm", "AudioAlarm", "EmailAlarm", "CustomAlarm", "NoneAlarm", "Attendee", "Organizer", "Container", "ContentLine"]
LISTOPS = ["append", "append", "insert", "pop", "set", "clear", "assign", "extend", "iadd", "reverse", "slice", "share"]
XOPS = ["append", "append", "insert", "del", "set", "value", "param", "addparam", "popparam", "name", "clear", "nested", "nested", "lname"]
XPOPS = ["new", "new", "append", "set", "pop", "clear", "nested", "strip"]


def g_edit(r):
    c = r.random()
    n = r.randint(0, 9)
    item = {"alarm": G.alarm(r), "person": G.person(r, "attendee"), "text": G.token(r), "x": G.xline(r), "n": r.randint(0, 20)}
    if c < 0.4:
        return ["edit", n, "list", r.randint(0, 9), r.choice(LISTOPS), item]
    if c < 0.6:
        return ["edit", n, "extra", r.choice(XOPS), item]
    if c < 0.75:
        return ["edit", n, "xp", r.choice(XPOPS), item]
    return ["edit", n, "scalar", r.randint(0, 20), item]


def g_prog(r, n):
    out = []
    for _ in range(n):
        c = r.random()
        if c < 0.09:
            out.append(["new", r.choice(["calendar", "event", "event", "todo", "alarm", "person", "box", "line"]), r.getrandbits(32)])
        elif c < 0.15:
            out.append(["blank", r.choice(BLANK)])
        elif c < 0.25:
            out.append(["load", r.randint(0, 3), r.choice(["text", "lines", "container", "container", "entry"])])
        elif c < 0.28:
            out.append(["save", r.randint(0, 5)])
        elif c < 0.33:
            out.append(["write", r.randint(0, 9)])
        elif c < 0.45:
            out.append(["clone", r.randint(0, 9)])
        else:
            out.append(g_edit(r))
    return out


def profile(run):
    def one(i):
        r = core.rng_for(1, "C19-profile", i)
        World(G.calendar(r, n_events=2, rich=1.0), core.Run()).go([["load", 0, "text"], ["load", 0, "container"]] + g_prog(r, 12))
    return plans.profile_sites([lambda i=i: one(i) for i in range(4)])


def gen(r, tier, ctx):
    k = r.choice([1, 1, 1, 1, 2, 3])
    base = G.calendar(r, n_events=r.choice([1, 2, 3]), n_todos=r.choice([0, 1]), rich=r.choice([0.5, 1.0, 1.0]))
    if r.random() < 0.4:
        base["foreign"] = F.text(r, True)
    spec = {"base": base, "progs": [g_prog(r, r.choice([5, 12, 30]) if k == 1 else r.randint(3, 8)) for _ in range(k)]}
    if k > 1:
        for p in spec["progs"]:  # something to copy and to edit from the start
            p[:0] = [["clone", r.randint(0, 9)], ["clone", r.randint(0, 9)]]
        if r.random() < 0.4:
            spec["progs"] = [list(spec["progs"][0]) for _ in range(k)]
        spec["plan"] = plans.gen_plan(r, ctx, k, hi=3000)
    return spec


# ---------------------------------------------------------------- pictures
def xl(items):
    return [("box", i.name, xl(i.data)) if hasattr(i, "data") else ("line", i.name, [(k, type(v).__name__, [str(x) for x in v]) for k, v in i.params.items()], i.value) for i in items]


def content(o):
    """Deep content of an object of any kind, comparable between runs."""
    n = type(o).__name__
    if n == "Calendar":
        return G.c_calendar(o)
    if n in ("Event", "Todo"):
        return G.c_entry(o)
    if n in ("Attendee", "Organizer"):
        return G.c_person(o)
    if n == "Container":
        return (o.name, xl(o.data))
    if n == "ContentLine":
        return xl([o])
    if n.startswith("Timezone"):
        return (n, xl(o.extra), str(o.extra_params), *([o.tzid, [content(q) for q in o.observances]] if n == "Timezone" else [str(o.tzoffsetfrom), str(o.tzoffsetto)]))
    return G.c_alarm(o)


def deep_lines(box):
    for q in box:
        if hasattr(q, "data"):
            yield from deep_lines(q)
        else:
            yield q


def text_of(o):
    try:
        return o.serialize()
    except Exception as e:
        return (type(e).__name__, str(e))


class Node:
    def __init__(self, obj, origin, ro=False):
        self.obj, self.origin, self.ro = obj, origin, ro


class World:
    def __init__(self, base, run, shared=None):
        import attr
        import ics
        from ics.alarm import NoneAlarm

        self.attr, self.ics, self.run = attr, ics, run
        self.none = NoneAlarm
        self.utc = ics.timezone.UTC
        self.keep = []  # everything whose identity we compare stays alive
        self.ids = {}
        self.nodes = []
        self.first = {}
        self.blanks = {c: content(self.blank(c)) for c in BLANK}
        self.log = []
        if shared is None:
            cal = G.mk_calendar(base)
            self.texts = [cal.serialize()]
            self.sources = [ics.contentline.string_to_container(self.texts[0])]
            self.register(cal, "base")
            self.add(self.sources[0], "source0")
        else:
            cal, self.texts = shared
            self.texts = list(self.texts)
            self.sources = [ics.contentline.string_to_container(self.texts[0])]
            self.register(cal, "base", ro=True)
        self.texts.append("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nX-W;A=1;B=2,\"3:\":v\r\nBEGIN:X-BOX\r\nX-IN;P=q:1\r\nBEGIN:X-DEEP\r\nX-IN2;P=q:2\r\nEND:X-DEEP\r\nEND:X-BOX\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;X-Q=r:20200102T030405Z\r\nSUMMARY;X-P=1:hello\r\n"
                          "CATEGORIES;X-C=d:a,b\r\nCATEGORIES:c\r\nX-FOO;A=\"b;c\":bar\r\nATTENDEE;CN=\"x, y\";X-Z=1:mailto:a@b.c\r\nORGANIZER;CN=o:mailto:o@b.c\r\nBEGIN:X-BOX\r\nX-IN;P=q:1\r\nBEGIN:X-DEEP\r\nX-IN2:2\r\nEND:X-DEEP\r\nEND:X-BOX\r\n"
                          "BEGIN:VALARM\r\nACTION;X-ACT=a:EMAIL\r\nTRIGGER;X-T=1:-PT5M\r\nSUMMARY:s\r\nDESCRIPTION:d\r\nATTENDEE:mailto:m@b.c\r\nX-AL;Z=1:2\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")
        self.sources.append(ics.contentline.string_to_container(self.texts[1]))
        self.add(self.sources[1], "source1")
        self.load(0, "text", quiet=True)
        self.load(1, "text", quiet=True)
        if "foreign" in base:
            self.texts.append(base["foreign"])
            self.sources.append(ics.contentline.string_to_container(self.texts[2]))
            self.add(self.sources[2], "source2")
            self.load(2, "text", quiet=True)

    # -- bookkeeping
    def ref(self, o):
        if id(o) not in self.ids:
            self.ids[id(o)] = len(self.keep)
            self.keep.append(o)
        return self.ids[id(o)]

    def add(self, o, origin, ro=False):
        self.ref(o)
        self.nodes.append(Node(o, origin, ro))

    def register(self, o, origin, ro=False):
        """The object and everything reachable from it, all of it new."""
        self.add(o, origin, ro)
        for a in ("events", "todos", "alarms", "attendees"):
            for c in getattr(o, a, ()) or ():
                self.register(c, origin, ro)
        if getattr(o, "organizer", None) is not None:
            self.add(o.organizer, origin, ro)

    def val(self, v):
        if type(v).__name__ in ("Event", "Todo", "Attendee", "Organizer") or hasattr(v, "SUBTYPES"):
            return ("obj", self.ref(v))
        if isinstance(v, list):
            return [self.val(x) for x in v]
        if isinstance(v, dict):
            return [(str(k), self.val(x)) for k, x in v.items()]
        return G.fp(v) if not hasattr(v, "geturl") else v.geturl()

    def own(self, o):
        """What belongs to the object itself: its values, which objects its lists hold, its custom lines and parameters."""
        n = type(o).__name__
        if n == "Container":
            return (o.name, xl(o.data))
        if n == "ContentLine":
            return xl([o])
        if hasattr(o, "email"):
            return (o.email, self.val(o.extra))
        out = [n]
        for f in self.attr.fields(type(o)):
            if f.name == "extra":
                out.append(("extra", o.extra.name, xl(o.extra)))
            else:
                out.append((f.name, self.val(getattr(o, f.name))))
        if n == "Calendar":
            try:
                mine = {id(e) for e in o.events}
                out.append(("timeline of others", [self.ref(e) for e in o.timeline if id(e) not in mine]))
            except Exception as e:
                out.append(("timeline", type(e).__name__))
        return out

    def reach(self, o, seen=None):
        seen = set() if seen is None else seen
        seen.add(id(o))
        for a in ("events", "todos", "alarms", "attendees"):
            for c in getattr(o, a, ()) or ():
                if id(c) not in seen:
                    self.reach(c, seen)
        seen.add(id(getattr(o, "organizer", None)))
        return seen

    def zones(self, o):
        """The zones (and their parts) that the object's own times are in."""
        t = getattr(o, "timespan", None)
        z = {id(d.tzinfo): d.tzinfo for d in ((t.begin_time, t.end_time) if t is not None else (getattr(o, "trigger", None),)) if getattr(d, "tzinfo", None) is not None}
        z.pop(id(self.utc), None)
        return [q for x in z.values() if hasattr(x, "observances") for q in (x, *x.observances)] + ([o, *o.observances] if hasattr(o, "observances") else [])

    # -- operations
    def blank(self, c):
        ics = self.ics
        kw = dict(uid="u0", dtstamp=D.datetime(2020, 1, 1, tzinfo=D.timezone.utc))
        return {"Event": lambda: ics.Event(**kw), "Todo": lambda: ics.Todo(**kw), "Calendar": ics.Calendar, "DisplayAlarm": ics.DisplayAlarm, "AudioAlarm": ics.AudioAlarm, "EmailAlarm": ics.EmailAlarm,
                "CustomAlarm": lambda: ics.CustomAlarm(action="X-A"), "NoneAlarm": self.none, "Attendee": lambda: ics.Attendee("a@b.c"), "Organizer": lambda: ics.Organizer("a@b.c"), "Container": lambda: ics.Container("X-B"),
                "ContentLine": lambda: ics.ContentLine("X-L")}[c]()

    def load(self, i, how, quiet=False):
        ics = self.ics
        i %= len(self.texts)
        if how == "entry" or how == "container":
            i %= len(self.sources)
            src = self.sources[i]
        t = self.texts[i]
        clean = how in ("text", "lines")
        if not clean:
            fresh = self.ics.contentline.string_to_container(t)
            clean = xl([fresh]) == xl([src])
        if how == "text":
            o = ics.Calendar(t)
        elif how == "lines":
            o = ics.Calendar(io.StringIO(t))
        elif how == "container":
            try:
                o = ics.Calendar(src)
            except Exception:
                if clean:
                    raise
                return  # the source was edited
        else:
            ev = [c for c in src if c.name == "VEVENT"]
            tz = [c for c in src if c.name == "VTIMEZONE"]
            if not ev or tz:  # entries that need the zones of their calendar are not loaded alone
                return
            try:
                o = ics.Event.from_container(ev[0])
            except Exception:
                if clean:
                    raise
                return
        key = (i, how == "entry")
        v = content(o)
        if clean:
            if key in self.first:
                d = G.diff(self.first[key], v)
                if d:
                    raise Violation("load-differs", f"loading the same text again ({how}) gives other content: {d}")
            else:
                self.first[key] = v
        self.register(o, f"text{i}")
        for z in {id(z): z for e in (o.events + o.todos if how != "entry" else [o]) for x in (e, *e.alarms) for z in self.zones(x)}.values():
            self.add(z, f"zone of text{i}")  # a load makes zones of its own
            self.run.count("zones")
        self.run.count("loads")

    def pick(self, n, rw=True, f=None):
        c = [x for x in self.nodes[::-1] if not (rw and x.ro) and (f is None or f(x.obj))]
        return c[n % len(c)] if c else None

    def go(self, prog):
        for n, op in enumerate(prog):
            self.do(op, n)
        for c in BLANK:
            d = G.diff(self.blanks[c], content(self.blank(c)))
            if d:
                raise Violation("new-not-pristine", f"a new {c} is no longer what it was at first: {d}")
        self.load(0, "text")
        self.load(1, "text")
        return [content(n.obj) for n in self.nodes] + [text_of(n.obj) for n in self.nodes if type(n.obj).__name__ == "Calendar"][-3:]

    def do(self, op, n):
        k = op[0]
        if k == "new":
            r = core.rng_for(op[2], "C19-new", 0)
            o = {"calendar": lambda: G.mk_calendar(G.calendar(r, n_events=r.choice([0, 1, 2]), n_todos=r.choice([0, 1]))), "event": lambda: G.mk_entry(G.entry(r, "event")), "todo": lambda: G.mk_entry(G.entry(r, "todo")),
                 "alarm": lambda: G.mk_alarm(G.alarm(r)), "person": lambda: G.mk_person(G.person(r, "attendee"), "attendee"), "box": lambda: self.ics.Container("X-NEW", G.mk_items(G.xitems(r, p=1))),
                 "line": lambda: G.mk_items([G.xline(r)])[0]}[op[1]]()
            self.register(o, "new")
        elif k == "blank":
            o = self.blank(op[1])
            d = G.diff(self.blanks[op[1]], content(o))
            if d:
                raise Violation("new-not-pristine", f"op {n}: a new {op[1]} is no longer what it was at first: {d}")
            self.register(o, "new")
        elif k == "load":
            self.load(op[1], op[2])
        elif k == "save":
            x = self.pick(op[1], False, lambda o: type(o).__name__ == "Calendar")
            t = text_of(x.obj)
            if isinstance(t, str):
                try:
                    c = self.ics.contentline.string_to_container(t)
                    self.ics.Calendar(t)
                except Exception:
                    return  # edits may build what cannot be loaded (two entries' zones of one name, odd custom lines)
                self.texts.append(t)
        elif k == "write":
            x = self.pick(op[1], False, lambda o: hasattr(o, "to_container"))
            try:
                c = x.obj.to_container()
            except Exception:  # not everything that edits make can be saved
                return
            self.add(c, "container of " + x.origin)
            self.run.count("written")
        elif k == "clone":
            x = self.pick(op[1], False, lambda o: hasattr(o, "clone"))
            o = x.obj.clone(deep=True) if type(x.obj).__name__ == "Container" else x.obj.clone()
            d = not hasattr(o, "observances") and G.diff(G.fp(x.obj), G.fp(o)) or G.diff(content(x.obj), content(o))
            if d or o is x.obj or type(o) is not type(x.obj):
                raise Violation("clone-differs", f"op {n}: clone of {type(x.obj).__name__}: {d or 'not a new object of that type'}")
            if text_of(o) != text_of(x.obj):
                raise Violation("clone-text-differs", f"op {n}: clone of {type(x.obj).__name__}: {text_of(x.obj)!r} != {text_of(o)!r}"[:2000])
            self.add(o, "clone of " + x.origin)
            self.run.count("clones")
        else:
            self.edit(op, n)

    def edit(self, op, n):
        kinds = {"list": lambda o: type(o).__name__ in LISTS, "extra": lambda o: hasattr(o, "extra") or type(o).__name__ in ("Container", "ContentLine"), "xp": lambda o: hasattr(o, "extra_params") or type(o).__name__ == "ContentLine",
                 "scalar": lambda o: True}
        x = self.pick(op[1], True, kinds[op[2]])
        if x is None:
            return
        o = x.obj
        tn = type(o).__name__
        before = [(m, self.own(m.obj)) for m in self.nodes]
        txt = None
        zone = hasattr(o, "observances") or hasattr(o, "tzoffsetto")
        if op[-1]["n"] % 7 == 0 and not zone:
            txt = [(m, text_of(m.obj)) for m in self.nodes if type(m.obj).__name__ in ("Calendar", "Event", "Todo", "Container") and id(o) not in self.reach(m.obj)][-5:]
        try:
            what = getattr(self, "e_" + op[2])(o, tn, *op[3:])
        except (ValueError, TypeError) as e:  # an edit the library refuses
            what = ("refused", type(e).__name__)
        if what is None:
            return
        self.run.count("edits")
        rel = sorted({m.origin for m in self.nodes if m is not x and (m.origin in x.origin or x.origin in m.origin)})
        if rel:
            self.run.nontrivial = True
        self.run.cov(tn, what, x.origin, len(rel))
        self.run.log(tn, str(what))
        for m, b in before:
            if m is x or zone and any(z is o for z in self.zones(m.obj)):
                continue
            a = self.own(m.obj)
            if a != b:
                raise Violation("edit-leaked", f"op {n}: {what} of a {tn} ({x.origin}) changed a {type(m.obj).__name__} ({m.origin}){' (the same object)' if m.obj is o else ''}: {G.diff(b, a)}"[:2500])
        for m, b in txt or ():
            if text_of(m.obj) != b:
                raise Violation("edit-leaked-text", f"op {n}: {what} of a {tn} ({x.origin}) changed the text of a {type(m.obj).__name__} ({m.origin}): {b!r} -> {text_of(m.obj)!r}"[:2500])

    def e_list(self, o, tn, ai, verb, it):
        a = LISTS[tn][ai % len(LISTS[tn])]
        cur = getattr(o, a)
        exp = list(cur)

        def mk():
            if a == "alarms":
                new = G.mk_alarm(it["alarm"])
            elif a == "attendees":
                new = G.mk_person(it["person"], "attendee")
            elif a in ("events", "todos"):
                have = self.pick(it["n"], False, lambda q: type(q).__name__ == ("Event" if a == "events" else "Todo"))
                if have is not None and it["n"] % 3 == 0 and have.obj not in exp:
                    return have.obj
                new = self.blank("Event" if a == "events" else "Todo")
                new.uid = it["text"]
            elif a == "attach":
                return it["text"].encode()
            else:
                return it["text"]
            self.ref(new)
            return new

        i = it["n"] % (len(cur) + 1)
        if verb in ("pop", "set", "slice") and not cur:
            verb = "append"
        v = mk()
        if verb == "append":
            if a == "attendees" and it["n"] % 2:
                o.add_attendee(v)
            else:
                cur.append(v)
            exp.append(v)
        elif verb == "insert":
            cur.insert(i, v)
            exp.insert(i, v)
        elif verb == "pop":
            cur.pop(i % len(cur))
            exp.pop(i % len(exp))
        elif verb == "set":
            cur[i % len(exp)] = v
            exp[i % len(exp)] = v
        elif verb == "clear":
            cur.clear()
            exp = []
        elif verb == "assign":
            setattr(o, a, [v] + exp)
            exp = [v] + exp
        elif verb == "extend":
            cur.extend([v])
            exp.append(v)
        elif verb == "iadd":
            setattr(o, a, getattr(o, a).__iadd__([v]))
            exp.append(v)
        elif verb == "reverse":
            cur.reverse()
            exp.reverse()
        elif verb == "slice":
            cur[:1] = [v]
            exp[:1] = [v]
        elif verb == "share":
            # given the very list of another object (or one kept by the caller): takes its items, not the list
            other = next((m.obj for m in self.nodes if m.obj is not o and hasattr(m.obj, a) and isinstance(getattr(m.obj, a), list)), None)
            lst = getattr(other, a) if other is not None and it["n"] % 2 else [v]
            exp = list(lst)
            setattr(o, a, lst)
        got = getattr(o, a)
        if len(got) != len(exp) or any(g is not e and g != e for g, e in zip(got, exp)):
            raise Violation("edit-without-effect", f"{tn}.{a} after {verb}: {got!r}, expected {exp!r}"[:1500])
        return (a, verb)

    def e_extra(self, o, tn, verb, it):
        if tn == "ContentLine":
            box, line = None, o
        elif hasattr(o, "email"):
            o.extra[it["text"].upper()] = ["v"] if verb != "append" else ["v", "w"]
            if it["n"] % 2:
                o.extra[it["text"].upper()].append("z")
            return ("person.extra",)
        else:
            box = o if tn == "Container" else o.extra
            if verb == "nested":
                for _ in range(1 + it["n"] % 2):
                    sub = [q for q in box if hasattr(q, "data")]
                    if sub:
                        box = sub[it["n"] % len(sub)]
            lines = [q for q in box if not hasattr(q, "data")]
            if verb in ("param", "popparam"):
                lines = [q for q in deep_lines(box) if q.params]
            line = lines[it["n"] % len(lines)] if lines else None
        new = G.mk_items([it["x"]])[0]
        i = it["n"] % (len(box) + 1) if box is not None else 0
        if verb in ("append", "nested") and box is not None:
            box.append(new)
            if verb == "nested" and line is not None:
                line.value += "!"
                line.params["X-N"] = ["1"]
        elif verb == "insert" and box is not None:
            box.insert(i, new)
        elif verb == "del" and box is not None and len(box):
            del box[i % len(box)]
        elif verb == "set" and box is not None and len(box):
            box[i % len(box)] = new
        elif verb == "clear" and box is not None:
            if tn != "Container" and it["n"] % 2:
                o.strip_extras(extra_properties=True)
            else:
                box.clear()
        elif verb == "name" and box is not None and it["n"] % 4 == 0 and tn == "Container":
            box.name = "X-RENAMED"
        elif line is None:
            return None
        elif verb == "value":
            line.value = line.value + it["text"]
        elif verb == "lname":
            line.name = "X-OTHER"
        elif verb == "param" and line.params:
            l = list(line.params.values())
            l[it["n"] // 2 % len(l)].append("more")
        elif verb == "popparam" and line.params:
            line.params.pop(list(line.params)[0])
        else:
            line["X-PAR"] = ["a", "b"]
        return ("extra", verb)

    def e_xp(self, o, tn, verb, it):
        xp = o.params if tn == "ContentLine" else o.extra_params
        keys = list(xp)
        k = keys[it["n"] % len(keys)] if keys else None
        v = xp.get(k)
        if verb == "strip" and tn != "ContentLine":
            o.strip_extras(**[dict(extra_params=True), dict(property_merging=True), dict(all_extras=True)][it["n"] % 3])
        elif verb == "clear":
            xp.clear()
        elif k is None or verb == "new" or verb == "strip":
            xp["X-NEW" if tn == "ContentLine" else "SUMMARY" if tn != "Calendar" else "PRODID"] = ["a"] if tn == "ContentLine" else {"X-P": ["a"]}
        elif verb == "pop":
            xp.pop(k)
        elif verb == "set":
            xp[k] = ["z"] if tn == "ContentLine" else {"X-SET": ["z"]}
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            if verb == "append":
                v.append({"X-APP": ["1"]})
            else:
                v[it["n"] % len(v)]["X-NEST"] = ["n"]
                for q in v[it["n"] % len(v)].values():
                    q.append("+")
        elif isinstance(v, list):
            v.append("+")
        else:
            if verb == "append" and v:
                list(v.values())[0].append("+")
            else:
                v["X-NEST"] = ["n"]
        return ("params", verb, type(v).__name__)

    def e_scalar(self, o, tn, ai, it):
        utc = D.timezone.utc
        vals = {"begin": D.datetime(2021, 1, 1 + it["n"], 3), "duration": D.timedelta(hours=1 + it["n"]), "organizer": None, "geo": (1.5, it["n"]), "url": G.mk_url("http://x.org/" + it["text"]), "transparent": it["n"] % 2 == 0, "dtstamp": D.datetime(2022, 1, 1 + it["n"], tzinfo=utc),
                "created": D.datetime(2022, 2, 1 + it["n"], tzinfo=utc), "percent": it["n"], "priority": it["n"] % 10, "repeat": it["n"], "trigger": D.timedelta(minutes=it["n"]), "attach": it["text"].encode(), "status": ["CONFIRMED", "TENTATIVE", "CANCELLED"][it["n"] % 3]}
        if tn in ("Container", "ContentLine"):
            return None
        if hasattr(o, "email"):
            if it["n"] % 2:
                o.common_name = it["text"]
            else:
                o.email = it["text"] + "@x.org"
            return ("person",)
        names = SCALARS.get(tn)
        if not names:
            return None
        a = names[ai % len(names)]
        if a == "all_day":
            o.make_all_day()
            return (a,)
        if a == "organizer":
            vals[a] = self.ics.Organizer(it["text"] + "@o.org")
            self.ref(vals[a])
        v = vals.get(a, it["text"])
        try:
            setattr(o, a, v)
        except (ValueError, TypeError):
            return (a, "refused")
        return (a,)


def run(spec, run):
    core.set_rand(spec.get("rand", 1))
    if len(spec["progs"]) == 1:
        World(spec["base"], run).go(spec["progs"][0])
        return
    import ics.contentline

    shared = G.mk_calendar(spec["base"])
    text = shared.serialize()
    before = G.fp(shared)
    solo = []
    for p in spec["progs"]:
        solo.append(World(spec["base"], run, (shared, [text])).go(p))
    s = Sched(run, spec["plan"], max_steps=5_000_000)
    ws = [World(spec["base"], run, (shared, [text])) for _ in spec["progs"]]
    outs = s.run([lambda w=w, p=p: w.go(p) for w, p in zip(ws, spec["progs"])])
    run.nontrivial = s.switches > 0
    for k, o in enumerate(outs):
        if not o.ok:
            raise o.exc
        d = G.diff(solo[k], o.value)
        if d:
            raise Violation("differs-from-solo", f"thread {k}: alone != concurrent: {d}"[:2500])
    if G.fp(shared) != before or shared.serialize() != text:
        raise Violation("shared-changed", f"editing copies changed the original: {G.diff(before, G.fp(shared))}")
