"""A small language of library operations, used as thread programs.

A program is a list of ops over a private environment; executing an op gives a JSON-able picture
of everything observable about it (result or error).  The same program therefore can be run alone
and under any schedule, and the two lists of pictures compared."""
import contextlib
import datetime as D
import json
import re

from . import foreign as F, gen as G

READ = ["save", "save", "query", "query", "sort", "zone", "zoneof", "zoneof", "str", "clone", "cmp", "tline", "within", "attrs", "tzser"]


def clean(e):
    return ["exc", type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e))[:1500]]


# ------------------------------------------------------------------ generation
MUT = ["cut", "dropline", "badend", "badtime", "swap", "nocolon", "badparam", "twice", "blank", "lower"]


def gen_dt(r):
    return [r.randint(2008, 2034), r.choice([1, 2, 5, 6, 7, 12]), r.randint(3, 20), r.randint(4, 20), r.choice([0, 30]), 0]


def gen_op(r, kinds, small=True):
    k = r.choice(kinds)
    if k == "build":
        return [k, G.calendar(r, n_events=r.choice([0, 1, 1, 2]), n_todos=r.choice([0, 0, 1]), rich=r.choice([0, 0.3, 1.0]))]
    if k == "save":
        return [k, r.randint(0, 3), r.choice(["text", "iter", "container", "entry"])]
    if k == "load":
        return [k, r.randint(0, 3), r.choice(["text", "lines", "container", "entries"])]
    if k == "bad":
        return [k, r.randint(0, 3), r.choice(MUT), r.random()]
    if k == "multi":
        return [k, [r.randint(0, 3) for _ in range(r.randint(1, 3))]]
    if k == "lines":
        return [k, raw_lines(r), r.choice(["text", "lines"])]
    if k == "edit":
        a = r.choice(["summary", "description", "begin", "end", "duration", "status", "priority", "percent", "url", "created", "dtstamp", "uid", "geo", "categories", "all_day", "unset", "due"])
        v = {"summary": G.text(r), "description": G.text(r), "begin": gen_dt(r), "end": gen_dt(r), "due": gen_dt(r), "duration": r.choice([0, 3600, 86400, -5]), "status": r.choice(["TENTATIVE", "confirmed", "NOPE", None]),
             "priority": r.randint(-1, 11), "percent": r.randint(-1, 120), "url": G.url(r), "created": G.utcdt(r), "dtstamp": r.choice([None, G.utcdt(r)]), "uid": G.token(r), "geo": [1.5, r.randint(-90, 90)],
             "categories": [G.token(r)], "all_day": None, "unset": None}[a]
        return [k, r.randint(0, 3), r.randint(0, 3), a, v]
    if k == "query":
        return [k, r.randint(0, 3), r.choice(["all", "included", "overlapping", "start_after", "at", "on", "ons", "now", "today"]), gen_dt(r), r.choice([3600, 86400, 86400 * 400, 86400 * 9000]), r.choice([None, "utc:ics", "utc:std", "off:7200"])]
    if k in ("sort", "str", "cmp", "tline", "attrs", "tzser"):
        return [k, r.randint(0, 3)]
    if k == "within":
        return [k, r.randint(0, 3), r.choice(["includes", "intersects", "is_included_in", "starts_within", "ends_within"])]
    if k == "person":
        return [k, G.person(r, "attendee"), r.choice([None, "TRUE", "FALSE"]), G.text(r, 2)]
    if k == "zone":
        return [k, r.choice(G.ZONES + ["Etc/UTC", "Nowhere/Land", "syn:1", "syn:2"]), [gen_dt(r) + [None, r.choice([0, 1])] for _ in range(r.choice([1, 3, 14]))]]
    if k == "zoneof":
        return [k, r.randint(0, 3), [gen_dt(r) + [None, r.choice([0, 1])] for _ in range(r.choice([3, 14]))]]
    if k == "norm":
        return [k, r.randint(0, 3), r.choice(["utc:ics", "utc:std", "off:3600", "zi:Asia/Tokyo"]), r.randint(0, 2), r.randint(0, 2)]
    if k == "clone":
        return [k, r.randint(0, 3), r.randint(0, 3)]
    if k == "box":
        return [k, [r.choice([["append", G.xline(r)], ["extend", [G.xline(r), G.xline(r)]], ["insert", 0, G.xline(r)], ["badext", G.xline(r)], ["badapp"], ["del", r.randint(0, 3)], ["set", r.randint(0, 2), G.xline(r)],
                               ["ser"], ["clone"], ["get", r.randint(0, 2)]]) for _ in range(r.randint(2, 8))]]
    if k == "wrap":
        return [k, r.choice([0, 20, 30, 50, 75, 100]), [gen_op(r, ["save", "save", "box", "load", "bad"]) for _ in range(r.randint(1, 2))]]
    if k == "det":
        return [k, "fix-" + G.token(r), G.utcdt(r), [gen_op(r, ["new", "new", "load", "save"]) for _ in range(r.randint(1, 3))]]
    if k == "foreign":
        return [k, F.text(r, True), r.choice(["text", "lines"])]
    if k == "new":
        return [k, r.choice(["event", "todo"]), gen_dt(r), G.text(r, 3)]
    if k == "alarm":
        return [k, [G.alarm(r) for _ in range(r.randint(1, 2))]]
    raise ValueError(k)


ALL = ["build", "build", "save", "save", "save", "load", "load", "load", "bad", "bad", "multi", "lines", "lines", "edit", "edit", "query", "query", "sort", "zone", "zoneof", "norm", "clone", "box", "wrap", "det", "str", "cmp",
       "person", "alarm", "tline", "within", "foreign"]


def raw_lines(r):
    """Raw property lines exercising the tokenizer: quoted values, escapes, errors."""
    out = []
    for _ in range(r.randint(1, 6)):
        c = r.random()
        if c < 0.5:
            ps = "".join(";%s=%s" % (G.token(r, 4), ",".join(r.choice(["a", '"q;u:o,te"', "b^nc", "x^^y", "z^'z", "日", "plain text"]) for _ in range(r.randint(1, 3)))) for _ in range(r.randint(0, 3)))
            out.append("X-" + G.token(r) + ps + ":" + G.raw_value(r))
        elif c < 0.6:
            out.append(r.choice(["no colon here", "A;B:c", 'A;B="open:c', 'A;B="x"y:c', "A;B=:c", "A;B=a,:c", "A;B=^x:c", ";=:", ":v"]))
        elif c < 0.8:
            b = "X-" + G.token(r, 4)
            out += ["BEGIN:" + b, "A:1", "BEGIN:INNER", "B;P=1:2", "END:INNER", "END:" + r.choice([b, b, b, b.lower(), "OTHER"])]
        elif c < 0.9 and out:
            out.append(r.choice([" folded", "\tfolded"]))
        else:
            out.append("")
    return out


def gen_prog(r, n, kinds=ALL):
    p = [gen_op(r, ["build"])]
    if r.random() < 0.8:
        p.append(["save", 0, "text"])
    p += [gen_op(r, kinds) for _ in range(n)]
    return p


# ------------------------------------------------------------------ execution
class Env:
    def __init__(self, cals=()):
        self.cals = list(cals)
        self.texts = ["BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART:20200102T030405Z\r\nSUMMARY;X-P=1:hello\r\nX-FOO;A=\"b;c\":bar\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"]
        self.zones = {}
        self.cache = {}

    def cal(self, i):
        return self.cals[i % len(self.cals)] if self.cals else None

    def text(self, i):
        return self.texts[-1 - i % len(self.texts)]


def jv(o):
    return json.loads(json.dumps(o, default=str))


def ident(e):
    return [e.uid, e.summary, G.c_dt(e.begin)]


def do(op, env):
    """Executes one op; Exceptions become part of the picture, BaseExceptions pass."""
    try:
        return jv(_do(op, env))
    except Exception as e:
        return clean(e)


def _do(op, env):
    import ics

    k = op[0]
    if k == "build":
        c = G.mk_calendar(op[1], {})
        v = G.c_calendar(c)
        env.cals.append(c)
        return v
    if k == "save":
        c = env.cal(op[1])
        if c is None:
            return None
        if op[2] == "text":
            t = c.serialize()
            env.texts.append(t)
            return t
        if op[2] == "iter":
            return list(c)
        if op[2] == "container":
            x = c.to_container()
            return [G.c_item(x), str(x)[:2000]]
        return [e.serialize() for e in [*c.events, *c.todos]]
    if k == "iter":
        return list(env.cal(op[1]))
    if k == "load":
        t = env.text(op[1])
        if op[2] == "text":
            c = ics.Calendar(t)
        elif op[2] == "lines":
            c = ics.Calendar(iter(t.split("\r\n")))
        elif op[2] == "container":
            from ics.contentline import string_to_container

            c = ics.Calendar(string_to_container(t))
        else:
            from ics.contentline import string_to_container

            box = string_to_container(t)
            return [G.c_entry(ics.Event.from_container(x)) for x in box["VEVENT"]] + [G.c_entry(ics.Todo.from_container(x)) for x in box["VTODO"]]
        v = G.c_calendar(c)
        env.cals.append(c)
        return v
    if k == "foreign":
        c = ics.Calendar(op[1] if op[2] == "text" else iter(op[1].split("\r\n")))
        v = G.c_calendar(c)
        env.cals.append(c)
        return [v, c.serialize()]
    if k == "bad":
        t = mutate(env.text(op[1]), op[2], op[3])
        return G.c_calendar(ics.Calendar(t))
    if k == "multi":
        return [G.c_calendar(c) for c in ics.Calendar.parse_multiple("".join(env.text(i) for i in op[1]))]
    if k == "lines":
        from ics.contentline import lines_to_containers, string_to_containers

        it = string_to_containers("\r\n".join(op[1])) if op[2] == "text" else lines_to_containers(op[1])
        out = []
        try:
            for x in it:
                out.append(G.c_item(x))
                out.append(x.serialize())
        except Exception as e:
            out.append(clean(e))
        return out
    if k == "edit":
        return edit(env, op)
    if k == "query":
        return query(env, op)
    if k == "sort":
        c = env.cal(op[1])
        return c and [ident(e) for e in sorted([*c.events, *c.todos])]
    if k == "cmp":
        c = env.cal(op[1])
        es = c and [*c.events, *c.todos]
        return c and [[a < b, a <= b, a > b, a >= b, a == b] for a in es for b in es][:40]
    if k == "within":
        c = env.cal(op[1])
        if c is None:
            return None
        out = []
        for a in c.events:
            for b in c.events:
                try:
                    out.append(getattr(a, op[2])(b))
                except ValueError as e:
                    out.append(str(e))
        return out
    if k == "tline":
        c = env.cal(op[1])
        return c and [[str(t), ident(e)] for t, e in c.timeline.iterator()]
    if k == "str":
        c = env.cal(op[1])
        return c and [str(c), [str(e) for e in c.events], [str(e.timespan) for e in c.todos], [repr(e.extra) for e in c.events]]
    if k == "attrs":
        c = env.cal(op[1])
        if c is None:
            return None
        out = [c.creator, c.version]
        for e in [*c.events, *c.todos]:
            out.append([G.c_dt(e.begin), G.c_dt(e.end), str(e.duration), e.all_day, e.floating, e.has_explicit_end, e.end_representation, str(e.timespan)])
            if hasattr(e, "attendees"):
                for a in e.attendees:
                    for f in ("common_name", "user_type", "role", "status", "rsvp", "member", "sent_by", "delegated_to"):
                        try:
                            out.append(str(getattr(a, f)))
                        except ValueError as x:
                            out.append(str(x))
        return out
    if k == "tzser":
        from ics.timezone import Timezone

        c = env.cal(op[1])
        if c is None:
            return None
        out = []
        for e in c.events:
            z = e.begin.tzinfo if e.begin is not None else None
            if z is not None:
                try:
                    t = Timezone.from_tzinfo(z)
                    out += [str(t), t.is_builtin, t.to_container().serialize()]
                except ValueError as x:
                    out.append(clean(x))
        return out
    if k == "person":
        a = G.mk_person(op[1], "attendee")
        a.common_name = op[3]
        a.user_type = "ROOM"
        if op[2]:
            a.rsvp = op[2] == "TRUE"
        return [a.common_name, a.rsvp, a.role, a.status, G.c_person(a)]
    if k == "alarm":
        out = []
        for s in op[1]:
            a = G.mk_alarm(s)
            x = a.to_container()
            out.append([G.c_alarm(a), x.serialize()])
        return out
    if k == "zone":
        if op[1].startswith("syn:"):
            z = env.zones.get(op[1]) or env.zones.setdefault(op[1], G.syn_zone(int(op[1][4:])))
        else:
            z = env.zones.get(op[1])
            if z is None:
                z = env.zones[op[1]] = ics.Timezone.from_tzid(op[1])
        return [str(z), lookups(z, op[2])]
    if k == "zoneof":
        c = env.cal(op[1])
        if c is None:
            return None
        return [lookups(e.begin.tzinfo, op[2]) for e in c.events if e.begin is not None and e.begin.tzinfo is not None]
    if k == "norm":
        from ics.timespan import NormalizationAction as NA

        c = env.cal(op[1])
        if c is None:
            return None
        try:
            c.normalize(G.tz_of(op[2]), NA(op[3]), NA(op[4]))
        finally:
            r = [G.c_timespan(e.timespan) for e in [*c.events, *c.todos]]
        return r
    if k == "clone":
        c = env.cal(op[1])
        if c is None or not c.events:
            return None
        e = c.events[op[2] % len(c.events)]
        n = e.clone()
        return [G.c_entry(n), n == e]
    if k == "box":
        return box(op[1])
    if k == "wrap":
        from ics.contentline.container import contentline_set_wrap

        with contentline_set_wrap(op[1]):
            return [do(o, env) for o in op[2]]
    if k == "det":
        from ics.event import deterministic_event_data

        with deterministic_event_data(op[1], G.mk_dt(op[2])):
            return [do(o, env) for o in op[3]]
    if k == "new":
        b = D.datetime(*op[2])
        e = ics.Event(op[3], begin=b) if op[1] == "event" else ics.Todo(begin=b, summary=op[3])
        uid = e.uid
        if not uid.startswith("fix-"):
            e.uid = "fresh"
        return G.c_entry(e)
    raise ValueError(k)


def lookups(z, dts):
    out = []
    for d in dts:
        x = G.mk_dt(d).replace(tzinfo=z)
        o = x.utcoffset()
        s = x.dst()
        out.append([o.total_seconds(), s.total_seconds() if s is not None else None, x.tzname()])
    return out


def mutate(t, how, f):
    lines = t.split("\r\n")
    i = int(f * (len(lines) - 1))
    if how == "cut":
        return t[: int(f * len(t))]
    if how == "dropline":
        del lines[i]
    elif how == "badend":
        for j, l in enumerate(lines):
            if l.startswith("END:") and j >= i:
                lines[j] = "END:WRONG"
                break
    elif how == "badtime":
        lines = [re.sub(r"^(DTSTART|DTSTAMP)([^:]*):.*", r"\1\2:2020130T99", l) for l in lines]
    elif how == "swap":
        j = min(i + 1, len(lines) - 1)
        lines[i], lines[j] = lines[j], lines[i]
    elif how == "nocolon":
        lines[i] = lines[i].replace(":", "")
    elif how == "badparam":
        lines[i] = lines[i].replace(":", ";X-Q=^q:", 1)
    elif how == "twice":
        lines.insert(i, lines[i])
    elif how == "blank":
        lines.insert(i, "")
    elif how == "lower":
        lines[i] = lines[i].lower()
    return "\r\n".join(lines)


def edit(env, op):
    from urllib.parse import urlparse

    _, i, n, a, v = op
    c = env.cal(i)
    es = c and [*c.events, *c.todos]
    if not es:
        return None
    e = es[n % len(es)]
    if a in ("begin", "end", "due"):
        tz = e.begin.tzinfo if e.begin is not None else None
        v = D.datetime(*v, tzinfo=tz)
    elif a == "duration":
        v = D.timedelta(seconds=v)
    elif a in ("created", "dtstamp"):
        v = G.mk_dt(v)
    elif a == "url":
        v = urlparse(v)
    elif a == "geo":
        v = tuple(v)
    try:
        if a == "all_day":
            e.make_all_day()
        elif a == "unset":
            e.unset_all_day()
        elif a == "due" and not hasattr(e, "due"):
            return None
        elif a in ("priority", "percent") and not hasattr(e, a) or a in ("geo", "categories") and not hasattr(e, a):
            return None
        else:
            setattr(e, a, v)
        res = "ok"
    except Exception as x:
        res = clean(x)
    return [res, G.c_entry(e)]


def query(env, op):
    import ics
    from ics.timeline import Timeline
    from ics.timespan import Normalization

    _, i, kind, d, span, norm = op
    c = env.cal(i)
    if c is None:
        return None
    t = c.timeline
    if norm is not None:
        t = Timeline(c, Normalization(G.tz_of(norm), True, True))
    b = D.datetime(*d)
    if kind == "all":
        it = iter(t)
    elif kind in ("included", "overlapping"):
        it = getattr(t, kind)(b, b + D.timedelta(seconds=span))
    elif kind in ("start_after", "at", "on"):
        it = getattr(t, kind)(b)
    elif kind == "ons":
        it = t.on(b, strict=True)
    else:
        it = getattr(t, kind)()
    return [ident(e) for e in it]


def box(ops):
    from ics import Container, ContentLine

    mk = lambda x: ContentLine(x["name"], {k: list(v) for k, v in x["params"].items()}, x["value"])
    b = Container("X-BOX")
    out = []
    for o in ops:
        try:
            if o[0] == "append":
                b.append(mk(o[1]))
            elif o[0] == "extend":
                b.extend(mk(x) for x in o[1])
            elif o[0] == "insert":
                b.insert(o[1], mk(o[2]))
            elif o[0] == "badext":
                b.extend([mk(o[1]), "nope"])
            elif o[0] == "badapp":
                b.append(3)
            elif o[0] == "del":
                del b[o[1]]
            elif o[0] == "set":
                b[o[1]] = mk(o[2])
            elif o[0] == "ser":
                out.append(b.serialize())
            elif o[0] == "clone":
                b = b.clone(deep=True)
            elif o[0] == "get":
                out.append(G.c_item(b[o[1]]))
        except Exception as e:
            out.append(clean(e))
        out.append(len(b))
    return [out, G.c_item(b)]


def run_prog(prog, env, after=None):
    out = []
    for op in prog:
        out.append(do(op, env))
        if after:
            after()
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, G.diff(x, y) or f"{x!r} != {y!r}"[:800]
    return None
