"""C20: identifiers under frozen clocks, identical seeding, forks, restarts, threads, failing entropy."""
import datetime as D
import errno
import io
import json
import os
import random

from sim import core, gen as G, plans
from sim.core import Interrupt, Violation
from sim.sched import Interrupter, Sched

ID = "C20"
RUNS = {"quick": 4500, "thorough": 200000}
RULE = ("One run = up to three processes started one after the other in the same simulated world (same clock instant, process id, host and random seeds; only the operating system's entropy differs), each executing a random history of creating entries "
        "(directly, by subclass, by loading data without UID, in threads under a random schedule, in forked children, interrupted at a random step and tried again, while reading entropy fails), moving the clock back, re-seeding Python's generators, "
        "and loading, saving, copying, editing, converting the entries; all generated uids of all processes must differ and no entry's uid may ever change; 1 run in 300 creates 60000 entries. "
        "Non-trivial when at least two processes, threads or re-seedings each created an entry.")
COVER = "distinct hashes of (ways of creation, process, state of clock, seeding and entropy)"
REAL = ["ics (all of it)", "uuid, random", "real forked processes", "real interpreter threads"]
STUB = ["OS entropy (seeded stream per process, failing on demand)", "system clock", "process id, host id", "thread scheduler"]
SHRINK = ["procs.0", "procs.1", "procs.2"]
WAYS = ["event", "event", "todo", "sub", "load", "loadevent", "summary", "attrs"]


def g_ops(r, n, ctx, depth=0):
    out = []
    for _ in range(n):
        c = r.random()
        if c < 0.36:
            out.append(["new", r.choice(WAYS), r.choice([1, 1, 2, 5, 30])])
        elif c < 0.44:
            out.append(["seed", r.randint(0, 1)])
        elif c < 0.52:
            out.append(["clock", r.choice([0, 0, -1, -3600, 5, 10**6])])
        elif c < 0.60 and depth < 2:
            out.append(["fork", g_ops(r, r.choice([1, 2, 4]), ctx, depth + 1), r.choice([None, None, 0])])
        elif c < 0.66:
            out.append(["int", r.choice(WAYS), r.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 20, 30]), r.choice([1, 2])])
        elif c < 0.70:
            out.append(["noentropy", r.choice(["EIO", "EINVAL", "EPIPE"]), [["new", r.choice(WAYS), r.choice([1, 3])] for _ in range(r.choice([1, 2]))]])
        elif c < 0.76 and depth == 0:
            k = r.choice([2, 2, 3])
            out.append(["threads", [[[r.choice(WAYS), r.choice([1, 2, 3])] for _ in range(r.choice([1, 2, 3]))] for _ in range(k)], plans.gen_plan(r, ctx, k, hi=600)])
        elif c < 0.80:
            out.append(["fixed", [["new", r.choice(WAYS), 1] for _ in range(r.choice([1, 2]))]])
        elif c < 0.84:
            out.append(["explicit", G.token(r)])
        else:
            out.append(["use", r.choice(["clone", "save", "savelines", "edit", "normalize", "sort", "allday", "container", "cal", "uidless"]), r.randint(0, 20)])
    return out


def profile(run):
    return plans.profile_sites([lambda w=w: World(core.Run(), 0).new(w) for w in WAYS])


def gen(r, tier, ctx):
    if r.random() < 1 / 300:
        return {"procs": [[["seed", 0], ["bulk", 60000]]], "seeds": [1, 2, 3]}
    n = r.choice([1, 1, 2, 3])
    procs = [g_ops(r, r.choice([3, 8, 15]), ctx) for _ in range(n)]
    if r.random() < 0.5:
        procs = [procs[0]] * n  # the same program started several times
    return {"procs": procs, "seeds": [r.getrandbits(32) for _ in range(3)]}


class World:
    def __init__(self, run, proc, path="0"):
        import attr
        import ics
        from ics.event import deterministic_event_data

        self.ics, self.run, self.path = ics, run, path
        self.det = deterministic_event_data
        self.uids = []  # generated ones
        self.all = []  # (entry, uid)
        self.nfork = 0
        self.Sub = attr.s(order=False)(type("MyEvent", (ics.Event,), {}))
        self.fixed = None

    def new(self, way):
        ics = self.ics
        if way == "event":
            e = [ics.Event()]
        elif way == "todo":
            e = [ics.Todo()]
        elif way == "summary":
            e = [ics.Event(summary="same", begin=D.datetime(2020, 1, 2, 3), duration=D.timedelta(hours=1))]
        elif way == "attrs":
            e = [ics.Event(uid=None)] if False else [ics.Event(summary="x", categories=["a"]), ics.Event(summary="x", categories=["a"])]
        elif way == "sub":
            e = [type("OtherEvent", (ics.Event,), {})(), type("OtherTodo", (ics.Todo,), {})()]
        elif way == "load":
            c = ics.Calendar("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nDTSTAMP:20200101T000000Z\r\nSUMMARY:s\r\nEND:VEVENT\r\nBEGIN:VEVENT\r\nDTSTAMP:20200101T000000Z\r\nSUMMARY:s\r\nEND:VEVENT\r\n"
                             "BEGIN:VTODO\r\nSUMMARY:s\r\nEND:VTODO\r\nEND:VCALENDAR\r\n")
            e = c.events + c.todos
        else:
            from ics.contentline import string_to_container

            e = [ics.Event.from_container(string_to_container("BEGIN:VEVENT\r\nDTSTAMP:20200101T000000Z\r\nEND:VEVENT"))]
        return e

    def take(self, es, how):
        for e in es:
            u = e.uid
            if not isinstance(u, str) or not u:
                raise Violation("no-uid", f"{how}: {u!r}")
            self.all.append((e, u))
            if self.fixed is None:
                self.uids.append(u)
            elif u != self.fixed:
                self.uids.append(u)

    def stable(self, what):
        for e, u in self.all:
            if e.uid != u:
                raise Violation("uid-changed", f"{what}: uid {u!r} became {e.uid!r}")

    def go(self, ops):
        for n, op in enumerate(ops):
            self.do(op)
            self.stable(op[0] + " " + str(op[1])[:40])
        return self.uids

    def do(self, op):
        k = op[0]
        run = self.run
        if k == "new":
            for _ in range(op[2]):
                self.take(self.new(op[1]), op[1])
            run.cov(self.path, op[1])
            run.log("new", op[1], self.uids[-1:])
        elif k == "bulk":
            for _ in range(op[1]):
                self.uids.append(self.ics.Event().uid)
            run.count("bulk_entries", op[1])
        elif k == "seed":
            random.seed(op[1])
            run.count("fault:identical_seeding")
            run.cov(self.path, "seed", len(self.uids) > 0)
        elif k == "clock":
            core.set_clock(core.clock_now() + op[1] * 10**9)
            run.count("fault:clock_back" if op[1] < 0 else "fault:clock_forward" if op[1] else "clock_stopped")
        elif k == "fork":
            self.fork(op[1], op[2])
        elif k == "int":
            before = len(self.uids)
            for _ in range(op[3]):
                o = Interrupter(run, {"step": op[2]})(lambda: self.new(op[1]))
                if o.ok:
                    self.take(o.value, op[1])
                elif not isinstance(o.exc, Interrupt):
                    raise o.exc
                run.cov(self.path, "int", op[1], o.ok)
            self.take(self.new(op[1]), op[1])
        elif k == "noentropy":
            core.fail_rand(getattr(errno, op[1]))
            try:
                for w, x in [(o[1], o[2]) for o in op[2]]:
                    for _ in range(x):
                        try:
                            es = self.new(w)
                        except OSError:
                            run.count("fault:entropy_unavailable")
                            run.cov(self.path, "noentropy", w)
                        else:
                            self.take(es, w)
            finally:
                core.fail_rand(0)
            self.take(self.new("event"), "after failed entropy")
        elif k == "threads":
            s = Sched(run, op[2], max_steps=2_000_000)

            def body(p):
                return lambda: [e for w, x in p for _ in range(x) for e in self.new(w)]
            outs = s.run([body(p) for p in op[1]])
            for o in outs:
                if not o.ok:
                    raise o.exc
                self.take(o.value, "thread")
            run.cov(self.path, "threads", len(op[1]), core.h(s.trail))
        elif k == "fixed":
            u = "fix" + str(len(self.all))
            if self.fixed is not None:
                return
            self.fixed = u
            with self.det(u, D.datetime(2020, 1, 1, tzinfo=D.timezone.utc)):
                for o in op[1]:
                    self.do(o)
            self.fixed = None
            self.take(self.new("event"), "after scope")
        elif k == "explicit":
            self.all.append((self.ics.Event(uid=op[1]), op[1]))
            self.all.append((self.ics.Todo(uid=op[1]), op[1]))
        elif k == "use" and self.all:
            self.use(op[1], *self.all[op[2] % len(self.all)], op[2])

    def use(self, how, e, u, n):
        ics = self.ics
        if how in ("save", "savelines", "container", "uidless") and type(e) not in (ics.Event, ics.Todo):
            return  # classes of the user's own need converters registered to be saved
        cal = ics.Calendar(**{"events" if isinstance(e, ics.Event) else "todos": [e]})
        # (entries without times do not save reliably on their own; the uid is what matters here)
        if how == "clone":
            c = e.clone()
            self.all.append((c, u))
        elif how in ("save", "savelines"):
            t = cal.serialize() if how == "save" else "".join(cal)
            c = ics.Calendar(t if n % 2 else io.StringIO(t))
            got = (c.events + c.todos)[0]
            if got.uid != u:
                raise Violation("uid-not-kept", f"{u!r} saved and loaded is {got.uid!r}")
            self.all.append((got, u))
            if c.serialize() != t:
                raise Violation("uid-not-kept", f"{t!r} saved again: {c.serialize()!r}"[:1500])
        elif how == "edit":
            e.summary = f"edited {n}"
            try:
                e.begin = D.datetime(2020, 1, 1 + n, 5)
            except ValueError:  # an all-day entry
                pass
            e.status = "CONFIRMED"
            e.dtstamp = D.datetime(2021, 1, 1 + n, tzinfo=D.timezone.utc)
        elif how == "normalize":
            from ics.timespan import NormalizationAction as A

            cal.normalize(D.timezone.utc, A.REPLACE, A.CONVERT)
            self.all += [(x, u) for x in cal.events + cal.todos]
        elif how == "sort":
            if e.begin is not None:
                sorted([e, e.clone()])
            list(cal.timeline)
            str(e)
            e == e.clone()
        elif how == "allday":
            if e.begin is not None:
                e.make_all_day()
        elif how == "container":
            c = type(e).from_container(e.to_container()) if type(e) in (ics.Event, ics.Todo) else e
            self.all.append((c, u))
        elif how == "cal":
            c = cal.clone()
            self.all.append(((c.events + c.todos)[0], u))
        elif how == "uidless":
            # loaded again from data without uid: another entry
            box = e.to_container()
            del box["UID"]
            for _ in range(2):
                self.take([type(e).from_container(box)], "uidless")
        self.run.cov("use", how)

    def fork(self, ops, seed):
        self.nfork += 1
        path = f"{self.path}.{self.nfork}"
        r, w = os.pipe()
        ent = core.h(path, core.rand_state())
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                core.set_rand(int(ent[:12], 16))  # the system's entropy goes on, for nobody twice
                if seed is not None:
                    random.seed(seed)
                run = core.Run()
                had = len(self.uids)
                c = World(run, 0, path)
                c.all = list(self.all)
                try:
                    c.go(ops)
                    out = {"uids": c.uids, "counts": run.counts, "cov": sorted(run.covs), "dig": run.digest()}
                except Violation as v:
                    out = {"cls": v.cls, "msg": v.msg}
                except BaseException as e:
                    out = {"err": core.tb(e)}
                b = json.dumps(out).encode()
                while b:
                    b = b[os.write(w, b):]
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            buf += x
        os.close(r)
        os.waitpid(pid, 0)
        out = json.loads(buf)
        if "cls" in out:
            raise Violation(out["cls"], "in a forked child: " + out["msg"])
        if "err" in out:
            raise Violation("fork-failed", out["err"])
        self.uids += out["uids"]
        self.run.count("forks")
        for k, v in out["counts"].items():
            self.run.count(k, v)
        for c in out["cov"]:
            self.run.covs.add(c)
        self.run.log("fork", out["dig"])


def proc(k):
    def ph(spec, run, carry):
        carry = carry or {"uids": [], "parts": 0}
        core.set_rand(spec["rand"] ^ (spec["seeds"][k] << 8))
        random.seed(spec["rand"] + k)  # an unseeded generator starts from entropy
        w = World(run, k, str(k))
        carry["uids"] += w.go(spec["procs"][k])
        carry["parts"] += sum(1 for o in spec["procs"][k] if o[0] in ("fork", "threads", "seed", "int")) + 1
        u = carry["uids"]
        if len(set(u)) != len(u):
            seen = {}
            for i, x in enumerate(u):
                if x in seen:
                    raise Violation("duplicate-uid", f"entries {seen[x]} and {i} of {len(u)} (process {k}) both got {x!r}")
                seen[x] = i
        run.count("uids", len(w.uids))
        run.nontrivial = carry["parts"] > 1
        if k + 1 >= len(spec["procs"]):
            carry["_goto"] = 3
        return carry

    return ph


PHASES = [("A", proc(0)), ("B", proc(1)), ("A", proc(2))]
