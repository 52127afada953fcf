"""Deterministic scheduler for real threads.

Each simulated thread is a real interpreter thread, parked on its own gate; exactly one
runs at a time and control moves only at line events of traced code (or at a contended
cooperative lock).  A plan decides every switch and every injected interruption:

  {"sw":  [ {"gap": n, "to": k} | {"site": "event.py:120", "occ": m, "to": k} ... ],
   "int": [ {"t": thread, "gap": n} | {"t": thread, "site": "...", "occ": m} ... ],
   "first": k }

gap entries are consumed in order: after n more line events, switch to thread k (modulo the
runnable ones).  site entries fire when that source line is about to run for the occ-th time
(counted over all threads).  Nothing else decides anything, so a plan is a schedule.
"""
import dis
import os
import sys
import _thread

from . import core
from .core import Interrupt, SimStop, StepLimit, real_allocate_lock


class Outcome:
    __slots__ = ("ok", "value", "exc", "done", "interrupted")

    def __init__(self):
        self.ok = self.done = False
        self.value = self.exc = None
        self.interrupted = 0


_tables = {}


def interruptible(code, off):
    """Whether an asynchronous exception can arrive before the instruction at off.  The interpreter looks
    for signals only after calls, at function starts and when jumping backwards: one that arrives at the end
    of a protected block (with, try) is raised inside of that block, never between it and its clean-up."""
    t = _tables.get(code)
    if t is None:
        ents = [(e.start, e.end, e.target, e.depth) for e in dis._parse_exception_table(code)]
        ins = list(dis.get_instructions(code))
        t = _tables[code] = (ents, ins, {i.offset: n for n, i in enumerate(ins)})
    ents, ins, idx = t
    n = idx.get(off)
    if n is None or n == 0:
        return True
    here = [e for e in ents if e[0] <= off < e[1]]
    if any(e[2] == off for e in ents):
        return False
    if ins[n].opname in ("PUSH_EXC_INFO", "WITH_EXCEPT_START") or ins[n - 1].opname == "PUSH_EXC_INFO":
        return False
    if [i.opname for i in ins[n:n + 4]] == ["LOAD_CONST"] * 3 + ["CALL"] and ins[n].argval is None and ins[n + 3].arg == 2 and ins[n + 1].argval is None:
        return False
    prev = ins[n - 1].offset
    return all(e in here for e in ents if e[0] <= prev < e[1])


class Tracer:
    """Line events of the files under some prefixes, through sys.monitoring: only matching code is
    instrumented, and raising from the callback does not switch the events off."""

    TOOL = 3

    def __init__(self, prefixes, short):
        self.prefixes = tuple(prefixes)
        self.short = short
        self.cache = {}
        self.on = False

    def name(self, code):
        fn = code.co_filename
        try:
            return self.cache[fn]
        except KeyError:
            r = None
            if fn.startswith(self.prefixes):
                r = fn
                for p in self.short:
                    if fn.startswith(p):
                        r = fn[len(p):]
                        break
            self.cache[fn] = r
            return r

    def start(self, line_cb):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif")
        self.done = []
        LINE, DISABLE, set_local, done = m.events.LINE, m.DISABLE, m.set_local_events, self.done
        name = self.name

        def py_start(code, off):
            if name(code) is not None:
                set_local(self.TOOL, code, LINE)
                done.append(code)
            return DISABLE

        m.register_callback(self.TOOL, m.events.PY_START, py_start)
        m.register_callback(self.TOOL, m.events.LINE, line_cb)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        self.on = True

    def stop(self):
        if not self.on:
            return
        self.on = False
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        for c in self.done:
            m.set_local_events(self.TOOL, c, 0)
        m.register_callback(self.TOOL, m.events.PY_START, None)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


def default_prefixes(extra=()):
    return [core.ics_prefix(), *extra]


class Sched:
    def __init__(self, run, plan, prefixes=None, max_steps=400000, rand_seeds=None):
        self.run_rec = run
        self.plan = plan
        self.max_steps = max_steps
        self.tr = Tracer(prefixes or default_prefixes(), [core.ics_prefix()])
        self.gaps = [dict(e) for e in plan.get("sw", ()) if "gap" in e]
        self.sites = {}
        for e in plan.get("sw", ()):
            if "site" in e:
                self.sites.setdefault((e["site"], e.get("occ", 1)), ("sw", e))
        self.ints = {}
        for e in plan.get("int", ()):
            if "gap" in e:
                self.ints.setdefault(e["t"], []).append(e["gap"])
            else:
                self.sites.setdefault((e["site"], e.get("occ", 1)), ("int", e))
        self.watch = {k[0] for k in self.sites}
        self.hits = {}
        self.gap = self.gaps[0]["gap"] if self.gaps else -1
        self.steps = 0
        self.switches = 0
        self.tsteps = {}
        self.cur = None
        self.abort = False
        self.deadlock = False
        self.trail = []
        self.waiting = {}
        self.idents = {}
        self.on_switch = None
        self.profile = None
        self.armed = None  # set of threads that may be interrupted now (None: all, always)
        self.rand = rand_seeds  # per-thread entropy streams (None: one shared stream)

    # ------------------------------------------------------------------ public
    def run(self, fns):
        n = len(fns)
        self.n = n
        self.out = [Outcome() for _ in fns]
        self.gates = [real_allocate_lock() for _ in fns]
        for g in self.gates:
            g.acquire()
        self.main_gate = real_allocate_lock()
        self.main_gate.acquire()
        core.CURRENT = self
        self.tr.start(self._line)
        try:
            for k, fn in enumerate(fns):
                _thread.start_new_thread(self._body, (k, fn))
            self.cur = self.plan.get("first", 0) % n
            if self.rand:
                core.set_rand(self.rand[self.cur])
            self.gates[self.cur].release()
            self.main_gate.acquire()
        finally:
            core.CURRENT = None
            self.tr.stop()
        r = self.run_rec
        r.log("sched", self.steps, self.switches, self.trail[:200])
        r.count("context_switches", self.switches)
        r.count("steps", self.steps)
        if self.switches:
            r.cov("ilv", tuple(self.trail))
        if any(isinstance(o.exc, StepLimit) for o in self.out):
            raise core.Violation("no-progress", f"more than {self.max_steps} steps in one run")
        if self.deadlock:
            raise core.Violation("deadlock", "all simulated threads wait for locks")
        return self.out

    def inside(self):
        return _thread.get_ident() in self.idents

    # ------------------------------------------------------------------ threads
    def _body(self, k, fn):
        o = self.out[k]
        self.gates[k].acquire()
        self.idents[_thread.get_ident()] = k
        try:
            if not self.abort:
                o.value = fn()
                o.ok = True
        except BaseException as e:  # noqa: outcome is judged by the property
            o.exc = e
        finally:
            del self.idents[_thread.get_ident()]
            o.done = True
            self._leave(k)

    def _leave(self, k):
        nxt = self._runnable(k)
        if nxt is None:
            self.main_gate.release()
        else:
            self.cur = nxt
            if self.rand:
                core.set_rand(self.rand[nxt])
            self.gates[nxt].release()

    def _runnable(self, k):
        for d in range(1, self.n + 1):
            j = (k + d) % self.n
            if not self.out[j].done and j not in self.waiting:
                return j
        # nobody can run: wake a waiter (timeouts / deadlock verdict are decided there)
        for d in range(1, self.n + 1):
            j = (k + d) % self.n
            if not self.out[j].done:
                return j
        return None

    def _switch(self, k, j, why):
        if j == k or self.out[j].done:
            return
        self.switches += 1
        if len(self.trail) < 5000:
            self.trail.append((k, j, why))
        self.cur = j
        if self.rand:
            self.rand[k] = core.rand_state()
            core.set_rand(self.rand[j])
        self.gates[j].release()
        self.gates[k].acquire()
        if self.abort:
            raise SimStop()
        if self.on_switch:
            self.on_switch(k)

    def block(self, lock, timeout):
        """Called by a SimLock that is held by somebody else."""
        k = self.idents[_thread.get_ident()]
        self.run_rec.count("lock_waits")
        self.waiting[k] = lock
        live = [j for j in range(self.n) if not self.out[j].done]
        cand = [j for j in live if j != k and (j not in self.waiting or not self.waiting[j].locked())]
        if not cand:
            del self.waiting[k]
            if timeout is not None and timeout >= 0:
                return False
            self.deadlock = True
            self.abort = True
            raise SimStop()
        order = [(k + d) % self.n for d in range(1, self.n + 1)]
        j = next(x for x in order if x in cand)
        self.waiting.pop(j, None)
        self._switch(k, j, "lock")
        self.waiting.pop(k, None)
        return True

    def pause(self, why="pause"):
        """Voluntary yield for workload code (never counted as code under test)."""
        if not self.inside():
            return
        k = self.idents[_thread.get_ident()]
        self._pick(k, 1, why)

    def _pick(self, k, to, why):
        cand = [j for j in range(self.n) if not self.out[j].done and j != k and
                (j not in self.waiting or not self.waiting[j].locked())]
        if not cand:
            return
        j = cand[to % len(cand)]
        self.waiting.pop(j, None)
        self._switch(k, j, why)

    # ------------------------------------------------------------------ tracing
    def _line(self, code, lineno):
        k = self.idents.get(_thread.get_ident())
        if k is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        name = self.tr.name(code)
        if self.profile is not None:
            key = f"{name}:{lineno}"
            self.profile[key] = self.profile.get(key, 0) + 1
        if self.watch:
            key = f"{name}:{lineno}"
            if key in self.watch:
                c = self.hits[key] = self.hits.get(key, 0) + 1
                e = self.sites.get((key, c))
                if e is not None:
                    kind, e = e
                    if kind == "sw":
                        self._pick(k, e["to"], key)
                    elif e["t"] == k and (self.armed is None or k in self.armed):
                        self.ints.setdefault(k, []).insert(0, 0)
        ig = self.ints.get(k)
        if ig and (self.armed is None or k in self.armed):
            ts = self.tsteps[k] = self.tsteps.get(k, 0) + 1
            if ts >= ig[0] and interruptible(code, sys._getframe(1).f_lasti):
                ig.pop(0)
                self._interrupt(k, f"{name}:{lineno}")
        if self.gap >= 0:
            if self.gap == 0:
                e = self.gaps.pop(0)
                self.gap = self.gaps[0]["gap"] if self.gaps else -1
                self._pick(k, e["to"], f"{name}:{lineno}")
            else:
                self.gap -= 1

    def _interrupt(self, k, where):
        self.out[k].interrupted += 1
        self.run_rec.count("fault:interrupt")
        self.run_rec.log("interrupt", k, where)
        raise Interrupt(where)


class Interrupter:
    """Runs fn() in this thread, raising Interrupt at one line event of the traced code.

    at: {"step": n} (n-th line event) or {"site": s, "occ": m}; None only counts steps.
    exc: what to raise.
    """

    def __init__(self, run, at, prefixes=None, max_steps=400000, exc=Interrupt):
        self.run_rec, self.at, self.max_steps, self.exc = run, at or {}, max_steps, exc
        self.tr = Tracer(prefixes or default_prefixes(), [core.ics_prefix()])
        self.steps = 0
        self.fired = None
        self.due = False
        self.hits = 0
        self.profile = None
        self.state = self.last = None  # what to watch, and how it looked at the last line
        self.touched = set()

    def _l(self, code, lineno):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        if self.profile is not None:
            key = f"{self.tr.name(code)}:{lineno}"
            self.profile[key] = self.profile.get(key, 0) + 1
            if self.state is not None:
                sig = self.state()
                if sig != self.last:
                    self.last = sig
                    self.touched.add(key)
        if self.fired is None:
            at = self.at
            if "step" in at:
                hit = self.steps == at["step"]
            elif "site" in at:
                hit = False
                if f"{self.tr.name(code)}:{lineno}" == at["site"]:
                    self.hits += 1
                    hit = self.hits == at.get("occ", 1)
            else:
                hit = False
            self.due |= hit
            if self.due and interruptible(code, sys._getframe(1).f_lasti):
                self.fired = f"{self.tr.name(code)}:{lineno}"
                self.run_rec.count("fault:interrupt")
                self.run_rec.log("interrupt", self.fired)
                raise self.exc("injected at " + self.fired)

    def __call__(self, fn):
        o = Outcome()
        self.tr.start(self._l)
        try:
            o.value = fn()
            o.ok = True
        except BaseException as e:
            self.tr.stop()
            if isinstance(e, StepLimit):
                raise core.Violation("no-progress", f"more than {self.max_steps} steps")
            o.exc = e
        finally:
            self.tr.stop()
        o.interrupted = 1 if self.fired else 0
        return o
