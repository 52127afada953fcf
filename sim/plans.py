"""Random schedules: switches at uniformly chosen source lines (from a profile of the code as it
is now) mixed with switches after log-uniform numbers of steps."""
import dis
import math
import sys

from .sched import Interrupter


def shared_state(codes):
    """Those of the code objects that touch state shared by all threads: module globals, class attributes,
    attributes of singletons, caches in an object's __dict__.  Only makes switches there more likely."""
    import ics.converter.component as K

    mods = {m.__file__: vars(m) for m in list(sys.modules.values()) if getattr(m, "__file__", None)}
    objs = [v for f, d in mods.items() if "/ics/" in f for v in d.values() if type(v).__module__.startswith("ics.")]
    for meta in K.ComponentMeta.BY_TYPE.values():
        objs += [meta, *(getattr(meta, "converters", None) or ())]
    single = {c.__qualname__ for o in objs if not isinstance(o, type) for c in type(o).__mro__}
    res = []
    for c in codes:
        glob = mods.get(c.co_filename, {})
        ins = list(dis.get_instructions(c))
        ops = {i.opname for i in ins}
        hot = bool(ops & {"STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF"})
        for a, b in zip(ins, ins[1:]):
            if a.opname == "LOAD_GLOBAL":
                v = glob.get(a.argval)
                hot |= isinstance(v, (dict, list, set, bytearray)) or b.opname == "STORE_ATTR"
            elif a.opname in ("LOAD_FAST", "LOAD_DEREF") and b.opname == "STORE_ATTR":
                hot |= a.argval == "cls" or a.argval == "self" and c.co_qualname.rpartition(".")[0] in single
            elif a.opname == "LOAD_ATTR" and a.argval == "__dict__":
                hot = True
        if hot:
            res.append(c)
    return res


def watch(objs):
    """A function telling whether any list, dict or attribute reachable from objs is another one now.
    (Only looks at which objects there are, so it is cheap enough for every line.)"""
    lists, dicts, slots, seen, todo = [], [], [], set(), list(objs)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (list, tuple, set)):
            if not isinstance(o, tuple):
                lists.append(o)
            todo += o
        elif isinstance(o, dict):
            dicts.append(o)
            todo += o.values()
        elif getattr(o, "tzinfo", None) is not None:
            todo.append(o.tzinfo)
        elif type(o).__module__.startswith(("ics.", "dateutil.rrule")):
            if hasattr(o, "__dict__"):
                todo.append(o.__dict__)
            names = [n for c in type(o).__mro__ for n in getattr(c, "__slots__", ()) if n not in ("__weakref__", "__dict__") and isinstance(n, str)]
            if names:
                slots.append((o, names))
                todo += [getattr(o, n, None) for n in names]
    keep = list(seen)

    def sig():
        return hash((tuple([id(x) for l in lists for x in l]), tuple([id(x) for d in dicts for x in d.values()]), tuple([id(getattr(o, n, None)) for o, ns in slots for n in ns])))

    sig.keep = keep, objs
    return sig


def profile_sites(fns, warm=True):
    """Site -> number of executions, summed over sample programs (run in one thread)."""
    from . import core

    total = {}
    codes = {}
    touched = set()
    n = 0
    for fn in fns:
        it = Interrupter(core.Run(), None, max_steps=10**8)
        it.profile = {}
        if hasattr(fn, "shared"):
            it.state = watch(fn.shared)
            it.last = it.state()
        it(fn)
        touched |= it.touched
        codes.update((c, it.tr.name(c)) for c in it.tr.done)
        n += 1
        for k, v in it.profile.items():
            total[k] = total.get(k, 0) + v
    sites = sorted((k, max(1, v // n)) for k, v in total.items())
    hot = {f"{codes[c]}:{l}" for c in shared_state(codes) for _, _, l in c.co_lines()}
    return {"sites": sites, "hot": [x for x in sites if x[0] in hot], "touched": [x for x in sites if x[0] in touched]}


def pick_site(r, ctx):
    if ctx.get("touched") and r.random() < 0.3:
        # right after something that is shared was changed, if only for a moment
        s, c = r.choice(ctx["touched"])
        return s, r.choice([1, 1, 2, 3, r.randint(1, c + 1)])
    s, c = r.choice(ctx["hot"] if ctx.get("hot") and r.random() < 0.25 else ctx["sites"])
    return s, max(1, int(math.exp(r.uniform(0, math.log(c + 1)))))


def gap(r, hi=20000):
    return int(math.exp(r.uniform(0, math.log(hi))))


def gen_plan(r, ctx, n, maxsw=None, hi=20000):
    sites = ctx.get("sites") or []
    k = r.choice([1, 2, 3, 5, 8, 16, 40]) if maxsw is None else r.randint(1, maxsw)
    mode = r.random()
    sw = []
    for _ in range(k):
        if sites and (mode < 0.5 or mode < 0.75 and r.random() < 0.5):
            s, o = pick_site(r, ctx)
            sw.append({"site": s, "occ": o, "to": r.randint(0, n - 1)})
        else:
            sw.append({"gap": gap(r, hi if mode < 0.9 else 60), "to": r.randint(0, n - 1)})
    if mode >= 0.9:  # fine-grained alternation
        sw += [{"gap": r.choice([0, 1, 2, 3, 5, 10, 30]), "to": r.randint(0, n - 1)} for _ in range(r.choice([20, 60, 200]))]
    return {"sw": sw, "first": r.randint(0, n - 1)}
