"""Zygote: one interpreter with the code under test imported; forks one child per run.

stdin/stdout speak one JSON object per line.  A job is
  {"prop": "C01", "seed": 1, "index": 7, "tier": "quick", "phase": 0, "carry": ..., "ctx": {...},
   "spec": {...} (optional, replaces generation), "timeout": 30, "want_spec": bool, "steplimit": bool}
"""
import gc
import importlib
import json
import os
import resource
import select
import signal
import sys
import traceback


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.dirname(here))
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    from sim import core

    core.install()
    import warnings

    warnings.simplefilter("ignore")
    mods = json.loads(sys.argv[1])
    mode = sys.argv[2]
    pre = {}
    for m in mods:
        pre[m] = importlib.import_module("props." + m.lower())
    import ics

    assert os.path.abspath(ics.__file__).startswith(os.path.abspath(repo) + os.sep), ics.__file__
    if mode == "warm":
        ics.initialize_converters()
        import ics.timezone.converters  # noqa
        import ics_vtimezones  # noqa
        import zoneinfo  # noqa
        import dateutil.tz  # noqa
        import pkgutil

        try:
            import tzdata

            for p in pkgutil.walk_packages(tzdata.__path__, "tzdata."):
                importlib.import_module(p.name)
        except ImportError:
            pass
    gc.collect()
    gc.freeze()
    gc.disable()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    out.write(json.dumps({"ready": True}) + "\n")
    # This process does nothing but fork from here on, so that all runs start from one and the same heap: a job is read and
    # its spec generated by other processes. (Code that misuses id() as a key behaves the same in a run and its replay.)
    while True:
        pid = os.fork()
        if pid == 0:
            try:
                serve(out, pre)
            finally:
                os._exit(3)
        _, st = os.waitpid(pid, 0)
        if st:
            break


def serve(out, pre):
    jr, jw = os.pipe()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(jw)
        os.close(r)
        reply(w, lambda: execute(jr, pre))
    os.close(jr)
    os.close(w)
    line = b""
    while not line.endswith(b"\n"):
        b = os.read(0, 1 << 16)
        if not b:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os._exit(1)
        line += b
    job = json.loads(line)
    err = None
    if job.get("spec") is None and not job.get("profile"):
        gr, gw = os.pipe()
        gp = os.fork()
        if gp == 0:
            os.close(gr)
            reply(gw, lambda: generate(job, pre[job["prop"]]))
        os.close(gw)
        got, _ = collect(gp, gr, 60)
        try:
            got = json.loads(got)
            job["spec"] = got["spec"]
        except (ValueError, TypeError, KeyError):
            err = json.dumps({"status": "error", "msg": "no spec: " + str(got)[:2500]})
    if err:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        out.write(err + "\n")
    else:
        keep = {k: job.get(k) for k in ("prop", "spec", "phase", "carry", "profile", "steplimit")}
        keep["want_spec"] = int(bool(job.get("want_spec")))
        mv = memoryview(json.dumps(keep).encode())
        while mv:
            mv = mv[os.write(jw, mv):]
        os.close(jw)
        s, st = collect(pid, r, job.get("timeout", 30))
        if s is None:
            s = json.dumps({"status": "timeout"})
        out.write((s or json.dumps({"status": "error", "msg": f"child died, wait status {st}"})) + "\n")
    out.flush()
    os._exit(0)


def reply(w, fn):
    """Write what fn returns and end this process."""
    try:
        mv = memoryview(fn().encode())
        while mv:
            mv = mv[os.write(w, mv):]
    except BaseException:
        try:
            os.write(w, json.dumps({"status": "error", "msg": traceback.format_exc()[-1500:]}).encode())
        except BaseException:
            pass
    finally:
        os._exit(0)


def collect(pid, r, timeout):
    import time

    buf = []
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        rr = left > 0 and select.select([r], [], [], left)[0]
        if not rr:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return None if timed_out else b"".join(buf).decode(), st


def generate(job, mod):
    from sim import core

    ctx = json.load(open(job["ctx"])) if job.get("ctx") else {}
    rng = core.rng_for(job["seed"], job["prop"], job["index"])
    spec = mod.gen(rng, job["tier"], ctx)
    spec.setdefault("rand", rng.getrandbits(48))
    return json.dumps({"spec": spec})


def execute(jr, pre):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    line = b""
    while True:
        b = os.read(jr, 1 << 16)
        if not b:
            break
        line += b
    job = json.loads(line)
    os.close(jr)
    return child(job, pre[job["prop"]])


def child(job, mod):
    from sim import core

    run = core.Run()
    res = {}
    if job.get("profile"):
        core.set_tz("UTC0")
        core.set_clock(1_600_000_000 * 10**9)
        core.set_rand(5)
        return json.dumps({"status": "ok", "ctx": mod.profile(run)})
    spec = job["spec"]
    # every run starts from the same simulated world
    core.set_tz("UTC0")
    core.set_clock(1_600_000_000 * 10**9)
    core.set_rand(spec["rand"])
    fn = mod.PHASES[job.get("phase", 0)][1] if hasattr(mod, "PHASES") else mod.run
    if job.get("steplimit"):
        fn = limited(fn)
    try:
        if hasattr(mod, "PHASES"):
            res["carry"] = fn(spec, run, job.get("carry"))
        else:
            fn(spec, run)
        res["status"] = "ok"
    except core.Violation as v:
        res.update(status="violation", cls=v.cls, msg=v.msg[:3000])
    except core.StepLimit:
        res.update(status="violation", cls="no-progress", msg="step budget exceeded")
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        ours = [f for f in tb if f.filename.startswith(core.ics_prefix())]
        if ours and not isinstance(e, (core.SimStop, SystemExit, MemoryError)):
            f = ours[-1]
            res.update(status="violation", cls="unexpected-exception:" + type(e).__name__,
                       msg=f"{core.describe_exc(e)} at {os.path.basename(f.filename)}:{f.lineno} in {f.name}\n"
                       + "".join(traceback.format_tb(e.__traceback__))[-1500:])
        else:
            res.update(status="error", msg=traceback.format_exc()[-2500:])
    res["digest"] = run.digest()
    res["counts"] = run.counts
    res["cov"] = sorted(run.covs)
    res["simtime"] = run.simtime
    res["nontrivial"] = bool(run.nontrivial)
    if job.get("want_spec") or res["status"] != "ok":
        res["spec"] = spec
        res["events"] = run.events[-400:]
    return json.dumps(res)


def limited(fn, limit=60_000_000):
    from sim import core

    def wrapped(*a):
        n = 0

        def tr(frame, event, arg):
            nonlocal n
            n += 1
            if n > limit:
                raise core.StepLimit()
            return tr

        sys.settrace(tr)
        try:
            return fn(*a)
        finally:
            sys.settrace(None)

    return wrapped


if __name__ == "__main__":
    main()
