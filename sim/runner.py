"""Seeded search driver: runs many simulated runs of one property, confirms and minimises
failures, writes the evidence and replay files.

usage: runner.py check C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
       runner.py replay FILE
       runner.py digests C01 [--seed N] [--runs N] [--jobs N] [--hashseed H]   (determinism self-test)
"""
import argparse
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
sys.path.insert(0, VERIF)


# ------------------------------------------------------------------------- plumbing
def build_shim():
    src = os.path.join(HERE, "shim.c")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "verif-build")):
        so = os.path.join(d, f"shim-{tag}.so")
        if os.path.exists(so):
            return so
        try:
            os.makedirs(d, exist_ok=True)
            tmp = f"{so}.{os.getpid()}"
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            os.replace(tmp, so)
            return so
        except OSError:
            continue
    raise RuntimeError("cannot build shim")


_aslr = None


def no_aslr():
    """Fixed addresses where the kernel allows it (only id()-ordered debug output could differ otherwise)."""
    global _aslr
    if _aslr is None:
        try:
            ok = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            ok = False
        _aslr = ["setarch", "-R"] if ok else []
    return _aslr


class Zygote:
    def __init__(self, mods, mode, hashseed, cache, ctx=None):
        # the same environment for every run, as it is part of the heap
        env = {"PATH": os.defpath, "HOME": "/", "VERIF_REPO": os.environ.get("VERIF_REPO") or "/repo"}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONPYCACHEPREFIX="pyc", LD_PRELOAD=build_shim(),
                   TZ="UTC0", LANG="C.UTF-8", PYTHONUTF8="1")
        self.p = subprocess.Popen([*no_aslr(), PY, os.path.join(HERE, "zygote.py"), json.dumps(mods), mode],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=env, cwd=cache, text=True)
        self.err = []
        threading.Thread(target=self._drain, daemon=True).start()
        l = self.p.stdout.readline()
        if not l:
            self.p.wait()
            time.sleep(0.1)
            raise RuntimeError("zygote failed to start: " + "".join(self.err)[-3000:])
        self.ctx = ctx

    def _drain(self):
        for l in self.p.stderr:
            self.err.append(l)
            del self.err[:-200]

    def job(self, **job):
        job["ctx"] = self.ctx
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError("zygote died: " + "".join(self.err)[-3000:])
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()


class Node:
    """What one worker owns: the zygotes its runs need."""

    def __init__(self, mod, cache, hs=0, ctx=None):
        self.mod, self.cache, self.hs, self.ctx = mod, cache, hs, ctx
        self.z = {}

    def zyg(self, name):
        if name not in self.z:
            mode = getattr(self.mod, "ZYGOTE", "warm")
            hs = self.hs + (0 if name == "A" else 4711)
            self.z[name] = Zygote([self.mod.ID], mode, hs, self.cache, self.ctx)
        return self.z[name]

    def run(self, **job):
        job.setdefault("prop", self.mod.ID)
        phases = getattr(self.mod, "PHASES", [("A", None)])
        carry = None
        total = None
        for k, (zname, _) in enumerate(phases):
            if isinstance(carry, dict) and k < carry.get("_goto", 0):
                continue  # a phase this spec has no use for
            t = {"timeout": 30, **job, "phase": k, "carry": carry}
            r = self.zyg(zname).job(**t)
            if r["status"] == "timeout":
                # decide liveness by counting steps instead of seconds
                r2 = self.zyg(zname).job(**{**t, "timeout": 240, "steplimit": True, "want_spec": True})
                if r2["status"] != "violation":
                    r2 = {"status": "error", "msg": "run timed out, but not within the step limit: " + str(r2.get("msg", r2["status"]))}
                r = r2
            if total is None:
                total = r
            else:
                total["digest"] = hashlib.sha256((total["digest"] + r.get("digest", "")).encode()).hexdigest()[:24]
                for c, v in r.get("counts", {}).items():
                    total["counts"][c] = total["counts"].get(c, 0) + v
                total["cov"] = sorted(set(total["cov"]) | set(r.get("cov", ())))
                total["simtime"] += r.get("simtime", 0)
                total["nontrivial"] = total["nontrivial"] or r.get("nontrivial", False)
                for f in ("status", "cls", "msg"):
                    if f in r:
                        total[f] = r[f]
                if "spec" in r:
                    total["spec"] = r["spec"]
                    total["events"] = total.get("events", []) + r["events"]
            if r["status"] != "ok":
                break
            carry = r.get("carry")
        total.pop("carry", None)
        return total

    def close(self):
        for z in self.z.values():
            z.close()


class Pool:
    def __init__(self, mod, jobs, hs=0):
        self.mod, self.jobs = mod, jobs
        self.cache = tempfile.mkdtemp(prefix="verif-pyc-")
        self.nodes = []
        self.ctx = None
        # the first one compiles what is imported; those that run start alike
        first = Node(mod, self.cache, hs)
        try:
            first.zyg("A")
            if hasattr(mod, "profile"):
                r = first.zyg("A").job(prop=mod.ID, profile=True, timeout=120)
                if r["status"] != "ok":
                    raise RuntimeError("profile failed: " + json.dumps(r)[:3000])
                self.ctx = os.path.join(self.cache, "ctx.json")
                with open(self.ctx, "w") as f:
                    json.dump(r["ctx"], f)
        except BaseException:
            shutil.rmtree(self.cache, ignore_errors=True)
            raise
        finally:
            first.close()
        for _ in range(jobs):
            self.nodes.append(Node(mod, self.cache, hs, self.ctx))
        ths = [threading.Thread(target=n.zyg, args=("A",)) for n in self.nodes]
        [t.start() for t in ths]
        [t.join() for t in ths]

    def close(self):
        for n in self.nodes:
            n.close()
        shutil.rmtree(self.cache, ignore_errors=True)

    def map(self, jobs_list):
        """Run jobs in parallel, results in order."""
        res = [None] * len(jobs_list)
        q = queue.Queue()
        for i, j in enumerate(jobs_list):
            q.put((i, j))

        def work(n):
            while True:
                try:
                    i, j = q.get_nowait()
                except queue.Empty:
                    return
                res[i] = n.run(**j)

        ths = [threading.Thread(target=work, args=(n,)) for n in self.nodes]
        [t.start() for t in ths]
        [t.join() for t in ths]
        return res


# ------------------------------------------------------------------------- minimiser
def get_path(spec, path):
    o = spec
    for p in path.split("."):
        if isinstance(o, list):
            if not p.isdigit() or int(p) >= len(o):
                return None
            o = o[int(p)]
        elif isinstance(o, dict) and p in o:
            o = o[p]
        else:
            return None
    return o


def with_path(spec, path, value):
    s = json.loads(json.dumps(spec))
    o = s
    ps = path.split(".")
    for p in ps[:-1]:
        o = o[int(p)] if isinstance(o, list) else o[p]
    if isinstance(o, list):
        o[int(ps[-1])] = value
    else:
        o[ps[-1]] = value
    return s


def minimise(pool, spec, cls, budget_s):
    end = time.monotonic() + budget_s
    mod = pool.mod
    tried = 0
    trail = []

    def test_many(cands):
        nonlocal tried
        for off in range(0, len(cands), len(pool.nodes)):
            if time.monotonic() > end:
                return None
            batch = cands[off:off + len(pool.nodes)]
            rs = pool.map([{"spec": c, "index": 0, "seed": 0, "tier": "quick"} for c in batch])
            tried += len(batch)
            for c, r in zip(batch, rs):
                if r["status"] == "violation" and r["cls"] == cls:
                    return c
        return None

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        paths = list(getattr(mod, "SHRINK", []))
        if hasattr(mod, "shrink_paths"):
            paths += mod.shrink_paths(spec)
        for path in paths:
            lst = get_path(spec, path)
            if not isinstance(lst, list) or not lst:
                continue
            n = 1
            while True:
                lst = get_path(spec, path)
                if lst is None or not lst:
                    break
                size = max(1, -(-len(lst) // n))
                cands = []
                for a in range(0, len(lst), size):
                    cands.append(with_path(spec, path, lst[:a] + lst[a + size:]))
                got = test_many(cands)
                if got is not None:
                    trail.append(f"{path}: {len(lst)} -> {len(get_path(got, path))}")
                    spec = got
                    changed = True
                    n = max(1, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(lst), n * 2)
                if time.monotonic() > end:
                    break
        if hasattr(mod, "simplify"):
            while time.monotonic() < end:
                got = test_many(list(mod.simplify(spec))[:200])
                if got is None:
                    break
                spec = got
                changed = True
    return spec, tried, trail


# ------------------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def load(prop):
    return importlib.import_module("props." + prop.lower())


# ------------------------------------------------------------------------- commands
def cmd_check(a):
    t0 = time.monotonic()
    mod = load(a.prop)
    tier = a.tier
    runs = a.runs or mod.RUNS[tier]
    wall = a.wall or {"quick": 100, "thorough": 780}[tier]
    pool = Pool(mod, a.jobs)
    t_start = time.monotonic()
    lock = threading.Lock()
    nxt = [0]
    stop = [False]
    agg = dict(runs=0, counts={}, cov=set(), digests=set(), nontrivial=0, simtime=0.0)
    viol, errors, samples, digs = [], [], [], {}
    known = [k for k in known_findings() if k["property"] == mod.ID and k.get("status") == "open"]
    known_hit = {}

    def matches(r):
        for k in known:
            if r["cls"] == k["match"]["cls"] and k["match"].get("msg", "") in r["msg"]:
                return k
        return None

    def work(n):
        while True:
            with lock:
                if stop[0] or nxt[0] >= runs or time.monotonic() - t_start > wall:
                    return
                i = nxt[0]
                nxt[0] += 1
            try:
                r = n.run(seed=a.seed, index=i, tier=tier, want_spec=i < 3)
            except Exception as e:
                r = {"status": "error", "msg": repr(e)}
                with lock:
                    errors.append((i, r))
                    stop[0] = True
                return
            with lock:
                agg["runs"] += 1
                if r["status"] == "error":
                    errors.append((i, r))
                    if len(errors) > 5:
                        stop[0] = True
                    continue
                for c, v in r["counts"].items():
                    agg["counts"][c] = agg["counts"].get(c, 0) + v
                agg["cov"].update(r["cov"])
                agg["simtime"] += r["simtime"]
                if i < 40:
                    digs[i] = r["digest"]
                if r["nontrivial"]:
                    agg["nontrivial"] += 1
                    agg["digests"].add(r["digest"])
                if r["status"] == "violation":
                    k = matches(r)
                    if k:
                        known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
                    else:
                        viol.append((i, r))
                        stop[0] = True
                elif i < 3:
                    samples.append({"index": i, "spec": r.get("spec"), "log": r.get("events", [])[:12]})

    ths = [threading.Thread(target=work, args=(n,)) for n in pool.nodes]
    [t.start() for t in ths]
    [t.join() for t in ths]
    search_s = time.monotonic() - t_start

    # determinism resample: some runs again, on other workers
    mism = []
    rechecked = 0
    if not viol and not errors:
        idx = sorted(digs)[: (24 if tier == "quick" else 40)]
        jobs = [dict(seed=a.seed, index=i, tier=tier) for i in reversed(idx)]
        for i, r in zip(reversed(idx), pool.map(jobs)):
            rechecked += 1
            if r.get("digest") != digs[i]:
                mism.append(i)

    rc = 0
    vinfo = None
    if viol:
        viol.sort(key=lambda x: x[0])
        for i, r in viol[:5]:
            vinfo = confirm(pool, mod, a, i, r, 40 if tier == "quick" else 90)
            if vinfo:
                break
        if vinfo is None:
            i, r = viol[0]
            print(f"ERROR: violation at index {i} did not reproduce: {r['cls']}: {r['msg'][:800]}")
            rc = 2
        else:
            print(f"property {mod.ID} violated: {vinfo['cls']}\n{vinfo['msg']}")
            print(f"seed={a.seed} index={vinfo['index']} minimised in {vinfo['tried']} runs")
            print(f"VIOLATION property={mod.ID} replay={vinfo['path']}")
            rc = 1
    if rc != 1 and errors:
        for i, r in errors[:3]:
            print(f"ERROR: run {i}: {r['msg'][-2500:]}")
        rc = 2
    if rc != 1 and mism:
        print(f"ERROR: runs {mism} are not deterministic")
        rc = 2
    for k in known:
        print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    pool.close()
    faults = {k[6:]: v for k, v in sorted(agg["counts"].items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(agg["counts"].items()) if not k.startswith("fault:")}
    ev = {
        "property": mod.ID, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["digests"]),
            "rule": mod.RULE,
            "samples": shorten(samples),
            "technique": "deterministic simulation with fault injection",
            "runs_requested": runs,
            "runs_per_hour": round(agg["runs"] / max(search_s, 1e-9) * 3600),
            "seeds_per_hour": round(agg["runs"] / max(search_s, 1e-9) * 3600),
            "simulated_time_s": round(agg["simtime"], 3),
            "faults_injected": faults,
            "probes": probes,
            "distinct_states_or_interleavings": len(agg["cov"]),
            "states_measure": getattr(mod, "COVER", "distinct event-log digests"),
            "determinism_rechecked_runs": rechecked,
            "determinism_mismatches": len(mism),
            "components_real": mod.REAL, "components_stubbed": mod.STUB,
            "known_findings_seen": known_hit,
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{mod.ID} {tier} seed={a.seed}: {agg['runs']} runs in {search_s:.1f}s, "
          f"{len(agg['digests'])} distinct non-trivial, {len(agg['cov'])} states, faults {faults}, exit {rc}")
    if a.verbose:
        print(json.dumps(probes))
    return rc


def shorten(samples, cap=9000):
    out = []
    for s in samples:
        t = json.dumps(s)
        out.append(s if len(t) < cap else {"index": s["index"], "spec_json_prefix": t[:cap]})
    return out


def confirm(pool, mod, a, i, r, budget):
    cls = r["cls"]
    ok = False
    for _ in range(3):
        n = Node(mod, pool.cache, 0, pool.ctx)
        rr = n.run(spec=r["spec"], index=i, seed=a.seed, tier=a.tier)
        n.close()
        if rr["status"] == "violation":
            cls = rr["cls"]
            ok = True
            break
    if not ok:
        return None
    spec, tried, trail = (r["spec"], 0, []) if a.no_min else minimise(pool, r["spec"], cls, budget)
    n = Node(mod, pool.cache, 0, pool.ctx)
    rr = n.run(spec=spec, index=0, seed=a.seed, tier=a.tier)
    n.close()
    if not (rr["status"] == "violation" and rr["cls"] == cls):
        spec, rr = r["spec"], {**r, "cls": cls}
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.ID}-s{a.seed}-i{i}.json")
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "seed": a.seed, "index": i, "tier": a.tier, "cls": cls, "msg": rr["msg"],
                   "digest": rr.get("digest"), "spec": spec, "events": rr.get("events", []),
                   "original_spec": r["spec"], "minimised": trail}, f, indent=1)
    return {"cls": cls, "msg": rr["msg"], "path": path, "index": i, "tried": tried}


def cmd_replay(a):
    rep = json.load(open(a.file))
    mod = load(rep["property"])
    pool = Pool(mod, 1)
    try:
        r = pool.nodes[0].run(spec=rep["spec"], index=0, seed=rep["seed"], tier=rep["tier"], want_spec=True)
    finally:
        pool.close()
    for e in r.get("events", []):
        print("  ", e)
    print("status:", r["status"], r.get("cls", ""), "\n", r.get("msg", ""))
    print("digest:", r.get("digest"), "recorded:", rep.get("digest"))
    if r["status"] == "violation" and r["cls"] == rep["cls"]:
        print(f"VIOLATION property={rep['property']} replay={os.path.abspath(a.file)}")
        return 1
    return 0 if r["status"] == "ok" else 2


def cmd_digests(a):
    mod = load(a.prop)
    pool = Pool(mod, a.jobs, hs=a.hashseed)
    rs = pool.map([dict(seed=a.seed, index=i, tier=a.tier) for i in range(a.runs or 200)])
    pool.close()
    for i, r in enumerate(rs):
        print(i, r["status"], r.get("digest"))
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    for c in ("check", "digests"):
        s = sub.add_parser(c)
        s.add_argument("prop")
        s.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
        s.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
        s.add_argument("--runs", type=int)
        s.add_argument("--wall", type=float)
        s.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
        s.add_argument("--hashseed", type=int, default=0)
        s.add_argument("--no-min", action="store_true")
        s.add_argument("-v", "--verbose", action="store_true")
    s = sub.add_parser("replay")
    s.add_argument("file")
    a = ap.parse_args()
    return {"check": cmd_check, "replay": cmd_replay, "digests": cmd_digests}[a.cmd](a)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback

        traceback.print_exc()
        print(f"ERROR: harness failure: {e}")
        sys.exit(2)
