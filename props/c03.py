"""C03: save / restart / load cycles over faulty storage, in different simulated worlds."""
import errno

from sim import core, foreign as F, gen as G
from sim.core import Violation
from sim.disk import SimDisk

ID = "C03"
RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("One run = one random calendar, built through the API or (30 %) read from a text as other programs write them, saved in simulated process A, loaded and re-saved in process B (other hash seed, clock, zone), and again in a third; "
        "non-trivial when the calendar has at least one entry and at least one storage fault or partial transfer happened.")
COVER = "distinct hashes of saved texts"
REAL = ["ics (all of it)", "dateutil", "ics_vtimezones", "CPython io.TextIOWrapper/BufferedReader/BufferedWriter"]
STUB = ["disk below io (short/failed transfers)", "system clock", "OS entropy", "local time zone", "process restarts (fresh forks of two interpreters with different hash seeds)"]
SHRINK = ["past", "cal.entries", "cal.extra", "lines", "chunks", "fails"]
TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "JST-9", "XXX+3:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"]


def gen(r, tier, ctx):
    foreign = r.random() < 0.3
    cal = None if foreign else G.calendar(r)
    if cal and r.random() < 0.4:
        G.widen(r, cal)
    past = [r.choice([-1, 1]) * r.randint(0, 14 * 4) * 15 for _ in range(r.choice([2, 5, 12]))] if r.random() < 0.15 else []
    return {"cal": cal, "past": past, "lines": F.text(r).split("\r\n") if foreign else [], "chunks": [r.choice([1, 2, 3, 7, 64, 500, 5000]) for _ in range(r.randint(0, 6))],
            "bufsize": r.choice([1, 16, 100, 8192]), "rand": r.getrandbits(40),
            "fails": [["write", r.randint(0, 4000), r.choice([errno.ENOSPC, errno.EIO])] for _ in range(r.choice([0, 0, 0, 1, 2]))],
            "worlds": [[r.choice(TZS), r.randint(10**9, 2 * 10**9)] for _ in range(3)],
            "how": [r.choice(["text", "lines", "file", "file_nl", "bytes"]) for _ in range(3)],
            "save": [r.choice(["write", "writelines", "iter"]) for _ in range(3)]}


def simplify(spec):
    import json

    if spec["cal"] is None:
        return
    for i, e in enumerate(spec["cal"]["entries"]):
        for k, v in e.items():
            if k in ("kind", "times", "uid", "dtstamp") or not v:
                continue
            s = json.loads(json.dumps(spec))
            s["cal"]["entries"][i][k] = [] if isinstance(v, list) and k != "created" and k != "last_modified" and k != "geo" and k != "completed" else {} if k == "xp" else None
            yield s
            if isinstance(v, list) and len(v) > 1 and k in ("alarms", "attach", "extra", "attendees", "categories"):
                for j in range(len(v)):
                    s = json.loads(json.dumps(spec))
                    del s["cal"]["entries"][i][k][j]
                    yield s
        for k in ("begin", "end", "dur"):
            if e["times"][k] is not None and not (k == "begin" and e["times"]["dur"] is not None):
                s = json.loads(json.dumps(spec))
                s["cal"]["entries"][i]["times"][k] = None
                yield s
    for k in ("prodid", "scale", "method"):
        if spec["cal"][k] is not None:
            s = json.loads(json.dumps(spec))
            s["cal"][k] = None
            yield s


def world(spec, k):
    tz, clk = spec["worlds"][k]
    core.set_tz(tz)
    core.set_clock(clk * 10**9, 1000)
    core.set_rand(spec["rand"] + k)


def save(spec, k, cal, run):
    """Writes cal to the simulated disk the way applications do; returns the durable bytes and the text."""
    disk = SimDisk(run, spec["chunks"])
    before = G.fp(cal)
    text = cal.serialize()
    if G.fp(cal) != before:
        raise Violation("save-mutates", G.diff(before, G.fp(cal)) or "")
    if "\r" in text.replace("\r\n", "") or "\n" in text.replace("\r\n", ""):
        raise Violation("bad-linebreak", repr(text)[:500])
    fails = spec["fails"] if k == 0 else []
    for attempt, f in enumerate([*fails, None]):
        disk.fail_at = tuple(f) if f else None
        name = f"cal{attempt}.ics"
        fh = disk.open(name, "w", newline="", bufsize=spec["bufsize"])
        try:
            how = spec["save"][k]
            if how == "write":
                fh.write(cal.serialize())
            elif how == "writelines":
                fh.writelines(cal)
            else:
                lines = list(cal)
                want = text.split("\r\n")
                want = [w + "\r\n" for w in want[:-1]] + ([want[-1]] if want[-1] else [])
                if lines != want:
                    bad = next((a for a, b in zip(lines, want) if a != b), lines[-1:])
                    raise Violation("iter-lines", f"iterating the calendar gave {bad!r}, which is no line of its text")
                for l in lines:
                    fh.write(l)
            fh.flush()
            disk.sync(name)
            fh.close()
            break
        except OSError:
            run.count("save_retried")
            try:
                fh.detach().detach()
            except Exception:
                pass
    data = disk.durable[name]
    if data != text.encode("utf-8"):
        raise Violation("save-differs", "text written after storage errors differs from the calendar's text")
    if G.fp(cal) != before:
        raise Violation("save-mutates", G.diff(before, G.fp(cal)) or "")
    return data, text


def load(spec, k, data, run):
    from ics import Calendar

    disk = SimDisk(run, spec["chunks"])
    disk.files["cal.ics"] = bytearray(data)
    how = spec["how"][k]
    if how == "text":
        return Calendar(disk.open("cal.ics", newline="", bufsize=spec["bufsize"]).read())
    if how == "bytes":
        return Calendar(disk.open("cal.ics", "rb", bufsize=spec["bufsize"]).read().decode("utf-8"))
    if how == "file":
        return Calendar(disk.open("cal.ics", bufsize=spec["bufsize"]))
    if how == "file_nl":
        return Calendar(disk.open("cal.ics", newline="\r\n", bufsize=spec["bufsize"]))
    return Calendar(iter(disk.open("cal.ics", newline="", bufsize=spec["bufsize"]).read().split("\r\n")))


def jsonable(o):
    import json

    return json.loads(json.dumps(o))


def past(spec, run):
    """Calendars this process saved earlier, and forgot: what takes their place in memory is not mistaken for them."""
    import datetime as D
    import gc

    import ics

    for n, m in enumerate(spec.get("past", ())):
        z = D.timezone(D.timedelta(minutes=m))
        cal = ics.Calendar(events=[ics.Event("p", begin=D.datetime(2020, 1, 1, 12, tzinfo=z), uid=f"p{n}", dtstamp=D.datetime(2020, 1, 1, tzinfo=D.timezone.utc))])
        back = ics.Calendar(cal.serialize()).events[0].begin
        if back != cal.events[0].begin or back.utcoffset() != z.utcoffset(None):
            raise Violation("other-zone", f"saved {cal.events[0].begin!r}, loaded {back!r}, after calendars with the offsets {spec['past'][:n]} (minutes) had been saved and dropped")
        del cal, back, z
        gc.collect()
        run.count("saved_before")


def phase0(spec, run, carry):
    world(spec, 0)
    past(spec, run)
    if spec["cal"] is None:  # a text another program wrote
        try:
            cal = load(spec, 0, "\r\n".join(spec["lines"]).encode(), run)
        except Exception as e:
            run.log("refused", core.describe_exc(e)[:200])
            run.count("texts_refused")
            return None
        for e in [*cal.events, *cal.todos]:
            e.dtstamp = e.dtstamp.replace(microsecond=0)
        run.count("texts_read")
    else:
        cal = G.mk_calendar(spec["cal"])
    want = jsonable(G.c_calendar(cal))
    zones = jsonable(G.c_zones(cal))
    data, text = save(spec, 0, cal, run)
    if spec["cal"] is None:
        d = F.lost("\r\n".join(spec["lines"]), text)
        if d:
            raise Violation("text-lost", f"a text read in and written again is not the same: {d}")
    run.log("saved", core.h(text), len(data))
    run.cov("text", text)
    run.count("entries", len(cal.events) + len(cal.todos))
    run.nontrivial = bool(cal.events or cal.todos) and any(c.startswith("fault:") for c in run.counts)
    return {"want": want, "hex": data.hex(), "zones": zones}


def phase_load(k):
    def ph(spec, run, carry):
        world(spec, k)
        if carry is None:
            return None
        data = bytes.fromhex(carry["hex"])
        try:
            cal = load(spec, k, data, run)
        except (AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError) as e:
            raise Violation("load-fails:" + type(e).__name__, f"{core.describe_exc(e)}\n{data.decode()[:1500]}")
        except Exception as e:
            raise Violation("load-fails:" + type(e).__name__, f"{core.describe_exc(e)}\n{data.decode()[:1500]}")
        got = jsonable(G.c_calendar(cal))
        d = G.diff(carry["want"], got)
        if d:
            raise Violation("content-differs", f"saved calendar came back different: {d}")
        zones = jsonable(G.c_zones(cal))
        for z, c in carry["zones"].items():
            d = G.diff(c, zones.get(z))
            if d:
                raise Violation("zone-differs", f"zone {z!r} came back different: {d}")
        data2, text2 = save(spec, k, cal, run)
        if data2 != data:
            a, b = data.decode().split("\r\n"), data2.decode().split("\r\n")
            bad = next(((x, y) for x, y in zip(a, b) if x != y), (a[-1], b[-1]))
            raise Violation("resave-differs", f"first difference {bad!r} ({len(a)} / {len(b)} lines)")
        if core.clock_now() is None:
            pass
        run.simtime += abs(spec["worlds"][k][1] - spec["worlds"][k - 1][1])
        run.log("loaded", k, core.h(got))
        run.count("restarts")
        return {"want": carry["want"], "hex": data2.hex(), "zones": zones}

    return ph


PHASES = [("A", phase0), ("B", phase_load(1)), ("A", phase_load(2))]
