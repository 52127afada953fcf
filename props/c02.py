"""C02: truncated and half-overwritten calendar files."""
import errno
import re

from sim import core, gen as G, ops as O
from sim.core import Violation
from sim.disk import SimDisk

ID = "C02"
RUNS = {"quick": 8000, "thorough": 300000}
RULE = ("One run = files of 1-4 random calendars written to a simulated disk, crashes that leave a prefix of any number of bytes, lost truncations that leave the tail of an older, longer file behind, and reads of what is there "
        "(whole text, lines, files with short reads; one calendar, several, streamed); a byte-level model that knows only the saved texts says what must come back and whether an error must follow; "
        "non-trivial when at least one read met a damaged file.")
COVER = "distinct hashes of damaged files"
REAL = ["ics (all of it)", "CPython io.TextIOWrapper/BufferedReader/BufferedWriter"]
STUB = ["disk below io (crashes, torn writes, lost truncation, short and failed transfers)", "system clock", "OS entropy"]
SHRINK = ["cals", "files", "damage"]


def small_cal(r):
    return G.calendar(r, n_events=r.choice([0, 1, 1, 2, 4]), n_todos=r.choice([0, 0, 1]), rich=r.choice([0, 0.2, 1.0]))


def gen(r, tier, ctx):
    n = r.choice([1, 2, 2, 3, 4])
    cals = [small_cal(r) for _ in range(n)]
    if r.random() < 0.5:
        for c in cals[1:]:
            # later versions of the first calendar
            c.update({k: cals[0][k] for k in ("prodid", "scale", "method")})
            c["entries"] = cals[0]["entries"][: r.randint(0, 4)] + c["entries"][: r.randint(0, 2)]
    files = [{"cals": [r.randrange(n) for _ in range(r.choice([1, 1, 1, 2, 3]))], "nl": r.choice(["\r\n", "\r\n", "\n"]), "final": r.random() < 0.5, "gap": r.choice([1, 1, 2])} for _ in range(r.choice([1, 2, 2, 3]))]
    dmg = []
    for _ in range(r.choice([3, 6, 12])):
        k = r.choice(["cut", "cut", "cut", "tail", "none"])
        d = {"k": k, "f": r.randrange(len(files)), "how": r.choice(["one", "one", "one", "stream", "stream", "multiple"]), "src": r.choice(["text", "lines", "file", "file_nl", "gen"]),
             "errors": r.choice(["strict", "replace", "surrogateescape"]), "chunks": [r.choice([1, 3, 50, 5000]) for _ in range(r.randint(0, 3))]}
        if k == "cut":
            d["at"] = r.choice([["frac", r.random()], ["line", r.random(), r.choice([0, 0, -1, -2, 1, 2])], ["end", r.randint(0, 40)], ["endcal", r.randint(0, 3), r.randint(-20, 20)]])
        elif k == "tail":
            d["over"] = r.randrange(len(files))
            # pads the older file so that the tail starts at a chosen place of it
            d["align"] = r.choice([None, None, ["line", r.random(), r.choice([0, 0, 0, -1, -2, 1])], ["frac", r.random()], ["end", r.randint(1, 40)]])
        if r.random() < 0.1:
            d["fail"] = [r.random(), r.choice([errno.EIO, errno.ENOSPC])]
        dmg.append(d)
    return {"cals": cals, "files": files, "damage": dmg}


def simplify(spec):
    import json

    for i, c in enumerate(spec["cals"]):
        for j in range(len(c["entries"])):
            s = json.loads(json.dumps(spec))
            del s["cals"][i]["entries"][j]
            yield s
        for j, e in enumerate(c["entries"]):
            for k, v in e.items():
                if isinstance(v, list) and v and k in ("alarms", "attach", "extra", "attendees", "categories"):
                    s = json.loads(json.dumps(spec))
                    s["cals"][i]["entries"][j][k] = []
                    yield s


def place(at, data, texts):
    """A byte offset in data."""
    k = at[0]
    if k == "frac":
        n = int(at[1] * len(data))
    elif k == "end":
        n = len(data) - at[1]
    elif k == "endcal":
        ends = [m.end() for m in re.finditer(rb"END:VCALENDAR", data)]
        n = ends[at[1] % len(ends)] + at[2]
    else:
        starts = [0] + [m.end() for m in re.finditer(rb"\n", data)]
        n = starts[int(at[1] * len(starts))] + at[2]
    return min(max(n, 0), len(data))


def model(data, texts):
    """What is in the file: indices of the complete calendars before the damage, whether an error must follow,
    and whether the last of these calendars may be missing (the damage is in its last line)."""
    got, pos, doubt = [], 0, False
    while True:
        m = re.compile(rb"[\r\n]*").match(data, pos)
        pos = m.end()
        if pos == len(data):
            return got, False, False
        for i, t in texts:
            if data.startswith(t, pos) and (pos + len(t) == len(data) or data[pos + len(t):pos + len(t) + 1] in b"\r\n"):
                got.append(i)
                pos += len(t)
                # a continuation line makes the stale tail part of the calendar's last line
                doubt = bool(re.match(rb"[\r\n]+[ \t]", data[pos:pos + 20]))
                break
        else:
            return got, True, doubt


class Junk(ValueError):
    pass


def run(spec, run):
    from ics import Calendar

    objs = [G.mk_calendar(c, {}) for c in spec["cals"]]
    want = [O.jv(G.c_calendar(c)) for c in objs]
    raw = [c.serialize() for c in objs]
    files = []
    for f in spec["files"]:
        ts = [raw[i] for i in f["cals"] if i < len(raw)] or [raw[0]]
        s = ("\r\n" * f["gap"]).join(ts) + ("\r\n" if f["final"] else "")
        files.append(s.replace("\r\n", f["nl"]).encode())
    texts = []
    for i, t in enumerate(raw):
        for nl in ("\r\n", "\n"):
            texts.append((i, t.replace("\r\n", nl).encode()))
    for n, d in enumerate(spec["damage"]):
        disk = SimDisk(run, d["chunks"])
        new = files[d["f"] % len(files)]
        name = "cal.ics"
        if d["k"] == "tail":
            old = files[d["over"] % len(files)]
            if d["align"]:
                # an older file with something before: moves the place where the tail starts
                p = place(d["align"], old, texts)
                pad = len(new) - p
                old = b"BEGIN:VCALENDAR\r\n" + b"X" * (pad - 17 - 4) + b":1\r\n" + old if pad >= 24 else old[-pad:] if pad < 0 else old
            disk.files[name] = bytearray(old)
            disk.sync(name)
            fh = disk.open(name, "wb", trunc=False)
        else:
            disk.files[name] = bytearray()
            disk.sync(name)
            fh = disk.open(name, "wb")
        failed = None
        if "fail" in d:
            disk.fail_at = ("write", int(d["fail"][0] * len(new)), d["fail"][1])
        try:
            fh.write(new)
            fh.flush()
        except OSError as e:
            failed = e
            if d["k"] == "tail":
                continue  # a mix of two files of the writer's making, nothing that could be told apart
        n_on_disk = len(disk.files[name])
        if d["k"] == "cut":
            disk.crash({name: min(place(d["at"], new, texts), n_on_disk)})
        elif d["k"] == "tail":
            disk.crash({name: len(new)})
        data = bytes(disk.files[name])
        got, err, doubt = model(data, texts)
        run.log("file", d["k"], core.h(data), got, err)
        run.cov(data)
        if err:
            run.nontrivial = True
            run.count("fault:damaged_" + d["k"])
        run.count("files_read")
        judge(spec, run, d, disk, name, data, got, err, doubt, want)


def judge(spec, run, d, disk, name, data, got, err, doubt, want):
    from ics import Calendar, Container
    from ics.contentline import lines_to_containers, string_to_containers

    def source():
        k = d["src"]
        if k.startswith("file"):
            if d["errors"] == "strict":
                return disk.open(name, newline={"file": None, "file_nl": "\n"}[k], bufsize=64)
            return iter(re.split("(?<=\n)", decoded()))
        t = decoded()
        if k == "text":
            return t
        ls = re.split("\r?\n", t)
        return ls if k == "lines" else iter(ls)

    def decoded():
        return disk.open(name, "rb", bufsize=64).read().decode("utf-8", d["errors"])

    out, exc = [], None
    try:
        if d["how"] == "one":
            out.append(Calendar(source()))
        elif d["how"] == "multiple":
            out = Calendar.parse_multiple(decoded())
        else:
            s = source()
            for x in string_to_containers(s) if isinstance(s, str) else lines_to_containers(s):
                if not isinstance(x, Container):
                    raise Junk(str(x))
                out.append(Calendar(x))
    except Exception as e:
        exc = e
    res = [O.jv(G.c_calendar(c)) for c in out]
    exp = [want[i] for i in got]
    show = f"{d['how']}/{d['src']} of {data[:200]!r}...{data[-300:]!r} ({len(data)} bytes)"
    if d["how"] in ("one", "multiple"):
        bad = err or d["how"] == "one" and len(got) != 1
        if bad:
            if exc is None:
                raise Violation("damage-accepted", f"{len(res)} calendars came back from {show}")
            return
        if exc is not None:
            raise Violation("intact-refused", f"{core.describe_exc(exc)}: {show}")
        if res != exp:
            raise Violation("intact-changed", f"{G.diff(exp, res)}: {show}")
        return
    if isinstance(exc, UnicodeDecodeError):
        # raised by the file object, perhaps before all complete calendars were handed to ics
        exp = exp[: len(res)]
    elif doubt and len(res) == len(exp) - 1:
        exp = exp[:-1]
    if res != exp:
        raise Violation("intact-lost" if len(res) < len(exp) else "damage-accepted" if len(res) > len(exp) else "intact-changed", f"{len(res)} calendars instead of {len(exp)}, then {exc!r}; {G.diff(exp, res)}: {show}")
    if err and exc is None:
        raise Violation("damage-accepted", f"{len(res)} calendars came back without an error from {show}")
    if not err and exc is not None:
        raise Violation("intact-refused", f"{core.describe_exc(exc)}: {show}")
