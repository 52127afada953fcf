"""C01: readers over line sources that deliver in any portions, take turns, and fail part-way."""
import errno
import re

from sim import core, gen as G, ops as O, plans
from sim.core import Violation
from sim.disk import SimDisk
from sim.sched import Sched

ID = "C01"
RUNS = {"quick": 20000, "thorough": 600000}
RULE = ("One run = 1-4 random streams of content lines (nested, folded, blank lines, defects), each read through a random kind of source (list, generator, file on a simulated disk with short reads and read errors, "
        "sources raising part-way), the readers taking turns in random order or running in threads under a random line-level schedule; items, errors and the number of lines consumed for each item are compared with "
        "reading the text as one string and with the structure the text was made from; non-trivial when at least two readers alternated or a source failed.")
COVER = "distinct hashes of the streams and what was delivered"
REAL = ["ics (all of it)", "CPython io.TextIOWrapper/BufferedReader", "real interpreter threads"]
STUB = ["disk below io", "line sources", "turn and thread scheduler", "system clock", "OS entropy"]
SHRINK = ["streams", "turns", "plan.sw"]


def tree(r, depth=0):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        if depth < 4 and r.random() < (0.5 if depth == 0 else 0.3):
            out.append([r.choice(["VCALENDAR", "VEVENT", "VEVENT", "VTODO", "X-B", "vEvent", "Begin"]), tree(r, depth + 1)])
        else:
            out.append(G.xline(r) if r.random() < 0.6 else {"name": r.choice(["summary", "A", "X-a-B", "DTSTART"]), "params": {}, "value": G.raw_value(r)})
    return out


def render(items):
    out = []
    for x in items:
        if isinstance(x, list):
            out += ["BEGIN:" + x[0], *render(x[1]), "END:" + x[0]]
        else:
            ps = ""
            for k, vs in x["params"].items():
                esc = [v.replace("^", "^^").replace("\n", "^n").replace('"', "^'") for v in vs]
                ps += f";{k}=" + ",".join(f'"{v}"' if v == "" or re.search("[:;,]", v) else v for v in esc)
            out.append(x["name"] + ps + ":" + x["value"])
    return out


def fold(r, line):
    w = r.choice([1000, 1000, 75, 20, 5, 1])
    if w == 1000 or len(line) < 2:
        return [line]
    out, i = [], 0
    while i < len(line):
        n = r.randint(1, w)
        out.append((r.choice(" \t") if i else "") + line[i:i + n])
        i += n
        if r.random() < 0.03:
            out.append(r.choice([" ", "\t"]))
    return out


def g_stream(r):
    t = tree(r)
    lines = [p for l in render(t) for p in (fold(r, l) if r.random() < 0.4 else [l])]
    broken = False
    while r.random() < 0.25 and lines:
        broken = True
        i = r.randrange(len(lines))
        k = r.choice(["del", "dup", "swap", "raw", "cut", "end", "ind", "case"])
        if k == "del":
            del lines[i]
        elif k == "dup":
            lines.insert(i, lines[i])
        elif k == "swap":
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k == "raw":
            lines[i:i] = O.raw_lines(r)
        elif k == "cut":
            lines = lines[:i]
        elif k == "end":
            lines.insert(i, "END:" + r.choice(["VEVENT", "X-B", "OTHER"]))
        elif k == "ind":
            lines[i] = " " + lines[i]
        else:
            lines[i] = lines[i].lower()
    for _ in range(r.choice([0, 0, 0, 1, 3, 10])):
        lines.insert(r.randint(0, len(lines)), "")
    style = r.choice(["\r\n", "\r\n", "\n", "\r", "mixed"])
    nl = [r.choice(["\r\n", "\n", "\r"]) if style == "mixed" else style for _ in lines]
    for i in range(1, len(lines)):
        if nl[i - 1] == "\r" and lines[i] == "" and nl[i] == "\n":
            nl[i] = "\r\n"  # \r + \n would be one line break
    final = r.random() < 0.7
    src = r.choice(["list", "gen", "gen_nl", "gen_rand", "file", "file_nl", "file_crlf" if style == "\r\n" else "file"])
    fail = None
    if r.random() < 0.35:
        fail = ["eio" if r.random() < 0.25 else r.choice(core.EXC_KINDS), r.randint(0, len(lines)) if r.random() < 0.8 else r.randint(0, 3)]
    return {"tree": None if broken else t, "lines": lines, "nl": nl, "final": final, "src": src, "fail": fail, "chunks": [r.choice([1, 2, 3, 17, 100, 5000]) for _ in range(r.randint(0, 4))],
            "pick": [r.choice(["", "\r\n", "\n", "\r", "\r\r\n"]) for _ in range(5)], "stop": r.choice([None, None, None, r.randint(0, 5)])}


def gen(r, tier, ctx):
    ss = [g_stream(r) for _ in range(r.choice([1, 2, 2, 3, 4]))]
    if r.random() < 0.2:
        # the same data through several sources
        for s in ss[1:]:
            for k in ("tree", "lines", "nl", "final"):
                s[k] = ss[0][k]
            if s["src"] == "file_crlf":
                s["src"] = ss[0]["src"]
    spec = {"streams": ss}
    if r.random() < 0.75:
        spec.update(mode="turns", turns=[r.randint(0, 11) for _ in range(r.choice([0, 5, 20, 60]))])
    else:
        spec.update(mode="threads", plan=plans.gen_plan(r, ctx, len(ss), hi=4000))
    return spec


def profile(run):
    def fn():
        for i in range(6):
            s = gen(core.rng_for(1, "C01-profile", i), "quick", {"sites": [("timeline.py:1", 1)]})
            for st in s["streams"]:
                st["fail"] = None
                Reader(st, core.Run()).drain()
    return plans.profile_sites([fn])


def text_of(s, n=None):
    ls, nl = s["lines"][:n], s["nl"][:n]
    t = "".join(a + b for a, b in zip(ls, nl))
    if ls and not s["final"] and n is None:
        t = t[: -len(nl[-1])]
    return t


class Reader:
    def __init__(self, s, run):
        from ics.contentline import lines_to_containers

        self.s, self.run = s, run
        self.n = 0  # lines delivered
        self.err = None  # what the source raised
        self.got, self.at = [], []
        self.end = None
        self.it = lines_to_containers(self.source())

    def source(self):
        s = self.s
        if s["src"] == "list" and not s["fail"]:
            # every line arrives at once
            self.n = None
            return list(s["lines"]) if s["final"] else tuple(s["lines"])
        return LineFile(self) if s["src"].startswith("file") else self.feed()

    def feed(self):
        s = self.s
        k = s["src"]
        if k.startswith("file"):
            d = SimDisk(self.run, s["chunks"])
            d.files["x"] = bytearray(text_of(s).encode())
            if s["fail"] and s["fail"][0] == "eio":
                off = len(text_of(s, s["fail"][1]).encode())
                d.fail_at = ("read", off, errno.EIO)
            it = iter(d.open("x", newline={"file": "", "file_nl": None, "file_crlf": "\r\n"}[k], bufsize=16))
        else:
            it = iter([l + ("" if k == "gen" else s["nl"][i] if k == "gen_nl" else s["pick"][i % 5]) for i, l in enumerate(s["lines"])])
        while True:
            if s["fail"] and s["fail"][0] != "eio" and self.n == s["fail"][1]:
                self.err = core.EXC[s["fail"][0]]("source")
                self.run.count("fault:source_" + s["fail"][0])
                raise self.err
            try:
                l = next(it)
            except StopIteration:
                return
            except BaseException as e:
                self.err = e
                raise
            self.n += 1
            yield l

    def step(self):
        if self.end is not None:
            return
        if self.s["stop"] is not None and len(self.got) >= self.s["stop"]:
            self.it.close()
            self.end = ("closed", None)
            self.run.count("fault:abandoned")
            return
        try:
            x = next(self.it)
        except StopIteration:
            self.end = ("end", None)
        except core.CATCH as e:
            self.end = ("error", e)
        else:
            self.got.append(x)
            self.at.append(self.n)

    def drain(self):
        while self.end is None:
            self.step()

    # ---- judging
    def judge(self):
        s = self.s
        got = [G.c_item(x) for x in self.got]
        lines = s["lines"]
        if self.err is not None:
            # the line that was still open when the source failed is not read
            k = self.n
            while k and (lines[k - 1] == "" or lines[k - 1][0] in " \t"):
                k -= 1
            want, err = whole(text_of(s, max(k - 1, 0)))
            if err is None or "Missing END" in str(err):
                err = self.err
                same = self.end[1] is err
            else:
                same = self.end[0] == "error" and O.clean(self.end[1]) == O.clean(err)
        else:
            want, err = whole(text_of(s))
            same = (self.end[0] == "end") if err is None else self.end[0] == "error" and O.clean(self.end[1]) == O.clean(err)
        if self.end[0] == "closed":
            want, same = want[: len(got)], True
        if got != want:
            raise Violation("other-items", f"source {s['src']}, failed with {self.err!r}: {G.diff(want, got)}")
        if not same:
            raise Violation("other-ending", f"source {s['src']}: ended with {self.end!r}, expected {err!r}; source raised {self.err!r}; {len(got)} items, {self.n} of {len(lines)} lines")
        if s["tree"] is not None:
            exp = [c_tree(x) for x in s["tree"]]
            if got != exp[: len(got)] or self.err is None and self.end[0] == "end" and len(got) != len(exp):
                raise Violation("items-lost", f"{G.diff(exp, got)}")
            if self.err is None and self.end[0] == "error":
                raise Violation("other-ending", f"{self.end[1]!r} for valid data")
        if self.n is not None:
            for i, (lim, n) in enumerate(zip(limits(lines), self.at)):
                if n > lim:
                    raise Violation("item-late", f"item {i} was handed over after {n} lines, complete with line {lim}")
        self.run.count("items", len(got))
        self.run.log("read", s["src"], len(got), self.n, self.end[0], core.h(got))
        self.run.cov(got, self.end[0], str(self.end[1]))


class LineFile:
    """The file itself, with what else text files offer."""

    def __init__(self, rd):
        self.it, self.rd, self.buf = rd.feed(), rd, ""

    def __iter__(self):
        return self

    def __next__(self):
        if self.buf:
            return self.readline()
        return next(self.it)

    def readline(self, size=-1):
        if not self.buf:
            self.buf = next(self.it, "")
        k = len(self.buf) if size is None or size < 0 else size
        out, self.buf = self.buf[:k], self.buf[k:]
        return out

    def readlines(self, hint=-1):
        out, n = [], 0
        for l in self:
            out.append(l)
            n += len(l)
            if hint and 0 < hint <= n:
                break
        return out

    def read(self, size=-1):
        out = ""
        while size is None or size < 0 or len(out) < size:
            l = self.readline(-1 if size is None or size < 0 else size - len(out))
            if not l:
                break
            out += l
        return out

    def readable(self):
        return True

    def close(self):
        self.it.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def c_tree(x):
    if isinstance(x, list):
        return ("box", x[0].upper(), [c_tree(y) for y in x[1]])
    return (x["name"].upper(), [(k, list(v)) for k, v in x["params"].items()], x["value"])


def whole(text):
    from ics.contentline import string_to_containers

    out = []
    try:
        for x in string_to_containers(text):
            out.append(G.c_item(x))
    except Exception as e:
        return out, e
    return out, None


def limits(lines):
    """For each item: how many lines may have been consumed when it is handed over."""
    logical = []
    for i, l in enumerate(lines):
        if l == "":
            continue
        if l[0] in " \t":
            if logical:
                logical[-1][1] += l[1:]
            continue
        logical.append([i, l])
    out, depth = [], 0
    for j, (i, l) in enumerate(logical):
        name = re.split("[:;]", l)[0].upper()
        if name == "BEGIN":
            depth += 1
        elif name == "END" and depth:
            depth -= 1
        if depth == 0:
            out.append(logical[j + 1][0] + 1 if j + 1 < len(logical) else len(lines))
    return out


def run(spec, run):
    rs = [Reader(s, run) for s in spec["streams"]]
    if spec["mode"] == "turns":
        for t in spec["turns"]:
            rs[t % len(rs)].step()
        live = [r for r in rs if r.end is None]
        while live:
            for r in live:
                r.step()
            live = [r for r in rs if r.end is None]
        run.nontrivial = len(rs) > 1
    else:
        s = Sched(run, spec["plan"], max_steps=3_000_000)
        for o in s.run([r.drain for r in rs]):
            if not o.ok:
                raise o.exc
        run.nontrivial = s.switches > 0
    if any(r.err for r in rs):
        run.nontrivial = True
    for r in rs:
        r.judge()
