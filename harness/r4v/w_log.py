"""Logs and data sets: what is in the files (L01, L02) and which files they are (L03)."""
import csv
import hashlib
import os
import random as pr
import re
import shutil
from dataclasses import make_dataclass, field, fields

import numpy as np
import yaml
from mpi4py import MPI
from repast4py import logging as r4l
from repast4py import parameters as r4p
from repast4py import util as r4u

TXT = ["a", "b c", "x,y", 'say "hi"', "line\nbreak", "cr\r\nlf", "tab\there", "semi;colon", "pipe|d", "", " ", " lead", "trail ", "'", '"', '""', ",", "ünï", "日本", "#c", "1.0", "None", "\\n", "a\\"]


def caseroot(cx):
    d = os.path.join(cx.workdir, f"c{cx.size}-{cx.case_seed:x}")
    if cx.rank == 0:
        os.makedirs(d)
    cx.ctl.Barrier()
    return d


def drop(cx, d):
    cx.ctl.Barrier()
    if cx.rank == 0:
        shutil.rmtree(d, ignore_errors=True)


def somepath(rng, d, name):
    """A path below d, maybe in directories that do not exist; as str or relative."""
    sub = rng.choice(["", "out", "out/a", "x.y/z", "a b"])
    return os.path.join(d, sub, name)


# ------------------------------------------------------------------ L01
def value(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, 1, -7, 10 ** 12, 2 ** 70, rng.randint(-1000, 1000)])
    if k < 0.45:
        return rng.choice([0.1, 1e-9, -2.5, 1e300, 1 / 3, 123456789.123456789, float(rng.randint(-9, 9)), rng.random()])
    if k < 0.5:
        return rng.choice([np.float64(0.1), np.int64(5), np.float32(2.5), True, False])
    if k < 0.55:
        return rng.choice([None, (1, 2, 0), (3,), [1, 2.5], [], ["a", "b"], {"k": 1}, (7, 0, 1)])      # a uid, a location, nothing
    return rng.choice(TXT) + (rng.choice(TXT) if rng.random() < 0.2 else "")


def tabular(cx):
    rng = cx.rng
    d = caseroot(cx)
    loggers = []
    for li in range(rng.choice([1, 1, 2, 3])):
        delim = rng.choice([",", ",", ",", ";", "\t", "|", " "])
        ncol = rng.randint(1, 6)
        headers = [rng.choice(TXT) + str(i) for i in range(ncol)]
        path = somepath(rng, d, f"log{li}.csv")
        cwd = None
        if rng.random() < 0.2:
            cwd = os.getcwd()
            os.chdir(d)
            path = f"log{li}.csv"
        kw = {} if delim == "," and rng.random() < 0.5 else {"delimiter": delim}
        lg = r4l.TabularLogger(cx.comm, path, headers, **kw)
        if cwd:
            path = os.path.join(d, path)
            # a relative path must go on meaning the same file as long as the directory does not change
        loggers.append({"lg": lg, "path": path, "delim": delim, "rows": [headers], "pend": [[] for _ in range(cx.size)], "ncol": ncol, "cwd": cwd, "open": True})
        if cwd:
            os.chdir(cwd)
    cx.config(n=cx.size, loggers=[(l["delim"], l["ncol"]) for l in loggers])
    big = rng.random() < 0.06

    def at(l, fn):
        if l["cwd"]:
            os.chdir(d)
        try:
            fn()
        finally:
            if l["cwd"]:
                os.chdir(l["cwd"])

    def check(l):
        if cx.rank != 0:
            return
        with open(l["path"], newline="") as f:
            got = list(csv.reader(f, delimiter=l["delim"]))
        want = [["" if v is None else str(v) for v in r] for r in l["rows"]]
        if got != want:
            for i, (a, b) in enumerate(zip(want, got)):
                if a != b:
                    cx.fail("the tabular log differs from the rows logged", f"row {i}: wanted {a}, file has {b}", f"{len(want)} rows wanted, {len(got)} in the file")
            cx.fail("rows are missing from the tabular log or too many", f"{len(want)} rows wanted, {len(got)} in the file", lambda: (want[len(got):][:3], got[len(want):][:3]))
        cx.stats["checks"] += 1
        cx.stats["obs_rows"] += len(want)
        cx.stats["obs_files"] += 1

    def flush(l, close):
        cx.op("close" if close else "write")
        at(l, l["lg"].close if close else l["lg"].write)
        for r in range(cx.size):
            l["rows"] += l["pend"][r]
            l["pend"][r] = []
        check(l)

    for step in range(rng.randint(1, 10)):
        l = rng.choice(loggers)
        if rng.random() < 0.65:
            # the rows of all ranks are drawn by every rank
            cx.op("log")
            who = [r for r in range(cx.size) if rng.random() < 0.6]
            for r in who:
                for _ in range(rng.choice([1, 1, 2, 5, 600 if big else 30])):
                    nc = l["ncol"] if rng.random() < 0.9 else rng.randint(1, 8)
                    row = [value(rng) for _ in range(nc)]
                    if r == cx.rank:
                        l["lg"].log_row(*row)
                    l["pend"][r].append(row)
            if len(who) > 1:
                cx.stats["obs_shared_writes"] += 1
                cx.nontrivial = True
            if len(who) < cx.size:
                cx.stats["obs_silent_ranks"] += 1
        else:
            flush(l, rng.random() < 0.2)
    # rows not written yet must not be in the file; then close
    for l in loggers:
        check(l)
        flush(l, True)
        if rng.random() < 0.2:
            flush(l, True)
    drop(cx, d)


# ------------------------------------------------------------------ L02
OPS = [(MPI.SUM, sum), (MPI.MIN, min), (MPI.MAX, max), (MPI.PROD, None)]


def prod(vals):
    p = 1
    for v in vals:
        p = p * v
    return p


class Source:
    """A data source of its own, as the protocol describes it."""

    def __init__(self, name, dtype, box):
        self._n, self._d, self._b = name, np.dtype(dtype), box

    @property
    def name(self):
        return self._n

    @property
    def value(self):
        return self._b[self._n]

    @property
    def dtype(self):
        return self._d


def draw(rng, kind, op):
    if op is MPI.PROD:
        return rng.choice([1, 1, 2, -1, 3]) if kind == "i" else rng.choice([1.0, 0.5, 2.0, -1.0, 1.0, 3.0])
    if kind == "i":
        return rng.choice([0, 1, -5, rng.randint(-1000, 1000), rng.randint(0, 2 ** 50)])
    return rng.choice([0.0, -1.5, rng.randint(-4000, 4000) / 8.0, rng.randint(0, 2 ** 40) / 4.0])


def reducing(cx):
    rng = cx.rng
    d = caseroot(cx)
    sets = []
    for si in range(rng.choice([1, 1, 2])):
        ncol = rng.randint(1, 5)
        cols = []
        use_dc = rng.random() < 0.7
        for c in range(ncol):
            kind = rng.choice("if")
            op, py = rng.choice(OPS)
            small = not use_dc and rng.random() < 0.4
            cols.append({"f": f"v{c}", "kind": kind, "op": op, "py": py or prod, "name": rng.choice([None, None, f"col {c}", f"Sum_{c}"]), "small": small})
        box = {c["f"]: 0 for c in cols}
        whole = use_dc and rng.random() < 0.2        # every field of the data class, without naming them
        if use_dc:
            names = [(c["f"], int if c["kind"] == "i" else float, field(default=0)) for c in cols]
            names.insert(rng.randint(0, len(names)), ("unlogged", float, field(default=3.5)))
            DC = make_dataclass("DC", names)
            dc = DC()
            loggers, order = [], []
            byop = rng.random() < 0.4
            try:
                if rng.random() < 0.5:
                    r4l.create_loggers(dc, op=MPI.SUM, rank=cx.rank, names={"nothing": None})
                else:
                    r4l.DCDataSource(dc, "nothing", "x")
            except ValueError:
                pass
            else:
                cx.fail("logging a field that does not exist is not refused")
            if whole:
                op, py = rng.choice(OPS[:3])
                at = [n[0] for n in names].index("unlogged")
                cols.insert(at, {"f": "unlogged", "kind": "f", "op": op, "py": py, "name": None, "small": False})
                for c in cols:
                    c.update(op=op, py=py, name=None)
                loggers, order = r4l.create_loggers(dc, op=op, rank=cx.rank), cols
                cx.stats["obs_whole_classes"] += 1
            elif rng.random() < 0.2:
                # sources made one by one
                for c in rng.sample(cols, len(cols)):
                    src = r4l.DCDataSource(dc, c["f"], *([c["name"]] if rng.random() < 0.5 or c["name"] else []))
                    loggers.append(r4l.ReducingDataLogger(src, c["op"], cx.rank))
                    order.append(c)
            elif byop:
                # one call per operation, all fields of it in the order of the dataclass
                for op in {id(c["op"]): c["op"] for c in cols}.values():
                    mine = [c for c in cols if c["op"] is op]
                    loggers += r4l.create_loggers(dc, op=op, rank=cx.rank, names={c["f"]: c["name"] for c in rng.sample(mine, len(mine))})
                    order += mine
            else:
                for c in rng.sample(cols, len(cols)):
                    loggers += r4l.create_loggers(dc, op=c["op"], rank=cx.rank, names={c["f"]: c["name"]})
                    order.append(c)
            cols = order

            def put(k, v, dc=dc):
                setattr(dc, k, v)
        else:
            loggers = []
            for c in cols:
                c["name"] = c["f"]
                dt = {"i": np.int32 if c["small"] else np.int64, "f": np.float32 if c["small"] else np.float64}[c["kind"]]
                loggers.append(r4l.ReducingDataLogger(Source(c["f"], dt, box), c["op"], cx.rank))

            def put(k, v, box=box):
                box[k] = v
        for c, lg in zip(cols, loggers):
            cx.check(lg.name == (c["name"] or c["f"]) and lg.size == 0 and np.dtype(lg.dtype).kind == c["kind"], "a logger does not describe its column", lg.name, lg.size, lg.dtype, c["f"], c["name"])
        cx.check(len(loggers) == len(cols), "not one logger per column", len(loggers), len(cols))
        delim = rng.choice([",", ",", ";", "\t", "|"])
        bs = rng.choice([None, 1, 2, 3, 7, 50, 499, 500, 501, 1000, 1001])
        path = somepath(rng, d, f"set{si}.csv")
        kw = {} if delim == "," else {"delimiter": delim}
        if bs is not None:
            kw["buffer_size"] = bs
        ds = r4l.ReducingDataSet(loggers, cx.comm, path, **kw)
        sets.append({"ds": ds, "cols": cols, "put": put, "path": path, "delim": delim, "bs": bs or 1000, "rows": [], "pend": 0, "t": 0.0})
    cx.config(n=cx.size, sets=[(s["bs"], len(s["cols"])) for s in sets])

    def check(s, upto=None):
        """The file holds the rows of everything that was flushed; between flushes
        it may lack the last ones, at most as many as the buffer holds."""
        if cx.rank != 0:
            return
        with open(s["path"], newline="") as f:
            lines = f.read().split("\n")
        cx.check(lines[-1] == "", "the file does not end with a line end", lines[-1][:80])
        got = [x.split(s["delim"]) for x in lines[:-1]]
        cx.check(got[0] == ["tick"] + [c["name"] or c["f"] for c in s["cols"]], "the header is wrong", got[0])
        got = got[1:]
        if upto is None:
            upto = len(got)
            cx.check(len(s["rows"]) - s["bs"] <= upto <= len(s["rows"]), "more ticks than the buffer size are not in the file", f"{len(s['rows'])} ticks logged, buffer size {s['bs']}, {upto} lines")
            cx.stats["obs_lagging"] += upto < len(s["rows"])
        cx.check(len(got) == upto, "lines are lost or repeated", f"{upto} ticks logged and flushed, {len(got)} lines", lambda: got[:2] + got[-2:])
        for i, (row, want) in enumerate(zip(got, s["rows"])):
            cx.check(len(row) == len(want), "a line has another number of columns", row)
            ok = float(row[0]) == float(want[0])
            for c, a, b in zip(s["cols"], row[1:], want[1:]):
                if c["kind"] == "i":
                    ok = ok and re.fullmatch(r"-?\d+", a) is not None and int(a) == b
                else:
                    ok = ok and (np.float32(a) == np.float32(b) if c["small"] else float(a) == b)
            if not ok:
                cx.fail("a line of the data set is not the reduction of its tick", f"line {i}: {row}", f"wanted {want}", f"{upto} lines")
        cx.stats["checks"] += 1
        cx.stats["obs_lines"] += upto
        cx.stats["obs_files"] += 1

    def flushed(s):
        s["pend"] = 0
        check(s, len(s["rows"]))

    long = rng.random() < 0.3
    for step in range(rng.randint(1, 12)):
        s = rng.choice(sets)
        k = rng.random()
        if k < 0.75:
            n = rng.choice([1, 2, 5, 20, 60] + ([300, 500, 501, 800] if long else []))
            cx.op("log", n)
            every = rng.random() < 0.5
            for _ in range(n):
                s["t"] += rng.choice([1, 0.5, 1])
                tick = s["t"] if rng.random() < 0.8 or s["t"] != int(s["t"]) else int(s["t"])
                row = [tick]
                for c in s["cols"]:
                    if c["small"]:
                        vals = [draw(rng, c["kind"], c["op"]) % 1000 if c["kind"] == "i" else float(rng.randint(-64, 64)) for _ in range(cx.size)]
                        if c["op"] is MPI.PROD:
                            vals = [rng.choice([1, 2]) for _ in vals]
                    else:
                        vals = [draw(rng, c["kind"], c["op"]) for _ in range(cx.size)]
                    s["put"](c["f"], vals[cx.rank])
                    row.append(c["py"](vals))
                s["ds"].log(tick)
                s["rows"].append(row)
                s["pend"] += 1
                if s["pend"] >= s["bs"]:
                    cx.stats["obs_full"] += 1
                    s["pend"] = 0
            # changes after logging do not count
            for c in s["cols"]:
                s["put"](c["f"], -12345 if c["kind"] == "i" else -0.125)
            if n > 500:
                cx.stats["obs_grown"] += 1
            check(s)
        elif k < 0.93:
            cx.op("write")
            s["ds"].write()
            flushed(s)
            cx.stats["obs_writes"] += 1
        else:
            cx.op("close")
            s["ds"].close()
            flushed(s)
    for s in sets:
        s["ds"].close()
        flushed(s)
        if cx.size > 1 and len(s["rows"]) > 2:
            cx.nontrivial = True
        if rng.random() < 0.2:
            s["ds"].close()
            flushed(s)
    drop(cx, d)


# ------------------------------------------------------------------ L03
def snapshot(root):
    r = {}
    for base, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(base, f)
            r[p] = hashlib.md5(open(p, "rb").read()).hexdigest()
        for f in ds:
            r[os.path.join(base, f)] = "dir"
    return r


def numbered(path, k):
    base, name = os.path.split(path)
    stem, ext = os.path.splitext(name)
    return os.path.join(base, f"{stem}_{k}{ext}")


def files(cx):
    rng = cx.rng
    d = caseroot(cx)
    home = os.getcwd()
    name = rng.choice(["counts.csv", "a.tar.gz", "noext", ".hidden", "x_1.csv", "two words.txt", "p.q.r.csv", "c_1_2.csv", "ü.csv", "1.csv", "-.txt", "_1.csv"])
    sub = rng.choice(["", "", "out", "deep/er", "dir.d", "with_1"])
    exists = sub == "" or rng.random() < 0.5
    rel = rng.random() < 0.35
    full = os.path.join(d, sub, name)
    cx.config(n=cx.size, name=name, sub=sub, rel=rel)
    if cx.rank == 0:
        os.makedirs(os.path.join(d, "elsewhere"), exist_ok=True)
        if exists:
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            pre = [k for k in range(0, 6) if rng.random() < 0.35]
        else:
            pre = []
    else:
        rng.random()
        pre = []
    # the ranks' generators are made equal again
    rng = pr.Random(cx.case_seed * 5 + 1)
    if cx.rank == 0:
        for k in pre:
            p = full if k == 0 else numbered(full, k)
            if rng.random() < 0.12:
                os.makedirs(p)
            else:
                with open(p, "w") as f:
                    f.write(f"precious {k}" if rng.random() < 0.8 else "")     # empty files count, too
        # unrelated neighbours
        for o in ["other.csv", name + "x", "x" + name, name.upper() + "~"]:
            if exists and rng.random() < 0.4:
                with open(os.path.join(d, sub, o), "w") as f:
                    f.write("unrelated " + o)
    rng = pr.Random(cx.case_seed * 5 + 2)
    cx.ctl.Barrier()
    pfile = os.path.join(d, "elsewhere", "params.yaml")
    if cx.rank == 0:
        with open(pfile, "w") as f:
            f.write("a: 1\nb: [1, 2]\n")
    cx.ctl.Barrier()
    try:
        path = full
        if rel:
            where = rng.choice([d, os.path.join(d, "elsewhere")])
            os.chdir(where)
            path = os.path.relpath(full, where)
            if not os.path.dirname(path):
                cx.stats["obs_bare_names"] += 1
        live = []
        for run in range(rng.randint(1, 6)):
            kind = rng.choice(["tab", "red", "dump", "find"])
            if kind == "dump" and not os.path.isdir(os.path.join(d, sub)) and not live:
                # only logs and data sets create directories
                kind = "tab"
            cx.op(kind)
            cx.ctl.Barrier()
            before = cx.agree(snapshot(d))
            want = full
            k = 0
            while want in before:
                k += 1
                want = numbered(full, k)
            cx.ctl.Barrier()
            if kind == "find":
                got = r4u.find_free_filename(path)
                cx.check(os.path.abspath(str(got)) == want, "the free name found is not the next free numbered one", got, want)
                cx.ctl.Barrier()
                cx.check(snapshot(d) == before, "looking for a free name changes files")
                cx.stats["obs_names"] += 1
                continue
            if kind == "tab":
                lg = r4l.TabularLogger(cx.comm, path, ["run", "v"])
                lg.log_row(run, cx.rank)
                live.append((lg, want, f"run{run}", kind))
                if rng.random() < 0.6:
                    lg.write()
            elif kind == "red":
                box = {"v": cx.rank + run}
                lg = r4l.ReducingDataSet([r4l.ReducingDataLogger(Source("v", np.int64, box), MPI.SUM, cx.rank)], cx.comm, path)
                lg.log(float(run))
                live.append((lg, want, f"run{run}", kind))
                if rng.random() < 0.6:
                    lg.write()
            else:
                if cx.rank == 0:
                    r4p.init_params(pfile, '{"c": %d}' % run, path)
                    cx.check(os.path.isfile(want) and yaml.safe_load(open(want)) == {"a": 1, "b": [1, 2], "c": run}, "the dump is not in the next free file", want, sorted(before))
            cx.ctl.Barrier()
            after = snapshot(d)
            for p, h in before.items():
                cx.check(after.get(p) == h, "an existing file is changed or deleted by a new run", os.path.relpath(p, d), kind)
            new = sorted(p for p in after if p not in before and after[p] != "dir")
            cx.check(new == [want], "a new run does not write to one fresh numbered file next to the wanted name", [os.path.relpath(p, d) for p in new], "wanted", os.path.relpath(want, d), kind)
            cx.stats["obs_new_files"] += 1
            if k:
                cx.stats["obs_renamed"] += 1
                cx.nontrivial = True
            cx.ctl.Barrier()
        # logs opened one after another with one name, closed in any order, keep to their own files
        order = list(range(len(live)))
        rng.shuffle(order)
        for i in order:
            cx.ctl.Barrier()
            before = cx.agree(snapshot(d))
            cx.ctl.Barrier()
            lg, want, mark, kind = live[i]
            lg.close()
            cx.ctl.Barrier()
            after = snapshot(d)
            for p, h in before.items():
                cx.check(p == want or after.get(p) == h, "closing one log changes another file", os.path.relpath(p, d))
            cx.check(set(after) == set(before), "closing a log creates or deletes files")
            if cx.rank == 0:
                n = len([x for x in open(want).read().split("\n") if x])
                cx.check(n == (1 + cx.size if kind == "tab" else 2), "a log's own file does not hold its rows", n, kind)
            cx.stats["obs_closed"] += 1
            cx.ctl.Barrier()
    finally:
        os.chdir(home)
    drop(cx, d)


def case(cx):
    {"tab": tabular, "red": reducing, "files": files}[cx.profile["mode"]](cx)
