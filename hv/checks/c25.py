"""C25: job runs with retries, log messages and configuration files."""
import contextlib
import io
import multiprocessing as mp
import multiprocessing.pool
import os
import sys

import numpy as np
import yaml
from hera_pspec import utils

from hv.core import Case

ID = "C25"
RULE = ("random job lists (numbers, strings, tuples, also generators) with injected failures that heal after a chosen number of tries, run "
        "serially, in reverse, in threads and in processes, every call recorded; random nested configurations written as YAML; random log "
        "messages with levels, tracebacks and files; distinct = distinct failure schedule and way of running")
REQUIRE = {"calls": 300, "failures": 150, "refused": 20, "report": 150, "config": 100, "log": 100, "flatten": 20}
ASSUMPTIONS = ["dictionaries and the word None inside lists of a configuration are not judged", "log files need not end their messages with a line break"]

FILE, HEAL = None, None  # set before worker processes are forked


def _key(x):
    return repr(x)


def job(x):
    """Append one line to the log of calls (O_APPEND: atomic); fail until the element heals."""
    with open(FILE, "a") as f:
        f.write(_key(x) + "\n")
    with open(FILE) as f:
        n = f.read().splitlines().count(_key(x))
    heal, code = HEAL.get(_key(x), (0, 99))
    return code if n <= heal else 0


def backwards(f, it):
    it = list(it)
    out = [f(x) for x in reversed(it)]
    return out[::-1]


def jobs(ctx):
    global FILE, HEAL
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    kind = str(rng.choice(["range", "int", "str", "tuple", "path"]))
    items = {"range": lambda: list(range(n)), "int": lambda: [int(v) for v in 100 + rng.permutation(50)[:n]],
             "str": lambda: [f"job{v}" for v in rng.permutation(50)[:n]],
             "tuple": lambda: [(int(v), f"xx{v}") for v in rng.permutation(50)[:n]],
             "path": lambda: [f"/data/zen.{v}.uvh5" for v in rng.permutation(50)[:n]]}[kind]()
    maxiter = int(rng.integers(1, 5))
    FILE = os.path.join(ctx.tmp, "calls")
    open(FILE, "w").close()
    p = rng.choice([0.0, 0.4, 0.8, 1.0], p=[.15, .45, .3, .1])
    HEAL = {_key(x): (int(rng.integers(1, 6)) if rng.random() < p else 0, int(rng.choice([1, 2, -1, 255]))) for x in items}
    gen = bool(rng.random() < 0.3)
    how = str(rng.choice(["map", "backwards", "threads", "processes"], p=[.4, .2, .2, .2]))
    ctx.sig("jobs", kind, maxiter, how, gen, tuple(HEAL[_key(x)][0] for x in items))
    ctx.note(items=items, heal=HEAL, maxiter=maxiter, how=how, generator=gen)
    lf = io.StringIO() if rng.random() < 0.7 else None
    verbose = bool(rng.random() < 0.5)
    out = io.StringIO()
    pool = None
    if how == "threads":
        pool = mp.pool.ThreadPool(3)
    elif how == "processes":
        pool = mp.get_context("fork").Pool(2)
    M = {"map": map, "backwards": backwards}.get(how) or pool.map
    it = (x for x in items) if gen else (range(n) if kind == "range" else list(items))
    kw = {} if maxiter == 1 and rng.random() < 0.5 else dict(maxiter=maxiter)
    if how != "map" or rng.random() < 0.3:
        kw["M"] = M
    err = got = None
    try:
        with contextlib.redirect_stdout(out):
            got = utils.job_monitor(job, it, "frobnicate", lf=lf, verbose=verbose, **kw)
    except ValueError as e:
        err = e
    finally:
        if pool is not None:
            pool.close()
            pool.join()
    calls = open(FILE).read().splitlines()
    ctx.event("job-calls", len(calls))
    ctx.check("calls", set(calls) <= {_key(x) for x in items}, lambda: f"jobs were given {set(calls) - {_key(x) for x in items}}")
    allfail = all(HEAL[_key(x)][0] for x in items)
    text = lf.getvalue() if lf else ""
    ctx.equal("report", bool(out.getvalue()), verbose, "printed")
    if lf and verbose:
        ctx.check("report", text.strip() == out.getvalue().strip(), "log file and screen say the same")
    if allfail:
        ctx.check("refused", err is not None, "an error when every job failed")
        for x in items:
            ctx.equal("calls", calls.count(_key(x)), 1, "calls of a job when all failed")
        return
    if err is not None:
        ctx.check("failures", False, f"error {err!r} although some jobs passed")
        return
    for x in items:
        ctx.equal("calls", calls.count(_key(x)), min(HEAL[_key(x)][0] + 1, maxiter), "calls of a job")
    want = [i for i, x in enumerate(items) if HEAL[_key(x)][0] >= maxiter]
    ctx.equal("failures", [int(i) for i in got], want, "jobs that failed in the end")
    if lf is not None:
        ctx.check("report", "frobnicate" in text and (str(np.array(want)) in text if want else "fail" not in text.lower()), lambda: f"log says {text!r}")


def empty(ctx):
    ctx.raises("refused", lambda: utils.job_monitor(len, [], "nothing", verbose=False), ValueError, "no jobs")
    with contextlib.redirect_stdout(io.StringIO()):
        def bad(x):
            raise RuntimeError("inner")
        e = ctx.raises("refused", lambda: utils.job_monitor(bad, [1, 2], "nothing"), RuntimeError, "an error inside a job is not hidden")


def conf(ctx):
    rng = ctx.rng

    def value(d):
        k = int(rng.integers(11))
        if k < 2:
            return None, "None"
        if k == 2:
            v = [str(rng.choice(["xx", "none", "a b"])) for _ in range(rng.integers(1, 4))]
            return list(v), v
        if k == 3:
            v = [[str(rng.choice(["xx", "yy"])), int(rng.integers(9))] for _ in range(rng.integers(1, 4))]
            return [tuple(x) for x in v], v
        if k == 4:
            v = [[1, 2], 3]
            return [[1, 2], 3], v
        if k == 5:
            v = str(rng.choice(["none", "nOne", "text", "1.0.0", "~/x", "None "]))
            return v, v
        if k == 6:
            v = float(rng.normal()) if rng.random() < 0.5 else int(rng.integers(99))
            return v, v
        if k == 7:
            v = bool(rng.random() < 0.5)
            return v, v
        if k == 8:
            return [], []
        if k == 9:
            return None, None
        if d > 3:
            return 1, 1
        return tree(d + 1)

    def tree(d):
        a, b = {}, {}
        for i in range(int(rng.integers(1, 6))):
            w, g = value(d)
            key = f"k{i}" if rng.random() < 0.8 else i
            a[key], b[key] = w, g
        return a, b

    want, given = tree(0)
    f = os.path.join(ctx.tmp, "c.yaml")
    with open(f, "w") as fh:
        yaml.safe_dump(given, fh)
    raw = open(f).read()
    got = utils.load_config(f)
    ctx.sig("conf", raw)

    def same(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            return list(map(repr, sorted(a, key=repr))) == list(map(repr, sorted(b, key=repr))) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return a == b
    ctx.check("config", same(got, want), lambda: f"{got} want {want}")
    ctx.equal("config", open(f).read(), raw, "file kept")
    if rng.random() < 0.3:
        with open(f, "w") as fh:
            fh.write("a: [1, 2\nb: }")
        ctx.raises("config", lambda: utils.load_config(f), Exception, "broken file")
        os.remove(f)
        ctx.raises("config", lambda: utils.load_config(f), IOError, "missing file")


def logs(ctx):
    rng = ctx.rng
    f = open(os.path.join(ctx.tmp, "log"), "a+") if rng.random() < 0.7 else None
    tot, out_all = "", ""
    for i in range(int(rng.integers(1, 6))):
        msg = f"message {i} {rng.integers(10**6)} é %s {{}}"
        lvl, verbose = int(rng.integers(0, 5)), bool(rng.random() < 0.6)
        tb, word = None, f"boom{rng.integers(10**6)}"
        if rng.random() < 0.4:
            try:
                raise KeyError(word)
            except KeyError:
                tb = sys.exc_info()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            utils.log(msg, f=f, lvl=lvl, tb=tb, verbose=verbose)
        first = "  " * lvl + msg
        if f is not None:
            now = open(f.name).read()  # written at once
            ctx.check("log", now.startswith(tot), "earlier messages kept")
            new = now[len(tot):]
            tot = now
            ctx.check("log", new.startswith(first) and (word in new and "KeyError" in new and "Traceback" in new if tb else new.strip("\n") == first), lambda: f"file {new!r} want {first!r}")
        o = out.getvalue()
        if verbose:
            ctx.check("log", o.startswith(first) and (word in o and "KeyError" in o if tb else o == first + "\n"), lambda: f"printed {o!r} want {first!r}")
        else:
            ctx.equal("log", o, "", "printed although quiet")
        ctx.sig("log", lvl, verbose, tb is None, f is None)
    if f is not None:
        f.close()


def flat(ctx):
    rng = ctx.rng
    x = [[int(v) for v in rng.integers(0, 9, rng.integers(0, 4))] for _ in range(rng.integers(0, 6))]
    if rng.random() < 0.3:
        x = [tuple((i, i) for i in s) for s in x]
    ctx.sig("flat", x)
    w = []
    for s in x:
        for i in s:
            w.append(i)
    ctx.equal("flatten", utils.flatten(x), w)


CASES = [Case("jobs", jobs, 300, 3000), Case("empty", empty, 2, 4), Case("conf", conf, 120, 2000), Case("logs", logs, 60, 600), Case("flat", flat, 30, 300)]
