"""
Runner for the runtime monitors.

A check module (hv/checks/cXX.py) defines

  ID       property id
  RULE     how cases are made and what makes one non-trivial
  CASES    list of Case(name, fn, quick=N, thorough=M)
  REQUIRE  {monitor name: minimum number of evaluations} -- below this the
           verdict is "inconclusive" (exit 2), never "held"

fn(ctx) drives the real code and reports what its monitors see through ctx.
Every random choice comes from ctx.rng, seeded by (VERIF_SEED, id, case, index).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "hera_pspec") + os.sep
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """The monitor cannot decide on this execution."""


class Stop(Exception):
    """A violation was recorded and the rest of the case is meaningless."""


class Case:
    def __init__(self, name, fn, quick, thorough=None, timeout=120):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.timeout = timeout


def _short(x, n=400):
    if isinstance(x, np.ndarray):
        with np.printoptions(precision=6, threshold=12, edgeitems=3):
            s = f"ndarray{x.shape} {x.dtype} {x}"
    else:
        try:
            s = repr(x)
        except Exception as e:  # noqa
            s = f"<unprintable {type(x)} {e}>"
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """What a running case sees: randomness, scratch space, and monitors."""

    def __init__(self, prop, case, index, seed, tier):
        self.prop, self.case, self.index, self.seed, self.tier = (
            prop, case, index, seed, tier)
        key = [seed, zlib.crc32(prop.encode()), zlib.crc32(case.encode()), index]
        self.rng = np.random.default_rng(np.random.SeedSequence(key))
        np.random.seed(zlib.crc32(repr(key).encode()) % (2**32 - 1))
        self.counts = {}
        self.events = {}
        self.fails = []
        self.findings = {}
        self.sigs = set()
        self.samples = []
        self.notes = {}
        self._tmp = None

    # -- scratch ---------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix=f"hv-{self.prop}-")
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # -- evidence --------------------------------------------------------
    def sig(self, *a):
        """Signature of a distinct, non-trivial situation reached."""
        self.sigs.add(repr(a))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: _short(v, 200) if not isinstance(
                v, (int, float, str, bool)) else v for k, v in kw.items()})

    def note(self, **kw):
        """Attached to any violation of this case (describes the input)."""
        self.notes.update({k: _short(v) for k, v in kw.items()})

    # -- monitors --------------------------------------------------------
    def check(self, monitor, ok, detail="", key=None):
        self.counts[monitor] = self.counts.get(monitor, 0) + 1
        try:
            good = bool(ok)
        except Exception:
            good = False
        if not good:
            self.fails.append({"monitor": monitor, "key": key or monitor,
                               "detail": detail() if callable(detail) else _short(detail)
                               if not isinstance(detail, str) else detail,
                               "notes": dict(self.notes)})
        return good

    def equal(self, monitor, got, want, what="", key=None):
        try:
            ok = got == want
            if isinstance(ok, np.ndarray):
                ok = ok.all()
        except Exception:
            ok = False
        return self.check(monitor, ok,
                          lambda: f"{what}: got {_short(got)} want {_short(want)}", key)

    def close(self, monitor, got, want, rtol=1e-8, atol=0.0, what="", key=None,
              scale=None):
        """|got-want| <= atol + rtol*max|want| (or scale), NaN pattern equal."""
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                return self.check(monitor, False,
                                  f"{what}: shape {g.shape} want {w.shape}", key)
            if g.size == 0:
                return self.check(monitor, True)
            gn, wn = np.isnan(g), np.isnan(w)
            fin = np.isfinite(w)
            if scale is None:
                scale = np.max(np.abs(w[fin])) if fin.any() else 0.0
            tol = atol + rtol * scale
            with np.errstate(invalid="ignore"):
                d = np.abs(g - w)
            ok = np.array_equal(gn, wn) and np.all((d <= tol) | gn | (g == w))
        except Exception as e:  # unreadable output
            return self.check(monitor, False, f"{what}: {e!r}", key)
        return self.check(
            monitor, ok,
            lambda: f"{what}: got {_short(g)} want {_short(w)} "
                    f"maxdiff {np.nanmax(d) if d.size else 0:.3e} tol {tol:.3e}", key)

    def close_rel(self, monitor, got, want, rtol=1e-8, atol=0.0, what="", key=None):
        """Elementwise relative comparison."""
        try:
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=atol,
                                                    equal_nan=True)
        except Exception as e:
            return self.check(monitor, False, f"{what}: {e!r}", key)
        return self.check(monitor, ok,
                          lambda: f"{what}: got {_short(g)} want {_short(w)}", key)

    def raises(self, monitor, fn, exc=Exception, what="", key=None):
        """fn must be refused with an exception; True if it was."""
        try:
            r = fn()
        except exc as e:
            self.check(monitor, True)
            return e
        self.check(monitor, False, f"{what}: accepted, returned {_short(r)}", key)
        return None

    def must(self, monitor, ok, detail="", key=None):
        if not self.check(monitor, ok, detail, key):
            raise Stop()

    def finding(self, fid, holds, symptom, detail=""):
        """
        A probe for a listed known finding.  holds: the property held (the
        defect is gone); symptom: it failed in exactly the recorded way.
        """
        self.counts["known-finding-probe"] = self.counts.get(
            "known-finding-probe", 0) + 1
        if holds:
            self.findings.setdefault(fid, False)
        elif symptom:
            self.findings[fid] = True
        else:
            self.fails.append({"monitor": "known-finding-probe",
                               "key": f"{fid}:other-symptom",
                               "detail": f"{fid}: fails differently from the "
                                         f"recorded finding: {detail}"})


def _sut_frames(tb):
    return [f for f in traceback.extract_tb(tb) if f.filename.startswith(SRC)]


def _alarm(signum, frame):
    raise CaseTimeout()


_REACH = {}


def _start_reach():
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, "hv-reach")
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename.startswith(SRC):
            _REACH.setdefault(code.co_filename[len(SRC):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def run_case(prop, case, index, seed, tier):
    ctx = Ctx(prop, case.name, index, seed, tier)
    status = "ok"
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, case.timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                case.fn(ctx)
    except CaseTimeout:
        status = "timeout"
    except Inconclusive as e:
        status = f"inconclusive: {e}"
    except Stop:
        pass
    except (ImportError, MemoryError) as e:
        status = f"inconclusive: {e!r}"
    except OSError as e:
        if getattr(e, "errno", None) in (28, 12, 24, 122):
            status = f"inconclusive: {e!r}"
        else:
            _exc_violation(ctx, e)
    except Exception as e:
        _exc_violation(ctx, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.cleanup()
    return {"case": case.name, "index": index, "status": status,
            "counts": ctx.counts, "events": ctx.events, "fails": ctx.fails,
            "findings": ctx.findings, "sigs": list(ctx.sigs),
            "samples": ctx.samples, "notes": ctx.notes,
            "wall": time.time() - t0,
            "reach": {k: sorted(v) for k, v in _REACH.items()}}


def _exc_violation(ctx, e):
    fr = _sut_frames(e.__traceback__)
    allf = traceback.extract_tb(e.__traceback__)
    if fr:
        where = f"{fr[-1].filename[len(SRC):]}:{fr[-1].name}"
        mon = "no-crash-on-valid-input"
    else:
        where = f"{os.path.basename(allf[-1].filename)}:{allf[-1].name}"
        mon = "output-is-interpretable"
    ctx.check(mon, False,
              f"{type(e).__name__}: {e} in {where}\n" + "".join(
                  traceback.format_list(allf[-6:])),
              key=f"{mon}:{type(e).__name__}:{where}")


_MOD = None


def _work(args):
    name, index, seed, tier = args
    case = next(c for c in _MOD.CASES if c.name == name)
    return run_case(_MOD.ID, case, index, seed, tier)


def _init_worker():
    dn = open(os.devnull, "w")
    os.dup2(dn.fileno(), 1)
    sys.stdout = dn
    _start_reach()


def load_known(prop):
    """Lines 'known: property=<id> id=<finding> <what fails>'; others are ignored."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = {"what": m.group(3)}
    return out


def run(mod, tier, seed, replay=None, only=None, quiet=False):
    global _MOD
    _MOD = mod
    t0 = time.time()
    known = load_known(mod.ID)
    jobs = []
    if replay:
        r = json.load(open(replay))
        jobs = [(r["case"], r["index"], r["seed"], r["tier"])]
    else:
        for c in mod.CASES:
            if only and c.name not in only:
                continue
            n = c.quick if tier == "quick" else c.thorough
            jobs += [(c.name, i, seed, tier) for i in range(n)]
        # interleave case kinds so that a deadline leaves a balanced sample
        jobs.sort(key=lambda j: (j[1], j[0]))
    deadline = t0 + (float(os.environ.get("VERIF_DEADLINE", "800" if tier == "quick" else "3000")))
    results, broken = [], None
    import multiprocessing as mp
    ex = cf.ProcessPoolExecutor(NPROC, mp_context=mp.get_context("fork"),
                                initializer=_init_worker)
    try:
        futs = [ex.submit(_work, j) for j in jobs]
        try:
            for f in cf.as_completed(futs, timeout=max(1, deadline - time.time())):
                results.append(f.result())
        except cf.TimeoutError:
            broken = "deadline reached before every case ran"
        except cf.process.BrokenProcessPool as e:
            broken = f"worker died: {e}"
    finally:
        for p in list((ex._processes or {}).values()):
            if broken:
                p.kill()
        ex.shutdown(wait=not broken, cancel_futures=True)

    counts, events, sigs, viol, found, samples = {}, {}, set(), {}, {}, []
    inconcl, reach = [], {}
    for r in sorted(results, key=lambda r: (r["case"], r["index"])):
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["reach"].items():
            reach.setdefault(k, set()).update(v)
        sigs.update((r["case"], s) for s in r["sigs"])
        for k, v in r["findings"].items():
            found[k] = found.get(k, False) or v
        if r["samples"] and len([s for s in samples if s["case"] == r["case"]]) < 2:
            samples.append({"case": r["case"], "index": r["index"], **r["samples"][0]})
        for fl in r["fails"]:
            viol.setdefault(fl["key"], []).append((r, fl))
        if r["status"] != "ok":
            inconcl.append((r["case"], r["index"], r["status"]))
    # a reported "known" finding must be listed
    for fid, seen in found.items():
        if seen and fid not in known:
            viol.setdefault(f"unlisted:{fid}", []).append(
                (next(r for r in results if r["findings"].get(fid)),
                 {"monitor": "known-finding-probe", "key": f"unlisted:{fid}",
                  "detail": "fails and is not in known_findings.txt"}))
    wall = time.time() - t0
    rdir = os.path.join(HERE, "replays")
    lines = []
    for n, (key, lst) in enumerate(sorted(viol.items(), key=lambda kv: -len(kv[1]))):
        r, fl = min(lst, key=lambda x: x[0]["index"])
        os.makedirs(rdir, exist_ok=True)
        safe = "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in key)[:80]
        path = os.path.join(rdir, f"{mod.ID}-{safe}.json")
        json.dump({"property": mod.ID, "case": r["case"], "index": r["index"],
                   "seed": seed if not replay else jobs[0][2],
                   "tier": tier if not replay else jobs[0][3],
                   "monitor": fl["monitor"], "key": key, "detail": fl["detail"],
                   "input": fl.get("notes", r["notes"]), "occurrences": len(lst),
                   "how": f"cd /verif && ./check {mod.ID} --replay {path}"},
                  open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={mod.ID} replay={path}")
        print(f"  [{fl['monitor']}] {r['case']}#{r['index']} x{len(lst)}: {fl['detail'][:1200]}")
        if fl.get("notes"):
            print(f"     input: {json.dumps(fl['notes'])[:600]}")
    for ln in lines[:20]:
        print(ln)
    for fid, seen in sorted(found.items()):
        if seen and fid in known:
            print(f"KNOWN-FINDING: property={mod.ID} {known[fid]['what']}")
    missing = {}
    if not replay and not only:
        for m, n in getattr(mod, "REQUIRE", {}).items():
            if counts.get(m, 0) < n:
                missing[m] = [counts.get(m, 0), n]
    verdict = "violated" if viol else "held"
    # a few cases may be undecided (timeouts on a loaded machine); the verdict
    # is inconclusive when more than a tenth are, or a monitor was not reached
    if not viol and (broken or missing or len(inconcl) > max(2, len(jobs) // 10)):
        verdict = "inconclusive"
    if not replay and not only:
        ev = {
            "property": mod.ID, "tier": tier, "seed": seed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": len(results),
                "distinct_nontrivial": len(sigs),
                "rule": mod.RULE,
                "samples": samples[:12],
                "monitor_evaluations": counts,
                "events": events,
                "cases": {c.name: sum(r["case"] == c.name for r in results)
                          for c in mod.CASES},
                "undecided_cases": [list(map(str, x)) for x in inconcl[:20]],
                "unreached_monitors": missing,
                "repo_lines_executed": {k: len(v) for k, v in sorted(reach.items())},
                "verdict": verdict,
                "known_findings_seen": sorted(k for k, v in found.items() if v),
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmpf = os.path.join(HERE, "evidence", f".{mod.ID}.tmp")
        json.dump(ev, open(tmpf, "w"), indent=1)
        os.replace(tmpf, os.path.join(HERE, "evidence", f"{mod.ID}.json"))
    if os.environ.get("VERIF_REACH"):
        json.dump({k: sorted(v) for k, v in reach.items()},
                  open(os.environ["VERIF_REACH"], "w"))
    print(f"{mod.ID} {verdict}: {len(results)} executions, "
          f"{sum(counts.values())} monitor evaluations, {len(sigs)} distinct "
          f"situations, {wall:.1f}s" + (f"; {broken}" if broken else "")
          + (f"; unreached {missing}" if missing else "")
          + (f"; undecided {inconcl[:5]}" if inconcl else ""))
    if viol:
        return 1
    return 0 if verdict == "held" else 2
