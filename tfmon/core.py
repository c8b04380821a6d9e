"""Monitor engine: runs cases against the real library, watches every call, keeps verdicts three-valued.

A property module defines
    ID        property id
    RULE      text: how cases are made and what makes one non-trivial
    REQUIRED  {label: minimum count} - if a label was observed less often the run is inconclusive
    cases(tier, rng) -> list of JSON-able dicts
    check(mon, case) -> None, raising Violated through `mon`
Verdicts: held (exit 0), violated (exit 1 + VIOLATION line), inconclusive/error (exit 2).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal as _sig
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")
QUICK_SECONDS = float(os.environ.get("TFMON_QUICK", "12"))


class Violated(Exception):
    def __init__(self, key, msg):
        super().__init__("%s: %s" % (key, msg))
        self.key, self.msg = key, msg


class Inconclusive(Exception):
    pass


class CaseTimeout(Exception):
    """The case burned its CPU allowance: the library does not return."""


class WallTimeout(Exception):
    """The case took too long on the clock without burning CPU: machine trouble, nothing decided."""


def _digest_into(h, obj, depth=0):
    """True if obj holds something non-trivial (a finite non-zero number)."""
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind in "biufc":
            a = np.ascontiguousarray(obj)
            h.update(str(a.shape).encode() + a.tobytes()[:262144])
            with np.errstate(all="ignore"):
                return bool(np.any(np.isfinite(a) & (a != 0))) if a.size else False
        return False
    if isinstance(obj, (tuple, list)) and depth < 3:
        nt = False
        for o in obj:
            nt = _digest_into(h, o, depth + 1) or nt
        return nt
    if isinstance(obj, (int, float, complex, np.generic)):
        h.update(repr(obj).encode())
        return bool(obj != 0)
    return False


class Mon:
    """What one worker observed."""

    def __init__(self, pid):
        self.pid = pid
        self.calls = collections.Counter()      # library calls watched, by name
        self.labels = collections.Counter()     # classes of situations observed
        self.oracles = 0                        # oracle evaluations (comparisons decided)
        self.digests = set()                    # distinct non-trivial results
        self.known = []                         # known findings reproduced
        self.worst = {}                         # largest relative deviation seen per oracle

    # -- watching the library ------------------------------------------------
    def call(self, fn, *a, **k):
        """Call into the library: it must succeed (use `refused` where it must not)."""
        name = k.pop("_name", None) or getattr(fn, "__qualname__", getattr(fn, "__name__", str(fn)))
        self.calls[name] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    r = fn(*a, **k)
        except (CaseTimeout, WallTimeout, MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:      # noqa: B902  (SystemExit too)
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-2:])
            raise Violated("raised:%s" % name, "%s(%s) raised %r at %s" % (name, _short(a, k), e, where))
        self.result(r)
        return r

    def result(self, r):
        h = hashlib.blake2b(digest_size=8)
        if _digest_into(h, r):
            self.digests.add(h.digest())

    def refused(self, fn, *a, **k):
        name = k.pop("_name", None) or getattr(fn, "__qualname__", str(fn))
        self.calls[name] += 1
        self.oracles += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    fn(*a, **k)
        except (CaseTimeout, WallTimeout, MemoryError, KeyboardInterrupt):
            raise
        except Exception:
            return
        raise Violated("accepted:%s" % name, "%s(%s) was accepted" % (name, _short(a, k)))

    def saw(self, label, n=1):
        self.labels[label] += n

    # -- oracles -------------------------------------------------------------
    def ok(self, cond, key, msg=""):
        self.oracles += 1
        if not bool(cond):
            raise Violated(key, msg() if callable(msg) else str(msg))

    def shape(self, arr, shape, key):
        self.ok(isinstance(arr, np.ndarray) and arr.shape == tuple(shape), key + ":shape",
                lambda: "got %s shape %s, expected array of %s" % (type(arr).__name__, getattr(arr, "shape", None), tuple(shape)))

    def close(self, got, ref, key, rtol=1e-8, scale=None, atol=0.0):
        """max|got-ref| <= rtol*scale + atol, scale defaulting to max|ref|; shapes must agree; NaN never agrees."""
        self.oracles += 1
        g, r = np.asarray(got), np.asarray(ref)
        if g.shape != r.shape:
            raise Violated(key + ":shape", "got %s, expected %s" % (g.shape, r.shape))
        if g.size == 0:
            return
        if g.dtype.kind not in "biufc":
            raise Violated(key + ":dtype", "got dtype %s" % g.dtype)
        g = g.astype(complex if (g.dtype.kind == "c" or r.dtype.kind == "c") else float)
        r = r.astype(g.dtype)
        s = float(np.max(np.abs(r))) if scale is None else float(scale)
        with np.errstate(all="ignore"):
            d = np.abs(g - r)
        lim = rtol * s + atol
        bad = ~(d <= lim)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), g.shape)
            raise Violated(key, "%d of %d entries differ; worst at %s: got %r expected %r (limit %.3g)"
                           % (bad.sum(), g.size, tuple(int(v) for v in i), g[i], r[i], lim))
        if s > 0:
            self.worst[key] = max(self.worst.get(key, 0.0), float(d.max() / s))

    def finite(self, a, key):
        self.ok(np.all(np.isfinite(a)), key + ":finite", lambda: "%d non-finite of %d" % (np.sum(~np.isfinite(a)), np.size(a)))

    # -- merge ---------------------------------------------------------------
    def dump(self):
        return dict(calls=dict(self.calls), labels=dict(self.labels), oracles=self.oracles,
                    digests=self.digests, known=self.known, worst=self.worst)

    def merge(self, d):
        self.calls.update(d["calls"])
        self.labels.update(d["labels"])
        self.oracles += d["oracles"]
        self.digests |= d["digests"]
        self.known += d["known"]
        for k, v in d["worst"].items():
            self.worst[k] = max(self.worst.get(k, 0.0), v)


def _short(a, k):
    def s(v):
        if isinstance(v, np.ndarray):
            return "<%s%s>" % (v.dtype, list(v.shape))
        t = repr(v)
        return t if len(t) < 40 else t[:37] + "..."
    return ", ".join([s(v) for v in a] + ["%s=%s" % (n, s(v)) for n, v in k.items()])


# ---------------------------------------------------------------- known findings
def known_findings():
    """{(property, key): text} of the lines `known: property=<id> key=<key> <text>`."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    with open(path) as fh:
        for line in fh:
            if line.startswith("known:"):
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(pid, key)] = parts[3].strip()
    return out


# ---------------------------------------------------------------- running
from tfmon.props import _probes     # noqa: E402


def load(pid):
    return importlib.import_module("tfmon.props." + pid.lower())


def rng_for(seed, tag):
    return random.Random("%s/%s" % (seed, tag))


_W = {}


def _init(pid, known):
    _W["mod"], _W["known"], _W["pid"] = load(pid), known, pid
    warnings.simplefilter("ignore")


def _alarm(*_):
    raise WallTimeout()


def _cpu(*_):
    raise CaseTimeout()


def _run_chunk(chunk):
    mod, known = _W["mod"], _W["known"]
    mon = Mon(_W["pid"])
    viol, errs, samples = [], [], []
    _sig.signal(_sig.SIGALRM, _alarm)
    _sig.signal(_sig.SIGVTALRM, _cpu)
    cpu = float(getattr(mod, "CASE_CPU", 60))
    for idx, case in chunk:
        before = len(mon.digests)
        try:
            _sig.alarm(int(6 * cpu))
            _sig.setitimer(_sig.ITIMER_VIRTUAL, cpu)
            try:
                (_probes if case.get("probe") else mod).check(mon, case)
            finally:
                _sig.setitimer(_sig.ITIMER_VIRTUAL, 0)
                _sig.alarm(0)
        except Violated as v:
            if (mon.pid, v.key) in known and case.get("probe"):
                mon.known.append(v.key)
            else:
                viol.append((idx, case, v.key, v.msg))
        except CaseTimeout:
            viol.append((idx, case, "did-not-return", "no result after %g s of CPU time" % cpu))
            break
        except (WallTimeout, MemoryError, Inconclusive) as e:
            errs.append((idx, case, repr(e)))
        except Exception as e:      # the oracle could not digest what the library returned
            viol.append((idx, case, "uninterpretable:%s" % type(e).__name__,
                         "result could not be judged: %s" % traceback.format_exc(limit=-3)))
        if len(mon.digests) > before and len(samples) < 2:
            samples.append(case)
    return mon.dump(), viol, errs, samples


def explore(pid, tier, seed, workers=None, only=None, budget=0.0):
    """One round of cases; in the thorough tier further rounds with fresh seeds until `budget` seconds are used."""
    mod = load(pid)
    known = known_findings()
    mon = Mon(pid)
    viol, errs, samples = [], [], []
    total, rounds = 0, 0
    workers = workers or min(8, os.cpu_count() or 1)
    t0 = time.time()

    def take(res):
        for d, v, e, s in res:
            mon.merge(d)
            viol.extend(v)
            errs.extend(e)
            if len(samples) < 50:
                samples.extend(s)

    if only is not None:
        _init(pid, known)
        take([_run_chunk(list(enumerate(only)))])
        return mod, mon, len(only), 1, viol, errs, samples
    ctx = mp.get_context("fork")
    load(pid)
    with ctx.Pool(workers, initializer=_init, initargs=(pid, known)) as pool:
        while True:
            rng = rng_for(seed, "%s%s%s" % (pid, tier, rounds or ""))
            indexed = list(enumerate(mod.cases(getattr(mod, "QUICK", "thorough") if tier == "quick" else "thorough", rng)))
            if not rounds:
                indexed += [(len(indexed) + i, c) for i, c in enumerate(_probes.cases(pid))]
            # interleave so that heavy neighbours spread out; chunks small enough to balance
            k = workers * 6
            chunks = [c for c in (indexed[i::k] for i in range(k)) if c]
            r0 = time.time()
            take(pool.map(_run_chunk, chunks, chunksize=1))
            total += len(indexed)
            rounds += 1
            last = time.time() - r0
            if viol or errs:
                break
            if tier == "quick":
                # cheap monitors go on with fresh cases for a few seconds
                if rounds >= getattr(mod, "QUICK_ROUNDS", 3) and (time.time() - t0 + last > QUICK_SECONDS or rounds >= 40):
                    break
            elif time.time() - t0 + last > budget:
                break
    viol.sort(key=lambda t: (len(json.dumps(t[1])), t[0]))
    return mod, mon, total, rounds, viol, errs, samples


def write_evidence(mod, mon, total, rounds, viol, errs, samples, tier, seed, wall):
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=mod.ID, tier=tier, seed=int(seed), level="exploration",
              coverage=dict(
                  evaluations=total,
                  rounds=rounds,
                  distinct_nontrivial=len(mon.digests),
                  rule=mod.RULE + " Distinct/non-trivial: library results with at least one finite non-zero value and a digest not seen before in this run.",
                  samples=samples[:6],
                  oracle_decisions=mon.oracles,
                  library_calls=dict(sorted(mon.calls.items())),
                  situations_observed=dict(sorted(mon.labels.items())),
                  largest_relative_deviation={k: float("%.3g" % v) for k, v in sorted(mon.worst.items())},
                  inconclusive_cases=len(errs)),
              assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                  "Held on the executions observed in this run; no claim beyond them."],
              wall_s=round(wall, 3), violations=len(viol))
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")


def main(pid, tier, seed):
    t0 = time.time()
    budget = float(os.environ.get("TFMON_BUDGET", "240"))
    mod, mon, total, rounds, viol, errs, samples = explore(pid, tier, seed, budget=budget)
    wall = time.time() - t0
    write_evidence(mod, mon, total, rounds, viol, errs, samples, tier, seed, wall)
    known = known_findings()
    for key in sorted(set(mon.known)):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, known[(pid, key)]))
    print("%s %s seed=%s: %d cases in %d rounds, %d library calls, %d oracle decisions, %d distinct results, %.1fs"
          % (pid, tier, seed, total, rounds, sum(mon.calls.values()), mon.oracles, len(mon.digests), wall))
    rdir = os.path.join(EVID, "replay")
    path = os.path.join(rdir, "%s.json" % pid)
    if os.path.exists(path):
        os.unlink(path)
    if viol:
        os.makedirs(rdir, exist_ok=True)
        with open(path, "w") as fh:
            json.dump(dict(property=pid, tier=tier, seed=seed,
                           witnesses=[dict(case=c, key=k, message=m) for _, c, k, m in viol[:20]]), fh, indent=1, default=str)
        kinds = collections.Counter(k for _, _, k, _ in viol)
        for k, n in kinds.most_common(8):
            print("  %s x%d" % (k, n))
        print("  first: %s -> %s" % (json.dumps(viol[0][1], default=str)[:400], viol[0][3][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        print("INCONCLUSIVE property=%s: %d cases not decided, e.g. %s" % (pid, len(errs), errs[0]))
        return 2
    short = ["%s %d<%d" % (l, mon.labels[l], m) for l, m in getattr(mod, "REQUIRED", {}).items() if mon.labels[l] < m]
    if short or not mon.digests or not mon.oracles:
        print("INCONCLUSIVE property=%s: not observed enough: %s" % (pid, short or "nothing observed"))
        return 2
    return 0
