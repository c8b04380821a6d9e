import hashlib
import os
import random
import sys
import threading
import warnings
import numpy as np
from tfmon.core import rng_for
from tfmon.props import _api as A
ID = "S04"
QUICK_ROUNDS = 1
RULE = ("2-4 threads, each running 1-3 calls (all deterministic functions and representations: different ones, one function with neighbouring arguments, or the same argument arrays in every thread; every function once on records longer than 64), under a seeded scheduler that holds all threads but one "
        "and hands over at traced source lines of the library with probability 1, 0.2 or 0.02, in most runs more often at the first visits to a line; besides, free-running threads with a switch interval of a microsecond. Every result is compared with that of the same call alone; "
        "the shared arguments, held results and representations' attributes are compared afterwards. Interleavings are counted by the sequence of (thread, line) at which the scheduler handed over.")
REQUIRED = {"scheduled run": 300, "handover inside the library": 20000, "distinct interleaving": 300, "one function in every thread": 100, "shared arguments": 60, "records longer than 64, scheduled": 60, "object per thread": 80, "free-running threads": 30, "overlapping calls": 300}
REQUIRED.update({n: 4 for n in A.DETERMINISTIC})
ASSUMPTIONS = ["Threads use their own representation objects; plots (matplotlib is not thread-safe) and the random generators (one global random state) are left out.",
               "Under the scheduler a thread can be interrupted between any two source lines of the library, not inside one; free-running threads switch wherever the interpreter does."]


def cases(tier, rng):
    out = []
    q = tier == "quick"
    for i in range(120 if q else 500):
        out.append(dict(op="mixed", seed=rng.randint(0, 10 ** 9)))
    names = list(A.DETERMINISTIC)
    for i in range(2 if q else 8):
        for n in names:
            out.append(dict(op="family", name=n, seed=rng.randint(0, 10 ** 9)))
    for i in range(1 if q else 4):
        for n in names:
            out.append(dict(op="shared", name=n, seed=rng.randint(0, 10 ** 9)))
    for i in range(1 if q else 4):
        for n in names:
            out.append(dict(op="long", name=n, seed=rng.randint(0, 10 ** 9)))
    for n in A.COHEN + A.AFFINE:
        for i in range(8 if q else 24):
            out.append(dict(op="objects", name=n, seed=rng.randint(0, 10 ** 9)))
    for i in range(40 if q else 150):
        out.append(dict(op="free", seed=rng.randint(0, 10 ** 9)))
    return out


class Scheduler:
    """One thread runs at a time; at a traced line the running one may hand over to another, as the seed says."""

    def __init__(self, n, seed, p, rare=False):
        self.rng, self.p = random.Random(seed), p
        self.visits = {} if rare else None      # with rare, the first visits to a line hand over more often than those in a loop
        self.gate = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.hand, self.h = 0, hashlib.blake2b(digest_size=8)
        self.beat, self.free = 0, False
        root = os.path.realpath(os.path.dirname(sys.modules["tftb"].__file__))
        self.known = {}
        self.root = root + os.sep

    def ours(self, code):
        f = code.co_filename
        r = self.known.get(f)
        if r is None:
            r = self.known[f] = os.path.realpath(f).startswith(self.root)
        return r

    def wait(self, me):
        """Until handed over to. A thread stuck outside the scheduler's control (on a lock another one holds) ends scheduling: the rest of the run is free-running."""
        last = -1
        while not self.gate[me].acquire(timeout=0 if self.free else 3):
            if self.free:
                return
            if self.beat == last:
                self.free = True
                return
            last = self.beat

    def start(self):
        self.gate[self.rng.choice(self.alive)].release()

    def done(self, me):
        self.alive.remove(me)
        if self.alive:
            self.gate[self.rng.choice(self.alive)].release()

    def line(self, me, frame):
        self.beat += 1
        if self.free:
            return
        p = self.p
        if self.visits is not None:
            k = (me, frame.f_code, frame.f_lineno)
            v = self.visits[k] = self.visits.get(k, 0) + 1
            p = max(p, 1.0 / v)
        if len(self.alive) > 1 and self.rng.random() < p:
            to = self.rng.choice(self.alive)
            if to != me:
                self.hand += 1
                self.h.update(b"%d %d %d;" % (me, to, frame.f_lineno))
                self.gate[to].release()
                self.wait(me)

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.line(me, frame)
            return local

        def top(frame, event, arg):
            return local if self.ours(frame.f_code) else None
        return top


def run_threads(jobs, sched=None):
    """jobs: per thread a list of callables; returns per thread the list of outcomes."""
    out = [[None] * len(j) for j in jobs]
    spans = []
    barrier = threading.Barrier(len(jobs)) if sched is None else None
    clock = [0]

    def body(me):
        if sched is not None:
            sched.wait(me)
        else:
            barrier.wait()
        try:
            with np.errstate(all="ignore"):
                for i, job in enumerate(jobs[me]):
                    clock[0] += 1
                    a = clock[0]
                    if sched is not None:
                        sys.settrace(sched.tracer(me))
                    try:
                        out[me][i] = job()
                    except BaseException as e:      # noqa: B902
                        out[me][i] = ["refused %s" % type(e).__name__]
                    finally:
                        sys.settrace(None)
                    clock[0] += 1
                    spans.append((me, a, clock[0]))
        finally:
            if sched is not None:
                sched.done(me)
    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    keep = sys.getswitchinterval()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if sched is None:
                sys.setswitchinterval(1e-6)
            for t in ths:
                t.start()
            if sched is not None:
                sched.start()
            for t in ths:
                t.join()
        finally:
            sys.setswitchinterval(keep)
    over = sum(1 for i, (m, a, b) in enumerate(spans) for n, c, d in spans[:i] if m != n and a < d and c < b)
    return out, over


SEEN = set()


def judge(mon, c, jobs, alone, labels, sched):
    got, over = run_threads(jobs, sched)
    mon.saw("overlapping calls", over)
    if sched is not None:
        mon.saw("scheduled run")
        if sched.free:
            mon.saw("scheduling given up")
        mon.saw("handover inside the library", sched.hand)
        d = sched.h.digest()
        if sched.hand and d not in SEEN:
            SEEN.add(d)
            mon.saw("distinct interleaving")
    else:
        mon.saw("free-running threads")
    for me, res in enumerate(got):
        for r, w, name in zip(res, alone[me], labels[me]):
            mon.calls[name] += 1
            mon.saw(name)
            mon.result(r)
            m = A.same(w, r)
            mon.ok(m is None, "differs in concurrent threads:%s" % name, lambda: m)


def plan_of(specs):
    """specs: per thread [(name, seed, variant)] -> (jobs, outcomes alone, names)"""
    jobs, alone, labels = [], [], []
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for th in specs:
            jobs.append([(lambda f=A.variant(*s): A.outcome(*f)) for s in th])
            alone.append([A.outcome(*A.variant(*s)) for s in th])
            labels.append([s[0] for s in th])
    return jobs, alone, labels


def sched_of(r, n):
    return Scheduler(n, r.randint(0, 10 ** 9), r.choice([1.0, 0.2, 0.2, 0.02]), r.random() < 0.6)


def check(mon, c):
    r = rng_for(c["seed"], "s04" + c["op"])
    import tftb.processing       # noqa: F401  (loaded before threads start)
    import tftb.generators       # noqa: F401
    n = r.choice([2, 2, 3, 4])
    op = c["op"]
    A.LONG = {"free": True, "long": "always"}.get(op)
    if op == "mixed" or op == "free":
        specs = [[(r.choice(A.DETERMINISTIC), r.randint(0, 10 ** 6), 0) for _ in range(r.randint(1, 3))] for _ in range(n)]
        if op == "free":
            specs = [th * 3 for th in (specs + specs)[:4]]
        judge(mon, c, *plan_of(specs), sched=None if op == "free" else sched_of(r, n))
    elif op == "family" or op == "long":
        mon.saw("one function in every thread" if op == "family" else "records longer than 64, scheduled")
        base = r.randint(0, 10 ** 6)
        apart = op == "long" or r.random() < 0.6
        specs = [[(c["name"], base + ((me * 10 + k) if apart else 0 if r.random() < 0.6 else k), r.randint(0, 3)) for k in range(r.randint(1, 2))] for me in range(n)]
        plan = plan_of(specs)
        hands = 0
        for again in range(8):      # functions of a few lines: several schedules
            s = sched_of(r, n) if op == "family" else Scheduler(n, r.randint(0, 10 ** 9), 0.02, True)
            judge(mon, c, *plan, sched=s)
            hands += s.hand
            if hands > 300 or s.free:
                break
    elif op == "shared":
        mon.saw("shared arguments")
        fn, args, kw = A.build(c["name"], r.randint(0, 10 ** 6), wide=True)
        before = [np.array(a) for _, a in A.arrays(args, kw)]
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = A.outcome(fn, args, kw)
        judge(mon, c, [[lambda: A.outcome(fn, args, kw)] for _ in range(n)], [[w]] * n, [[c["name"]]] * n, sched_of(r, n))
        m = A.same(before, [a for _, a in A.arrays(args, kw)])
        mon.ok(m is None, "shared argument changed:%s" % c["name"], lambda: m)
    else:
        mon.saw("object per thread")
        name = c["name"]
        seeds = [r.randint(0, 2 ** 31 - 1) for _ in range(n)]
        if r.random() < 0.5:
            seeds = [seeds[0]] + [seeds[0] if r.random() < 0.5 else s for s in seeds[1:]]

        def use(seed):
            cls, x, kw = A.ctor(name, np.random.RandomState(seed))
            if seed % 2:
                kw.pop("fwindow", None)
            o = cls(x, **kw)
            a = o.run()
            first = A.copies(a)
            b = A.copies(o.run())
            return first + b + A.copies([o.tfr, o.ts, o.freqs])
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            alone = [[use(s)] for s in seeds]
        judge(mon, c, [[lambda s=s: use(s)] for s in seeds], alone, [[name]] * n, sched_of(r, n))
