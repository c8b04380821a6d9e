import os
import pickle
import random
import subprocess
import sys
import warnings
import numpy as np
from tfmon.core import rng_for
from tfmon.props import _api as A
ID = "S02"
QUICK_ROUNDS = 1
RULE = ("Histories of 6-14 public calls drawn from all functions and classes (some on records longer than 64), replayed in a shuffled and in the reversed order, with neighbouring calls (one argument changed) in between and their earlier results scribbled over, under another random state; whole batches recomputed in a fresh process with another hash seed; "
        "random state, error settings, print options and warning filters compared around every call; random generators replayed from a seed.")
REQUIRED = {"replayed call": 2000, "random state untouched": 2000, "fresh process": 100, "random generator reproduced": 100, "repeated run": 200, "different draws": 60, "replayed neighbour": 400, "result overwritten": 400}
REQUIRED.update({n: 10 for n in A.DETERMINISTIC})


def cases(tier, rng):
    out = []
    for i in range(120 if tier == "quick" else 500):
        out.append(dict(op="history", seed=rng.randint(0, 10 ** 9)))
    for i in range(4 if tier == "quick" else 8):
        out.append(dict(op="process", seed=rng.randint(0, 10 ** 9)))
    for i in range(4 if tier == "quick" else 10):
        out.append(dict(op="variants", seed=rng.randint(0, 10 ** 9)))
    for i in range(100 if tier == "quick" else 300):
        out.append(dict(op="family", seed=rng.randint(0, 10 ** 9)))
    for name in A.RANDOM:
        for i in range(10 if tier == "quick" else 30):
            out.append(dict(op="random", name=name, seed=rng.randint(0, 10 ** 6)))
    for name in A.COHEN + A.AFFINE:
        for i in range(10 if tier == "quick" else 30):
            out.append(dict(op="object", name=name, seed=rng.randint(0, 10 ** 6)))
    return out


def settings():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2], st[3], st[4]), dict(np.geterr()), np.geterrcall(), repr(sorted(np.get_printoptions().items(), key=str)), list(warnings.filters), random.getstate()


AMBIENT = [dict(divide="warn", over="warn", under="warn", invalid="warn"), dict(divide="ignore", over="ignore", under="ignore", invalid="ignore")]
STATE = [0]


def watched(mon, name, fn, args, kw, draws=False):
    box = {}

    STATE[0] += 1
    ambient = AMBIENT[STATE[0] % len(AMBIENT)]

    def inner():
        # the harness works under errstate(all="ignore"): judge under settings that any change would alter
        with np.errstate(**ambient), warnings.catch_warnings(record=True):
            warnings.simplefilter("default")
            b = settings()
            r = fn(*args, **kw)
            box["b"], box["a"] = b, settings()
        return r
    r = mon.call(inner, _name=name)
    b, a = box["b"], box["a"]
    if not draws:
        mon.saw("random state untouched")
        mon.ok(b[0] == a[0], "random state:%s" % name, "NumPy's random state was advanced or reset")
    mon.ok(b[1] == a[1] and b[2] is a[2], "error settings:%s" % name, lambda: "%r -> %r" % (b[1], a[1]))
    mon.ok(b[3] == a[3], "print options:%s" % name, "print options changed")
    mon.ok(b[4] == a[4], "warning filters:%s" % name, "warning filters changed")
    mon.ok(b[5] == a[5], "python random state:%s" % name, "random's state changed")
    return r


def check(mon, c):
    globals()["op_" + c["op"]](mon, c)


def op_history(mon, c):
    r = rng_for(c["seed"], "s02")
    plan = []
    for _ in range(r.randint(6, 14)):
        plan.append((r.choice(A.DETERMINISTIC), r.randint(0, 10 ** 6)))
    plan += [plan[0]]
    calls, first = [], []
    np.random.seed(c["seed"] % 2 ** 32)
    for name, s in plan:
        mon.saw(name)
        fn, args, kw = A.build(name, s)
        first.append(A.copies(watched(mon, name, fn, args, kw)))
        calls.append((name, fn, args, kw, s))
    order = list(range(len(plan)))
    r.shuffle(order)
    for i in order:
        name, fn, args, kw, s = calls[i]
        np.random.seed(r.randint(0, 2 ** 31))
        if r.random() < 0.5:
            g = r.choice(A.RANDOM)
            f2, a2, k2 = A.build(g, r.randint(0, 10 ** 6))
            watched(mon, g, f2, a2, k2, draws=True)
        if r.random() < 0.5:        # same argument objects, or equal new ones
            fn, args, kw = A.build(name, s)
        again = A.copies(watched(mon, name, fn, args, kw))
        mon.saw("replayed call")
        m = A.same(first[i], again)
        mon.ok(m is None, "not reproduced:%s" % name, lambda: m)


def scribble(r, args, kw):
    """Overwrite what a call returned (unless it is the caller's own array): a later equal call must not notice."""
    own = [a for _, a in A.arrays(args, kw)]
    n = 0
    for p in r if isinstance(r, (tuple, list)) else [r]:
        if isinstance(p, np.ndarray) and p.flags.writeable and p.size and p.dtype.kind in "biufc" and not any(np.may_share_memory(p, a) for a in own):
            p[...] = 77
            n += 1
    return n


def op_family(mon, c):
    """One or two functions called over and over with neighbouring arguments, every result overwritten after use."""
    r = rng_for(c["seed"], "s02f")
    names = [r.choice(A.DETERMINISTIC) for _ in range(r.choice([1, 1, 2]))]
    base = {n: r.randint(0, 10 ** 6) for n in names}
    plan = [(r.choice(names), r.randint(0, 3)) for _ in range(r.randint(5, 9))]
    seen = {}
    for name, v in plan + [plan[0]] + plan[::-1]:
        fn, args, kw = A.variant(name, base[name], v)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                res = fn(*args, **kw)
            except Exception as e:
                res = "refused %s" % type(e).__name__
        got = [res] if isinstance(res, str) else A.copies(res)
        if (name, v) in seen:
            mon.saw("replayed neighbour")
            m = A.same(seen[name, v], got)
            mon.ok(m is None, "not reproduced among neighbours:%s" % name, lambda: m)
        seen[name, v] = got
        if not isinstance(res, str):
            mon.calls[name] += 1
            mon.result(res)
            if scribble(res, args, kw):
                mon.saw("result overwritten")


def op_variants(mon, c):
    """Neighbouring calls in one order here and in the opposite order in a fresh process."""
    r = rng_for(c["seed"], "s02v")
    plan = []
    for n in A.DETERMINISTIC:
        s = r.randint(0, 10 ** 6)
        plan += [(n, s, v) for v in range(3)]
    r.shuffle(plan)
    here = []
    for name, s, v in plan:
        with np.errstate(all="ignore"):
            here.append(A.outcome(*A.variant(name, s, v)))
        mon.calls[name] += 1
    there = fresh(mon, plan[::-1], c["seed"], r)[::-1]
    for (name, s, v), a, b in zip(plan, here, there):
        mon.saw("fresh process")
        m = A.same(a, b)
        mon.ok(m is None, "depends on the order of calls:%s" % name, lambda: m)


def fresh(mon, plan, seed, r):
    path = os.path.join(os.environ["TFMON_SCRATCH"], "s02-%d-%d.pkl" % (os.getpid(), seed))
    env = dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 10 ** 6)))
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "tfmon.props.s02", path], input=pickle.dumps(plan), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    mon.ok(p.returncode == 0 and os.path.exists(path), "fresh process failed", lambda: p.stdout.decode()[-500:])
    with open(path, "rb") as fh:
        there = pickle.load(fh)
    os.unlink(path)
    return there


def op_process(mon, c):
    r = rng_for(c["seed"], "s02p")
    plan = [(n, r.randint(0, 10 ** 6)) for n in A.DETERMINISTIC]
    r.shuffle(plan)
    here = []
    for name, s in plan:
        fn, args, kw = A.build(name, s)
        here.append(A.copies(mon.call(fn, *args, _name=name, **kw)))
    there = fresh(mon, plan[::-1], c["seed"], r)[::-1]
    for (name, s), a, b in zip(plan, here, there):
        mon.saw("fresh process")
        m = A.same(a, b)
        mon.ok(m is None, "differs in a fresh process:%s" % name, lambda: m)


def op_random(mon, c):
    name = c["name"]
    fn, args, kw = A.build(name, c["seed"])
    res = []
    for rep in range(2):
        random.seed(rep)
        np.random.seed(c["seed"])
        if rep:
            n2, a2, k2 = A.build(A.DETERMINISTIC[c["seed"] % len(A.DETERMINISTIC)], c["seed"])
            mon.call(n2, *a2, **k2)
        res.append((A.copies(watched(mon, name, fn, args, kw, draws=True)), np.random.get_state()[1].tobytes()))
    mon.saw("random generator reproduced")
    m = A.same(res[0][0], res[1][0])
    mon.ok(m is None, "not reproduced from the seed:%s" % name, lambda: m)
    mon.ok(res[0][1] == res[1][1], "random state after the seed:%s" % name, "differs")
    # another draw / another seed must differ when there is enough randomness for that
    g = getattr(__import__("tftb.generators", fromlist=["x"]), name)
    long = [256] + ([200.0, 40.0, 10.0, 20.0] if name == "dopnoise" else ([2] if name.startswith("ana") else []))
    a = A.copies(watched(mon, name, g, long, {}, draws=True))
    b = A.copies(watched(mon, name, g, long, {}, draws=True))
    np.random.seed((c["seed"] + 1) % 2 ** 31)
    d = A.copies(watched(mon, name, g, long, {}, draws=True))
    mon.saw("different draws")
    mon.ok(A.same(a, b) is not None, "successive draws are equal:%s" % name, "")
    mon.ok(A.same(a, d) is not None, "the seed has no effect:%s" % name, "")


def op_object(mon, c):
    name = c["name"]
    cls, x, kw = A.ctor(name, np.random.RandomState(c["seed"]))
    o = watched(mon, name, cls, [x], kw)
    a = A.copies(watched(mon, name + ".run", o.run, [], {}))
    _, x2, kw2 = A.ctor(name, np.random.RandomState(c["seed"] + 7))
    o2 = mon.call(cls, x2, **kw2, _name=name)
    mon.call(o2.run, _name=name + ".run")
    for _ in range(2):
        np.random.seed(1)
        b = A.copies(watched(mon, name + ".run", o.run, [], {}))
        mon.saw("repeated run")
        m = A.same(a, b)
        mon.ok(m is None, "repeated run:%s" % name, lambda: m)
    d = A.copies(mon.call(lambda: cls(x, **kw).run(), _name=name + ".run"))
    m = A.same(a, d)
    mon.ok(m is None, "new object:%s" % name, lambda: m)


if __name__ == "__main__":
    plan = pickle.load(sys.stdin.buffer)
    np.random.seed(4242)
    out = []
    with np.errstate(all="ignore"):
        for name, s, *v in plan:
            if v:
                out.append(A.outcome(*A.variant(name, s, v[0])))
                continue
            fn, args, kw = A.build(name, s)
            out.append(A.copies(fn(*args, **kw)))
    with open(sys.argv[1], "wb") as fh:
        pickle.dump(out, fh)
