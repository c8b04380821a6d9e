import math
import warnings
import numpy as np
from tfmon.props import g03
ID = "G04"
RULE = "FM generator x length x parameters (laws inside, touching and outside [0, 0.5]); every sample of the law and the presence of the warning are judged."
REQUIRED = {"warned": 50, "silent": 50, "boundary": 10}


def cases(tier, rng):
    out = []
    ns = list(range(1, 34)) + [50, 64, 65, 100, 127, 128, 129, 256, 300, 512, 1000]
    if tier == "thorough":
        ns = list(range(1, 260)) + [500, 511, 512, 513, 1000, 1024, 2048, 3001]
    for kind in ["fmconst", "fmlin", "fmsin", "fmpar", "fmhyp", "fmpower"]:
        for n in ns:
            for _ in range(3 if tier == "quick" else 6):
                p = g03.draw(rng, kind, n)
                if kind in ("fmpar", "fmhyp", "fmpower"):
                    v = rng.choice(["as is", "inside", "top", "bottom", "outside"])
                    if kind == "fmpar" and v != "as is":
                        # monotone law with chosen end points
                        lo, hi = {"inside": (0.1, 0.4), "top": (0.2, 0.5), "bottom": (0.0, 0.3), "outside": rng.choice([(0.1, 0.6), (-0.1, 0.3)])}[v]
                        s = (hi - lo) / max(n - 1, 1)
                        p = dict(c=[lo, s, 0.0])
                    if kind == "fmhyp" and v in ("inside", "outside"):
                        p = dict(p1=[1, 0.45 if v == "inside" else 0.7], p2=[n + 1, 0.1])
                    if kind == "fmpower" and v in ("inside", "outside"):
                        p = dict(k=rng.choice([0.5, 2]), c=[0.1, 0.3 if v == "inside" else 0.6])
                out.append(dict(kind=kind, n=n, p=p))
            if kind in ("fmconst", "fmlin", "fmsin"):
                out.append(dict(kind=kind, n=n, p={}))
        for _ in range(4):
            if kind == "fmpar":     # law that touches a boundary exactly
                out.append(dict(kind=kind, n=rng.randint(2, 40), p=dict(c=[0.5, -0.25 / 64, 0.0])))
                out.append(dict(kind=kind, n=rng.randint(2, 40), p=dict(c=[0.0, 0.25 / 64, 0.0])))
            if kind == "fmpower":
                out.append(dict(kind=kind, n=rng.randint(2, 40), p=dict(k=2, c=[0.25, 0.25])))
                out.append(dict(kind=kind, n=rng.randint(2, 40), p=dict(k=2, c=[0.0, 0.25])))
            if kind == "fmhyp":
                out.append(dict(kind=kind, n=rng.randint(2, 60), p=dict(p1=[1, 0.5], p2=[2, 0.25])))
    return out


def expected(c):
    kind, n, p = c["kind"], c["n"], c["p"]
    k = np.arange(n, dtype=float)
    t = k + 1
    if kind == "fmconst":
        return np.full(n, p.get("f", 0.25))
    if kind == "fmlin":
        a, b = p.get("f", 0.0), p.get("f2", 0.5)
        return a + (b - a) * (k / (n - 1) if n > 1 else k)
    if kind == "fmpar":
        return p["c"][0] + p["c"][1] * k + p["c"][2] * k ** 2
    if kind == "fmhyp":
        (ta, fa), (tb, fb) = p["p1"], p["p2"]
        return fa + (fb - fa) * (1 / t - 1.0 / ta) / (1.0 / tb - 1.0 / ta)
    if kind == "fmpower":
        kk = float(p["k"])
        if len(p["c"]) == 2:
            return p["c"][0] + p["c"][1] * t ** -kk
        ta, fa, tb, fb = p["c"]
        return fa + (fb - fa) * (t ** -kk - float(ta) ** -kk) / (float(tb) ** -kk - float(ta) ** -kk)
    return None


def check(mon, c):
    import tftb.generators as g
    kind, n, p = c["kind"], c["n"], c["p"]
    caught = []

    class Spy:
        """records warnings of the watched call"""
        def __getattr__(self, name):
            fn = getattr(g, name)

            def wrapped(*a, **k):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    r = fn(*a, **k)
                caught.extend(w)
                return r
            wrapped.__qualname__ = name
            return wrapped
    y, law, _, _ = g03.run(mon, Spy(), c)
    mon.shape(law, (n,), kind)
    law = np.asarray(law, float)
    ref = expected(c)
    if ref is not None:
        # conditioning: differences of nearby powers lose digits
        mon.close(law, ref, kind, rtol=1e-7 if kind in ("fmhyp", "fmpower") else 1e-11, scale=max(0.5, np.abs(ref).max()))
    else:
        a, b = p.get("a", 0.05), p.get("b", 0.45)
        per = float(n) if p.get("period") is None else p["period"]
        t0 = n / 2.0 if p.get("t0") is None else p["t0"]
        f0 = (a + b) / 2 if p.get("f0") is None else p["f0"]
        pm = p.get("pm", 1)
        de = (b - a) / 2
        ac = math.acos(max(-1.0, min(1.0, (f0 - (a + b) / 2) / de)))
        k = np.arange(n)
        # value f0 at t0, slope sign = pm, sinusoid of that period between a and b
        ref = (a + b) / 2 + de * np.cos(2 * np.pi * (k - t0) / per - pm * ac)
        rt = g03.fmsin_tol(f0, (a + b) / 2, de)
        mon.close(law, ref, "fmsin", rtol=rt)
        mon.ok(np.all(law >= a - 1e-9) and np.all(law <= b + 1e-9), "fmsin:range")
        if t0 == int(t0) and 0 <= t0 < n:
            mon.close(law[int(t0)], f0, "fmsin:value at t0", rtol=rt, scale=1.0)
    if kind in ("fmpar", "fmhyp", "fmpower"):
        warned = any(issubclass(w.category, UserWarning) for w in caught)
        lo, hi = ref.min(), ref.max()
        eps = 1e-9
        if lo > eps and hi < 0.5 - eps or (np.array_equal(law, ref) and lo >= 0 and hi <= 0.5):
            mon.ok(not warned, kind + ":spurious warning", "law in [%r, %r]" % (lo, hi))
            mon.saw("silent")
            if lo == 0 or hi == 0.5:
                mon.saw("boundary")
        elif lo < -eps or hi > 0.5 + eps:
            mon.ok(warned, kind + ":no warning", "law in [%r, %r]" % (lo, hi))
            mon.saw("warned")
