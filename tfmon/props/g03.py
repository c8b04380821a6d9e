import math
import numpy as np
ID = "G03"
RULE = ("FM generator x length x law parameters; modulus, step-by-step phase advance against the integral of the frequency law, and the zero-phase "
        "reference instant are judged at every sample.")
REQUIRED = {k: 60 for k in ("fmconst", "fmlin", "fmsin", "fmpar", "fmhyp", "fmpower", "fmodany")}
REQUIRED.update({"negative frequency": 20, "edge +-0.5": 10, "column iflaw": 5})


def draw(rng, kind, n):
    u = rng.uniform
    fr = lambda: rng.choice([u(-0.5, 0.5), u(-0.5, 0.5), u(0, 0.5), 0.5, -0.5, 0.0, 0.25])     # noqa: E731
    if kind == "fmconst":
        return dict(f=fr(), t0=rng.choice([None, 0, 1, n, n // 2, u(-2, n + 2), u(0, n)]))
    if kind == "fmlin":
        return dict(f=fr(), f2=fr(), t0=rng.choice([None, 1, n, max(1, n // 2), rng.randint(1, n)]))
    if kind == "fmsin":
        a = u(0.0, 0.3)
        b = u(a + 0.02, 0.5)
        return dict(a=a, b=b, period=rng.choice([None, u(4, 3.0 * n + 4), float(rng.randint(3, n + 5))]), t0=rng.choice([None, u(1, n + 1.0), rng.randint(1, n)]),
                    f0=rng.choice([None, a, b, u(a, b)]), pm=rng.choice([1, -1]))
    if kind == "fmpar":
        return dict(c=[u(0, 0.5), u(-1, 1) / n, u(-1, 1) / n ** 2])
    if kind == "fmhyp":
        a = rng.randint(1, n + 3)
        b = rng.choice([x for x in range(1, n + 6) if x != a])
        return dict(p1=[a, u(0.0, 0.5)], p2=[b, u(0.0, 0.5)])
    if kind == "fmpower":
        k = rng.choice([0.5, 2, 3, 0.2, 1.7, -1, -2, 4, 1, 1.0])
        if rng.random() < 0.3:
            return dict(k=k, c=[u(0, 0.4), u(-0.3, 0.3) / (n ** max(0.0, -k))])
        a = rng.randint(1, n + 3)
        b = rng.choice([x for x in range(1, n + 6) if x != a])
        return dict(k=k, c=[a, u(0, 0.5), b, u(0, 0.5)])
    return dict(law=rng.choice(["noise", "sin", "const", "edge"]), seed=rng.randint(0, 10 ** 6),
                t0=rng.choice([None, 1, n, rng.randint(1, n), rng.uniform(1, n)]), col=rng.random() < 0.2)


KINDS = ["fmconst", "fmlin", "fmsin", "fmpar", "fmhyp", "fmpower", "fmodany"]


def cases(tier, rng):
    out = []
    ns = list(range(1, 34)) + [50, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 512, 1000, 1024]
    if tier == "thorough":
        ns = list(range(1, 260)) + [500, 511, 512, 513, 1000, 1024, 2048, 3001, 5000]
    for kind in KINDS:
        for n in ns:
            for _ in range(3 if tier == "quick" else 6):
                out.append(dict(kind=kind, n=n, p=draw(rng, kind, n)))
            if kind != "fmhyp" and kind != "fmpower" and kind != "fmpar" and kind != "fmodany":
                out.append(dict(kind=kind, n=n, p={}))
    return out


def law_of(c):
    seed, n = c["p"]["seed"], c["n"]
    r = np.random.RandomState(seed)
    k = c["p"]["law"]
    if k == "noise":
        return r.uniform(-0.5, 0.5, n)
    if k == "sin":
        return 0.25 + 0.2 * np.sin(np.arange(n) * r.uniform(0.01, 0.5))
    if k == "const":
        return np.full(n, r.uniform(-0.5, 0.5))
    return r.choice([-0.5, 0.5, 0.0], n)


def fmsin_tol(f0, mid, de):
    """An arc cosine at the end of its range turns one ulp of the cosine into 1.5e-8 of the angle."""
    return 1e-8 if abs(f0 - mid) < 0.999 * de else 2e-7


def run(mon, g, c):
    """-> (signal, returned law or None, exact integral of the law over each step or None, zero-phase index or None)"""
    kind, n, p = c["kind"], c["n"], c["p"]
    k = np.arange(n)
    if kind == "fmconst":
        kw = {}
        if "f" in p:
            kw["fnorm"] = p["f"]
        if p.get("t0") is not None:
            kw["t0"] = p["t0"]
        y, law = mon.call(g.fmconst, n, **kw)
        t0 = round(n / 2.0) if p.get("t0") is None else p["t0"]
        f = p.get("f", 0.25)
        ref = np.exp(2j * np.pi * f * (k - t0))
        return y, law, np.full(max(n - 1, 0), f), ref
    if kind == "fmlin":
        kw = {}
        if "f" in p:
            kw = dict(fnormi=p["f"], fnormf=p["f2"])
        if p.get("t0") is not None:
            kw["t0"] = p["t0"]
        y, law = mon.call(g.fmlin, n, **kw)
        a, b = p.get("f", 0.0), p.get("f2", 0.5)
        t0 = round(n / 2.0) if p.get("t0") is None else p["t0"]
        s = (b - a) / max(n - 1, 1)
        prim = lambda m: a * m + s * m ** 2 / 2.0      # noqa: E731
        idx = max(t0, 1) - 1
        ref = np.exp(2j * np.pi * (prim(k) - prim(idx)))
        if t0 < 1:
            ref = None
        return y, law, prim(k[1:]) - prim(k[:-1]), ref
    if kind == "fmsin":
        kw = {}
        if "a" in p:
            kw = dict(fnormin=p["a"], fnormax=p["b"], pm1=p["pm"])
            for nm, key in (("period", "period"), ("t0", "t0"), ("fnorm0", "f0")):
                if p[key] is not None:
                    kw[nm] = p[key]
        y, law = mon.call(g.fmsin, n, **kw)
        a, b = p.get("a", 0.05), p.get("b", 0.45)
        per = float(n) if p.get("period") is None else p["period"]
        # The law is mid + delta cos(2 pi (k - t0)/per + phi): recover its primitive from the law's own parameters
        t0 = n / 2.0 if p.get("t0") is None else p["t0"]
        mid, de = (a + b) / 2, (b - a) / 2
        f0 = mid if p.get("f0") is None else p["f0"]
        phi = -p.get("pm", 1) * math.acos(max(-1.0, min(1.0, (f0 - mid) / de)))
        rt = fmsin_tol(f0, mid, de)
        prim = lambda m: mid * m + de * per / (2 * np.pi) * np.sin(2 * np.pi * (m - t0) / per + phi)        # noqa: E731
        mon.close(law, mid + de * np.cos(2 * np.pi * (k - t0) / per + phi), "fmsin:law", rtol=rt)
        return y, law, prim(k[1:]) - prim(k[:-1]), None
    if kind == "fmpar":
        y, law = mon.call(g.fmpar, n, tuple(p["c"]))
        a0, a1, a2 = p["c"]
        prim = lambda m: a0 * m + a1 * m ** 2 / 2.0 + a2 * m ** 3 / 3.0      # noqa: E731
        mon.close(law, a0 + a1 * k + a2 * k.astype(float) ** 2, "fmpar:law", rtol=1e-9)
        return y, law, prim(k[1:].astype(float)) - prim(k[:-1].astype(float)), None
    t = np.arange(1, n + 1, dtype=float)
    if kind == "fmhyp":
        y, law = mon.call(g.fmhyp, n, tuple(p["p1"]), tuple(p["p2"]))
        cc = (p["p2"][1] - p["p1"][1]) / (1.0 / p["p2"][0] - 1.0 / p["p1"][0])
        f0 = p["p1"][1] - cc / p["p1"][0]
        mon.close(law, f0 + cc / t, "fmhyp:law", rtol=1e-9)
        return y, law, f0 + cc * np.log(t[1:] / t[:-1]), None
    if kind == "fmpower":
        y, law = mon.call(g.fmpower, n, p["k"], tuple(p["c"]))
        kk = p["k"]
        if len(p["c"]) == 2:
            f0, cc = p["c"]
        else:
            (ta, fa), (tb, fb) = p["c"][:2], p["c"][2:]
            cc = (fb - fa) / (float(tb) ** -kk - float(ta) ** -kk)
            f0 = fa - cc * float(ta) ** -kk
        mon.close(law, f0 + cc * t ** -kk, "fmpower:law", rtol=1e-9)
        step = np.log(t[1:] / t[:-1]) if kk == 1 else (t[1:] ** (1 - kk) - t[:-1] ** (1 - kk)) / (1 - kk)
        return y, law, f0 + cc * step, None
    law = law_of(c)
    arg = law.reshape(-1, 1) if p["col"] else law
    kw = {} if p["t0"] is None else dict(t0=p["t0"])
    y = mon.call(g.fmodany, arg, **kw)
    t0 = 1 if p["t0"] is None else int(p["t0"])
    y = np.asarray(y).ravel() if p["col"] else y
    if p["col"]:
        mon.saw("column iflaw")
    cs = np.cumsum(law)
    return y, None, law[1:], np.exp(2j * np.pi * (cs - cs[t0 - 1]))


def check(mon, c):
    import tftb.generators as g
    kind, n, p = c["kind"], c["n"], c["p"]
    y, law, steps, ref = run(mon, g, c)
    mon.saw(kind)
    mon.shape(y, (n,), kind)
    if law is not None:
        mon.shape(law, (n,), kind + ":law")
        if np.any(law < 0):
            mon.saw("negative frequency")
    if p.get("f") in (0.5, -0.5) or p.get("law") == "edge":
        mon.saw("edge +-0.5")
    mon.close(np.abs(y), np.ones(n), kind + ":modulus", rtol=1e-9)
    total = float(np.sum(np.abs(steps))) if len(steps) else 0.0
    big = float(np.max(np.abs(steps))) if len(steps) else 0.0
    tol = 1e-8 + 1e-13 * n * (total + n * big)
    if kind == "fmsin" and p.get("f0") is not None:
        tol += fmsin_tol(p["f0"], (p["a"] + p["b"]) / 2, (p["b"] - p["a"]) / 2)
    if n > 1:
        mon.close(y[1:] * np.conj(y[:-1]), np.exp(2j * np.pi * steps), kind + ":phase advance", rtol=tol)
        # the returned law integrates (trapezoid) to the same advance up to its curvature
        if law is not None and kind in ("fmconst", "fmlin"):
            mon.close(y[1:] * np.conj(y[:-1]), np.exp(1j * np.pi * (law[1:] + law[:-1])), kind + ":law integral", rtol=tol)
    if ref is not None:
        mon.close(y, ref, kind + ":reference phase", rtol=tol)
