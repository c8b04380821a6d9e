import math
import numpy as np
from tfmon import signals as S, ref
ID = "P04"
RULE = "Matrices (non-negative noise, packets, flat, with negative entries; also real Spectrogram/Wigner-Ville results) x axes (default, stepped, offset, non-uniform frequencies, large units) x order alpha in (0,6]; compared with the entropy evaluated directly; gain, offset, flat bound and duplication laws on the real code."
REQUIRED = {"alpha=1": 150, "alpha=3": 150, "alpha<1": 60, "default axes": 60, "nonuniform frequencies": 60, "negative entries": 40, "flat": 40, "duplication": 60, "offset": 200, "from a representation": 30, "two-sided labels": 20, "frequencies in hertz": 40}


def cases(tier, rng):
    out = []
    for i in range(900 if tier == "quick" else 2600):
        big = i % 40 == 7
        m, n = (rng.randint(100, 400), rng.randint(100, 400)) if big else (rng.randint(2, 40), rng.randint(2, 40))
        out.append(dict(m=m, n=n, kind=rng.choice(["noise", "noise", "blob", "flat", "neg", "dup", "sparse"]), seed=rng.randint(0, 10 ** 6),
                        alpha=rng.choice([1, 1, 1.0, 3, 3.0, 2, 0.5, 0.3, 2.5, 4, 5.0, 6, None]),
                        t=rng.choice([None, "arange", "offset", "step"]), f=rng.choice([None, "half", "nonuni", "int", "two", "hertz"]), gain=rng.choice([1e-8, 1e-3, 2.5, 1e6]),
                        off=rng.choice([1, 5, 17, 0.5])))
    for i in range(60 if tier == "quick" else 160):
        out.append(dict(kind="rep", x=S.pick_signal(rng, rng.randint(12, 48), kinds=["cnoise", "packet", "chirp"], gains=False), rep=rng.choice(["sp", "wv"]), alpha=rng.choice([3, 2, 3.0])))
    return out


def entropy(tfr, t, f, a):
    I = ref.integrate_2d(tfr, t, f)
    p = tfr / I
    eps = 2.3e-16
    if a == 1:
        with np.errstate(all="ignore"):
            q = np.where(p > 0, p * np.log2(np.where(p > 0, p, 1)), 0)
        return -ref.integrate_2d(q, t, f), 4 * eps * (f[-1] - f[0]) * (t[-1] - t[0]) / math.log(2)
    J = ref.integrate_2d(p ** a, t, f)
    if not J > 0:
        return None, None
    return math.log2(J) / (1 - a), 0.0


def check(mon, c):
    from tftb.processing import renyi_information as R
    if c["kind"] == "rep":
        from tftb.processing import Spectrogram, WignerVilleDistribution
        x = S.make(c["x"])
        cls = Spectrogram if c["rep"] == "sp" else WignerVilleDistribution
        tfr, t, f = mon.call(lambda: cls(x).run(), _name=cls.__name__ + ".run")
        got = mon.call(R, tfr, t, f, c["alpha"])
        mon.saw("from a representation")
        fs = np.sort(f)
        cand = [entropy(tfr, t, fs, c["alpha"]), entropy(tfr[np.argsort(f)], t, fs, c["alpha"])]
        cand = [v for v in cand if v[0] is not None]
        if cand and ref.integrate_2d(tfr, t, fs) > 1e-3 * np.abs(tfr).sum() * (fs[1] - fs[0]):
            mon.ok(any(abs(got - v) < 1e-6 * max(1, abs(v)) + w * 2 for v, w in cand), "renyi of a representation", lambda: "%r, expected one of %r" % (got, cand))
        return
    m, n = c["m"], c["n"]
    r = S._rs(c["seed"])
    kind = c["kind"]
    if kind == "flat":
        A = np.full((m, n), 0.7)
        mon.saw("flat")
    elif kind == "blob":
        A = np.exp(-((np.arange(m)[:, None] - m * r.rand()) / 3) ** 2 - ((np.arange(n)[None] - n * r.rand()) / 4) ** 2)
    elif kind == "sparse":
        A = np.where(r.rand(m, n) < 0.2, r.rand(m, n), 0)
        A[m // 2, n // 2] += 1
    else:
        A = r.rand(m, n) + 1e-3
    a = 3 if c["alpha"] is None else c["alpha"]
    if kind == "neg":
        A[r.randint(m), r.randint(n)] = -0.2
        if a == 1 or a != int(a):
            a = 3
        mon.saw("negative entries")
    t = {None: np.arange(n) + 1.0, "arange": np.arange(n), "offset": np.arange(n) + 7, "step": np.arange(n) * 3 + 2}[c["t"]]
    if c["f"] == "nonuni":
        f = np.cumsum(0.01 + r.rand(m))
        mon.saw("nonuniform frequencies")
    elif c["f"] == "hertz":
        f = np.arange(m) * 12500.0
        mon.saw("frequencies in hertz")
    elif c["f"] == "half":
        f = 0.5 * np.arange(m) / m
    elif c["f"] == "two":
        f = ref.fftfreq_two_sided(m)
        mon.saw("two-sided labels")
    else:
        f = np.arange(m)
    kw = {}
    if c["t"] is not None:
        kw["timestamps"] = t
    if c["f"] is not None:
        kw["freq"] = f
    if c["t"] is None and c["f"] is None:
        mon.saw("default axes")
    if c["alpha"] is not None or a != 3:
        kw["alpha"] = a
    mon.saw("alpha=%g" % a if a in (1, 3) else ("alpha<1" if a < 1 else "alpha other"))
    got = mon.call(R, A, **kw)
    fs = np.sort(f)
    want, tol = entropy(A, t, fs, a)
    if want is None or ref.integrate_2d(A, t, fs) <= 1e-3 * np.abs(A).sum() * (t[1] - t[0]) * np.diff(fs).min():
        return
    w2, tol2 = entropy(A[np.argsort(f)], t, fs, a) if c["f"] == "two" else (want, tol)
    ok = abs(got - want) <= 1e-8 * max(1, abs(want)) + 2 * tol or (w2 is not None and abs(got - w2) <= 1e-8 * max(1, abs(w2)) + 2 * tol2)
    mon.ok(ok, "renyi", lambda: "alpha %g: %r, expected %r" % (a, got, want))
    g2 = mon.call(R, A * c["gain"], **kw)
    mon.ok(abs(g2 - got) < 1e-7 * max(1, abs(got)), "gain", lambda: "%r vs %r" % (g2, got))
    mon.saw("offset")
    k2 = dict(kw, timestamps=t + c["off"])
    g3 = mon.call(R, A, **k2)
    mon.ok(abs(g3 - got) < 1e-7 * max(1, abs(got)), "time offset", lambda: "%r vs %r" % (g3, got))
    if kind != "neg":
        area = math.log2(float((t[-1] - t[0]) * (fs[-1] - fs[0])))
        mon.ok(got <= area + 1e-6 + 2 * tol, "flat bound", lambda: "%r > %r" % (got, area))
        if kind == "flat":
            mon.ok(abs(got - area) < 1e-6 + 2 * tol, "flat value", lambda: "%r vs %r" % (got, area))
    if kind == "dup":
        mon.saw("duplication")
        B = np.zeros((m + 2, 2 * n + 3))
        B[1:m + 1, 1:n + 1] = A
        D = B.copy()
        D[1:m + 1, n + 2:2 * n + 2] = A
        al = dict(alpha=a)
        one, two = mon.call(R, B, **al), mon.call(R, D, **al)
        dtol = sum(entropy(M, np.arange(M.shape[1]), np.arange(M.shape[0]), a)[1] for M in (B, D))
        mon.ok(abs(two - one - 1) < 1e-7 + 2 * dtol, "one bit per duplicate", lambda: "%r then %r" % (one, two))
