import math
import numpy as np
from tfmon.core import rng_for
from tfmon.props.t12 import default_band, part_band
ID = "T16"
RULE = ("lambdak: every kernel x scalars, lists of u with zeros, both signs, magnitudes 1e-6..20, compared with closed forms and with lambda(u) = e^u lambda(-u); umaxdfla_solve on ratios 1.001..3000 incl. just above 1; "
        "every affine class x length x band (given, half given, default, default over a subset of instants) without n_voices or with it: band ends, geometric labels and number of voices of what run() returns; the same for the default number of samples of wide_band.")
REQUIRED = {"lambdak:scalar": 400, "lambdak:array": 100, "lambdak:zero": 100, "lambdak:unknown": 5, "umaxdfla_solve": 200, "default voices": 100, "given voices": 60, "default band": 60, "one edge given": 30, "subset instants": 30,
            "short grid": 20, "long grid": 40, "fewest voices": 3, "wide band": 50, "wide band:fewest": 10, "bertrand": 40, "dflandrin": 40, "unterberger": 40, "scalogram": 40, "very wide band": 10}
KERNELS = ["bertrand", "unterberger", "d_flandrin", "aspwv"]
ASSUMPTIONS = ["Default bands narrower than 0.04 (a single multiple of 0.05 at both ends) are outside the claim."]


def cases(tier, rng):
    out = []
    q = tier == "quick"
    for i in range(60 if q else 200):
        for k in KERNELS:
            out.append(dict(op="lambdak", kind=k, seed=rng.randint(0, 10 ** 9)))
    for i in range(6):
        out.append(dict(op="unknown", seed=i))
    for i in range(10 if q else 40):
        out.append(dict(op="umax", seed=rng.randint(0, 10 ** 9)))
    for i in range(60 if q else 200):
        for k in ("bertrand", "dflandrin", "unterberger", "scalogram"):
            out.append(dict(op="setup", kind=k, seed=rng.randint(0, 10 ** 9), band=rng.choice(["given", "given", "default", "default", "fmin", "fmax"]), nv=rng.random() < 0.4, t=rng.random() < 0.3))
    for i in range(60 if q else 200):
        out.append(dict(op="wide", seed=rng.randint(0, 10 ** 9)))
    return out


def lam(kind, u):
    u = np.asarray(u, dtype=float)
    if kind == "bertrand":
        v = np.where(u == 0, 1.0, u)
        return np.where(u == 0, 1.0, -v / np.expm1(-v))
    if kind == "unterberger":
        return np.exp(u / 2)
    if kind == "d_flandrin":
        return 4.0 / (1 + np.exp(-u / 2)) ** 2
    return 2.0 / (1 + np.exp(-u))


def check(mon, c):
    from tftb.processing import affine as AF
    r = np.random.RandomState(c["seed"] % (2 ** 32))
    if c["op"] == "lambdak":
        kind = c["kind"]
        u = r.uniform(-1, 1, 8) * 10 ** r.uniform(-6, 1.3, 8)
        u[r.randint(8)] = 0.0
        u[r.randint(8)] = r.choice([1.0, -1.0, 2.0, 0.5])
        if not np.any(u == 0):
            u[0] = 0.0
        tol = 1e-11 + 1e-14 / np.where(u == 0, 1.0, np.abs(u))
        want = lam(kind, u)
        up, dn = [], []
        for v in u:
            mon.saw("lambdak:scalar", 2)
            if v == 0:
                mon.saw("lambdak:zero")
            up.append(mon.call(AF.lambdak, float(v), kind))
            dn.append(mon.call(AF.lambdak, -float(v), kind))
        up, dn = np.array(up, dtype=float), np.array(dn, dtype=float)
        bad = ~(np.abs(up - want) <= tol * want)
        mon.ok(not bad.any(), "lambdak:" + kind, lambda: "lambdak(%r) = %r, expected %r" % (u[bad][0], up[bad][0], want[bad][0]))
        bad = ~(np.abs(up - np.exp(u) * dn) <= 3 * tol * np.abs(up))
        mon.ok(not bad.any(), "lambdak:ratio e^u:" + kind, lambda: "u = %r: %r, %r" % (u[bad][0], up[bad][0], dn[bad][0]))
        mon.saw("lambdak:array")
        keep = u.copy()
        y = mon.call(AF.lambdak, u, kind)
        mon.shape(y, u.shape, "lambdak:array")
        bad = ~(np.abs(y - want) <= tol * want)
        mon.ok(not bad.any(), "lambdak:array:" + kind, lambda: "lambdak(%r) = %r, expected %r" % (u[bad][0], y[bad][0], want[bad][0]))
        mon.ok(np.array_equal(u, keep), "lambdak:argument", "changed")
        return
    if c["op"] == "unknown":
        mon.saw("lambdak:unknown")
        mon.refused("lambdak:unknown kernel", AF.lambdak, 0.5, ["wigner", "", "Bertrand ", "flandrin", None, "active"][c["seed"]])
        return
    if c["op"] == "umax":
        for i in range(20):
            mon.saw("umaxdfla_solve")
            ratio = float(1 + 10 ** r.uniform(-3, 3.5))
            s = math.sqrt(ratio)
            got = mon.call(AF.umaxdfla_solve, ratio)
            mon.ok(abs(got - 4 * (s - 1) / (s + 1)) <= 1e-9 * (1 + got), "umaxdfla_solve", lambda: "%r -> %r, expected %r" % (ratio, got, 4 * (s - 1) / (s + 1)))
        return
    if c["op"] == "wide":
        from tftb.processing.ambiguity import wide_band
        n = int(r.choice([8, 9, 12, 15, 16, 20, 31, 32, 40]))
        lo = r.uniform(0.05, 0.4)
        hi = min(0.5, lo + r.choice([0.02, 0.05, 0.1, 0.2, 0.3]))
        x = np.cos(2 * np.pi * (lo + hi) / 2 * np.arange(n) + r.uniform(0, 6)) + 0.1 * r.randn(n)
        x = x * [1.0, 1e-7, 1e5][c["seed"] % 3]
        mon.saw("wide band")
        waf, tau, theta = mon.call(wide_band, x, fmin=lo, fmax=hi)
        want, fewest = set(), 9
        for e in (-1e-7, 0, 1e-7):
            q = math.ceil(hi * (n - 1) * math.log(hi / lo) + e)
            q = max(2, q - q % 2)
            want.add(2 ** (q - 1).bit_length())
            fewest = min(fewest, q)
        if fewest == 2:
            mon.saw("wide band:fewest")
        mon.ok(len(theta) in want, "wide_band:number of samples", lambda: "%d, expected %s (n=%d, band %g..%g)" % (len(theta), sorted(want), n, lo, hi))
        mon.shape(waf, (len(theta), n), "wide_band")
        mon.close(theta, np.linspace(-math.log(hi / lo), math.log(hi / lo), len(theta)), "wide_band:scales", rtol=1e-9, scale=1.0)
        return
    kind = c["kind"]
    rr = rng_for(c["seed"], "t16")
    n = rr.choice([16, 17, 20, 24, 31, 32, 33, 40, 48, 64])
    k = np.arange(n)
    f1, f2 = r.uniform(0.03, 0.2), r.uniform(0.25, 0.47)
    x = r.uniform(0.7, 1) * np.cos(2 * np.pi * f1 * k + r.uniform(0, 6)) + r.uniform(0.3, 1) * np.cos(2 * np.pi * f2 * k + r.uniform(0, 6)) + 0.02 * r.randn(n)
    x = x * np.hanning(n + 2)[1:-1] * [1.0, 1.0, 1e-7, 1e5][c["seed"] % 4]
    kw = {}
    t = k
    if c["t"]:
        mon.saw("subset instants")
        st = rr.choice([1, 1, 2])
        t = kw["timestamps"] = np.arange(rr.randint(0, n // 6), n - rr.randint(0, n // 6), st)
    lo = rr.uniform(0.02, 0.2)
    hi = rr.uniform(lo + 0.03, 0.5)
    if rr.random() < 0.3:
        lo = rr.uniform(0.15, 0.3)
        hi = rr.uniform(lo + 0.02, lo + 0.12)
    elif rr.random() < 0.15 and c["band"] == "given":
        lo, hi = 10 ** rr.uniform(-3.5, -2.1), rr.uniform(0.45, 0.5)
        mon.saw("very wide band")
    if c["band"] == "given":
        kw["fmin"], kw["fmax"] = lo, hi
        cand = [(lo, hi)]
    else:
        seg = x[t.min():t.max() + 1]
        cand = default_band(np.abs(np.fft.fft(seg)) ** 2, int(np.round(len(seg) / 2)))
        if c["band"] != "default":
            cand = part_band(dict(part=c["band"], band=[min(lo, 0.15), max(hi, 0.3)]), kw, cand)
        if any(b - a < 0.04 for a, b in cand):
            return
        mon.saw("default band" if c["band"] == "default" else "one edge given")
    form = rr.choice(["A", "P"])
    nv = None
    if c["nv"]:
        mon.saw("given voices")
        nv = kw["n_voices"] = rr.choice([2, 3, 4, 7, 8, 16, n])
    if kind == "unterberger" and rr.random() < 0.7:
        kw["form"] = form
    cls = dict(bertrand=AF.BertrandDistribution, dflandrin=AF.DFlandrinDistribution, unterberger=AF.UnterbergerDistribution, scalogram=AF.Scalogram)[kind]
    res = mon.call(lambda: cls(x, **kw).run(), _name=cls.__name__ + ".run")
    tfr, tt, f = res[:3]
    mon.saw(kind)
    f = np.asarray(f)
    ok = [b for b in cand if abs(f[0] - b[0]) < 1e-9 and abs(f[-1] - b[1]) < 1e-9]
    mon.ok(ok, kind + ":band", lambda: "%g..%g, expected %s" % (f[0], f[-1], sorted(set(cand))))
    lo, hi = ok[0]
    mon.shape(tfr, (len(f), len(t)), kind)
    mon.ok(np.array_equal(tt, t), kind + ":instants", lambda: repr(tt))
    if nv is not None:
        want = {nv}
    elif kind == "scalogram":
        mon.saw("default voices")
        want = {n}
    else:
        mon.saw("default voices")
        ratio = hi / lo
        s = math.sqrt(ratio)
        umax = dict(bertrand=math.log(ratio), dflandrin=4 * (s - 1) / (s + 1), unterberger=s - 1 / s)[kind]
        m = (n + n % 2) // 2
        want, fewest = set(), 9
        for e in (-1e-7, 0, 1e-7):
            g = 2 * m * hi * umax + e
            long = g > m if kind != "bertrand" else g * n > 2 * m * m       # m and n/2 differ for odd n
            for half in {math.floor(g + 0.5), math.ceil(g - 0.5)}:
                T = 2 * (half + 1) - 1 if long else 2 * m - 1
                for d in (-1e-7, 0, 1e-7):
                    q = math.ceil(hi * T * math.log(ratio) + d)
                    q = max(2, q - q % 2)
                    want.add(2 ** (q - 1).bit_length())
                    fewest = min(fewest, q)
        mon.saw("long grid" if 2 * hi * umax > 1 else "short grid")
        if fewest == 2:
            mon.saw("fewest voices")
    mon.ok(len(f) in want, kind + ":number of voices", lambda: "%d, expected %s (n=%d, band %g..%g)" % (len(f), sorted(want), n, lo, hi))
    if len(f) > 1:
        mon.close(f, lo * (hi / lo) ** (np.arange(len(f)) / (len(f) - 1.0)), kind + ":geometric voices", rtol=1e-9)
