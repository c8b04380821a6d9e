import math
import numpy as np
from tfmon import signals as S
ID = "P01"
RULE = "Signal kind x length 1..~600 (odd/even) x gain 1e-9..1e9 x real/complex/integer/row-column; both moments compared with exact weighted sums (math.fsum); Gaussian packets for the uncertainty product; translation and modulation laws."
REQUIRED = {"loctime": 500, "locfreq": 500, "odd n": 300, "even n": 300, "energy at -0.5": 30, "extreme gain": 100, "row or column": 60, "gaussian": 60, "uncertainty": 60, "n=1": 2}


def cases(tier, rng):
    out = []
    for i in range(600 if tier == "quick" else 2000):
        n = S.pick_len(rng, 1, 200) if rng.random() < 0.9 else rng.randint(200, 3000)
        out.append(dict(what="moments", x=S.pick_signal(rng, n), form=rng.choice(["1d", "1d", "1d", "row", "col"])))
    for n in (1, 2, 3):
        out.append(dict(what="moments", x=dict(kind="ones", n=n), form="1d"))
    for i in range(60 if tier == "quick" else 200):
        n = 2 * rng.randint(1, 60)
        out.append(dict(what="moments", x=dict(kind="tone", n=n, f=-0.5, seed=rng.randint(0, 999)), form="1d"))
    for i in range(150 if tier == "quick" else 600):
        n = rng.randint(64, 400)
        out.append(dict(what="gauss", n=n, s=rng.uniform(6, n / 4.0), t0=n * rng.uniform(0.4, 0.6), f=rng.uniform(-0.25, 0.25), ch=rng.choice([0, 0, rng.uniform(-1, 1)])))
    return out


def mom(e, v):
    e = [float(a) for a in e]
    tot = math.fsum(e)
    m = math.fsum(a * b for a, b in zip(e, v)) / tot
    var = math.fsum(a * (b - m) ** 2 for a, b in zip(e, v)) / tot
    return m, 2 * math.sqrt(math.pi * var)


def two_sided(n):
    return [k / n if k < n - n // 2 else (k - n) / n for k in range(n)]


def check(mon, c):
    from tftb.processing import loctime, locfreq
    if c["what"] == "gauss":
        n, s, f = c["n"], c["s"], c["f"]
        k = np.arange(n)
        u = k - c["t0"]
        ch = c["ch"] * 0.15 / (2.0 * s)
        x = np.exp(-np.pi * (u / s) ** 2 + 2j * np.pi * (f * k + ch * u ** 2 / 2))
        tm, T = mon.call(loctime, x)
        fm, B = mon.call(locfreq, x)
        if math.exp(-2 * np.pi * (min(c["t0"], n - 1 - c["t0"]) / s) ** 2) < 1e-9:
            mon.saw("gaussian")
            mon.ok(abs(tm - c["t0"]) < 1e-5 * n, "gaussian mean time", "%g vs %g" % (tm, c["t0"]))
            mon.ok(abs(fm - f) < 1e-5, "gaussian mean frequency", "%g vs %g" % (fm, f))
            mon.ok(abs(T - s) < 1e-4 * s, "gaussian time spread", "%g vs %g" % (T, s))
            want = math.sqrt(1 + (ch * s * s) ** 2) / s
            mon.ok(abs(B - want) < 1e-3 * want, "gaussian frequency spread", "%g vs %g" % (B, want))
            mon.saw("uncertainty")
            mon.ok(T * B > 1 - 1e-4, "uncertainty", "%g" % (T * B))
        return
    sp = c["x"]
    x = np.ones(sp["n"]) if sp["kind"] == "ones" else S.make(sp)
    n = len(x)
    mon.saw("odd n" if n % 2 else "even n")
    if n == 1:
        mon.saw("n=1")
    if sp.get("gain"):
        mon.saw("extreme gain")
    g = sp.get("gain", 1.0)
    y = x if c["form"] == "1d" else (x[None, :] if c["form"] == "row" else x[:, None])
    tm, T = mon.call(loctime, y)
    mon.saw("loctime")
    a, b = mom(np.abs(x / g) ** 2, range(n))
    mon.close(np.array([tm, T]), np.array([a, b]), "loctime", rtol=1e-9, scale=max(n, 1), atol=0)
    if c["form"] != "1d":
        mon.saw("row or column")
    fm, B = mon.call(locfreq, y)
    mon.saw("locfreq")
    X = np.fft.fft(x / g)
    e = np.abs(X) ** 2
    if n % 2 == 0 and e[n // 2] > 0.01 * e.sum():
        mon.saw("energy at -0.5")
    a, b = mom(e, two_sided(n))
    mon.close(np.array([fm]), np.array([a]), "locfreq mean", rtol=0, scale=1.0, atol=1e-9)
    # the spread is a square root: compare the variances
    mon.close(np.array([B ** 2]), np.array([b ** 2]), "locfreq spread", rtol=0, scale=1.0, atol=1e-9)
