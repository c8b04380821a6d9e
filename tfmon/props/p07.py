import math
import numpy as np
from tfmon import signals as S
ID = "P07"
RULE = "Images (noise, sparse points, lines at drawn angles, pixels just above/below and exactly at 1/20 of the maximum) x shape (odd/even, thin) x rho/theta resolution; the whole accumulator compared with the definition, contributions on a rounding tie allowed in either cell; straight lines judged by their peak."
REQUIRED = {"noise": 40, "points": 40, "line": 40, "near threshold": 40, "at threshold": 40, "scaled image": 60, "odd rows": 80, "even rows": 80, "odd columns": 80, "even columns": 80, "given m": 80, "given n": 80, "non-square": 80, "line peak": 20}


def cases(tier, rng):
    out = []
    for i in range(340 if tier == "quick" else 900):
        a, b = rng.randint(2, 20), rng.randint(1, 20)
        if rng.random() < 0.3:
            b = a
        if i % 150 == 75:
            a, b = rng.randint(30, 60), rng.randint(30, 60)
        if i % 450 == 225:
            a, b = rng.randint(65, 140), rng.randint(65, 140)
        out.append(dict(a=a, b=b, kind=rng.choice(["noise", "points", "line", "near", "at"]), m=rng.choice([None, None, 2, rng.randint(2, 40)]), n=rng.choice([None, None, 1, 4, rng.randint(2, 40)]), seed=rng.randint(0, 10 ** 6)))
    for i in range(40 if tier == "quick" else 160):
        out.append(dict(kind="peak", a=2 * rng.randint(8, 16) + rng.randint(0, 1), th=rng.uniform(0, 2 * math.pi), off=rng.uniform(2.5, 6), seed=0, m=None, n=None, b=None))
    return out


def coords(n):
    c = (n + 1) // 2        # 1-based centre
    return np.arange(1, n + 1) - c


def check(mon, c):
    from tftb.processing.postprocessing import hough_transform as H
    if c["kind"] == "peak":
        a = c["a"]
        X, Y = np.meshgrid(coords(a), coords(a), indexing="ij")
        d = X * math.cos(c["th"]) - Y * math.sin(c["th"]) - c["off"]
        img = (np.abs(d) <= 0.5).astype(float)
        if img.sum() < a * 0.7:
            return
        mon.saw("line peak")
        ht, rho, th = mon.call(H, img)
        i, j = np.unravel_index(np.argmax(ht), ht.shape)
        dth = abs((th[j] - c["th"] + math.pi) % (2 * math.pi) - math.pi)
        mon.ok(abs(rho[i] - c["off"]) <= 1.5 + (rho[1] - rho[0]) and dth < 2.5 * 2 * math.pi / a, "line peak",
               lambda: "peak at rho %.2f theta %.2f for line %.2f %.2f" % (rho[i], th[j], c["off"], c["th"]))
        return
    a, b = c["a"], c["b"]
    r = S._rs(c["seed"])
    kind = c["kind"]
    if kind == "noise":
        img = r.rand(a, b)
        mon.saw("noise")
    elif kind == "points":
        img = np.zeros((a, b))
        for _ in range(r.randint(1, 5)):
            img[r.randint(a), r.randint(b)] = r.rand() + 0.1
        mon.saw("points")
    elif kind == "line":
        img = np.zeros((a, b))
        th, off = r.uniform(0, 6.28), r.uniform(0, a / 3.0)
        X, Y = np.meshgrid(coords(a), coords(b), indexing="ij")
        img[np.abs(X * math.cos(th) - Y * math.sin(th) - off) < 0.6] = 2.0
        img[r.randint(a), r.randint(b)] = 1.0
        mon.saw("line")
    elif kind == "at":
        img = r.choice([0.0, 1.0, 1.0, 2.0, 20.0], size=(a, b)) * 2.0 ** r.randint(-3, 4)
        img[r.randint(a), r.randint(b)] = img.max() if img.max() > 0 else 1.0
        mon.saw("at threshold")
    else:
        img = r.choice([0.04, 0.049, 0.0501, 0.051, 0.06, 0.5, 0.0], size=(a, b))
        img[r.randint(a), r.randint(b)] = 1.0
        mon.saw("near threshold")
    if c["seed"] % 3 == 0:
        img = img * [1e-9, 1e-4, 300.0, 1e7][c["seed"] // 3 % 4]
        mon.saw("scaled image")
    mon.saw("odd rows" if a % 2 else "even rows")
    mon.saw("odd columns" if b % 2 else "even columns")
    if a != b:
        mon.saw("non-square")
    kw = {}
    m, n = a, b
    if c["m"] is not None:
        m = kw["m"] = c["m"]
        mon.saw("given m")
    if c["n"] is not None:
        n = kw["n"] = c["n"]
        mon.saw("given n")
    if m < 2:
        return
    ht, rho, th = mon.call(H, img, **kw)
    rmax = math.hypot(a, b) / 2
    mon.close(rho, rmax * np.arange(m) / (m - 1.0), "rho labels", rtol=1e-12)
    mon.close(th, 2 * np.pi * np.arange(n) / n, "theta labels", rtol=1e-12, scale=1)
    mon.shape(ht, (m, n), "hough")
    base, slack = np.zeros((m, n)), np.zeros((m, n))
    must = np.zeros(n)
    dr = rmax / (m - 1.0)
    X, Y = np.meshgrid(coords(a), coords(b), indexing="ij")
    sel = img > img.max() / 20.0
    x, y, v = X[sel], Y[sel], img[sel]
    for k in range(n):
        t = 2 * np.pi * k / n
        rr = x * math.cos(t) - y * math.sin(t)
        rr = np.where((x == 0) & (y == 0), 0.0, rr)
        q = rr / dr
        exact0 = (x == 0) & (y == 0)
        tie = (np.abs(q - np.floor(q) - 0.5) < 1e-7) | (~exact0 & (np.abs(rr) < 1e-9)) | (np.abs(rr - rmax) < 1e-9)
        inside = (rr >= -1e-9) & (rr <= rmax + 1e-9)
        sure = inside & ~tie
        np.add.at(base, (np.floor(q[sure] + 0.5).astype(int), k), v[sure])
        for d in (-1e-6, 1e-6):
            z = inside & tie
            i = np.clip(np.floor(q[z] + 0.5 + d).astype(int), 0, m - 1)
            np.add.at(slack, (i, k), v[z])
        # ties in the interior must go somewhere
        interior = inside & tie & (rr > 1e-6) & (rr < rmax - 1e-6)
        must[k] = v[sure].sum() + v[interior].sum()
    e = 1e-9 * img.sum()
    mon.ok(np.all(ht >= base - e), "missing votes", lambda: "%d cells" % np.sum(ht < base - e))
    mon.ok(np.all(ht <= base + slack + e), "extra votes", lambda: "%d cells" % np.sum(ht > base + slack + e))
    mon.ok(np.all(ht.sum(0) >= must - e), "votes lost", "")
    mon.ok(np.all(ht.sum(0) <= must + slack.sum(0) / 2 + e), "votes counted twice", "")
