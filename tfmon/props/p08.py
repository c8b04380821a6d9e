import numpy as np
from tfmon import signals as S, ref
ID = "P08"
RULE = "integrate_2d on matrices x even x-axes x arbitrary y-axes (also descending, offset, default) incl. bilinear products with known integrals; derive_window on symmetric and arbitrary windows (all points, closed form from the centred difference and the end jumps); get_spectrum on signals of every parity; linearity on all."
REQUIRED = {"integrate": 300, "default x": 50, "default y": 50, "bilinear": 100, "window": 300, "complex window": 20, "one-point window": 5, "asymmetric window": 80, "spectrum": 200, "odd spectrum": 60, "even spectrum": 60, "smallest": 20}


def cases(tier, rng):
    out = []
    for i in range(400 if tier == "quick" else 1500):
        out.append(dict(op="int", m=rng.choice([2, 3, rng.randint(2, 40)] + [rng.randint(40, 300)] * (i % 20 == 7)), n=rng.choice([2, 3, rng.randint(2, 40)] + [rng.randint(40, 300)] * (i % 20 == 7)), kind=rng.choice(["noise", "noise", "bilinear", "ints", "complex"]), x=rng.choice([None, "even", "desc"]), y=rng.choice([None, "even", "any", "geo"]), seed=rng.randint(0, 10 ** 6)))
        out.append(dict(op="win", w=dict(kind=rng.choice(["hamming", "rect", "gauss", "hann", "asym", "signed", "sym", "complex"]), L=rng.choice([2 * rng.randint(1, 40) + 1] * 9 + [1, 2 * rng.randint(40, 200) + 1, 2 * rng.randint(500, 3000) + 1]), seed=rng.randint(0, 10 ** 6))))
        out.append(dict(op="spec", x=S.pick_signal(rng, S.pick_len(rng, 1, 300) if i % 200 != 100 else rng.randint(1024, 2100))))
    return out


def check(mon, c):
    from tftb.processing.utils import integrate_2d, derive_window, get_spectrum
    if c["op"] == "spec":
        x = S.make(c["x"])
        n = len(x)
        mon.saw("spectrum")
        mon.saw("odd spectrum" if n % 2 else "even spectrum")
        got = mon.call(get_spectrum, x)
        k = np.arange(n)
        f = k - n // 2
        X = np.exp(-2j * np.pi * (np.outer(f, k) % n) / n) @ x
        mon.close(got, np.abs(X) ** 2, "get_spectrum", rtol=1e-9)
        mon.close(np.array([got.sum()]), np.array([n * np.sum(np.abs(x) ** 2)]), "get_spectrum:energy", rtol=1e-9)
        return
    if c["op"] == "win":
        s = c["w"]
        if s["kind"] == "sym":
            r = S._rs(s["seed"])
            w = r.randn(s["L"])
            w = w + w[::-1]
        else:
            w = S.window(s)
        w = w * [1.0, 1e-9, 1.0, 1e6, 1.0][s.get("seed", 0) % 5]
        mon.saw("window")
        if np.iscomplexobj(w):
            mon.saw("complex window")
        d = mon.call(derive_window, w)
        L = len(w)
        mon.shape(d, (L,), "derive_window")
        if L == 1:
            mon.saw("one-point window")
            mon.close(d, np.zeros(1), "derive_window:one point", rtol=0, scale=1, atol=1e-12 * np.abs(w).max())
            return
        mon.close(d[1:-1], (w[2:] - w[:-2]) / 2.0, "derive_window:interior", rtol=0, scale=1, atol=1e-12 * np.abs(w).max())
        mx = np.abs(w).max()
        if np.array_equal(w, w[::-1]) or np.abs(w - w[::-1]).max() < 1e-12 * mx:
            mon.close(d, ref.derive_window(w), "derive_window", rtol=0, scale=1, atol=1e-10 * mx)
            mon.close(d, -d[::-1], "derive_window:antisymmetric", rtol=0, scale=1, atol=1e-10 * mx)
        else:
            mon.saw("asymmetric window")
        # half the mean end height jumps up before the window and down after it, on top of the straight line joining the ends
        mid, ramp = (w[0] + w[-1]) / 2.0, (w[-1] - w[0]) / (L - 1.0)
        ends = np.array([(w[1] - w[0]) / 2.0 + ramp / 2.0 + mid, (w[-1] - w[-2]) / 2.0 + ramp / 2.0 - mid])
        mon.close(d[[0, -1]], ends, "derive_window:end jumps", rtol=0, scale=1, atol=1e-10 * mx)
        mon.ok(abs(d.sum() - ramp * L) < 1e-9 * mx * L, "derive_window:sum", lambda: "%g, expected %g" % (d.sum(), ramp * L))
        d2 = mon.call(derive_window, -3.5 * w)
        mon.close(d2, -3.5 * d, "derive_window:linear", rtol=0, scale=1, atol=1e-10 * mx)
        return
    m, n = c["m"], c["n"]
    r = S._rs(c["seed"])
    mon.saw("integrate")
    if m == 2 or n == 2:
        mon.saw("smallest")
    dx = r.uniform(0.1, 3)
    x = {None: np.arange(n), "even": r.uniform(-5, 5) + dx * np.arange(n), "desc": 4 - dx * np.arange(n)}[c["x"]]
    y = {None: np.arange(m), "even": r.uniform(-5, 5) + 0.3 * np.arange(m), "any": np.cumsum(r.uniform(0.01, 2, m)), "geo": 0.05 * 1.1 ** np.arange(m)}[c["y"]]
    if c["kind"] == "bilinear":
        a, b, e, f = r.uniform(-2, 2, 4)
        A = (a + b * y)[:, None] * (e + f * x)[None, :]
    elif c["kind"] == "ints":
        A = r.randint(-5, 6, (m, n)).astype(float)
    elif c["kind"] == "complex":
        A = r.randn(m, n) + 1j * r.randn(m, n)
    else:
        A = r.randn(m, n)
    A = A * (g := [1.0, 1e-9, 1.0, 1e7][c["seed"] % 4])
    kw = {}
    if c["x"] is not None:
        kw["x"] = x
    else:
        mon.saw("default x")
    if c["y"] is not None:
        kw["y"] = y
    else:
        mon.saw("default y")
    got = mon.call(integrate_2d, A, **kw)
    sc = np.abs(A).sum() * abs(x[1] - x[0]) * np.abs(np.diff(y)).max() + 1e-60
    wx = np.full(n, float(x[1] - x[0]))
    wx[[0, -1]] /= 2
    wy = np.zeros(m)
    wy[:-1] += np.diff(y) / 2
    wy[1:] += np.diff(y) / 2
    mon.close(np.array([got]), np.array([wy @ A @ wx]), "integrate_2d", rtol=1e-11, scale=sc)
    if c["kind"] == "bilinear":
        mon.saw("bilinear")
        a, b = a * g, b * g
        X0, X1, Y0, Y1 = float(x[0]), float(x[-1]), float(y[0]), float(y[-1])
        want = (a * (Y1 - Y0) + b * (Y1 ** 2 - Y0 ** 2) / 2) * (e * (X1 - X0) + f * (X1 ** 2 - X0 ** 2) / 2)
        mon.close(np.array([got]), np.array([want]), "integrate_2d:bilinear", rtol=1e-10, scale=sc + abs(want))
    g2 = mon.call(integrate_2d, 2.5 * A, **kw)
    mon.close(np.array([g2]), np.array([2.5 * got]), "integrate_2d:linear", rtol=1e-11, scale=sc)
