import numpy as np
from tfmon import signals as S
ID = "P03"
RULE = "Signals (pulses, packets, noise, chirps) x length 1..~300 x frequencies (default or given, inside and outside the DFT grid) x row/column form; each value compared with the ratio of explicit Fourier sums, cells with a nearly vanishing denominator only within {0} and [1, n+3]; on the range limits either; pulses judged exactly."
REQUIRED = {"default frequencies": 300, "given frequencies": 300, "pulse": 100, "out of range": 200, "beyond n+3": 100, "row or column": 100, "odd n": 200, "vanishing spectrum": 100, "even n": 200}


def cases(tier, rng):
    out = []
    for i in range(1000 if tier == "quick" else 3000):
        n = S.pick_len(rng, 1, 120) if rng.random() < 0.9 else rng.randint(120, 500)
        if i % 500 == 250:
            n = rng.randint(1000, 2500)
        x = S.pick_signal(rng, n)
        if rng.random() < 0.25:
            x = dict(kind="impulse", n=n, seed=0, t0=rng.choice([0, n - 1, n // 2, rng.randrange(n)]))
        f = None
        if rng.random() < 0.5:
            f = [rng.choice([0.0, 0.5, -0.5, 0.25, rng.uniform(-0.5, 0.5), rng.uniform(0, 0.5), rng.randrange(n) / n]) for _ in range(rng.randint(1, 20))]
        if i % 20 == 3:
            x = dict(kind="ones", n=n, seed=0)
        if i % 20 == 13 and n >= 4:
            n -= n % 4
            x = dict(kind="ones", n=n, seed=1)
        if i % 50 == 23:
            x = dict(kind="zeros", n=n, seed=0)
        out.append(dict(x=x, f=f, form=rng.choice(["1d", "1d", "row", "col"])))
    return out


def check(mon, c):
    from tftb.processing import group_delay
    x = S.make(c["x"])
    n = len(x)
    mon.saw("odd n" if n % 2 else "even n")
    y = x if c["form"] == "1d" else (x[None, :] if c["form"] == "row" else x[:, None])
    if c["form"] != "1d":
        mon.saw("row or column")
    if c["f"] is None:
        mon.saw("default frequencies")
        gd = mon.call(group_delay, y)
        f = (np.arange(n) - n // 2) / float(n)
    else:
        mon.saw("given frequencies")
        f = np.array(c["f"])
        gd = mon.call(group_delay, y, f)
    mon.shape(gd, f.shape, "group_delay")
    mon.ok(np.isfinite(gd).all() and np.all((gd == 0) | ((gd >= 1) & (gd <= n + 3))), "range", lambda: "%r outside {0} and [1, n+3]" % gd[~((gd == 0) | ((gd >= 1) & (gd <= n + 3)))][:3])
    k = np.arange(n)
    E = np.exp(-2j * np.pi * np.outer(f, k))
    D = E @ x
    N = E @ (x * (k + 1))
    scale = np.sum(np.abs(x))
    solid = np.abs(D) > 1e-6 * scale
    with np.errstate(all="ignore"):
        r = np.real(N / D)
    edge = (np.abs(r - 1) < 1e-6 * n) | (np.abs(r - (n + 3)) < 1e-6 * n)
    inside = (r >= 1) & (r <= n + 3)
    want = np.where(inside, r, 0.0)
    with np.errstate(all="ignore"):
        tol = 1e-8 * (n + 3) + 1e-12 * scale * (n / np.abs(D) + np.abs(N) / np.abs(D) ** 2)     # conditioning of the ratio
    mon.saw("vanishing spectrum", int(np.sum(np.fft.fft(x) == 0)))
    solid &= tol < 0.1
    edge |= (np.abs(r - 1) < 2 * tol) | (np.abs(r - (n + 3)) < 2 * tol)
    use = solid & ~edge
    mon.saw("out of range", int(np.sum(use & (r < 1))))
    mon.saw("beyond n+3", int(np.sum(use & (r > n + 3))))
    bad = use & ~(np.abs(gd - want) <= tol)
    mon.ok(not bad.any(), "group delay", lambda: "%d differ, e.g. %r expected %r" % (bad.sum(), gd[bad][0], want[bad][0]))
    # on the lower limit either the limit itself or 0
    lim = solid & edge
    ok = (np.abs(gd - r) < 1e-5 * n + tol) | (gd == 0)
    mon.ok(np.all(ok[lim]), "group delay at the limits", lambda: repr(gd[lim][~ok[lim]][:5]))
    if c["x"]["kind"] == "impulse":
        mon.saw("pulse")
        t0 = int(np.argmax(np.abs(x)))
        if t0 > 0 or "gain" not in c["x"]:
            mon.close(gd, np.full(f.shape, t0 + 1.0), "pulse", rtol=1e-9)
