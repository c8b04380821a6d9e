import numpy as np
from tfmon import ref
ID = "G07"
RULE = "Generator x length x position (x singularity strength): real part, spectrum on both half axes and peak position judged for every sample/bin."
REQUIRED = {"anapulse": 80, "anastep": 80, "anasing h>0": 60, "anasing h<=0": 60, "ti outside": 10, "between samples": 60, "odd": 50, "even": 50}


def cases(tier, rng):
    out = []
    ns = list(range(1, 34)) + [50, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 301, 512, 1000, 1024, rng.randint(1001, 2600)]
    if tier == "thorough":
        ns = list(range(1, 260)) + [300, 500, 511, 512, 513, 1000, 1024, 2047, 4096]
    for n in ns:
        for kind in ("anapulse", "anastep"):
            tis = [None, 0, n - 1, rng.randint(0, n - 1), rng.randint(0, n - 1), rng.choice([-1, n, n + 5, -7])]
            if kind == "anastep":
                tis += [rng.uniform(-1, n), rng.randint(0, n - 1) + rng.choice([0.1, 0.5, 0.9])]
            for ti in tis:
                out.append(dict(kind=kind, n=n, ti=ti))
        if n >= 4:
            for h in (0.0, -0.5, -1.0, rng.uniform(-2, 0), rng.uniform(0.05, 2), rng.uniform(0.05, 1), 1.0):
                out.append(dict(kind="anasing", n=n, ti=rng.choice([1, n, rng.randint(1, n), rng.randint(1, n), n // 2]), h=h))
            out.append(dict(kind="anasing", n=n, ti=None, h=None))
            out.append(dict(kind="anasing", n=n, ti=rng.uniform(0, n), h=rng.uniform(0.05, 2)))
    return out


def half_spectrum(mon, y, key):
    n = len(y)
    Y = np.fft.fft(y)
    neg = Y[(n // 2 + 1):]
    mon.ok(neg.size == 0 or np.max(np.abs(neg)) <= 1e-9 * (np.sum(np.abs(y)) + 1e-300), key + ":negative frequencies",
           lambda: "leak %g" % np.max(np.abs(neg)))
    return Y


def check(mon, c):
    import tftb.generators as g
    kind, n, ti = c["kind"], c["n"], c["ti"]
    mon.saw("odd" if n % 2 else "even")
    k = np.arange(n)
    if kind in ("anapulse", "anastep"):
        mon.saw(kind)
        y = mon.call(getattr(g, kind), n, *([] if ti is None else [ti]))
        mon.shape(y, (n,), kind)
        t = np.round(n / 2) if ti is None else ti
        if ti is not None and not 0 <= ti < n:
            mon.saw("ti outside")
        if ti is not None and ti != int(ti):
            mon.saw("between samples")
        xr = ((k == t) if kind == "anapulse" else (k > t)).astype(float)
        mon.close(y.real, xr, kind + ":real part", rtol=1e-10, scale=1.0)
        half_spectrum(mon, y, kind)
        mon.close(y, ref.analytic(xr), kind, rtol=1e-9, scale=1.0)
        return
    kw = {}
    if ti is not None:
        kw["t0"] = ti
    if c["h"] is not None:
        kw["h"] = c["h"]
    y = mon.call(g.anasing, n, **kw)
    mon.shape(y, (n,), kind)
    mon.finite(y, kind)
    Y = half_spectrum(mon, y, kind)
    h = 0.0 if c["h"] is None else c["h"]
    t0 = n / 2.0 if ti is None else ti
    if h > 0:
        mon.saw("anasing h>0")
        a = np.abs(k - t0) ** h
        xr = a.max() - a
        mon.close(y, ref.analytic(xr), "anasing", rtol=1e-9, scale=max(xr.max(), 1e-12))
    else:
        mon.saw("anasing h<=0")
        f = np.arange(1, n // 2) / float(n)
        mag = np.abs(Y[1:n // 2])
        want = f ** (-1 - h)
        mon.close(mag / mag.max(), want / want.max(), "anasing:spectrum", rtol=1e-7)
        if n % 2 == 0:
            mon.ok(abs(Y[n // 2]) <= 1e-8 * mag.max(), "anasing:nyquist")
        xr = y.real
        mon.ok(abs(xr.min()) <= 1e-9 * xr.max(), "anasing:minimum", lambda: "min %g" % xr.min())
        ph = Y[1:n // 2] / mag
        mon.close(ph, np.exp(-2j * np.pi * f * (t0 - 1)), "anasing:phase", rtol=1e-6)
        if t0 == int(t0) and h < 0.5 and len(f) >= 1:
            mon.ok(xr[int(t0) - 1] >= xr.max() * (1 - 1e-9), "anasing:peak", lambda: "max at %d, t0=%r" % (xr.argmax(), t0))
        elif ti is None and n % 2 == 0:
            mon.ok(int(np.argmax(xr)) == n // 2 - 1, "anasing:peak")
