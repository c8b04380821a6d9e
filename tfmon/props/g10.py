import math
import numpy as np
from tfmon import signals as S
from tfmon.ref import analytic
ID = "G10"
RULE = "atoms (1..5 rows, centres inside/outside the record), doppler (geometry drawn over its domain), sigmerge (lengths, types, ratios), scale (factor, band, voices, test tone; packets in waveform against the dilated spectrum brought back to time); every sample or derived quantity judged."
REQUIRED = {"atoms": 100, "atoms clipped": 20, "doppler": 100, "doppler f0=0": 5, "sigmerge": 100, "scale a=1": 15, "scale tone": 20, "scale waveform": 20}


def cases(tier, rng):
    out = []
    q = tier == "quick"
    for i in range(200 if q else 1200):
        n = S.pick_len(rng, 1, 400) if i % 100 != 50 else rng.randint(1000, 5000)
        rows = []
        for _ in range(rng.randint(1, 5)):
            t0 = rng.choice([rng.uniform(1, max(n, 1.5)), rng.randint(1, n), rng.uniform(-20, n + 20), 0.15, n, 1])
            rows.append([t0, rng.choice([rng.uniform(0, 0.5), rng.uniform(-0.2, 0.7), 0.0, 0.5]), rng.uniform(0.5, max(n, 4)), rng.choice([1.0, 1.22, rng.uniform(-3, 3)])])
        out.append(dict(kind="atoms", n=n, rows=rows))
        n = S.pick_len(rng, 2, 600) if i % 100 != 50 else rng.randint(1000, 8000)
        s = rng.uniform(20, 2000)
        out.append(dict(kind="doppler", n=n, s=s, f0=rng.choice([0.0, s / 2, rng.uniform(0, s / 2), rng.uniform(0, s / 2), rng.uniform(0, s / 2)]), d=rng.uniform(0.5, 100), v=rng.choice([0.0, rng.uniform(0, 120)]),
                        t0=rng.choice([None, 1, n, rng.uniform(1, n), rng.uniform(1, n)]), c=rng.choice([None, rng.uniform(150, 3000)])))
        n = S.pick_len(rng, 1, 500) if i % 100 != 50 else rng.randint(1000, 20000)
        out.append(dict(kind="sigmerge", x=S.pick_signal(rng, n), y=S.pick_signal(rng, n), r=rng.choice([None, 0, 3, -7, 20.0, -40.0, rng.uniform(-60, 60)])))
    for i in range(20 if q else 120):
        if i % 20 == 10:
            out.append(dict(kind="scale1", n=rng.randint(1001, 1300), seed=rng.randint(0, 10 ** 6)))
        n = rng.choice([16, 31, 32, 33, 48, 63, 64, 65, 90, 128])
        out.append(dict(kind="scale1", n=n, seed=rng.randint(0, 10 ** 6)))
        n = rng.choice([64, 65, 96, 100, 127, 128])
        f = rng.uniform(0.12, 0.35)
        a = rng.choice([1.0, 0.5, 2.0, 1.5, 0.75, rng.uniform(0.6, 2.2)])
        sd = 0.8 / n        # spread of the test tone's spectrum; keep four of them inside the band, before and after
        if not (0.02 + 4 * sd / a < f / a < 0.49 - 4 * sd / a):
            a = 1.0
        out.append(dict(kind="scale", n=n, f=f, a=a, N=rng.choice([128, 129, 200]), seed=rng.randint(0, 10 ** 6)))
        n = rng.choice([24, 32, 33, 64, 65, 100, 128, 200])
        lo, hi = rng.choice([0.01, 0.02, 0.05, rng.uniform(0.01, 0.06)]), rng.choice([0.4, 0.48, 0.5, rng.uniform(0.38, 0.5)])
        for _ in range(60):
            a = rng.choice([1.0, 0.5, 2.0, 1.5, 0.75, 2, rng.uniform(0.5, 2.5)])
            f, w = rng.uniform(0.1, 0.35), rng.uniform(0.15, 0.35) * n
            if lo < f - 1.6 / w and f + 1.6 / w < hi and lo < (f - 1.6 / w) / a and (f + 1.6 / w) / a < hi:
                out.append(dict(kind="scalewave", n=n, f=f, w=w, c=rng.uniform(0.4, 0.6) * n, a=a, lo=lo, hi=hi, N=int(rng.choice([2, 2.5, 3, 4]) * n * max(1, a)), ph=rng.uniform(0, 6), cplx=rng.random() < 0.3))
                break
    return out


def dilated(x, a, lo, hi):
    """the analytic signal's spectrum S taken at a*f, brought back to time over the band (times counted as scale counts them)"""
    n = len(x)
    z = analytic(np.real(x))
    h = math.ceil(a * n / 2)
    f = np.linspace(lo, hi, 6 * max(n, 2 * h))
    Sf = np.exp(-2j * np.pi * np.outer(a * f, np.arange(n) - (n + 1) // 2 - 1)) @ z
    Sf = np.where((a * f >= lo) & (a * f <= hi), Sf, 0)
    Sf[[0, -1]] /= 2
    y = np.exp(2j * np.pi * np.outer(np.arange(-h, h) - 1, f)) @ Sf
    return y * np.linalg.norm(x) / np.linalg.norm(y)


def check(mon, c):
    import tftb.generators as g
    kind = c["kind"]
    if kind == "atoms":
        n = c["n"]
        rows = np.array(c["rows"], float)
        x = mon.call(g.atoms, n, rows)
        if len(rows) == 1:
            mon.saw("atoms one-dimensional")
            mon.close(mon.call(g.atoms, n, rows[0]), x, "atoms:one-dimensional row", rtol=1e-9)
        mon.shape(x, (n,), "atoms")
        mon.saw("atoms")
        k = np.arange(1, n + 1)
        ref = np.zeros(n, complex)
        amb = False
        for t0, f0, T, A in rows:
            tc = min(max(t0, 1), n)
            if tc != t0:
                mon.saw("atoms clipped")
            if abs(tc % 1 - 0.5) < 1e-9:
                amb = True      # rounding of exact halves is not part of the property
            t = int(round(tc))
            f = min(max(f0, 0.0), 0.5)
            ref += A * np.exp(-np.pi * ((k - t) / T) ** 2) * np.exp(2j * np.pi * f * (k - 1 - t))
        if not amb:
            mon.close(x, ref, "atoms", rtol=1e-9, scale=max(1.0, np.abs(rows[:, 3]).max()))
        return
    if kind == "doppler":
        n, s, f0, d, v = c["n"], c["s"], c["f0"], c["d"], c["v"]
        kw = {}
        if c["t0"] is not None:
            kw["t0"] = c["t0"]
        if c["c"] is not None:
            kw["v_wave"] = c["c"]
        fm, am, ifl = mon.call(g.doppler, n, s, f0, d, v, **kw)
        mon.saw("doppler")
        t0 = n / 2.0 if c["t0"] is None else c["t0"]
        w = 340.0 if c["c"] is None else c["c"]

        def phase(kk):
            t = (kk - t0) / s
            return f0 * (t - np.sqrt(d * d + (v * t) ** 2) / w)
        k = np.arange(1, n + 1, dtype=float)
        for a, nm in ((fm, "fm"), (am, "am"), (ifl, "iflaw")):
            mon.shape(a, (n,), "doppler:" + nm)
        mon.close(np.abs(fm), np.ones(n), "doppler:unit modulus", rtol=1e-12)
        mon.close(fm, np.exp(2j * np.pi * phase(k)), "doppler:fm", rtol=1e-8 * max(1, np.abs(phase(k)).max() * 1e-6), scale=1.0)
        if f0 == 0:
            mon.saw("doppler f0=0")
            mon.close(am, np.zeros(n), "doppler:am", atol=1e-12)
        else:
            mon.close(am, 1 / np.sqrt(np.sqrt(d * d + (v * (k - t0) / s) ** 2)), "doppler:am", rtol=1e-9)
        e = 1e-3
        der = (phase(k + e) - phase(k - e)) / (2 * e)
        mon.close(ifl, der, "doppler:law is phase derivative", rtol=1e-5, scale=max(0.5, np.abs(der).max()))
        tt = (k - t0) / s
        mon.close(ifl, f0 / s * (1 - v * v * tt / np.sqrt(d * d + (v * tt) ** 2) / w), "doppler:law", rtol=1e-9, scale=0.5)
        return
    if kind == "sigmerge":
        x, y = S.make(c["x"]), S.make(c["y"])
        a = [] if c["r"] is None else [c["r"]]
        z = mon.call(g.sigmerge, x, y, *a)
        mon.saw("sigmerge")
        r = c["r"] or 0.0
        mon.shape(z, x.shape, "sigmerge")
        ex, ey = np.sum(np.abs(x) ** 2), np.sum(np.abs(y) ** 2)
        h = math.sqrt(ex / ey / 10 ** (r / 10.0))
        mon.close(z, x + h * y, "sigmerge", rtol=1e-9, scale=np.abs(x).max() + h * np.abs(y).max())
        return
    if kind == "scale1":
        n = c["n"]
        r = S._rs(c["seed"])
        k = np.arange(n)
        f = r.uniform(0.15, 0.35)
        x = np.exp(-np.pi * ((k - n / 2.0) / (n / 2.5)) ** 2) * np.cos(2 * np.pi * f * k + r.uniform(0, 6))
        y = mon.call(g.scale, x, 1.0, 0.02, 0.48, 4 * n)
        mon.saw("scale a=1")
        L = 2 * math.ceil(n / 2.0)
        mon.shape(y, (L,), "scale")
        mon.close(np.linalg.norm(y), np.linalg.norm(x), "scale:energy", rtol=1e-8)
        z = np.zeros(L, complex)
        z[L - n:] = analytic(x)      # odd lengths gain one sample
        lo = z[:L] if n % 2 == 0 else None
        best = min(np.linalg.norm(np.roll(z, s) / np.linalg.norm(z) - y / np.linalg.norm(y)) for s in (-1, 0, 1))
        # even lengths: no shift at all
        e0 = np.linalg.norm(z / np.linalg.norm(z) - y / np.linalg.norm(y)) if n % 2 == 0 else best
        mon.worst["scale:identity"] = max(mon.worst.get("scale:identity", 0), float(e0))
        mon.ok(e0 < 0.05, "scale:identity", lambda: "relative error %.3g (best over shifts %.3g)" % (e0, best))
        return
    if kind == "scalewave":
        k = np.arange(c["n"])
        x = np.exp(-np.pi * ((k - c["c"]) / c["w"]) ** 2) * np.cos(2 * np.pi * c["f"] * k + c["ph"])
        y = mon.call(g.scale, x + 1j * np.sin(k) if c["cplx"] else x, c["a"], c["lo"], c["hi"], c["N"])
        mon.saw("scale waveform")
        want = dilated(x, c["a"], c["lo"], c["hi"])
        mon.shape(y, want.shape, "scale")
        if c["cplx"]:       # only the real part is dilated; the energy is that of the array given
            y = y * np.linalg.norm(x) / np.linalg.norm(y)
        e = np.linalg.norm(y - want) / np.linalg.norm(x)
        mon.worst["scale:waveform"] = max(mon.worst.get("scale:waveform", 0), float(e))
        mon.ok(e < 2e-3, "scale:waveform", lambda: "relative error %.3g" % e)
        return
    n, f, a = c["n"], c["f"], c["a"]
    k = np.arange(n)
    x = np.exp(-np.pi * ((k - n / 2.0) / (n / 2.0)) ** 2) * np.cos(2 * np.pi * f * k)
    y = mon.call(g.scale, x, a, 0.02, 0.49, c["N"])
    mon.saw("scale tone")
    L = 2 * math.ceil(a * n / 2)
    mon.shape(y, (L,), "scale")
    mon.close(np.linalg.norm(y), np.linalg.norm(x), "scale:energy", rtol=1e-8)
    P = np.abs(np.fft.fft(y, 8192)) ** 2
    fc = np.sum(np.fft.fftfreq(8192) * P) / P.sum()
    mon.worst["scale:freq"] = max(mon.worst.get("scale:freq", 0), abs(fc - f / a))
    mon.ok(abs(fc - f / a) < 0.01, "scale:frequency", lambda: "centre %.4f expected %.4f (a=%g)" % (fc, f / a, a))
    e = np.abs(y) ** 2
    tc = np.sum(np.arange(L) * e) / e.sum() - L / 2.0
    ex = np.abs(analytic(x)) ** 2
    tx = np.sum(k * ex) / ex.sum() - n / 2.0
    want = 1 + a * (tx + n / 2.0 - (n + 1) // 2 - 1)      # dilation about the sample after the middle
    mon.worst["scale:time"] = max(mon.worst.get("scale:time", 0), abs(tc - want))
    sp = math.sqrt(np.sum((np.arange(L) - L / 2.0 - tc) ** 2 * e) / e.sum())
    sx = math.sqrt(np.sum((k - n / 2.0 - tx) ** 2 * ex) / ex.sum())
    mon.worst["scale:width"] = max(mon.worst.get("scale:width", 0), abs(sp / sx / a - 1))
    mon.ok(abs(tc - want) < 1.6, "scale:centre", lambda: "%g vs %g" % (tc, want))
    mon.ok(abs(sp / sx / a - 1) < 0.1, "scale:duration", lambda: "%g" % (sp / sx / a))
