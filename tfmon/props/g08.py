import math
import numpy as np
ID = "G08"
QUICK_ROUNDS = 1
RULE = "Noise generator x length x seed. Exact clauses (energy, analyticity, Doppler law) per draw; statistical clauses on pooled draws with thresholds of at least 7 standard errors."
REQUIRED = {"power of two": 20, "pooled": 6, "long record": 4, "dopnoise": 40, "dopnoise spectrum": 3, "dopnoise sweep": 3}


def cases(tier, rng):
    out = []
    q = tier == "quick"
    for kind in ("noisecg", "noisecu"):
        for n in [4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096]:
            for _ in range(3 if q else 20):
                out.append(dict(kind=kind, n=n, seed=rng.randint(0, 2 ** 31)))
        for n in ([1, 2, 3, 5, 6, 7, 9, 12, 17, 33, 48, 100, 129, 200, 500, 513, 1000, 1500] if q else list(range(1, 200)) + [300, 500, 777, 1000, 1025, 3000]):
            out.append(dict(kind=kind, n=n, seed=rng.randint(0, 2 ** 31), pool=max(60, 60000 // max(n, 8)) if n > 2 else 20000))
        for _ in range(2 if q else 8):
            out.append(dict(kind=kind, n=2 ** 15, seed=rng.randint(0, 2 ** 31), pool=12))
            out.append(dict(kind=kind, n=20000, seed=rng.randint(0, 2 ** 31), pool=12))
        for n in [2 ** 20, 10 ** 6, 2 ** 19 + 1] + ([] if q else [2 ** 21, 3 * 10 ** 6]):
            out.append(dict(kind=kind, n=n, seed=rng.randint(0, 2 ** 31), big=1))
    for n in (list(range(2, 30)) + [50, 64, 100, 101, 128, 200, 256, 333, 500, 2048, rng.randint(1000, 8000)]) if q else list(range(2, 180)) + [256, 500, 512, 1000, 2048, 5000, rng.randint(1000, 8000)]:
        out.append(dict(kind="dopnoise", n=n, seed=rng.randint(0, 2 ** 31), s=rng.uniform(50, 1000), fr=rng.uniform(0.02, 0.48), d=rng.uniform(1, 50), v=rng.choice([0.0, rng.uniform(0, 100)]),
                        tc=rng.choice([None, rng.uniform(1, n), 1, n]), c=rng.choice([None, rng.uniform(200, 1500)])))
    for fr in [0.08, 0.15, 0.25, 0.33, 0.42][:(3 if q else 5)]:
        out.append(dict(kind="dopnoise", n=256, seed=rng.randint(0, 2 ** 31), s=200.0, fr=fr, d=10.0, v=0.0, tc=None, c=None, spec=1))
    for _ in range(4 if q else 10):     # fast targets: the law sweeps a large part of the band during the record
        n = rng.choice([400, 512, 601])
        out.append(dict(kind="dopnoise", n=n, seed=rng.randint(0, 2 ** 31), s=500.0, fr=rng.uniform(0.18, 0.3), d=rng.uniform(20, 50), v=rng.uniform(80, 160),
                        tc=rng.choice([None, n // 4, 3 * n // 4]), c=rng.choice([None, 300.0]), spec=2))
    return out


def long_record(mon, kind, n, y):
    """one record of a million samples: moments, distribution and spectrum to within a few per mille"""
    mon.saw("long record")
    mon.shape(y, (n,), kind)
    y = np.asarray(y, complex)
    w = y.real / np.sqrt(0.5)
    s = 1 / np.sqrt(n)
    for what, got, want, dev in [("mean", w.mean(), 0, 1), ("imaginary mean", y.imag.mean(), 0, 1), ("variance", np.mean(np.abs(y) ** 2), 1, 2),
                                 ("imaginary variance", 2 * np.mean(y.imag ** 2), 1, 2), ("circularity", np.abs(np.mean(y ** 2)), 0, 2),
                                 ("third moment", np.mean(w ** 3), 0, 2.5), ("fourth moment", np.mean(w ** 4), 3.0 if kind == "noisecg" else 1.8, 5)]:
        mon.ok(abs(got - want) < 7 * dev * s, kind + ":long record:" + what, lambda: "n=%d: %g, expected %g within %g" % (n, got, want, 7 * dev * s))
    if kind == "noisecg":
        edges = np.array([-np.inf, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, np.inf])
        cdf = np.array([0.0] + [0.5 * (1 + math.erf(e / math.sqrt(2))) for e in edges[1:-1]] + [1.0])
    else:
        edges = np.sqrt(3) * np.linspace(-1, 1, 11)
        cdf = np.linspace(0, 1, 11)
        edges[0], edges[-1] = -np.inf, np.inf
    p = np.diff(cdf)
    z = (np.histogram(w, edges)[0] - n * p) / np.sqrt(n * p)
    mon.ok(np.abs(z).max() < 8, kind + ":long record:distribution", lambda: "%s" % z)
    P = np.abs(np.fft.fft(y)) ** 2
    bands = np.array([b.mean() for b in np.array_split(P[8:n // 2 - 8], 32)]) / (2.0 * n)      # one-sided: twice the variance
    lim = 8 / np.sqrt(n / 64.0)
    mon.ok(np.abs(bands - 1).max() < lim, kind + ":long record:white", lambda: "%s" % bands)
    neg = P[n // 2 + 8:-8].sum() / P.sum()
    mon.ok(neg < 1e-3, kind + ":long record:one-sided", lambda: "%g" % neg)
    for lag in (1, 2, 3, 5, 8, n // 2, n // 3):      # beyond the lag-window of the analytic signal the real parts are independent
        rho = np.dot(w[lag:], w[:-lag]) / (n - lag)
        mon.ok(abs(rho) < 7 / np.sqrt(n - lag), kind + ":long record:independent samples", lambda: "lag %d: %g" % (lag, rho))


def check(mon, c):
    import tftb.generators as g
    kind, n = c["kind"], c["n"]
    np.random.seed(c["seed"])
    if kind == "dopnoise":
        mon.saw("dopnoise")
        f = c["fr"] * c["s"]
        a = [n, c["s"], f, c["d"], c["v"]]
        kw = {}
        if c["tc"] is not None:
            kw["time_center"] = c["tc"]
        if c["c"] is not None:
            kw["c"] = c["c"]
        draws = [mon.call(g.dopnoise, *a, **kw) for _ in range(60 if c.get("spec") else 2)]
        tc = np.floor(n / 2.0) if c["tc"] is None else c["tc"]
        wave = 340.0 if c["c"] is None else c["c"]
        t = (np.arange(1, n + 1) - tc) / c["s"]
        dist = np.sqrt(c["d"] ** 2 + (c["v"] * t) ** 2)
        law = (1 - c["v"] ** 2 * t / dist / wave) * c["fr"]
        for y, ifl in draws:
            mon.shape(y, (n,), "dopnoise")
            mon.close(np.sum(np.abs(y) ** 2), 1.0, "dopnoise:energy", rtol=1e-9)
            mon.close(ifl, law, "dopnoise:law", rtol=1e-9, scale=1.0)
            u = y * np.sqrt(dist)
            U = np.fft.fft(u)
            neg = U[n // 2 + 1:]
            mon.ok(neg.size == 0 or np.abs(neg).max() < 1e-8 * np.abs(U).max(), "dopnoise:analytic")
        if n > 6:
            mon.ok(not np.allclose(draws[0][0], draws[1][0]), "dopnoise:independent draws")
        if c.get("spec") == 2:
            mon.saw("dopnoise sweep")
            ph = np.exp(-2j * np.pi * np.cumsum(law))
            for q, seg in enumerate(np.array_split(np.arange(n), 6)):
                P = np.mean([np.abs(np.fft.fft(y[seg] * ph[seg], 1024)) ** 2 for y, _ in draws], axis=0)
                fq = np.fft.fftfreq(1024)
                near = P[np.abs(fq) < 0.06].sum() / P.sum()
                mon.worst["sweep near"] = max(mon.worst.get("sweep near", 0.0), 1 - near)
                mon.ok(near > 0.5, "dopnoise:follows the law", lambda: "fraction near the law in part %d of 6: %.3f" % (q + 1, near))
            return
        if c.get("spec"):
            mon.saw("dopnoise spectrum")
            P = np.mean([np.abs(np.fft.fft(y, 1024)) ** 2 for y, _ in draws], axis=0)[:512]
            fq = np.arange(512) / 1024.0
            inb = P[np.abs(fq - c["fr"]) < 0.06].sum() / P.sum()
            # the resonator of radius 0.9 keeps about 3/4 of its energy there
            mon.ok(inb > 0.55, "dopnoise:concentration", lambda: "fraction near the law %.3f" % inb)
            mon.ok(abs(np.sum(fq * P * (np.abs(fq - c["fr"]) < 0.1)) / np.sum(P * (np.abs(fq - c["fr"]) < 0.1)) - c["fr"]) < 0.02, "dopnoise:centre")
        return
    fn = getattr(g, kind)
    if c.get("big"):
        long_record(mon, kind, n, mon.call(fn, n))
        return
    if not c.get("pool"):
        mon.saw("power of two")
        y = mon.call(fn, n)
        mon.shape(y, (n,), kind)
        Y = np.fft.fft(y)
        mon.ok(np.abs(Y[n // 2 + 1:]).max() < 1e-9 * np.abs(Y).max(), kind + ":analytic")
        mon.close(np.var(y.real), 0.5, kind + ":real variance", rtol=1e-9)
        w = y.real
        A = np.fft.fft(w)
        A[1:n // 2] *= 2
        A[n // 2 + 1:] = 0
        mon.close(y, np.fft.ifft(A), kind + ":hilbert pair", rtol=1e-8)
        return
    mon.saw("pooled")
    D = np.array([mon.call(fn, n) for _ in range(c["pool"])])
    mon.ok(D.shape == (c["pool"], n), kind + ":shape", "%s" % (D.shape,))
    mon.ok(np.iscomplexobj(D), kind + ":complex")
    m = D.size
    # effective number of independent samples: neighbouring samples of an analytic signal correlate weakly
    se = 1 / np.sqrt(m / 2.0)
    if 2 < n < 16:          # such records divide by the deviation of very few samples: no promise about their moments
        mon.ok(np.all(np.isfinite(D)), kind + ":finite")
        mon.ok(n < 4 or len({d.tobytes() for d in D}) == len(D), kind + ":repeated draw")
        return
    mon.ok(abs(D.real.mean()) < 7 * se and abs(D.imag.mean()) < 7 * se, kind + ":mean", lambda: "%r" % D.mean())
    v = np.mean(np.abs(D) ** 2)
    mon.ok(abs(v - 1) < 7 * 3 * se + (4.0 / n if n > 2 else 0), kind + ":variance", lambda: "n=%d var=%g" % (n, v))
    if n > 2:
        mon.ok(abs(np.mean(D ** 2)) < 7 * 2 * se + 4.0 / n, kind + ":circular", lambda: "%r" % np.mean(D ** 2))
    if n >= 100 or n <= 2:
        w = D.real.ravel()
        w = w / w.std()
        kurt = np.mean(w ** 4)
        want = 3.0 if kind == "noisecg" else 1.8
        mon.ok(abs(kurt - want) < 0.25, kind + ":kurtosis", lambda: "%g vs %g" % (kurt, want))
        if kind == "noisecu":
            mon.ok(np.abs(w).max() < np.sqrt(3) * (1.03 + 7 * np.sqrt(0.2 / n)), kind + ":bounded")
        sk = np.mean(w ** 3)
        mon.ok(abs(sk) < 0.25, kind + ":skew", lambda: "%g" % sk)
    if n >= 100:
        # whiteness over positive frequencies, emptiness over negative ones
        P = np.mean(np.abs(np.fft.fft(D * np.hanning(n), axis=1)) ** 2, axis=0)
        pos = P[4:n // 2 - 3]
        neg = P[n // 2 + 5:-4]
        bands = np.array([b.mean() for b in np.array_split(pos, 4)])
        mon.ok(bands.max() / bands.min() < 1.35, kind + ":white", lambda: "%s" % bands)
        mon.ok(neg.mean() < 0.06 * pos.mean(), kind + ":one-sided", lambda: "%g" % (neg.mean() / pos.mean()))
    if n > 4:
        mon.ok(len({d.tobytes() for d in D}) == len(D), kind + ":repeated draw")
        a, b = D[:-1].ravel(), D[1:].ravel()
        rho = abs(np.vdot(a, b)) / np.sqrt(np.vdot(a, a).real * np.vdot(b, b).real)
        mon.ok(rho < 7 * np.sqrt(2) / np.sqrt(a.size) + 0.002, kind + ":independent draws", lambda: "rho=%g" % rho)
