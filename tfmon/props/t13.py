import math
import numpy as np
from tfmon import signals as S
from tfmon.ref import analytic, integrate_2d
from tfmon.props.t12 import band_energy, in_band, default_band, part_band
ID = "T13"
RULE = "Signal x length x band (explicit/default) x voices x wavelet parameter (default, given, 0 = Mexican hat) x instants; every wavelet coefficient compared with the defining correlation, the scalogram with their squared modulus, its integral with the in-band energy."
REQUIRED = {"one edge given": 5, "morlet": 100, "mexican hat": 30, "subset instants": 50, "default band": 40, "voices != n": 60}


def cases(tier, rng):
    out = []
    for i in range(250 if tier == "quick" else 1500):
        n = rng.choice([16, 31, 32, 33, 64, 65, 100, rng.randint(12, 128), rng.randint(12, 40)]) if rng.random() < 0.97 else rng.randint(128, 400)
        if i % 300 == 120:
            n = rng.choice([512, 600, rng.randint(400, 1200)])
        c = dict(x=S.pick_signal(rng, n, kinds=["rpacket", "rnoise", "cnoise", "chirp", "twotone", "packet", "ints", "rtone"]), band=None, nv=rng.choice([None, rng.randint(2, 60), n + rng.randint(1, 9)] if n <= 400 else [rng.randint(2, 30)]),
                 wp=rng.choice([None, None, 0, rng.uniform(1.0, 12.0), rng.randint(2, 9)]), t=S.pick_instants(rng, n, regular=True, lo=2))
        if c["t"] is not None and len(set(np.diff(c["t"]))) > 1:
            c["t"] = None
        if rng.random() < 0.65:
            lo = rng.uniform(0.02, 0.2)
            c["band"] = [lo, rng.uniform(lo + 0.1, 0.5)]
            if rng.random() < 0.15:
                c["part"] = rng.choice(["fmin", "fmax"])
        out.append(c)
    return out


def check(mon, c):
    from tftb.processing import Scalogram
    x = S.make(c["x"])
    n = len(x)
    kw = {}
    if c["nv"] is not None:
        kw["n_voices"] = c["nv"]
        if c["nv"] != n:
            mon.saw("voices != n")
    nv = c["nv"] or n
    if c["wp"] is not None:
        kw["waveparams"] = c["wp"]
    wp = math.sqrt(n) if c["wp"] is None else c["wp"]
    t = np.arange(n)
    if c["t"] is not None:
        mon.saw("subset instants")
        t = kw["timestamps"] = S.instants(c["t"])
    r = x.real - x.real.mean()
    if np.abs(r).max() < 1e-6 * np.abs(x).max():
        return
    if c["band"] is not None and not c.get("part"):
        kw["fmin"], kw["fmax"] = c["band"]
        cand = [tuple(c["band"])]
    else:
        seg = x.real[t.min():t.max() + 1]
        m = int(np.round(len(seg) / 2))
        if m < 2 or np.abs(seg).max() < 1e-100 * np.abs(x).max():     # no spectrum to choose a band from
            return
        cand = default_band(np.abs(np.fft.fft(seg)) ** 2, m)
        if c.get("part"):
            mon.saw("one edge given")
            cand = part_band(c, kw, cand)
        if any(b - a < 0.04 for a, b in cand):
            return
        mon.saw("default band")
    tfr, tt, f, wt = mon.call(lambda: Scalogram(x, **kw).run(), _name="Scalogram.run")
    mon.close(tt, t, "scalogram:timestamps")
    mon.shape(f, (nv,), "scalogram:frequencies")
    mon.shape(tfr, (nv, len(t)), "scalogram")
    ok = [b for b in cand if abs(f[0] - b[0]) < 1e-9 and abs(f[-1] - b[1]) < 1e-9]
    mon.ok(ok, "scalogram:band", lambda: "%g..%g, expected %s" % (f[0], f[-1], sorted(set(cand))))
    lo, hi = ok[0]
    mon.close(f, lo * (hi / lo) ** (np.arange(nv) / (nv - 1.0)), "scalogram:geometric voices", rtol=1e-10)
    z = analytic(r)
    want = np.zeros((nv, len(t)), complex)
    mon.saw("morlet" if wp > 0 else "mexican hat")
    skip = np.zeros(nv, bool)
    for i in range(nv):
        a = hi / f[i]
        if wp > 0:
            L = wp * a
            if abs(L % 1 - 0.5) < 1e-6:
                skip[i] = True
            u = np.arange(-int(round(L)), int(round(L)) + 1)
            h = np.exp(-2 * math.log(10) * (u / L) ** 2) * np.exp(-2j * np.pi * f[i] * u)
        else:
            M = math.ceil(1.5 / f[i])
            u = np.arange(-M, M + 1)
            v = (np.pi * f[i] * u) ** 2
            h = f[i] * math.sqrt(np.pi) / 2 * np.exp(-v) * (1 - 2 * v)
        idx = t[None, :] + u[:, None]
        okm = (idx >= 0) & (idx < n)
        want[i] = h @ np.where(okm, z[np.clip(idx, 0, n - 1)], 0) / math.sqrt(a)
    mon.close(wt[~skip], want[~skip], "scalogram:coefficients", rtol=1e-7, scale=np.abs(want).max(), atol=1e-12 * np.abs(r).max())
    mon.ok(tfr.dtype.kind == "f" and np.all(tfr >= 0), "scalogram:real non-negative")
    p = np.abs(want) ** 2
    if skip.all() or p[~skip].max() < 1e-12 * np.abs(r).max() ** 2:    # nothing but rounding noise in band
        return
    a = np.sum((tfr * p)[~skip]) / np.sum((p * p)[~skip])
    mon.close(tfr[~skip], a * p[~skip], "scalogram:squared modulus", rtol=1e-6, scale=a * p.max())
    P = np.abs(np.fft.fft(z)) ** 2
    outer = band_energy(P, n, lo, hi, 3.5)
    if outer < 1e-18 * (np.sum(np.abs(r)) ** 2 + P.sum()):
        return mon.saw("nothing in band")
    I = integrate_2d(tfr, t, f) * nv
    good, E = in_band(I, P, n, lo, hi)
    mon.ok(good, "scalogram:energy", lambda: "%g, expected one of %s" % (I, E))
