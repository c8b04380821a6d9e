import math
import numpy as np
from tfmon import signals as S
from tfmon import ref
from tfmon.props.t12 import band_energy, in_band, default_band, part_band
ID = "T14"
QUICK_ROUNDS = 1
QUICK = "quick"
RULE = "Bertrand / D-Flandrin / Unterberger active and passive x in-band signals (1-3 packets, chirps) x length x band x voices x instants; every value compared with the defining integral evaluated directly, plus energy, time marginal and packet position on the real code."
REQUIRED = {"one edge given": 5, "bertrand": 15, "dflandrin": 15, "unterberger A": 15, "unterberger P": 15, "narrow band": 10, "subset instants": 10, "default band": 8, "time marginal": 10, "position": 20, "default voices": 10, "dflandrin over a wide band": 4, "bertrand over a wide band": 4, "unterberger A over a wide band": 4, "unterberger P over a wide band": 4}
TOL = 0.006
KINDS = ["bertrand", "dflandrin", "unterberger A", "unterberger P"]


def cases(tier, rng):
    out = []
    for i in range(70 if tier == "quick" else 300):
        for kind in KINDS:
            big = i in (40, 41)
            n = rng.choice([40, 48, 63, 64, 65, 80, 96, 101]) if rng.random() < 0.9 else rng.choice([128, 128, 150, 200])
            lo = rng.uniform(0.02, 0.15)
            hi = rng.uniform(max(2.2 * lo, lo + 0.15), 0.48) if max(2.2 * lo, lo + 0.15) < 0.48 else 0.48
            if rng.random() < 0.25:
                lo = rng.uniform(0.02, 0.05)
                hi = rng.choice([0.49, rng.uniform(max(0.35, 9.05 * lo), 0.49)])
                n = max(n, 64)
            if big:
                n = rng.randint(257, 420) if i == 41 else rng.randint(1001, 1100)
            c = dict(kind=kind, n=n, band=[lo, hi], nv=rng.choice([32, 48, 64, 65, n]), seed=rng.randint(0, 10 ** 6), packets=rng.choice([1, 1, 2, 3]), t=None, cplx=rng.random() < 0.2)
            if rng.random() < 0.35:
                st = rng.choice([2, 3, 4])
                c["t"] = list(range(rng.randint(0, 3), n, st))
            if rng.random() < 0.2:
                c["defband"] = 1
                if rng.random() < 0.4:
                    c["part"] = rng.choice(["fmin", "fmax"])
            if rng.random() < 0.2:
                c["nv"] = None
            if big:
                c["nv"], c["dur"] = rng.choice([64, 80]), rng.uniform(15, 40)     # a short packet near the middle of a long record
                c.pop("defband", None)
                if n > 1000:
                    c["t"] = list(range(n // 2 - 100, n // 2 + 100, 8))
            out.append(c)
    return out


def signal(c):
    n, (lo, hi) = c["n"], c["band"]
    r = S._rs(c["seed"])
    k = np.arange(n)
    x = np.zeros(n)
    info = []
    for _ in range(c["packets"]):
        f = math.sqrt(lo * hi) * r.uniform(0.95, 1.15)
        # duration such that the spectrum stays well inside the band
        w = min(f - lo, hi - f)
        s = max(2.2 / w, n * 0.12)
        s = min(s, n * 0.3)
        t0 = n * r.uniform(0.38, 0.62)
        if c.get("dur"):
            s = max(2.2 / w, c["dur"])
            t0 = n / 2 + r.uniform(-15, 15)
        ch = r.uniform(-1, 1) * 0.15 * w / s
        a = r.uniform(0.5, 1.5)
        x = x + a * np.exp(-np.pi * ((k - t0) / s) ** 2) * np.cos(2 * np.pi * (f * (k - t0) + ch * (k - t0) ** 2 / 2) + r.uniform(0, 6))
        info.append((t0, f, s, w))
    return x * [1.0, 1e-6, 1.0, 3e4][c["seed"] % 4], info


def check(mon, c):
    from tftb.processing import BertrandDistribution, DFlandrinDistribution, UnterbergerDistribution
    kind, n = c["kind"], c["n"]
    x, info = signal(c)
    (lo, hi) = c["band"]
    if any(w * s < 1.6 for _, _, s, w in info):
        return          # the packet does not fit the band
    z = ref.analytic(x)
    P = np.abs(np.fft.fft(z)) ** 2
    kw = {}
    t = np.arange(n)
    if c["t"] is not None:
        mon.saw("subset instants")
        t = kw["timestamps"] = np.array(c["t"])
    if c.get("defband"):
        seg = x[t.min():t.max() + 1]
        cand = default_band(np.abs(np.fft.fft(seg)) ** 2, int(np.round(len(seg) / 2)))
        if c.get("part"):
            mon.saw("one edge given")
            cand = part_band(c, kw, cand)
        if any(b < 2 * a or b > 0.5 for a, b in cand):
            return
    else:
        kw["fmin"], kw["fmax"] = lo, hi
        cand = [(lo, hi)]
    if c["nv"] is not None:
        kw["n_voices"] = c["nv"]
    cls = dict(bertrand=BertrandDistribution, dflandrin=DFlandrinDistribution).get(kind, UnterbergerDistribution)
    if kind == "unterberger P":
        kw["form"] = "P"
    arg = x
    if c["cplx"]:
        arg = x + 1j * np.cos(np.arange(n))     # only the real part is analysed
    tfr, tt, f = mon.call(lambda: cls(arg, **kw).run(), _name=cls.__name__ + ".run")
    mon.saw(kind)
    if c.get("dur"):
        mon.saw("long record")
    if c.get("defband"):
        mon.saw("default band")
    if c["nv"] is None:
        mon.saw("default voices")
    nv = c["nv"] or len(f)
    mon.ok(nv >= 8, kind + ":voices", "%d" % nv)
    mon.shape(f, (nv,), kind + ":frequencies")
    mon.shape(tfr, (nv, len(t)), kind)
    mon.close(tt, t, kind + ":timestamps")
    ok = [b for b in cand if abs(f[0] - b[0]) < 1e-9 and abs(f[-1] - b[1]) < 1e-9]
    mon.ok(ok, kind + ":band", lambda: "%g..%g, expected %s" % (f[0], f[-1], sorted(set(cand))))
    lo, hi = ok[0]
    mon.close(f, lo * (hi / lo) ** (np.arange(nv) / (nv - 1.0)), kind + ":geometric voices", rtol=1e-10)
    if hi * math.log(hi / lo) < 0.45:
        mon.saw("narrow band")
    tot = band_energy(P, n, 0, 0.5, 0)
    I = ref.integrate_2d(tfr, t, f) * nv
    inner = band_energy(P, n, lo, hi, -2.5)
    good, E = in_band(I, P, n, lo, hi)
    mon.ok(good, kind + ":energy", lambda: "%g, expected one of %s" % (I, E))
    if inner < 0.999 * tot:
        return      # spectrum spills over the band edges: discretisation is not controlled
    # voices must resolve the packet and the Mellin grid must not wrap
    if (hi / lo) ** (1.0 / (nv - 1)) - 1 > 0.6 / (n * hi) * 1.8 and nv < 48:
        return
    # the part of the spectrum outside the band counts by its amplitude; over a wide band the discretisation is finer
    tol = 0.02 if inner < (1 - 1e-5) * tot else 0.002 if hi > 7 * lo else TOL
    if hi > 9 * lo:
        mon.saw(kind + " over a wide band")
    off = n // 2 - 160 if n > 1000 else 0        # the packets lie well within the piece kept
    if off:
        mon.saw("more than 1000 samples")
    want, _ = ref.affine(kind, x[off:off + 320] if off else x, lo, hi, nv, t - off)
    a = np.sum(want * tfr) / np.sum(want * want)
    mon.close(tfr, a * want, kind, rtol=tol, scale=np.abs(tfr).max())
    if c["packets"] == 1 and c["t"] is None:
        t0, f0, s, w = info[0]
        mon.saw("position")
        m = np.trapezoid(tfr, f, axis=0) if hasattr(np, "trapezoid") else np.trapz(tfr, f, axis=0)
        tc = np.sum(t * m) / m.sum()
        ex = np.abs(z) ** 2
        tx = np.sum(t * ex) / ex.sum()
        mon.ok(abs(tc - tx) < 0.3, kind + ":position in time", lambda: "%.3f vs %.3f" % (tc, tx))
        mf = tfr.sum(1)
        fc = np.sum(f * mf * np.gradient(f)) / np.sum(mf * np.gradient(f))
        fx = np.sum(np.arange(n) / n * P) / P.sum()
        mon.ok(abs(fc - fx) < 0.02, kind + ":position in frequency", lambda: "%.4f vs %.4f" % (fc, fx))
        if kind in ("dflandrin", "unterberger P"):
            mon.saw("time marginal")
            mon.close(m / m.sum(), ex / ex.sum(), kind + ":time marginal", rtol=tol)
