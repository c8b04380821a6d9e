import numpy as np
from tfmon import signals as S, ref
ID = "T05"
RULE = "Signal kind x length 1..~60 x bin count x time and frequency windows (default, one point, longer than the record, asymmetric) x instants; every entry compared with the defining double sum; degenerate time window compared with the pseudo Wigner-Ville of the real code; reassigned form's plain matrix compared. Some records are longer than any a test uses."
REQUIRED = {"default windows": 20, "one-point time window": 25, "time window longer than record": 20, "asymmetric windows": 60, "half lag used": 8, "subset instants": 60, "reassigned form": 60}
ASSUMPTIONS = ["Time windows are real and positive, so that renormalised weights are defined everywhere."]


def cases(tier, rng):
    out = []
    for i in range(400 if tier == "quick" else 2400):
        n = S.pick_len(rng, 1, 40) if rng.random() < 0.9 else S.pick_len(rng, 40, 90)
        if i % 120 == 60:
            n = rng.randint(128, 260)
        nf = None if rng.random() < 0.3 else S.pick_fbins(rng, n)
        m = nf or n
        c = dict(x=S.pick_signal(rng, n), nf=nf, h=None, g=None, t=S.pick_instants(rng, n))
        if rng.random() < 0.75:
            c["h"] = S.pick_window(rng, n, m, kinds=("hamming", "rect", "gauss", "asym", "signed", "hann", "complex"))
        if rng.random() < 0.75:
            c["g"] = S.pick_window(rng, n, max(3, m // 3), kinds=("hamming", "rect", "gauss", "asym", "casym"))
            if rng.random() < 0.3:
                c["g"] = dict(kind="rect", L=1)
        out.append(c)
    for n, nf in S.long_sizes(rng):
        c = dict(x=S.pick_signal(rng, n), nf=nf, long=1, h=None, g=None, t=sorted({0, n - 1, *(rng.randrange(n) for _ in range(6))}))
        if nf is not None and rng.random() < 0.6:
            c["h"] = dict(kind=rng.choice(["hamming", "gauss", "asym"]), L=2 * rng.randint(1, 40) + 1, seed=rng.randint(0, 999))
            c["g"] = dict(kind="hamming", L=2 * rng.randint(1, 20) + 1)
        out.append(c)
    for i in range(150 if tier == "quick" else 800):
        n = S.pick_len(rng, 12, 40) if i % 100 != 50 else rng.randint(100, 200)
        nf = rng.choice([n, n, n + rng.randint(1, 20), rng.randint(12, n), rng.randint(3, n)])
        c = dict(x=S.pick_signal(rng, n, kinds=["cnoise", "rnoise", "chirp", "twotone", "packet", "tone"]), nf=nf, re=1, t=S.pick_instants(rng, n, regular=True, lo=3),
                 h=None, g=None)
        if rng.random() < 0.7:
            c["h"] = dict(kind=rng.choice(["hamming", "rect", "gauss", "asym", "complex"]), L=2 * rng.randint(1, rng.choice([max(1, (nf - 1) // 4), nf, n])) + 1, seed=rng.randint(0, 999))
            c["g"] = dict(kind=rng.choice(["hamming", "rect", "gauss", "asym"]), L=2 * rng.randint(1, max(1, nf // 4)) + 1, seed=rng.randint(0, 999))
        out.append(c)
    return out


def check(mon, c):
    from tftb.processing import smoothed_pseudo_wigner_ville as F, PseudoWignerVilleDistribution as W
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    t = np.arange(n) if c["t"] is None else S.instants(c["t"])
    if c["t"] is not None:
        mon.saw("subset instants")
    kw = {}
    if c["t"] is not None:
        kw["timestamps"] = t
    if c["h"] is None:
        h = S.hamming(S.default_odd(nf))
    else:
        h = kw["fwindow"] = S.window(c["h"])
    if c["g"] is None:
        if c["h"] is None:
            mon.saw("default windows")
        L = nf // (4 if c.get("re") else 10)
        g = S.hamming(L + 1 - L % 2)
    else:
        g = kw["twindow"] = S.window(c["g"])
    for s in (c["h"], c["g"]):
        if s and s["kind"] in ("asym", "signed"):
            mon.saw("asymmetric windows")
    if len(g) == 1:
        mon.saw("one-point time window")
    if len(g) > n:
        mon.saw("time window longer than record")
    mx = np.abs(x).max() ** 2 * np.abs(h).max()
    if c.get("re"):
        from tftb.processing.reassigned import smoothed_pseudo_wigner_ville as R
        mon.saw("reassigned form")
        tfr, rtfr, hat = mon.call(R, x, n_fbins=nf, **kw)
        want = ref.spwvd(x, nf, g, h, t, half_lag=False)
        mon.close(tfr, want, "spwvd reassigned form", rtol=1e-8, scale=max(np.abs(want).max(), mx))
        return
    if c["nf"] is not None:
        kw["freq_bins"] = nf
    if nf % 2 == 0 and nf // 2 <= min((n - 1) // 2, (len(h) - 1) // 2):
        mon.saw("half lag used")
    tfr = mon.call(F, x, **kw)
    mon.ok(tfr.dtype.kind == "f", "spwvd:real", "dtype %s" % tfr.dtype)
    want = ref.spwvd(x, nf, g, h, t)
    mon.close(tfr, want, "spwvd", rtol=1e-9, scale=max(np.abs(want).max(), mx))
    if len(g) == 1:
        k2 = dict(n_fbins=nf, fwindow=h)
        v = mon.call(lambda: W(x, **k2).run(), _name="PseudoWignerVilleDistribution.run")[0]
        mon.close(tfr, v[:, t], "spwvd:one-point time window", rtol=1e-9, scale=max(np.abs(v).max(), mx))
