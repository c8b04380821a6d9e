import numpy as np
from tfmon import signals as S, ref
ID = "T04"
RULE = "Signal kind x length x bin count x odd window (default, short, long, asymmetric, signed, complex) x time labels; every entry compared with the defining sum; the all-ones window is compared with the Wigner-Ville distribution of the real code. Some records are longer than any a test uses."
REQUIRED = {"default window": 60, "n_fbins < n": 40, "n_fbins > n": 40, "half lag used": 15, "equals WVD": 40, "asymmetric": 40, "long record": 8}


def cases(tier, rng):
    out = []
    for i in range(500 if tier == "quick" else 3000):
        n = S.pick_len(rng, 1, 90) if rng.random() < 0.9 else S.pick_len(rng, 90, 500)
        nf = None if rng.random() < 0.3 else S.pick_fbins(rng, n)
        c = dict(x=S.pick_signal(rng, n), nf=nf, w=None, lab=rng.choice([None, None, "unit", "offset"]))
        if rng.random() < 0.75:
            c["w"] = S.pick_window(rng, n, nf or n, kinds=("hamming", "rect", "gauss", "asym", "signed", "hann", "complex"))
        elif rng.random() < 0.4:
            c["w"] = dict(kind="rect", L=2 * max(n, nf or n) + 1)
        out.append(c)
    for n, nf in S.long_sizes(rng):
        out.append(dict(x=S.pick_signal(rng, n), nf=nf, lab=None, long=1, w=rng.choice([None, dict(kind=rng.choice(["hamming", "gauss", "asym"]), L=2 * rng.randint(1, 40) + 1, seed=rng.randint(0, 999))]) if nf else None))
    return out


def check(mon, c):
    from tftb.processing import PseudoWignerVilleDistribution as W, WignerVilleDistribution as V
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    kw = {} if c["nf"] is None else dict(n_fbins=nf)
    if c.get("long"):
        mon.saw("long record")
    ts = np.arange(n)
    if c["lab"]:
        ts = kw["timestamps"] = {"unit": np.linspace(0, 1, n), "offset": np.arange(n) * 0.5 + 3.0}[c["lab"]]
    kv = dict(kw)
    if c["w"] is None:
        mon.saw("default window")
        h = S.hamming(S.default_odd(nf))
    else:
        h = kw["fwindow"] = S.window(c["w"])
        if c["w"]["kind"] in ("asym", "signed", "complex"):
            mon.saw("asymmetric")
    mon.saw("n_fbins < n" if nf < n else "n_fbins > n" if nf > n else "n_fbins = n")
    lh = (len(h) - 1) // 2
    if nf % 2 == 0 and nf // 2 <= min((n - 1) // 2, lh):
        mon.saw("half lag used")
    tfr, t, f = mon.call(lambda: W(x, **kw).run(), _name="PseudoWignerVilleDistribution.run")
    mon.ok(tfr.dtype.kind == "f", "pwvd:real", "dtype %s" % tfr.dtype)
    want = ref.wvd(x, nf, h)
    mx = np.abs(x).max() ** 2 * np.abs(h).max()
    mon.close(tfr, want, "pwvd", rtol=1e-9, scale=max(np.abs(want).max(), mx))
    mon.close(t, ts, "pwvd:timestamps", rtol=1e-12)
    mon.close(f, np.arange(nf) / (2.0 * nf), "pwvd:frequencies", rtol=1e-12, scale=1.0)
    mon.close(tfr.mean(0), np.real(h[lh]) * np.abs(x) ** 2, "pwvd:column means", rtol=1e-9, scale=mx)
    if c["w"] and c["w"]["kind"] == "rect" and not c["w"].get("gain") and lh >= nf // 2:
        mon.saw("equals WVD")
        v = mon.call(lambda: V(x, **kv).run(), _name="WignerVilleDistribution.run")[0]
        mon.close(tfr, v, "pwvd:flat window is wvd", rtol=1e-10, scale=max(np.abs(v).max(), mx))
