import numpy as np
from tfmon import signals as S
ID = "P05"
RULE = "1-4 laws x length 1..~150 x n_fbins x instants (default, subset, unsorted) x NaN gaps x boundary frequencies 0 and 0.5 and crossing laws; the whole matrix compared (cells on a rounding tie may be either neighbour)."
REQUIRED = {"several laws": 200, "undefined values": 200, "at 0.5": 100, "at 0": 100, "subset instants": 150, "given n_fbins": 200, "column without law": 100, "crossing": 50}


def cases(tier, rng):
    out = []
    for i in range(900 if tier == "quick" else 3000):
        n = S.pick_len(rng, 1, 150) if i % 300 != 150 else rng.randint(1000, 3000)
        t = S.pick_instants(rng, n)
        out.append(dict(n=n, laws=rng.choice([1, 1, 2, 3, 4]), nf=rng.choice([None, 1, 2, 3, n, n + 1, rng.randint(2, 200), 128]), t=t,
                        nan=rng.choice([0, 0.2, 0.7, 1]), seed=rng.randint(0, 10 ** 6)))
    return out


def check(mon, c):
    from tftb.processing import ideal_tfr
    n = c["n"]
    r = S._rs(c["seed"])
    L = []
    for i in range(c["laws"]):
        kind = r.randint(5)
        if kind == 0:
            f = np.full(n, r.choice([0.0, 0.5, 0.25, r.uniform(0, 0.5)]))
        elif kind == 1:
            f = np.linspace(0, 0.5, n) if r.rand() < 0.5 else np.linspace(0.5, 0, n)
        elif kind == 2:
            f = np.linspace(r.uniform(0, 0.5), r.uniform(0, 0.5), n)
        elif kind == 3:
            f = 0.25 + 0.25 * np.sin(np.arange(n) * r.uniform(0.05, 1))
        else:
            f = r.uniform(0, 0.5, n)
        f = np.clip(f, 0, 0.5)
        if c["nan"] and (i == 0 or r.rand() < 0.5):
            f[r.rand(n) < c["nan"]] = np.nan
        L.append(f)
    laws = np.array(L)
    if len(L) > 1:
        mon.saw("several laws")
    if np.isnan(laws).any():
        mon.saw("undefined values")
    kw = {}
    t = np.arange(n)
    if c["t"] is not None:
        mon.saw("subset instants")
        t = kw["timestamps"] = S.instants(c["t"])
    nf = n
    if c["nf"] is not None:
        mon.saw("given n_fbins")
        nf = kw["n_fbins"] = c["nf"]
    keep = laws.copy()
    tfr, tt, ff = mon.call(ideal_tfr, laws, **kw)
    mon.close(tt, t, "timestamps")
    mon.close(ff, np.arange(nf) / (2.0 * nf), "frequencies", rtol=1e-12)
    mon.shape(tfr, (nf, len(t)), "ideal")
    must, may = np.zeros((nf, len(t)), bool), np.zeros((nf, len(t)), bool)
    for j, ti in enumerate(t):
        seen = set()
        for f in keep[:, ti]:
            if np.isnan(f):
                continue
            v = 2 * (nf - 1) * f
            lo, hi = int(np.floor(v + 0.5 - 1e-9)), int(np.floor(v + 0.5 + 1e-9))
            lo, hi = min(lo, nf - 1), min(hi, nf - 1)
            may[lo, j] = may[hi, j] = True
            if lo == hi:
                must[lo, j] = True
            if f == 0.5:
                mon.saw("at 0.5")
            if f == 0:
                mon.saw("at 0")
            if lo in seen:
                mon.saw("crossing")
            seen.add(lo)
        if not seen:
            mon.saw("column without law")
    mon.ok(np.all(tfr[must] == 1), "missing", lambda: "%d drawn cells missing" % np.sum(tfr[must] != 1))
    mon.ok(np.all(tfr[~may] == 0), "extra", lambda: "%d cells drawn off the laws" % np.sum(tfr[~may] != 0))
    mon.ok(np.all((tfr == 0) | (tfr == 1)), "values", "other than 0 and 1")
