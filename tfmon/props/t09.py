import numpy as np
from tfmon import signals as S, ref
from tfmon.props import _re
ID = "T09"
RULE = "Six reassignment methods x signal x length x bin count x windows (also asymmetric, longer than the bins) x instants; the reassigned matrix is recomputed from the returned plain matrix and target map cell by cell, targets checked for range, totals for conservation, the plain matrix against its definition. Some records are longer than any a test uses."
REQUIRED = dict([("method " + m, 60) for m in _re.METHODS], **{"subset instants": 80, "cells without target": 20, "cells moved": 200, "default window": 60, "morlet odd n_fbins": 10, "single instant": 10, "short signal": 60, "long record": 6})


def cases(tier, rng):
    out = []
    for m in _re.METHODS:       # a long record, few bins
        n, nf = rng.randint(1001, 1500), 2 * rng.randint(4, 10) + rng.choice([0, 0, 1]) * (m != "morlet")
        if m in ("spwv", "morlet"):
            n = rng.choice([rng.randint(520, 600), rng.randint(1001, 1100)])
        c = dict(m=m, nf=nf, x=S.pick_signal(rng, n), t=None, long=1)
        if m != "morlet":
            c["h"] = dict(kind=rng.choice(["hamming", "rect", "gauss"]), L=2 * rng.randint(1, nf // 2) + 1, seed=0)
        if m == "spwv":
            c["g"] = dict(kind="hamming", L=2 * rng.randint(1, 6) + 1)
        out.append(c)
    for i in range(80 if tier == "quick" else 500):
        for m in _re.METHODS:
            out.append(_re.draw(rng, m, i, symmetric=False, big=(i % 40 == 39)))
    return out


def check(mon, c):
    m = c["m"]
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    t = S.instants(c["t"])
    h, hu, g, gu = _re.windows(c, n, nf)
    mon.saw("method " + m)
    if c.get("long"):
        mon.saw("long record")
    if c["t"] is not None:
        mon.saw("subset instants")
        if len(t) == 1:
            mon.saw("single instant")
    if n < 12:
        mon.saw("short signal")
    if h is None and m != "morlet":
        mon.saw("default window")
    tfr, rtfr, hat = _re.call(mon, c, x, t, h, g)
    tu = np.arange(n) if t is None else t
    nt = len(tu)
    for a, nm in ((tfr, "plain"), (rtfr, "reassigned"), (hat, "targets")):
        mon.shape(a, (nf, nt), m + ":" + nm)
    plain = np.asarray(tfr)
    mon.ok(np.abs(np.imag(plain)).max() <= 1e-12 * np.abs(plain).max(), m + ":plain real")
    plain = plain.real
    mx = np.abs(plain).max()
    mon.finite(plain, m + ":plain")
    J, I = np.indices((nf, nt))
    hat = np.asarray(hat)
    fin = np.isfinite(hat.real) & np.isfinite(np.imag(hat))
    row = np.where(fin, hat.real, J)
    col = np.where(fin, np.imag(hat), I) if m not in ref.FREQ_ONLY else I.astype(float)
    mon.ok(np.all(row == np.round(row)) and np.all(col == np.round(col)), m + ":targets are cells")
    row, col = row.astype(int), col.astype(int)
    mon.ok(row.min() >= 0 and row.max() < nf and col.min() >= 0 and col.max() < nt, m + ":targets inside", lambda: "rows %d..%d of %d, columns %d..%d of %d" % (row.min(), row.max(), nf, col.min(), col.max(), nt))
    acc = np.zeros((nf, nt))
    np.add.at(acc, (row, col), plain)
    mon.close(rtfr, acc, m + ":sum of moved values", rtol=1e-9, scale=max(mx, np.abs(acc).max()))
    tot = np.abs(plain).sum()
    mon.close(np.sum(rtfr), plain.sum(), m + ":total", scale=tot, rtol=1e-9)
    if m in ref.FREQ_ONLY:
        mon.close(np.asarray(rtfr).sum(0), plain.sum(0), m + ":column totals", scale=np.abs(plain).sum(0).max(), rtol=1e-9)
    pw = max(np.mean(np.abs(x) ** 2), np.mean(np.abs(x[tu.min():tu.max() + 1]) ** 2))
    if (~fin).any():
        mon.saw("cells without target")
        mon.ok(np.abs(plain[~fin]).max() <= 1e-5 * pw, m + ":untargeted cells negligible", lambda: "%g vs power %g" % (np.abs(plain[~fin]).max(), pw))
    if np.any((row != J) | (col != I)):
        mon.saw("cells moved")
    # the plain matrix is the one its definition gives
    want = ref.reassignment(m, x, nf, tu, hu, gu, c.get("tbp") or 0.25)[0]
    if m == "morlet" and nf % 2:
        mon.saw("morlet odd n_fbins")
    mon.close(plain, want, m + ":plain", rtol=1e-8, scale=max(np.abs(want).max(), pw))
