import numpy as np
from tfmon import signals as S, ref
from tfmon.props import _re
ID = "T10"
RULE = "Six reassignment methods x signal x length x bin count x symmetric windows x regular instants; every cell with a finite target is compared with the centroid computed from the definition (cells within rounding noise of a half are skipped and counted); tones and impulses must collapse onto their row/column. Some records are longer than any a test uses."
REQUIRED = dict([("method " + m, 50) for m in _re.METHODS], **{"cells judged": 20000, "tone": 60, "impulse": 30, "half lag in reach": 100, "long record": 6})
ASSUMPTIONS = ["Cells whose offset lies within rounding noise of a half-integer may go either way."]


def cases(tier, rng):
    out = []
    for m in _re.METHODS:       # a long record, few bins
        n, nf = rng.randint(1001, 1500), 2 * rng.randint(4, 10) + rng.choice([0, 0, 1]) * (m != "morlet")
        if m in ("spwv", "morlet"):
            n = rng.choice([rng.randint(520, 600), rng.randint(1001, 1100)])
        c = dict(m=m, nf=nf, x=S.pick_signal(rng, n), t=None, long=1)
        if m != "morlet":
            c["h"] = dict(kind=rng.choice(["hamming", "rect", "gauss"]), L=2 * rng.randint(1, nf // 2) + 1, seed=0)
        if m == "spwv":
            c["g"] = dict(kind="hamming", L=2 * rng.randint(1, 6) + 1)
        out.append(c)
    for i in range(80 if tier == "quick" else 450):
        for m in _re.METHODS:
            out.append(_re.draw(rng, m, i, big=(i % 40 == 39)))
    for i in range(20 if tier == "quick" else 60):       # the half lag: few bins, a window reaching over them
        for m in ("pwv", "spwv", "pmh", "ppage"):
            nf = rng.choice([4, 6, 8, 10, 12, 14, 16])
            c = dict(m=m, nf=nf, t=None, h=dict(kind=rng.choice(["hamming", "rect", "gauss", "hann"]), L=nf + 1 + 2 * rng.randint(0, 6)), half=1,
                     x=S.pick_signal(rng, nf + rng.randint(2, 20), kinds=["cnoise", "cnoise", "rnoise"]))
            if m == "spwv":
                c["g"] = dict(kind="hamming", L=2 * rng.randint(0, 3) + 1)
            out.append(c)
    for i in range(30 if tier == "quick" else 150):
        n = rng.randint(32, 64)
        nf = rng.choice([32, 48, 64, 33, 65])
        for m in ("spectrogram", "spwv", "pwv", "pmh", "ppage"):
            L = 2 * rng.randint(4, 8) + 1
            c = dict(m=m, nf=nf, t=None, h=dict(kind=rng.choice(["hamming", "gauss"]), L=L), k=rng.randint(0, nf - 1), tone=1, n=n)
            if m == "spwv":
                c["g"] = dict(kind="hamming", L=5)
            out.append(c)
        for m in ("spectrogram", "spwv"):
            c = dict(m=m, nf=nf, t=None, h=dict(kind=rng.choice(["hamming", "gauss", "rect"]), L=2 * rng.randint(3, 8) + 1), at=rng.randint(0, n - 1), impulse=1, n=n)
            if m == "spwv":
                c["g"] = dict(kind="hamming", L=2 * rng.randint(1, 4) + 1)
            out.append(c)
    return out


def tone(mon, c):
    m, nf, n = c["m"], c["nf"], c["n"]
    mon.saw("tone")
    half = m in ("pwv", "spwv")
    f = c["k"] / (2.0 * nf if half else float(nf))
    x = np.exp(2j * np.pi * f * np.arange(n))
    h, hu, g, gu = _re.windows(c, n, nf)
    tfr, rtfr, hat = _re.call(mon, c, x, None, h, g)
    mar = 16 if m != "spwv" else 14
    P = np.abs(np.asarray(rtfr)[:, mar:n - mar]).sum(1) if n > 2 * mar else np.abs(np.asarray(rtfr)[:, n // 2:n // 2 + 1]).sum(1)
    mon.ok(np.argmax(P) == c["k"], m + ":tone row", lambda: "peak row %d, tone at %d" % (np.argmax(P), c["k"]))
    Q = np.abs(np.asarray(tfr)[:, mar:n - mar] if n > 2 * mar else np.asarray(tfr)[:, n // 2:n // 2 + 1]).sum(1)
    near = [(c["k"] + d) % nf for d in (-1, 0, 1)]
    a, b = P[near].sum() / P.sum(), Q[near].sum() / Q.sum()
    mon.ok(a >= b - 1e-9, m + ":tone concentration", lambda: "%g reassigned vs %g plain" % (a, b))
    if m == "spectrogram":
        mon.worst["1-tone share"] = max(mon.worst.get("1-tone share", 0), 1 - a)
        mon.ok(a > 0.9, m + ":tone share", lambda: "%g" % a)


def impulse(mon, c):
    m, nf, n = c["m"], c["nf"], c["n"]
    mon.saw("impulse")
    x = np.zeros(n, complex)
    x[c["at"]] = 2.0 - 1j
    h, hu, g, gu = _re.windows(c, n, nf)
    tfr, rtfr, hat = _re.call(mon, c, x, None, h, g)
    P = np.abs(np.asarray(rtfr)).sum(0)
    mon.ok(P[c["at"]] >= (1 - 1e-4) * P.sum(), m + ":impulse column", lambda: "share %g" % (P[c["at"]] / P.sum()))


def check(mon, c):
    m = c["m"]
    if c.get("tone"):
        return tone(mon, c)
    if c.get("impulse"):
        return impulse(mon, c)
    x = S.make(c["x"])
    n = len(x)
    nf = n if c["nf"] is None else c["nf"]
    t = S.instants(c["t"])
    h, hu, g, gu = _re.windows(c, n, nf)
    tfr, rtfr, hat = _re.call(mon, c, x, t, h, g)
    mon.saw("method " + m)
    if c.get("long"):
        mon.saw("long record")
    if c.get("half"):
        mon.saw("half lag in reach")
    tu = np.arange(n) if t is None else t
    dt = float(tu[1] - tu[0]) if len(tu) > 1 else 1.0
    plain, dr, dc, noise = ref.reassignment(m, x, nf, tu, hu, gu, c.get("tbp") or 0.25, dt)
    hat = np.asarray(hat)
    mon.shape(hat, plain.shape, m)
    fin = np.isfinite(hat.real) & np.isfinite(np.imag(hat))
    pw = max(np.mean(np.abs(x) ** 2), np.mean(np.abs(x[tu.min():tu.max() + 1]) ** 2))
    loud = np.abs(plain) > 1e-5 * pw
    mon.ok(np.all(fin[loud]), m + ":loud cells are targeted")
    use = fin & loud & (noise < 1e-3)
    J, I = np.indices(plain.shape)
    tol = 1e-9 + noise + 1e-12 * np.abs(dr)
    sure = use & (np.abs(dr - np.floor(dr) - 0.5) > tol) & (np.abs(dr) < 1e9)
    got = hat.real[sure]
    want = (J[sure] + np.round(dr[sure])) % nf
    mon.saw("cells judged", int(sure.sum()))
    mon.saw("cells near a half (skipped)", int((use & ~sure).sum()))
    mon.ok(np.array_equal(got, want), m + ":frequency target", lambda: "%d of %d differ, e.g. cell %s: got %r want %r (offset %r)" % (
        (got != want).sum(), len(got), np.argwhere(sure)[got != want][0], got[got != want][0], want[got != want][0], dr[sure][got != want][0]))
    if dc is not None:
        tol = 1e-9 + noise + 1e-12 * np.abs(dc)
        sure = use & (np.abs(dc - np.floor(dc) - 0.5) > tol) & (np.abs(dc) < 1e9)
        got = np.imag(hat)[sure]
        want = np.clip(I[sure] + np.round(dc[sure]), 0, len(tu) - 1)
        mon.saw("cells judged", int(sure.sum()))
        mon.ok(np.array_equal(got, want), m + ":time target", lambda: "%d of %d differ, e.g. cell %s: got %r want %r (offset %r)" % (
            (got != want).sum(), len(got), np.argwhere(sure)[got != want][0], got[got != want][0], want[got != want][0], dc[sure][got != want][0]))
