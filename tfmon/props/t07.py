import numpy as np
from tfmon import signals as S, ref
from tfmon.props import _api as A
ID = "T07"
RULE = "Every representation class x length x n_fbins (or voices and band) x timestamps (also float labels where the class treats them as labels) x window; shapes, labels, identity with the object's own attributes; tones at a drawn label and impulses at a drawn sample judged by the position of the peak."
REQUIRED = {"tone": 300, "impulse": 300, "axes": 600, "default axes": 60, "subset instants": 100, "float timestamps": 40, "negative label": 60, "odd n_fbins": 200, "even n_fbins": 200, "affine": 60, "affine tone": 25}
REQUIRED.update({n: 20 for n in A.COHEN + A.AFFINE})
WV = ("WignerVilleDistribution", "PseudoWignerVilleDistribution")
WINDOWED = ("ShortTimeFourierTransform", "Spectrogram", "PseudoPageRepresentation", "PseudoMargenauHillDistribution", "PseudoWignerVilleDistribution")


def cases(tier, rng):
    out = []
    for i in range(60 if tier == "quick" else 170):
        for name in A.COHEN:
            for what in ("tone", "impulse", "axes"):
                n = rng.randint(9, 60) if what != "axes" else S.pick_len(rng, 1, 90)
                if i % 17 == 8:
                    n = rng.randint(120, 300)
                nf = rng.choice([None, n, n + rng.randint(1, 20), rng.randint(5, n) if n > 5 and name != "MargenauHillDistribution" else n])
                c = dict(name=name, what=what, n=n, nf=nf, seed=rng.randint(0, 10 ** 6), t=None)
                if name not in A.ALL_SAMPLES:
                    c["t"] = S.pick_instants(rng, n)
                elif rng.random() < 0.3:
                    c["float"] = 1
                if name in WINDOWED and rng.random() < 0.6:
                    c["w"] = dict(kind=rng.choice(["hamming", "gauss", "hann"]), L=2 * rng.randint(1, max(1, min(n, nf or n) // 4)) + 1)
                out.append(c)
    for i in range(20 if tier == "quick" else 60):
        for name in A.AFFINE:
            out.append(dict(name=name, what="affine", seed=rng.randint(0, 10 ** 6)))
    return out


def affine(mon, c):
    r = S._rs(c["seed"])
    cls = A.klass(c["name"])
    n = int(r.choice([48, 63, 64])) if r.rand() < 0.93 else int(r.randint(100, 260))
    lo, hi, nv = r.uniform(0.05, 0.1), r.uniform(0.3, 0.45), int(r.choice([24, 32, 48]))
    k = np.arange(n)
    tone = r.rand() < 0.6
    f0 = lo * (hi / lo) ** r.uniform(0.3, 0.7)
    env = np.exp(-np.pi * ((k - n / 2.0) / (n * 0.5)) ** 2)
    x = env * np.cos(2 * np.pi * f0 * k + r.uniform(0, 6))
    kw = dict(fmin=lo, fmax=hi, n_voices=nv)
    t = k
    if r.rand() < 0.5:
        t = kw["timestamps"] = np.arange(r.randint(4), n, r.randint(1, 4))
    if c["name"] == "Scalogram":
        kw["waveparams"] = float(r.choice([6.0, 8.0]))
    o = mon.call(cls, x, **kw, _name=c["name"])
    res = mon.call(o.run, _name=c["name"] + ".run")
    tfr, tt, f = res[0], res[1], res[2]
    mon.saw("affine")
    mon.shape(tfr, (nv, len(t)), "affine matrix")
    mon.close(tt, t, "affine timestamps")
    mon.close(np.ravel(f), lo * (hi / lo) ** (np.arange(nv) / (nv - 1.0)), "affine voices", rtol=1e-9)
    mon.close(o.tfr, tfr, "affine object matrix")
    mon.close(o.ts, t, "affine object timestamps")
    mon.close(np.ravel(o.freqs), np.ravel(f), "affine object frequencies", rtol=1e-9)
    if tone:
        mon.saw("affine tone")
        f = np.ravel(f)
        fp = f[np.argmax(np.abs(tfr).sum(1))]
        mon.ok(abs(fp - f0) < 0.12 * f0 + 2.0 / n / 2, "affine tone", lambda: "tone at %.3f peaks at voice %.3f" % (f0, fp))


def check(mon, c):
    name = c["name"]
    mon.saw(name)
    if c["what"] == "affine":
        return affine(mon, c)
    cls = A.klass(name)
    n = c["n"]
    nf = n if c["nf"] is None else c["nf"]
    r = S._rs(c["seed"])
    mon.saw("odd n_fbins" if nf % 2 else "even n_fbins")
    kw = {}
    if c["nf"] is not None:
        kw["n_fbins"] = nf
    t = np.arange(n)
    labels = t
    if c["t"] is not None:
        t = labels = kw["timestamps"] = S.instants(c["t"])
        mon.saw("subset instants")
    elif c.get("float"):
        labels = kw["timestamps"] = 0.1 + np.arange(n) / 7.0
        mon.saw("float timestamps")
    if not kw:
        mon.saw("default axes")
    w = None
    if c.get("w"):
        w = kw["fwindow"] = S.window(c["w"])
    freqs = np.arange(nf) / (2.0 * nf) if name in WV else ref.fftfreq_two_sided(nf)
    what = c["what"]
    k = np.arange(n)
    if what == "tone":
        row = r.randint(nf)
        x = np.exp(2j * np.pi * freqs[row] * k + 1j * r.uniform(0, 6)) * r.choice([1e-3, 1.0, 50.0])
        if freqs[row] < 0:
            mon.saw("negative label")
    elif what == "impulse":
        x = np.zeros(n, complex)
        t0 = int(t[r.randint(len(t))])
        x[t0] = r.choice([1.0, -2.0, 1j])
    else:
        x = r.randn(n) + 1j * r.randn(n)
    o = mon.call(cls, x, **kw, _name=name)
    tfr, tt, ff = mon.call(o.run, _name=name + ".run")
    mon.saw("axes")
    mon.shape(tfr, (nf, len(t)), name)
    mon.close(tt, labels, name + ":timestamps", rtol=1e-14)
    mon.close(ff, freqs, name + ":frequencies", rtol=1e-12, scale=1)
    mon.ok(o.tfr is tfr or np.array_equal(o.tfr, tfr), name + ":object matrix", "obj.tfr is not the returned matrix")
    mon.close(o.ts, labels, name + ":object timestamps", rtol=1e-14)
    mon.close(o.freqs, freqs, name + ":object frequencies", rtol=1e-12, scale=1)
    lh = (len(w) - 1) // 2 if w is not None else (S.default_odd(nf) - 1) // 2
    if what == "tone":
        M = np.abs(tfr) if name == "ShortTimeFourierTransform" else tfr
        for j in sorted(set(int(v) for v in r.randint(0, len(t), 4))):
            ti = int(t[j])
            # lags available on the shorter side
            if name in ("MargenauHillDistribution",):
                lags = n - 1
            elif name == "PageRepresentation":
                lags = min(ti, nf - 1)
            elif name == "PseudoPageRepresentation":
                lags = min(lh, ti)
            elif name == "WignerVilleDistribution":
                lags = min(ti, n - 1 - ti, (nf - 1) // 2)
            else:
                lags = min(lh, ti, n - 1 - ti, (nf - 1) // 2)
            if lags < 1 or (w is not None and c["w"]["kind"] == "hann" and lags < 2):
                continue
            mon.saw("tone")
            col = M[:, j]
            mon.ok(col[row] >= col.max() * (1 - 1e-9) and col[row] > 0, name + ":tone row", lambda: "tone at %g (row %d) peaks at row %d in column %d" % (freqs[row], row, int(np.argmax(col)), j))
    if what == "impulse":
        prof = np.abs(tfr).max(0)
        if name == "Spectrogram" and not (2 * lh <= t0 <= n - 1 - 2 * lh):
            return
        mon.saw("impulse")
        j = np.flatnonzero(t == t0)
        mon.ok(prof.max() > 0 and np.all(prof[j] >= prof.max() * (1 - 1e-9)), name + ":impulse column", lambda: "impulse at %d peaks in column %d (instant %d)" % (t0, int(np.argmax(prof)), int(t[np.argmax(prof)])))
